#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILT={}
def c(id,technique,note,level="model_checking"):
    BUILT[id]=(technique,note,level)
EX="bounded-exhaustive exploration of the real code against an executable reference model"
G="Every token sequence over the alphabets and depths listed in the evidence (pruned only where the reference grammar proves no extension is accepted) is run through the real code. "
c("C01",EX,G+"Oracle: the input itself, normalised by an independent speller. Holds within the bounds; longer texts are extrapolated.")
c("C02",EX,G+"Oracle: a frozen reference grammar read by an independent packrat matcher; verdict and tree are compared for each text. Trusts the reference grammar, taken from the published toaq.peg and reviewed.")
c("C03",EX,"Every byte string over the listed byte/rune/word alphabets up to the depths in the evidence, in a child process with crash and hang detection.")
c("C04",EX,G+"Oracle: positions recomputed from the words themselves.")
c("C05",EX,"All spellings (tone as digit, combining mark, precomposed letter, case, dotless i) of all syllables and of the words of every collected text; the trees must be equal.")
c("C06",EX,G+"Oracle: the reference matcher's furthest-failure position; line and column recomputed from the text.")
c("C07","exhaustive exploration of call histories on the real parser","All call sequences up to the depth in the evidence over the listed texts, with in-place damage to every returned tree, compared with a fresh parser.")
c("C08",EX,G+"Oracle: independent bracket writer on the tree; output is also read back.")
c("C09",EX,G+"Oracle: reflective walk of the tree; every choice of node at which to stop is explored.")
c("C10",EX,"All pairs of nodes of the same and of neighbouring trees, plus every single-field change to a tree. Oracle: serialised structure.")
c("C11",EX,"All runes and all syllables in all spellings, every tone. Oracle: an independent table.")
c("C12",EX,G+"Round trip compared by structure.")
c("C26","bounded-exhaustive comparison of the published grammar file (executed) with the real parser","Every explored text is matched by /repo's toaq.peg, executed by an independent PEG engine, and by the parser.")
L="Every sequence of phrases over the alphabets and depths listed in the evidence that the grammar accepts is parsed and interpreted by the real code. "
c("C13",EX,L+"Oracle: a reference interpreter; also all texts of the grammar spaces. Panics and hangs are caught in a child process.")
c("C14",EX,L+"Oracle: the formulas of the same tree with each connection in turn replaced by its left and by its right side; the formula must be their combination.")
c("C15",EX,L+"Monitor on the formula's binding structure.")
c("C16",EX,L+"Oracle: an independent reference interpreter written in continuation-passing style; formulas are compared up to renaming.")
c("C17",EX,L+"Also every formula tree up to the size in the evidence, built directly. Oracle: a reader of the printed form.")
c("C18",EX,L+"Oracle: normal forms of the reference interpreter's unsimplified formula and of the code's formula.")
c("C19","exhaustive exploration of histories of calls on the real code",L+"Every ordered pair of moves (interpret, print, clear, visit, interpret others) on each tree; the state, i.e. the dump of tree and formula, must be the initial one after each; other spellings, cases, spacings and added fragments are compared.")
c("C20","exhaustive exploration of request sessions and fault points of the real server","Every method, path, body of the list and session to the depth in the evidence, every truncation point of each body, and interpreter failures injected through a build overlay, against a server process built from the working tree. Oracle: the library called directly.")
c("C21","stateless exploration of the schedules of the real code under a controlled scheduler","An instrumented copy of the working tree (build overlay) yields at statements that can touch shared state and at calls; every schedule of two callers up to the preemption bound in the evidence is run; the results must equal those alone. Races are looked for with the happens-before detector in all pairings of calls; the server is run under every interleaving of two requests' bytes to a bound.")
c("C22","exhaustive exploration of event histories and schedules of the real program","The bot is built from the working tree against a scripted chat service (build overlay). Every event sequence to the bound, all interleavings of two channels and statement-level preemptions are run; the sent messages must be those of a reference model.")
c("C23","exhaustive exploration of fault sequences on the real code","Every shape of response and every truncation point of it, served by a scripted local service; oracle: a reference reader.")
c("C24","exhaustive enumeration","Every entry of the built-in dictionary.")
c("C25","bounded-exhaustive comparison of the real programs with the library","Every text of the listed spaces is given to the program, the server and the bot, built from the working tree; verdict, braces and formula must equal the library's.")
c("C27","exhaustive exploration of inputs and fault sequences on the real program","Every sequence of the listed pieces to the depth in the evidence as the fields of entries, every response shape and every truncation point, served over TLS by a scripted local service; the file written is compiled with the package and its map compared with that of a reference reader.")
c("C28","bounded-exhaustive exploration of repetitions on the real code","Every sequence of phrases to the depth in the evidence, repeated in every listed context. Cost is counted (objects allocated, processor time with a margin over 100), and must not grow faster than the bound; repetitions beyond 64 are extrapolated.")
c("C29",EX,L+"Every node is visited and cleared. Oracle: a walk of the formula by reflection.")
c("C30",EX,L+"Oracle: the marks that the reference interpreter puts on variables and quantifiers; the words of the sources.")
props=[json.loads(l) for l in open(os.path.join(here,"properties.jsonl"))]
NA={}
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in BUILT:
        t,n,l=BUILT[i]
        checks.append({"property":i,"quick_cmd":"bash run.sh "+i,"thorough_cmd":"VERIF_TIER=thorough bash run.sh "+i,"evidence_file":"evidence/%s.json"%i,"technique":t,"level":l,"level_note":n})
    else:
        na.append({"property":i,"reason":NA.get(i,"the check is still being built")})
json.dump({"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks are committed in /repo: the checks use the exported API, process boundaries and build overlays generated from the working tree."},open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
open(os.path.join(here,"MANIFEST.json"),"a").write("\n")
