import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":observe,"hook_needed":hook}})

p("C01","Parsing loses, invents and reorders nothing",
  "For every accepted text, writing out the words and spacing of the syntax tree in traversal order reproduces the input exactly, up to the documented spelling normalisation (dotless i, tone marks as diacritics). Likewise the leaves of the parse tree concatenate to the input byte for byte, and every inner node's text is the concatenation of its children.",
  ["inputs"],"every accepted Toaq text, including free modifiers (spaces, parentheticals, vocatives, incidentals, interjections) in every position",
  "Tests strip all spacing before comparing and look at about a hundred texts; where a modifier is re-attached is never observed.",
  ["ast/ast.go","ast/nodes.go","ast/toaq.go","ast/visit.go"],
  [("mod* methods attach trailing modifiers to the last word","ast/ast.go"),("node constructors called by grammar actions","ast/nodes.go")],
  ["ast.Parser.Text + ast.Visit","ast.Parser.Tree"])
p("C02","The parser accepts exactly the Toaq grammar and builds its structure",
  "A text is accepted exactly when the Toaq grammar derives it (ordered choice, whole input), and the syntax tree has the structure the grammar assigns: the same constructs, connectives, terminators, nesting and order of terms. This holds for every construct in every position the grammar allows it. The single-word entry point reads, at any offset, exactly the word that the grammar has there, with its trailing space.",
  ["inputs"],"all word sequences over the word classes and tones, and all character sequences at word level",
  "The tests parse about 140 hand-picked sentences; the grammar has some 400 rules whose interactions (ordered choice, lookahead, optional terminators) depend on every combination.",
  ["ast/toaq.go","ast/toaq.peggy","ast/nodes.go","ast/ast.go"],
  [("generated packrat parser","ast/toaq.go"),("tree constructors","ast/nodes.go")],
  ["ast.Parser.Text","ast.Parser.Word"])
p("C03","Any byte string yields a tree or an error, never a crash or a partial read",
  "For every byte string, including invalid UTF-8 and any mixture of letters, digits, tone marks and punctuation, parsing terminates with either a syntax tree or a parse error and never panics. A tree is returned only if the whole input was consumed, and the tree and parse-tree entry points agree on the verdict.",
  ["inputs"],"every byte string",
  "Tests feed well-formed Toaq with one tone notation and a single malformed text.",
  ["ast/parser.go","ast/nodes.go","ast/toaq.go"],
  [("Parser.Text/Tree/Word","ast/parser.go"),("addTone","ast/nodes.go"),("EOF and any-character rules","ast/toaq.go")],
  ["ast.Parser.Text","ast.Parser.Tree","ast.Parser.Word"])
p("C04","Every node reports the span of source text it came from",
  "Every node of the tree of an accepted text has a start and an end, 0 <= start <= end <= length of the text, asking for them never fails, and the text between a word's start and end is the spelling of exactly that word. A node starts where its first word starts and ends where its last own word ends, and siblings do not overlap.",
  ["inputs"],"every node of every accepted text",
  "The parser tests discard all offsets before comparing, so no offset is ever checked.",
  ["ast/ast.go","ast/nodes.go","ast/toaq.go"],
  [("Start/End methods","ast/ast.go"),("start,end of grammar actions","ast/toaq.go")],
  ["Node.Start","Node.End"])
p("C05","All spellings of a word are the same word",
  "Tone may be written with a precomposed letter, a combining mark, an ASCII mark or a digit, right after the vowel or at the end of the syllable, and i with or without dot: all spellings of the same text are accepted alike and give equal syntax trees. Upper and lower case are accepted alike and the case of each letter is preserved.",
  ["inputs"],"every syllable x tone x spelling x case, alone, in compounds and in each grammatical position",
  "Tests use ASCII marks at syllable end and a few precomposed letters; the other notations are not exercised at all.",
  ["ast/toaq.go","ast/nodes.go","tone/tone.go"],
  [("vowel and tone rules","ast/toaq.go"),("addTone","ast/nodes.go"),("Diacritic table","tone/tone.go")],
  ["ast.Parser.Text","ast.Equal"])
p("C06","A rejected text is reported at the furthest point it could be read to",
  "For every rejected text the error's byte offset is the furthest position at which the grammar ran out of alternatives, it lies inside the text (or at its end), and the message begins with the file path that the parser was given and the line and column of that same position. Obtaining the message, the offset and the failure tree always terminates; no leaf of the failure tree lies beyond that offset and at least one lies at it.",
  ["inputs"],"every rejected text and every parser entry point (whole text, tree, single word at an offset)",
  "One test checks that one text is rejected; no test looks at an offset or message.",
  ["ast/parser.go","ast/toaq.go"],
  [("parse, byteOffset, parseError","ast/parser.go"),("Fail functions and error memo","ast/toaq.go")],
  ["ast.Error.ByteOffset","ast.Error.Error","ast.Error.Tree"])
p("C07","Results of a parser do not depend on what was asked before",
  "On one parser, any sequence of requests for the text, the tree, or the word at some offset, interleaved with arbitrary modification of trees already returned, gives each request the result a fresh parser would give. Trees returned by different calls share no state.",
  ["histories"],"all call histories on one parser up to a bound, with mutation of every returned tree",
  "Every test makes one call on a fresh parser.",
  ["ast/parser.go","ast/toaq.go"],
  [("memo tables reset after each call","ast/parser.go")],
  ["ast.Parser.Text","ast.Parser.Tree","ast.Parser.Word"],
  [{"name":"node, fail, act, lastFail","meaning":"memo tables that survive between calls","where":"ast/toaq.go _Parser"}])
p("C08","The bracketed form shows the words in order and the tree's nesting",
  "For every syntax tree the bracketed form contains exactly the non-space words in order, separated by single spaces; brackets are balanced, their kinds cycle with depth, and each pair groups two or more items. The grouping is exactly the tree's: one pair per node that has at least two visible children.",
  ["inputs"],"every syntax tree of an accepted text and every subtree",
  "27 texts are checked; the rule must hold for every node kind under every parent and modifier combination.",
  ["ast/braces.go"],[("braces, braceKids","ast/braces.go")],["ast.BracesString"])
p("C09","Traversal visits every node exactly once, in textual order",
  "Visiting a tree calls the visitor once for each node in depth-first textual order and once with nil after the children of each node it descended into; if the visitor returns nil the node's children are skipped and nothing else is. The visitor returned for a node is the one used for its children.",
  ["inputs"],"every syntax tree and every set of pruned nodes",
  "Tests visit one small tree per node kind with a recording visitor; pruning and visitor replacement are not tested.",
  ["ast/visit.go"],[("Visit","ast/visit.go")],["ast.Visit"])
p("C10","Tree equality is exactly equality of content",
  "Two trees compare equal if and only if they have the same shape, node kinds, word texts and modifiers, ignoring positions; comparison is reflexive and symmetric and never panics, in particular for trees that differ in one optional part.",
  ["inputs"],"every pair of syntax trees",
  "Tests compare each sample with itself and with the other samples, so differences confined to one field or one modifier are not covered.",
  ["ast/equal.go"],[("Equal, wordEqual, copEqual","ast/equal.go")],["ast.Equal"])
p("C11","Tone conversions agree with one another on every word",
  "For every Toaq word: converting to ASCII puts the marker of each syllable's tone right after that syllable and changes nothing else; stripping removes exactly the markers (letters that Toaq does not have are kept); setting a tone changes the tone of the first syllable only, can be undone by setting the old tone, and reading the tone of the result gives the tone that was set.",
  ["inputs"],"every word of up to three syllables, all tones, cases and accepted letter forms",
  "About 35 samples; the tables have some 150 letter entries and the laws combine them.",
  ["tone/tone.go"],[("Diacritic tables, ToASCII, Strip, WithTone, Tone","tone/tone.go")],["tone.ToASCII","tone.Strip","tone.WithTone","tone.Tone"])
p("C12","Text rewritten in ASCII or normalised form parses to the same tree",
  "For every accepted text, the normalised text read off its tree parses again to an equal tree, and so does its ASCII form: converting a tree to ASCII, writing it out, and parsing that gives a tree equal to the original. Normalising or converting twice changes nothing.",
  ["inputs"],"every accepted text",
  "No test parses the output of the parser or of the ASCII conversion.",
  ["ast/ast.go","tone/tone.go","ast/toaq.go"],[("ToASCII","ast/ast.go"),("ToASCII","tone/tone.go")],["ast.ToASCII","ast.Parser.Text","ast.Equal"])
p("C13","Interpretation never fails except to name an unsupported construct",
  "Interpreting any accepted text returns a formula, or nothing when the text has no sentence, or stops with a message naming the unsupported connective (ro, re, roi outside arguments, sentence connectives other than ru); there is no other failure, and whether a text is supported depends only on the connectives it contains.",
  ["inputs"],"every accepted text",
  "44 texts are interpreted; whole families of constructs (content and relative connections, nested plurals, mixed terms) have empty TODO tests.",
  ["logic/interp.go","logic/simplify.go","logic/string.go"],[("interpreter type switches","logic/interp.go")],["logic.Interpret","logic.String"])
p("C14","Connected phrases expand to every alternative exactly once",
  "When arguments, terms, predicates, adverbs or prepositional phrases are joined by a connective, the formula is that connective applied to the reading with the left part and the reading with the right part, for every combination with other connected phrases of the sentence, earlier phrases outermost. No alternative is lost, duplicated or altered, and definite referents are introduced once.",
  ["inputs"],"every sentence with any number of connected phrases in any places, to the stated bounds",
  "Tests have at most one connected phrase per sentence.",
  ["logic/interp.go"],[("prenexStatement, withTerm0, predicationPreposition, distributePredication","logic/interp.go")],["logic.Interpret"])
p("C15","Every variable stays inside the scope of its own quantifier",
  "In the formula for any text, each occurrence of a variable lies within the restriction or scope of the quantifier that binds it, no variable is bound by two quantifiers on one path, and quantifiers with different referents have different numbers; occurrences without a quantifier are the explicitly unbound ones. Definite (ι) referents without dependencies are introduced at the outermost level.",
  ["inputs"],"every interpretable text",
  "Tests compare a few strings; lifting of ι and question quantifiers over other quantifiers is listed as TODO.",
  ["logic/interp.go","logic/simplify.go"],[("hasFreeVars, theScope, hiScope, liftedScope","logic/interp.go"),("sub, lambdaSub, sequenceVarNums","logic/simplify.go")],["logic.Interpret"])
p("C16","A sentence means what the rules of interpretation say",
  "For every interpretable text the formula is, up to renaming of variables, the one given by the rules: each quantifier word yields its quantifier, prenexes supply or withhold arguments, linked arguments fill their places, relative clauses restrict, hoa refers to the innermost binder, adverbs and prepositions predicate over the rest of the sentence, abstractions and quotes denote their contents.",
  ["inputs"],"every interpretable text, to the stated bounds",
  "44 examples; two thirds of the test functions for interpretation are empty TODOs.",
  ["logic/interp.go","logic/simplify.go"],[("interpreter","logic/interp.go"),("simplify","logic/simplify.go")],["logic.Interpret","logic.String"])
p("C17","The printed formula determines the formula",
  "The printed form of every formula can be read back to the same formula up to renaming of variables: distinct variables print differently, one variable always prints the same, and brackets make the grouping unambiguous up to the associativity of runs of one connective (quotations are assumed to contain no guillemets). The pretty form differs from the plain form only in the glyphs for variables and ι.",
  ["inputs"],"every formula obtainable from a text and every formula tree to the stated bounds",
  "Tests compare strings up to variable renaming, so clashes and ambiguity go unnoticed.",
  ["logic/string.go"],[("print, varRune, parens","logic/string.go")],["logic.String","logic.PrettyString"])
p("C18","Simplification preserves meaning",
  "The simplified formula is equivalent to the direct reading: definite descriptions by identity are replaced by what they equal everywhere they occur, abstractions applied to as many arguments as they take are replaced by their body with every argument in its place (where the result is well-formed: a variable that is used as a predicate can only be replaced by a variable), and nothing else changes. No argument disappears and no occurrence of a removed variable remains.",
  ["inputs"],"every interpretable text, to the stated bounds",
  "Only the final strings of a few texts are tested.",
  ["logic/simplify.go"],[("simplify, sub, lambdaSub, addHoa","logic/simplify.go")],["logic.Interpret"])
p("C19","Interpretation is a pure function of the text's content",
  "Interpreting a tree leaves the tree unchanged; interpreting it again, interpreting another parse of the text, or interpreting the same text in another spelling, letter case or spacing, or followed by fragments, gives the same formula. Clearing source references or printing a formula does not change the formula.",
  ["inputs","histories"],"every interpretable text, all orders of interpreting, printing and clearing up to a bound",
  "Every test interprets one fresh tree once.",
  ["logic/interp.go","logic/visit.go","logic/string.go"],[("termsCopy, withTerm0","logic/interp.go"),("NillOutAST","logic/visit.go")],["logic.Interpret","logic.NillOutAST","logic.String"])
p("C20","The web service answers every request completely and truthfully",
  "Every POST is answered with one JSON object holding either only an error located in the text or the braces, tree, text, parse and logic of the text, equal to what the library computes; text with no sentence is reported as a fragment and an interpreter failure as a bug, never one as the other. GET returns the page, or a file of the font folder and none from elsewhere, other methods are refused, and a body that could not be read in full is never parsed. A page that cannot be read is reported as a failure of the server. The service listens at the port it is given, or else at 8080.",
  ["inputs","fault_sequences"],"all request methods, bodies and truncation points of the body",
  "The server package has no tests.",
  ["server/server.go"],[("rootHandler, safeInterp","server/server.go")],["HTTP interface of the server"])
p("C21","Concurrent users do not affect one another",
  "Parsing, bracketing, interpreting and printing texts concurrently gives each caller exactly the result it would get alone, under every interleaving, and there is no data race between callers that use separate parsers and trees.",
  ["schedules"],"all interleavings of two callers, up to a preemption bound, and all orders of calls",
  "All tests are sequential.",
  ["ast/parser.go","ast/braces.go","logic/interp.go","logic/string.go","tone/tone.go","server/server.go"],
  [("all mutable state is per parser or per interpreter; package variables are only read","ast, logic, tone")],["library API","HTTP interface"])
p("C22","The chat bot answers each command once, in order, and survives every message",
  "For every sequence of chat events in every joined channel the bot sends, in the same channel, exactly one reply for each message that begins with the command prefix (after removing the sender tag of messages relayed by the bridge bot) and nothing else; the reply is the braces and formula of the text, or the syntax error, or a report of an unsupported construct. No message stops the bot, and neither does a reply that the chat service refuses. When the chat service cannot be reached, refuses a channel or stops delivering events, the bot ends with the reason and a failure status instead of staying without answering.",
  ["histories","schedules"],"all event sequences up to a bound on each channel and all interleavings of two channels",
  "The bot package has no tests.",
  ["bot/bot.go"],[("run, parse, fixBridgeMessage, say","bot/bot.go")],["chat.Channel seen by the bot"])
p("C23","Loading the dictionary gives the complete word list or an error",
  "For every response of the dictionary service, including refusals, missing fields, truncated or failed transfers, loading returns either a map with every received entry under its lower-case, toneless headword (later entries replacing earlier ones) or an error; it never panics and never returns a partial list as success. The error for a refusal contains the reason that the service gives. Loading sends the query as given and closes every response, so that repeated loading does not exhaust connections.",
  ["fault_sequences","inputs"],"all response shapes and every truncation point of a response",
  "Load is not tested.",
  ["dict/dict.go"],[("Load","dict/dict.go")],["dict.Load"])
p("C24","Every dictionary entry is filed under its own headword",
  "Each entry of the built-in dictionary is stored under a key that equals its headword, and the headword is in the normal form used for look-up: lower case with tone markers removed.",
  ["inputs"],"every entry of the built-in dictionary",
  "The test looks up one word.",
  ["dict/words.go","dict/dict.go"],[("Words","dict/words.go")],["dict.Words"])
p("C25","All front ends give the same verdict and the same analysis",
  "For every text, the command-line program, the web service and the chat bot report the same acceptance, braces and formula as the library (the program and the service also its parse tree, syntax tree and words; a construct that is not supported is reported as such by all three), and the command-line program exits with status 0 exactly when the text is accepted and, where it is not, prints the library's error.",
  ["inputs"],"every text, to the stated bounds",
  "None of the three programs has tests.",
  ["main.go","server/server.go","bot/bot.go"],[("main","main.go"),("rootHandler","server/server.go"),("parse","bot/bot.go")],["standard output and exit status of the program","HTTP","chat"])
p("C26","The published grammar describes the parser",
  "The grammar file distributed with the parser accepts exactly the texts that the parser accepts.",
  ["inputs"],"all texts to the stated bounds",
  "Nothing reads the grammar file in the tests.",
  ["ast/toaq.peg","ast/toaq.peggy","ast/toaq.go"],[("go:generate lines","ast/parser.go")],["ast.Parser.Text"])
p("C27","Regenerating the dictionary writes exactly the word list, or nothing",
  "For every response of the dictionary service the generator either ends with status 0, having written a Go file that compiles and whose Words is exactly the map that loading the dictionary gives (whatever characters the entries contain), or ends with another status and leaves an earlier dictionary file as it was.",
  ["inputs","fault_sequences"],"all entries' contents, all response shapes and every truncation point of a response",
  "The generator has no tests and needs the network.",
  ["dict/main.go","dict/dict.go"],[("main, gofmt","dict/main.go"),("Load","dict/dict.go"),("go:generate line","dict/dict.go")],["the file written by dict/main.go and its exit status"])
p("C28","The cost of a text grows no faster than a polynomial of its size",
  "Parsing a text, building its tree, reporting its error and bracketing it take time polynomial in the length of the text, and interpreting it takes time polynomial in the length of the text and of the resulting formula, so that no short message keeps the program, the service or the bot busy for long.",
  ["inputs"],"all repetitions of parts of texts, to the stated bounds",
  "Tests use short texts without repetition.",
  ["ast/toaq.go","ast/parser.go","ast/braces.go","logic/interp.go","logic/simplify.go"],[("memoisation of every rule","ast/toaq.go"),("prenexStatement, predicate","logic/interp.go")],["ast.Parser.Text","logic.Interpret"])
p("C29","Traversing a formula reaches every part once, the outermost first",
  "Visiting a formula, from any node of it, calls the given function once for each occurrence of a node within it: the node itself first, then its parts from left to right (restriction before scope, predicate before arguments, nothing for absent parts). Each node reports the source it holds; clearing the sources of a node clears those of all nodes within it, leaves those outside of it, and changes neither the rest of the formula nor the syntax tree.",
  ["inputs"],"every node of every formula of an interpretable text, to the stated bounds",
  "No test calls Visit, NillOutAST or ASTNode on a formula.",
  ["logic/visit.go","logic/logic.go"],[("Visit methods, NillOutAST","logic/visit.go"),("ASTNode methods","logic/logic.go")],["logic.Node.Visit","logic.NillOutAST","logic.Node.ASTNode"])
p("C30","A formula keeps the focus and the wording of the text",
  "A focus word before an argument marks the variable of that argument wherever the argument is used in the formula, in every alternative in which it is used and in its own description, and the quantifier if the argument is quantified in a bi-prenex, where it is used nowhere else; nothing else is marked. Every predicate named by a word and every quotation in the formula has a source in the text that contains that word or quotation, and the source of a predication is the clause, adverb or prepositional phrase whose predicate it is (the predicate alone where there is none).",
  ["inputs"],"every interpretable text, with focus words in all positions, to the stated bounds",
  "No test has a focus word in a text that is interpreted, and all tests ignore sources.",
  ["logic/interp.go","logic/logic.go"],[("predicateArgument, varArgument, hoaArgument, prenexStatement","logic/interp.go"),("Focus","logic/logic.go")],["logic.Variable.Focus","logic.Binding.Focus","logic.Node.ASTNode"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
