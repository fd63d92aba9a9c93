package main

// Builds the expected syntax tree from the reference grammar's concrete tree.

import (
	_ "embed"
	"fmt"
	"strings"
	"unicode/utf8"
)

//go:embed ref_grammar.peg
var refGrammarSrc string

var refGrammar = func() *grammar {
	defs, _, err := readGrammar(refGrammarSrc)
	if err != nil {
		panic(err)
	}
	g, err := expandGrammar(defs, "full_text", "word")
	if err != nil {
		panic(err)
	}
	return g
}()

var (
	refFullText = refGrammar.index["full_text"]
	refWord     = refGrammar.index["word"]
)

// A T is a node of a syntax tree, in a form common to the model and the code.
type T struct {
	Kind string // type name
	Text string // words only
	S, E int    // words only: span
	Kids []*F
}

// An F is a field of a node.
type F struct {
	Name string
	T    *T
}

// A ref parses texts with the reference grammar.
type ref struct {
	m *matcher
	// text, once parsed
	text string
}

func newRef() *ref { return &ref{m: newMatcher(refGrammar)} }

type verdict struct {
	ok     bool
	perr   int  // furthest failure if !ok
	extend bool // whether some extension of the text could be accepted
}

func (r *ref) parse(text string) verdict {
	r.text = text
	r.m.reset(text)
	end, perr := r.m.match(refFullText, 0)
	if end >= 0 && end < len(text) {
		// Stopped at something that is not a character.
		return verdict{ok: false, perr: end, extend: false}
	}
	return verdict{ok: end >= 0, perr: perr, extend: end >= 0 || r.m.hitEOF}
}

// word parses a word at an offset.
func (r *ref) word(text string, offs int) (t *T, n, perr int) {
	r.text = text
	r.m.reset(text)
	end, perr := r.m.match(refWord, offs)
	if end < 0 {
		return nil, 0, perr
	}
	c := r.m.tree(refWord, offs)
	// kids: syllables ..., space_word?
	var sp *cst
	kids := c.kids
	if k := len(kids); k > 0 && kids[k-1].rule.base == "space_word" {
		sp = kids[k-1]
		kids = kids[:k-1]
	}
	w := &T{Kind: "Word", S: c.s, E: c.e}
	for _, k := range kids {
		w.Text += r.wordText(k)
	}
	if len(kids) > 0 {
		w.E = c.e // the word rule spans its trailing space
	}
	if sp != nil {
		w = attach(w, r.space(sp))
	}
	return w, end - offs, 0
}

// tree returns the expected syntax tree of an accepted text.
func (r *ref) tree(text string) *T {
	c := r.m.tree(refFullText, 0)
	return r.build(c)
}

func fld(name string, t *T) *F { return &F{Name: name, T: t} }

func mk(kind string, fs ...*F) *T {
	t := &T{Kind: kind}
	for _, f := range fs {
		if f != nil && f.T != nil {
			t.Kids = append(t.Kids, f)
		}
	}
	return t
}

func (t *T) get(name string) *T {
	for _, k := range t.Kids {
		if k.Name == name {
			return k.T
		}
	}
	return nil
}

// attach attaches modifiers to the last word of t. It modifies t.
func attach(t, mod *T) *T {
	if mod == nil {
		return t
	}
	last := t
	for len(last.Kids) > 0 {
		last = last.Kids[len(last.Kids)-1].T
	}
	last.Kids = append(last.Kids, fld("M", mod))
	return t
}

func (r *ref) word1(c *cst) *T {
	return &T{Kind: "Word", Text: r.wordText(c), S: c.s, E: c.e}
}

func (r *ref) space(c *cst) *T {
	return &T{Kind: "Space", Text: r.text[c.s:c.e], S: c.s, E: c.e}
}

// build builds the tree of a rule.
func (r *ref) build(c *cst) *T {
	k := c.kids
	base := c.rule.base
	switch base {
	case "full_text":
		return r.build(k[0])
	case "text":
		t := &T{Kind: "Text"}
		d := &T{Kind: "Discourse"}
		for _, x := range k {
			switch x.rule.base {
			case "space_word":
				t.Kids = append(t.Kids, fld("Leading", r.space(x)))
			case "discourse":
				d = r.build(x)
			}
		}
		t.Kids = append(t.Kids, fld("Discourse", d))
		return t
	case "discourse":
		d := &T{Kind: "Discourse"}
		for i := 0; i < len(k); i += 2 {
			d.Kids = append(d.Kids, fld("", attach(r.build(k[i]), r.mods(k[i+1]))))
		}
		return d
	case "fragment":
		var f *T
		if k[0].rule.base == "afterthought_cop" {
			f = r.cop(k[0], "CoPRelative")
		} else {
			f = r.build(k[0])
		}
		return attach(f, r.mods(k[1]))
	case "sentence", "sentence_1":
		return r.alt(c, "CoPSentence")
	case "sentence_2":
		if len(k) == 2 {
			s := r.build(k[1])
			s.Kids = append([]*F{fld("JE", r.build(k[0]))}, s.Kids...)
			return s
		}
		return r.build(k[0])
	case "sentence_prefix_spaces", "linking_word_spaces", "focus_spaces", "quantifier_spaces":
		return attach(r.word1(k[0]), r.mods(k[1]))
	case "prenex_spaces", "predicate_3":
		return attach(r.build(k[0]), r.mods(k[1]))
	case "sentence_3":
		st := attach(r.build(k[0]), r.mods(k[1]))
		s := mk("StatementSentence", fld("Statement", st))
		if len(k) == 3 {
			s.Kids = append(s.Kids, fld("DA", r.build(k[2])))
		}
		return s
	case "illocutionary":
		if k[0].rule.base != "moq" {
			return r.word1(c)
		}
		w := r.word1(k[0])
		if len(k) == 2 {
			attach(w, &T{Kind: "Space", Text: r.text[k[1].s:k[1].e], S: k[1].s, E: k[1].e})
		}
		return w
	case "statement":
		if len(k) == 2 {
			return mk("PrenexStatement", fld("Prenex", r.build(k[0])), fld("Statement", r.build(k[1])))
		}
		return r.build(k[0])
	case "statement_1", "statement_2":
		return r.alt(c, "CoPStatement")
	case "statement_3", "relative_clause_3", "content_statement":
		p := attach(r.build(k[0]), r.mods(k[1]))
		if len(k) == 3 {
			p.Kids = append(p.Kids, fld("NA", r.word1(k[2])))
		}
		switch base {
		case "relative_clause_3":
			return mk("PredicationRelative", fld("Predication", p))
		case "content_statement":
			return mk("PredicationContent", fld("Predication", p))
		}
		return p
	case "predication", "relative_predication", "content_predication":
		p := mk("Predication", fld("Predicate", attach(r.build(k[0]), r.mods(k[1]))))
		if len(k) == 3 {
			p.Kids = append(p.Kids, fld("Terms", r.build(k[2])))
		}
		return p
	case "prenex":
		return mk("Prenex", fld("Terms", attach(r.build(k[0]), r.mods(k[1]))), fld("BI", r.word1(k[2])))
	case "predicate_1":
		return r.alt(c, "CoPPredicate")
	case "serial":
		return mk("SerialPredicate", fld("Left", attach(r.build(k[0]), r.mods(k[1]))), fld("Right", r.build(k[2])))
	case "terms":
		t := r.build(k[0])
		if k[0].rule.base == "term" {
			return mk("Terms", fld("", t))
		}
		return t
	case "terms_2", "terms_III", "terms_IV", "terms_V":
		l := attach(r.build(k[0]), r.mods(k[1]))
		ts := r.build(k[2])
		ts.Kids = append([]*F{fld("", l)}, ts.Kids...)
		return ts
	case "terms_II":
		return mk("Terms", fld("", attach(r.build(k[0]), r.mods(k[1]))), fld("", r.build(k[2])))
	case "linked_argument":
		if len(k) == 2 {
			return mk("LinkedTerm", fld("GO", r.build(k[0])), fld("Argument", r.build(k[1])))
		}
		return r.build(k[0])
	case "termset":
		return r.cop(k[0], "TermSet")
	case "argument", "arg_1":
		return r.alt(c, "CoPArgument")
	case "arg_2", "arg_3":
		a := r.build(k[len(k)-1])
		if len(k) == 2 {
			name := "Focus"
			if base == "arg_3" {
				name = "Quantifier"
			}
			a.Kids = append([]*F{fld(name, r.build(k[0]))}, a.Kids...)
		}
		return a
	case "arg_4":
		a := attach(r.build(k[0]), r.mods(k[1]))
		if len(k) == 3 {
			a.Kids = append(a.Kids, fld("Relative", r.build(k[2])))
		}
		return a
	case "arg_5":
		return mk("PredicateArgument", fld("Predicate", r.build(k[0])))
	case "relative_clause":
		if k[0].rule.base == "LU_phrase" {
			return r.lu(k[0], "LURelative")
		}
		return r.alt(c, "CoPRelative")
	case "relative_clause_1", "relative_clause_2":
		return r.alt(c, "CoPRelative")
	case "adverb", "adverb_1":
		return r.alt(c, "CoPAdverb")
	case "adverb_2":
		return mk("PredicateAdverb", fld("Predicate", r.build(k[0])))
	case "prepositional_phrase", "prepositional_phrase_1":
		return r.alt(c, "CoPPreposition")
	case "prepositional_phrase_2":
		return mk("PredicationPreposition", fld("Predicate", attach(r.build(k[0]), r.mods(k[1]))), fld("Argument", r.build(k[2])))
	case "preposition", "preposition_1":
		return r.alt(c, "CoPPredicate")
	case "content_clause":
		return r.alt(c, "CoPContent")
	case "content_clause_1":
		if k[0].rule.base == "LU_phrase" {
			return r.lu(k[0], "LUContent")
		}
		return r.build(k[0])
	case "afterthought_cop_pred", "forethought_cop_pred":
		return r.cop(k[0], "CoPPredicate")
	case "LU_predicate":
		return r.lu(k[0], "LUPredicate")
	case "MI_phrase", "PO_phrase":
		p := attach(r.build(k[0]), r.mods(k[1]))
		if len(k) == 3 {
			p.Kids = append(p.Kids, fld("GA", r.word1(k[2])))
		}
		return p
	case "MI_phrase_1":
		return mk("MIPredicate", fld("MI", attach(r.word1(k[0]), r.mods(k[1]))), fld("Phrase", r.build(k[2])))
	case "PO_phrase_1":
		return mk("POPredicate", fld("PO", attach(r.word1(k[0]), r.mods(k[1]))), fld("Argument", r.build(k[2])))
	case "MO_phrase":
		p := attach(r.build(k[0]), r.mods(k[1]))
		p.Kids = append(p.Kids, fld("TEO", r.word1(k[2])))
		return p
	case "MO_phrase_1":
		w := r.word1(k[0])
		if len(k) == 3 {
			attach(w, r.space(k[1]))
		}
		return mk("MOPredicate", fld("MO", w), fld("Discourse", r.build(k[len(k)-1])))
	case "freemod":
		return r.build(k[0])
	case "interjection":
		w := r.word1(c)
		w.Kind = "Interjection"
		return w
	case "parenthetical":
		p := attach(r.build(k[0]), r.mods(k[1]))
		p.Kids = append(p.Kids, fld("KI", r.word1(k[2])))
		return p
	case "parenthetical_1":
		return mk("Parenthetical", fld("KIO", attach(r.word1(k[0]), r.mods(k[1]))), fld("Discourse", r.build(k[2])))
	case "incidental":
		return mk("Incidental", fld("JU", attach(r.word1(k[0]), r.mods(k[1]))), fld("Statement", r.build(k[2])))
	case "vocative":
		return mk("Vocative", fld("HU", attach(r.word1(k[0]), r.mods(k[1]))), fld("Argument", r.build(k[2])))
	case "predicate_word":
		w := r.word1(c)
		w.Kind = "WordPredicate"
		return w
	}
	if len(k) == 1 {
		return r.build(k[0])
	}
	panic(fmt.Sprintf("model: no builder for rule %s with %d kids", c.rule.name, len(k)))
}

// alt builds a rule of the form: connection phrase / something else.
func (r *ref) alt(c *cst, kind string) *T {
	switch c.kids[0].rule.base {
	case "afterthought_cop", "forethought_cop":
		return r.cop(c.kids[0], kind)
	}
	return r.build(c.kids[0])
}

func (r *ref) cop(c *cst, kind string) *T {
	k := c.kids
	if c.rule.base == "afterthought_cop" {
		// left _ cop_bar{connective _ right}
		bar := k[2].kids
		return mk(kind,
			fld("Left", attach(r.build(k[0]), r.mods(k[1]))),
			fld("RU", attach(r.word1(bar[0]), r.mods(bar[1]))),
			fld("Right", r.build(bar[2])))
	}
	// forethought_connective{to _ ru} _ forethought_cop_1{left _ bar{to _ right}}
	con, one := k[0].kids, k[2].kids
	bar := one[2].kids
	return mk(kind,
		fld("TO0", attach(r.word1(con[0]), r.mods(con[1]))),
		fld("RU", attach(r.word1(con[2]), r.mods(k[1]))),
		fld("Left", attach(r.build(one[0]), r.mods(one[1]))),
		fld("TO1", attach(r.word1(bar[0]), r.mods(bar[1]))),
		fld("Right", r.build(bar[2])))
}

func (r *ref) lu(c *cst, kind string) *T {
	k := c.kids
	return mk(kind, fld("LU", attach(r.word1(k[0]), r.mods(k[1]))), fld("Statement", r.build(k[2])))
}

// mods builds the modifiers of a _ node; nil if there are none.
func (r *ref) mods(c *cst) *T {
	switch c.rule.base {
	case "_":
		if len(c.kids) == 0 {
			return nil
		}
		return r.mods(c.kids[0])
	case "space_or_freemod":
		var m *T
		if c.kids[0].rule.base == "space_word" {
			m = r.space(c.kids[0])
		} else {
			m = r.build(c.kids[0])
		}
		if len(c.kids) == 2 {
			attach(m, r.mods(c.kids[1]))
		}
		return m
	}
	panic("model: not a modifier: " + c.rule.name)
}

// ---- normalised spelling ----

const toneMarks = `-/V?^\~`

// precomposed[tone][letter]; letters in the order aAuUiIoOeE.
var precomposed = map[byte]string{
	'-':  "āĀūŪīĪōŌēĒ",
	'/':  "áÁúÚíÍóÓéÉ",
	'V':  "ǎǍǔǓǐǏǒǑěĚ",
	'?':  "ảẢủỦỉỈỏỎẻẺ",
	'^':  "âÂûÛîÎôÔêÊ",
	'\\': "àÀùÙìÌòÒèÈ",
	'~':  "ãÃũŨĩĨõÕẽẼ",
}

// breveVowels are in the order of plainVowels; each takes two bytes.
const breveVowels = "ăĂŭŬĭĬŏŎĕĔ"

const plainVowels = "aAuUiIoOeE"

// toned returns the vowel with a tone.
func toned(vowel rune, tone byte) string {
	if vowel == 'ı' {
		vowel = 'i'
	}
	i := strings.IndexRune(plainVowels, vowel)
	rs := []rune(precomposed[tone])
	return string(rs[i])
}

// toneOf returns the tone denoted by a tone character of the input.
func toneOf(r rune) byte {
	switch r {
	case '-', '1', '\u0304':
		return '-'
	case '/', '2', '\u0301':
		return '/'
	case 'V', '3', '\u030C', '\u0306':
		return 'V'
	case '?', '4', '\u0309':
		return '?'
	case '^', '5', '\u0302':
		return '^'
	case '\\', '6', '\u0300':
		return '\\'
	case '~', '7', '\u0303':
		return '~'
	}
	return 0
}

// wordText returns the normalised spelling of the part of a word under c.
func (r *ref) wordText(c *cst) string { return normWord(r.text[c.s:c.e]) }

// normWord returns the normalised spelling of a word:
// the tone of each syllable is on its first vowel, as a precomposed letter,
// and i without a tone has no dot.
func normWord(raw string) string {
	var s strings.Builder
	// Every tone belongs to the first vowel of its syllable. The tone follows
	// either that vowel or the whole syllable, so it belongs to the last
	// syllable-initial vowel before it.
	rs := []rune(raw)
	out := make([]string, 0, len(rs))
	first := -1 // index in out of the first vowel of the current syllable
	isVowel := func(x rune) bool { return strings.ContainsRune("aAuUiIıoOeE", x) }
	tonedVowel := func(x rune) bool {
		for _, l := range precomposed {
			if strings.ContainsRune(l, x) {
				return true
			}
		}
		return strings.ContainsRune(breveVowels, x)
	}
	for _, x := range rs {
		switch {
		case toneOf(x) != 0:
			v, _ := utf8.DecodeRuneInString(out[first])
			out[first] = toned(v, toneOf(x))
		case isVowel(x):
			if first < 0 {
				first = len(out)
			}
			if x == 'i' {
				x = 'ı'
			}
			out = append(out, string(x))
		case tonedVowel(x):
			first = len(out)
			// A breve is another way to write a caron.
			if i := strings.IndexRune(breveVowels, x); i >= 0 {
				x = []rune(precomposed['V'])[i/2]
			}
			out = append(out, string(x))
		case x == 'q' || x == 'Q':
			out = append(out, string(x))
		default:
			// A consonant begins a syllable.
			first = -1
			out = append(out, string(x))
		}
	}
	for _, o := range out {
		s.WriteString(o)
	}
	return s.String()
}
