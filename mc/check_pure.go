package main

// C19: interpretation is a pure function of the content of a text.
// The states are (tree, formula, hidden state of the packages); the moves are
// the calls a user can make. Every move must lead back to the same state, from
// the initial state and after every other move.

import (
	"reflect"
	"strings"

	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"
)

func init() {
	register(&check{id: "C19", explore: exploreC19, one: checkC19})
}

func exploreC19(h *H) {
	for _, s := range logicSpaces(h.quick()) {
		if h.quick() {
			s.depth--
		}
		h.texts(s)
	}
	d := 3
	if !h.quick() {
		d = 4
	}
	h.texts(space{name: "spellings", tokens: toks("gi? jio/ do/ doi/ sa doV kuaq- geo^ gi~ gi\\ na bi da ru to lu? hoa/ mi/ shu/ ga po/ roi ."), sep: " ", depth: d + 1})
}

var pureOthers = []string{"gi? ji/ ru suq/", "sa do/ bi gi? do/ hi ji/", "ji/ pa gi? na", "lu? hoa? do/ na ji/", "gi? do/ ke do/ po/ do/ shu/ gi? ga"}

var pureFragments = []string{"ji/", "giV", "sa do/ bi", "gi~", `ne\ ji/`, "hu ji/"}

// snapshot writes a formula with the numbers of its variables. If plain is
// set, quotations are reduced to their letters.
func snapshot(n logic.Node, plain bool) string {
	var b strings.Builder
	f := convertFormula(n)
	if plain {
		f.visit(func(x *lf) {
			if x.k == kQuote {
				x.s = bare(x.s)
			}
		})
	}
	b.WriteString(f.canon())
	f.visit(func(x *lf) {
		if x.v != nil {
			b.WriteByte(' ')
			b.WriteString(itoa(x.v.n))
		}
	})
	return b.String()
}

func itoa(i int) string {
	if i < 0 {
		return "-" + itoa(-i)
	}
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + itoa(i%10)
}

func checkC19(w *W, c string) {
	t, f := w.formula(c)
	if t == nil {
		return
	}
	want, str, pretty := snapshot(f, false), logic.String(f), logic.PrettyString(f)
	t0 := parseAgain(c, w)
	if !reflect.DeepEqual(t, t0) {
		w.bad("interpreting changes the tree: %s, then %s", ast.BracesString(t0), ast.BracesString(t))
		return
	}
	others, _ := w.buf["others"].([]*ast.Text)
	if others == nil {
		for _, o := range pureOthers {
			x, err, p := parseText(o)
			if err != nil || p != nil {
				panic("harness: " + o)
			}
			others = append(others, x)
		}
		w.buf["others"] = others
	}
	formula := func(what string, t *ast.Text) {
		g, msg := interpret(t)
		switch {
		case msg != "":
			w.bad("%s: interpretation stops with %q", what, msg)
		case g == nil:
			w.bad("%s: no formula", what)
		default:
			if s := snapshot(g, false); s != want {
				w.bad("%s: formula\n  %s\ninstead of\n  %s", what, logic.String(g), str)
			}
		}
	}
	moves := []struct {
		name string
		do   func(what string)
	}{
		{"interpret", func(what string) { formula(what, t) }},
		{"print", func(what string) {
			if s := logic.String(f); s != str {
				w.bad("%s: the formula is printed as %s instead of %s", what, s, str)
			}
			if s := logic.PrettyString(f); s != pretty {
				w.bad("%s: the formula is printed as %s instead of %s", what, s, pretty)
			}
		}},
		{"clear source references", func(what string) { logic.NillOutAST(f) }},
		{"interpret and clear", func(what string) {
			if g, _ := interpret(t); g != nil {
				logic.NillOutAST(g)
				g.Visit(func(n logic.Node) {
					if n.ASTNode() != nil {
						w.bad("%s: a source reference remains: %T", what, n)
					}
				})
				if s := snapshot(g, false); s != want {
					w.bad("%s: formula %s instead of %s", what, logic.String(g), str)
				}
			}
		}},
		{"braces", func(string) { ast.BracesString(t) }},
		{"visit", func(string) { visitText(t) }},
		{"interpret others", func(string) {
			for _, o := range others {
				interpret(o)
			}
		}},
	}
	check := func(what string) {
		if !reflect.DeepEqual(t, t0) {
			w.bad("%s: the tree is changed: %s, then %s", what, ast.BracesString(t0), ast.BracesString(t))
		}
		if s := snapshot(f, false); s != want {
			w.bad("%s: the formula is changed: %s, then %s", what, str, logic.String(f))
		}
	}
	for i := range moves {
		for j := range moves {
			what := moves[i].name + ", " + moves[j].name
			moves[i].do(what)
			moves[j].do(what)
			check(what)
			w.count("moves")
			if w.bads != nil {
				return
			}
		}
	}
	formula("another parse", t0)
	formula("a copy", deepCopy(t0).(*ast.Text))

	// Fragments around and between the sentences.
	frs, _ := w.buf["fragments"].([]ast.Node)
	if frs == nil {
		for _, o := range pureFragments {
			x, err, p := parseText(o)
			if err != nil || p != nil || len(x.Discourse) != 1 {
				panic("harness: " + o)
			}
			frs = append(frs, x.Discourse[0])
		}
		w.buf["fragments"] = frs
	}
	for i, fr := range frs {
		for at := 0; at <= len(t0.Discourse); at++ {
			x := deepCopy(t0).(*ast.Text)
			d := append(ast.Discourse{}, x.Discourse[:at]...)
			d = append(d, fr)
			x.Discourse = append(d, x.Discourse[at:]...)
			formula("with fragment "+pureFragments[i]+" at "+itoa(at), x)
		}
	}

	// Other spellings, cases and spacings.
	want = snapshot(f, true)
	same := func(what, c2 string) {
		x, err, p := parseText(c2)
		if err != nil || p != nil {
			w.bad("%s %q: does not parse", what, c2)
			return
		}
		g, msg := interpret(x)
		if msg != "" || g == nil {
			w.bad("%s %q: interpretation stops with %q", what, c2, msg)
		} else if s := snapshot(g, true); s != want {
			w.bad("%s %q: formula\n  %s\ninstead of\n  %s", what, c2, logic.String(g), str)
		}
	}
	if w.space == "spellings" || len(strings.Fields(c)) <= 3 {
		for _, n := range notations(c) {
			same("spelling", n)
		}
	}
	for _, n := range letterCases(c) {
		if n != c {
			same("letter case", n)
		}
	}
	for _, sp := range []string{"  ", "\n", " \t\n "} {
		same("spacing", sp+strings.ReplaceAll(c, " ", sp)+sp)
	}
	w.validated()
}

// parseAgain parses a text again.
func parseAgain(c string, w *W) *ast.Text {
	t, err, p := parseText(c)
	if err != nil || p != nil {
		w.bad("a second parse fails")
	}
	return t
}
