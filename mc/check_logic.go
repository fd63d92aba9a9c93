package main

// C13-C19: formulas.

import (
	"fmt"
	"strings"

	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"
)

func init() {
	register(&check{id: "C13", explore: exploreC13, one: checkC13})
	register(&check{id: "C15", explore: exploreLogic, one: checkC15})
	register(&check{id: "C16", explore: exploreLogic, one: checkC16})
}

// interpret interprets a text; msg is what it panics with.
func interpret(t *ast.Text) (f logic.Statement, msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint(r)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	return logic.Interpret(t), ""
}

// unsupportedWord returns the connective that a failure names.
func unsupportedWord(msg string) (string, bool) {
	for _, p := range []string{"impossible: ", "bad connector: ", "bad sentence connector: "} {
		if strings.HasPrefix(msg, p) {
			c := bare(strings.TrimPrefix(msg, p))
			switch {
			case p == "impossible: " && (c == "ro" || c == "re"):
				return c, true
			case p == "bad connector: " && c == "roi":
				return c, true
			case p == "bad sentence connector: " && (c == "ra" || c == "ri" || c == "ro" || c == "re" || c == "roi"):
				return c, true
			}
		}
	}
	return "", false
}

func exploreC13(h *H) {
	exploreLogic(h)
	for _, s := range grammarSpaces(h.quick()) {
		h.texts(s)
	}
}

func checkC13(w *W, c string) {
	t := w.accepted(c)
	if t == nil {
		return
	}
	supported(w, t)
	// The same in capitals.
	if up := capitals(c); up != c {
		if t, err := ast.NewParser(up).Text(); err == nil { // else C05
			supported(w, t)
		}
	}
}

// capitals writes a text in capital letters.
func capitals(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' {
			return r - 'a' + 'A'
		}
		return r
	}, s)
}

func supported(w *W, t *ast.Text) {
	f, msg := interpret(t)
	want, why := refFormula(convert(t))
	w.validated()
	if msg != "" {
		if _, ok := unsupportedWord(msg); !ok {
			w.bad("interpretation stops with %q", msg)
		} else if why == "" {
			w.bad("interpretation stops with %q, but the text is supported", msg)
		}
		w.count("unsupported")
		return
	}
	switch {
	case why != "":
		w.bad("interpretation gives %s, but the text has an unsupported connective: %s", logic.String(f), why)
	case isNilStatement(f) && want != nil:
		w.bad("no formula for a text with a sentence")
	case !isNilStatement(f) && want == nil:
		w.bad("formula %s for a text without a sentence", logic.String(f))
	}
	if f == nil {
		w.count("no sentence")
	} else {
		w.count("formula")
	}
}

func isNilStatement(s logic.Statement) bool { return s == nil }

// formula returns the code's formula of an accepted, supported text.
func (w *W) formula(c string) (*ast.Text, logic.Statement) {
	t := w.accepted(c)
	if t == nil {
		return nil, nil
	}
	f, msg := interpret(t)
	if msg != "" {
		if _, ok := unsupportedWord(msg); ok {
			w.count("unsupported")
		} else {
			w.count("failed") // C13
		}
		return nil, nil
	}
	if f == nil {
		return nil, nil
	}
	return t, f
}

func checkC16(w *W, c string) {
	t, f := w.formula(c)
	if t == nil {
		return
	}
	raw, why := refFormula(convert(t))
	if why != "" || raw == nil {
		return // C13
	}
	want := refSimplify(addHoa(raw, nil))
	got := convertFormula(f)
	w.validated()
	if g, e := got.canon(), want.canon(); g != e {
		w.bad("formula\n  %s\nby the rules\n  %s", got.show(), want.show())
	}
}

func checkC15(w *W, c string) {
	t, f := w.formula(c)
	if f == nil {
		return
	}
	w.validated()
	got := convertFormula(f)
	checkScopes(w, got)
	raw, why := refFormula(convert(t))
	if why != "" || raw == nil {
		return // C13
	}
	// The words that refer to no quantifier must not come to refer to one,
	// nor those that refer to one lose it.
	want := refSimplify(addHoa(raw, nil))
	all, open := countVars(got)
	wantAll, wantOpen := countVars(want)
	if open < wantOpen && all >= wantAll {
		w.bad("only %d variables are unbound but %d should be:\n  %s\nby the rules\n  %s", open, wantOpen, got.show(), want.show())
	}
	if open > wantOpen && all <= wantAll {
		w.bad("%d variables are unbound but only %d should be:\n  %s\nby the rules\n  %s", open, wantOpen, got.show(), want.show())
	}
}

// countVars returns the numbers of variables and of unbound ones.
func countVars(f *lf) (all, open int) {
	f.visit(func(x *lf) {
		if x.k == kVar {
			all++
			if !x.v.bound {
				open++
			}
		}
	})
	return all, open
}

func checkScopes(w *W, f *lf) {
	binders := map[int]*lv{}
	unbound := map[int]*lf{}
	var walk func(x *lf, in []*lf, top bool)
	walk = func(x *lf, in []*lf, top bool) {
		if x == nil {
			return
		}
		switch x.k {
		case kBind:
			for _, b := range in {
				if b.v == x.v || b.v.n == x.v.n {
					w.bad("variable %d is bound again within the scope of its quantifier: %s", x.v.n, f.show())
				}
			}
			if b := binders[x.v.n]; b != nil && b != x.v {
				w.bad("two quantifiers have the number %d: %s", x.v.n, f.show())
			}
			binders[x.v.n] = x.v
			if x.s == "ι" && !top && !localIota(x.src) {
				w.bad("a definite description is not introduced at the outermost level: %s", f.show())
			}
			in = append(in[:len(in):len(in)], x)
			walk(x.kids[0], in, false)
			walk(x.kids[1], in, top && x.s == "ι")
			return
		case kVar:
			if !x.v.bound {
				if u := unbound[x.n]; u != nil && u.src != x.src {
					w.bad("unbound variables of different words share number %d: %s", x.n, f.show())
				}
				unbound[x.n] = x
				break
			}
			ok := false
			for _, b := range in {
				ok = ok || b.v == x.v
			}
			if !ok {
				w.bad("a variable is outside of the scope of its quantifier: %s", f.show())
			}
			if x.n != x.v.n {
				w.bad("a variable has number %d and its quantifier has %d: %s", x.n, x.v.n, f.show())
			}
		}
		for _, k := range x.kids {
			walk(k, in, false)
		}
	}
	walk(f, nil, true)
	for n := range unbound {
		if binders[n] != nil {
			w.bad("an unbound variable has the number %d of a quantifier: %s", n, f.show())
		}
	}
}

// localIota says whether a phrase introduces its definite referent in place:
// a quantified variable, or a plural (roi).
func localIota(n ast.Node) bool {
	switch n := n.(type) {
	case *ast.CoPArgument:
		return true
	case *ast.PredicateArgument:
		if n.Quantifier == nil {
			return false
		}
		_, ok := variableName(convert(n.Predicate))
		return ok
	}
	return false
}
