package main

// C29, C30: traversal of formulas, and what they keep of the text.

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"
)

func init() {
	register(&check{id: "C29", explore: exploreC29, one: checkC29})
	register(&check{id: "C30", explore: exploreC30, one: checkC30})
}

func exploreC29(h *H) {
	for _, s := range logicSpaces(h.quick()) {
		s.depth--
		h.texts(s)
	}
	h.texts(focusSpaces(h.quick())[0])
}

// partOrder is the order of the parts of the nodes of formulas.
var partOrder = map[string][]string{
	"Binding":     {"Restriction", "Scope"},
	"Connection":  {"Left", "Right"},
	"Predication": {"Predicate", "Arguments"},
	"Variable":    nil,
	"Plurality":   {"Arguments"},
	"Quote":       nil,
	"Pred":        nil,
	"Abstraction": {"Statement"},
	"Serial":      {"Left", "Right"},
	"Swap":        {"Predicate"},
}

// parts returns the parts of a node from left to right, by reflection.
func parts(n logic.Node) []logic.Node {
	v := reflect.ValueOf(n).Elem()
	order, ok := partOrder[v.Type().Name()]
	if !ok {
		panic(fmt.Sprintf("harness: unknown kind of formula %T", n))
	}
	var out []logic.Node
	add := func(v reflect.Value) {
		if k, ok := v.Interface().(logic.Node); ok && k != nil {
			out = append(out, k)
		}
	}
	for _, f := range order {
		f := v.FieldByName(f)
		if f.Kind() == reflect.Slice {
			for i := 0; i < f.Len(); i++ {
				add(f.Index(i))
			}
			continue
		}
		if !f.IsNil() {
			add(f)
		}
	}
	return out
}

// occurrences returns the nodes in a formula, outermost first, from left to right.
func occurrences(n logic.Node) []logic.Node {
	out := []logic.Node{n}
	for _, k := range parts(n) {
		out = append(out, occurrences(k)...)
	}
	return out
}

// source returns a node's field AST.
func source(n logic.Node) ast.Node {
	s, _ := reflect.ValueOf(n).Elem().FieldByName("AST").Interface().(ast.Node)
	return s
}

// dumpFormula writes everything in a formula but the sources.
func dumpFormula(n logic.Node) string {
	var b strings.Builder
	ids := map[logic.Node]int{}
	var w func(n logic.Node)
	w = func(n logic.Node) {
		if id, ok := ids[n]; ok {
			fmt.Fprintf(&b, "#%d", id)
			return
		}
		ids[n] = len(ids)
		v := reflect.ValueOf(n).Elem()
		t := v.Type()
		b.WriteString("(" + t.Name())
		for i := 0; i < t.NumField(); i++ {
			f := v.Field(i)
			name := t.Field(i).Name
			if name == "AST" {
				continue
			}
			b.WriteString(" " + name + "=")
			switch f.Kind() {
			case reflect.Slice:
				for j := 0; j < f.Len(); j++ {
					if f.Index(j).IsNil() {
						b.WriteString("·")
						continue
					}
					w(f.Index(j).Interface().(logic.Node))
				}
			case reflect.Ptr, reflect.Interface:
				if f.IsNil() {
					b.WriteString("·")
					break
				}
				w(f.Interface().(logic.Node))
			default:
				fmt.Fprintf(&b, "%v", f.Interface())
			}
		}
		b.WriteString(")")
	}
	w(n)
	return b.String()
}

func checkC29(w *W, c string) {
	t, f := w.formula(c)
	if f == nil {
		return
	}
	w.validated()
	all := occurrences(f)
	before := dumpFormula(f)
	for _, n := range all {
		var got []logic.Node
		n.Visit(func(n logic.Node) { got = append(got, n) })
		want := occurrences(n)
		for i := 0; i < len(got) || i < len(want); i++ {
			if i == len(got) || i == len(want) || got[i] != want[i] {
				w.bad("visiting a %T of %s: call %d is %s, but %s is due", n, logic.String(f), i, nth(got, i), nth(want, i))
				break
			}
		}
		if a, s := n.ASTNode(), source(n); !sameNode(a, s) {
			w.bad("the source of a %T of %s is a %T, but ASTNode returns a %T", n, logic.String(f), s, a)
		}
		w.count(strings.TrimPrefix(fmt.Sprintf("%T", n), "*logic."))
	}
	if d := dumpFormula(f); d != before {
		w.bad("visiting changes a formula from\n  %s\nto\n  %s", before, d)
	}
	// Clear the sources of each part alone, the formula itself last.
	tree := convert(t).ser(serFull)
	for i := len(all) - 1; i >= 0; i-- {
		in := map[logic.Node]bool{}
		for _, n := range occurrences(all[i]) {
			in[n] = true
		}
		src := map[logic.Node]ast.Node{}
		for _, n := range all {
			src[n] = source(n)
		}
		logic.NillOutAST(all[i])
		for _, n := range all {
			s := source(n)
			if in[n] && s != nil {
				w.bad("a %T in a %T of %s has a source after clearing them", n, all[i], logic.String(f))
			}
			if !in[n] && !sameNode(s, src[n]) {
				w.bad("clearing the sources of a %T of %s clears that of a %T outside of it", all[i], logic.String(f), n)
			}
		}
	}
	if d := dumpFormula(f); d != before {
		w.bad("clearing sources changes a formula from\n  %s\nto\n  %s", before, d)
	}
	if now := convert(t).ser(serFull); now != tree {
		w.bad("clearing the sources of a formula changes the syntax tree")
	}
}

func sameNode(a, b ast.Node) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return idOf(a) == idOf(b)
}

func nth(ns []logic.Node, i int) string {
	if i >= len(ns) {
		return "no call"
	}
	return fmt.Sprintf("%T", ns[i])
}

func focusSpaces(quick bool) []space {
	d := func(q, t int) int {
		if quick {
			return q
		}
		return t
	}
	sp := func(name, prefix, tokens string, depth int) space {
		return space{name: name, prefix: prefix, tokens: phrases(tokens), sep: " ", depth: depth}
	}
	return []space{
		sp("focus", "gi?", `ku; ji/; do/; sa; hoa/; giV; ru; roi; go; po/; hi; na`, d(5, 6)),
		sp("focus-prenex", "", `ku; ji/; sa do/; do/; bi; pa; gi?; ru; roi; fi; sa; na`, d(5, 6)),
		sp("focus-phrases", "sa do/ pa gi?", `ku ji/; ku do/; ku sa hoq/; ji/ ru; to ru; to; ne\; gi~; ku hi suq/; giV; po/; ku ke jeq/tu- do/`, d(4, 5)),
		sp("focus-relative", "gi? ji/", `luV; gi?; ku hoa/; ku sa hoa/; giV; ku do/; na; ru; ku shu/ gi? ga; ku suq/`, d(5, 6)),
		sp("focus-lambda", "gi?", `lu/ hoa?; lu/ gi?; ku hoa/; ku lu/ gi?; ku do/; jeq/tu-; ku ji/; na; ke do/ bi; ku ke do/ bi; ku gi^`, d(4, 5)),
		sp("focus-again", "", `ku ji/ bi; gi?; to ru; to; ku ji/; suq/; ku ji/ pa; da; ru; ku sa ji/ pa; na; fi ku sa do/ bi`, d(5, 6)),
	}
}

func exploreC30(h *H) {
	for _, s := range focusSpaces(h.quick()) {
		h.texts(s)
	}
	for _, s := range logicSpaces(h.quick()) {
		s.depth--
		h.texts(s)
	}
}

// focuses writes which variables and quantifiers are marked.
func focuses(f *lf) string {
	var b strings.Builder
	f.visit(func(x *lf) {
		if x.k == kVar || x.k == kBind {
			if x.focus {
				b.WriteByte(x.k)
			} else {
				b.WriteByte(x.k + 'a' - 'A')
			}
		}
	})
	return b.String()
}

func checkC30(w *W, c string) {
	t, f := w.formula(c)
	if f == nil {
		return
	}
	root := convert(t)
	raw, why := refFormula(root)
	if why != "" || raw == nil {
		return // C13
	}
	w.validated()
	got := convertFormula(f)
	want := refSimplify(addHoa(raw, nil))
	if got.canon() == want.canon() { // else C16
		g, e := focuses(got), focuses(want)
		if g != e {
			w.bad("focus of the variables (v) and quantifiers (b) in %s is %s, by the rules %s (capital if in focus)", logic.String(f), g, e)
		}
		if strings.ContainsAny(e, "VB") {
			w.count("focus")
		}
	}
	words := map[string]bool{}
	root.words(func(x *T, space bool) {
		if !space {
			words[predName(x.Text)] = true
		}
	})
	up := parents(t)
	for _, n := range occurrences(f) {
		s := n.ASTNode()
		var in *T
		if !isNilNode(s) {
			in = convert(s)
		}
		switch n := n.(type) {
		case *logic.Predication:
			p, ok := n.Predicate.(*logic.Pred)
			if !ok {
				break
			}
			word, ok := p.AST.(*ast.WordPredicate)
			if !ok {
				break
			}
			if want := clauseOf(up, word); want != nil {
				if !sameNode(s, want) {
					w.bad("the source of %s(…) of %s is a %T, but it is from a %T", p.Name, logic.String(f), s, want)
				}
				w.count(strings.TrimPrefix(fmt.Sprintf("%T", want), "*ast."))
			}
		case *logic.Variable:
			if s := fmt.Sprintf("Variable(%d)", n.N); n.PrettyPrint() != s && !n.Focus || n.PrettyPrint() != "*"+s && n.Focus {
				w.bad("variable %d with focus %v of %s prints as %s", n.N, n.Focus, logic.String(f), n.PrettyPrint())
			}
		case *logic.Pred:
			if in == nil {
				w.bad("the predicate %s of %s has no source", n.Name, logic.String(f))
				break
			}
			found := !words[n.Name] // e.g. raq of po
			in.words(func(x *T, space bool) {
				found = found || !space && predName(x.Text) == n.Name
			})
			if x, ok := impliedPred[n.Name]; ok {
				found = found || x(in)
			}
			if !found {
				w.bad("the source of the predicate %s of %s is %s, which does not contain it", n.Name, logic.String(f), in.text())
			}
			w.count("predicate")
		case *logic.Quote:
			if in == nil {
				w.bad("the quote %s of %s has no source", n.Text, logic.String(f))
				break
			}
			if !strings.Contains(in.text(), n.Text) {
				w.bad("the source of the quote %s of %s is %s", n.Text, logic.String(f), in.text())
			}
			w.count("quote")
		}
	}
}

// impliedPred tells whether a phrase gives a predicate that is no word of it.
var impliedPred = map[string]func(*T) bool{
	"=":    func(*T) bool { return true },
	"≺":    func(*T) bool { return true },
	"raq":  func(t *T) bool { return strings.HasPrefix(bare(t.text()), "po") },
	"chua": func(t *T) bool { return strings.HasPrefix(bare(t.text()), "mi") },
}

// parents returns the node above each node of a tree.
func parents(n ast.Node) map[nodeID]ast.Node {
	up := map[nodeID]ast.Node{}
	var rec func(n ast.Node)
	rec = func(n ast.Node) {
		for _, k := range children(n) {
			up[idOf(k)] = n
			rec(k)
		}
	}
	rec(n)
	return up
}

// clauseOf returns the part of the text that a predication with a word is:
// the clause, adverb or preposition with that word as predicate, or just
// the predicate if there is none, or nil if it is neither.
func clauseOf(up map[nodeID]ast.Node, word ast.Node) ast.Node {
	p := word
	for {
		q := up[idOf(p)]
		if c, ok := q.(*ast.CoP); ok {
			q = up[idOf(c)]
		}
		if _, ok := q.(*ast.CoPPredicate); !ok {
			switch q := q.(type) {
			case *ast.Predication:
				if q.Terms == nil {
					return p
				}
				return q
			case *ast.PredicateAdverb, *ast.PredicationPreposition:
				return q
			case *ast.PredicateArgument:
				c, ok := up[idOf(q)].(*ast.CoP)
				if ok {
					if _, ok := up[idOf(c)].(*ast.CoPPredicate); ok {
						return nil
					}
				}
				return p
			}
			return nil
		}
		p = q
	}
}
