package main

// C17: printed formulas. The oracle is a reader of the printed form.

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/eaburns/toaq/logic"
)

func init() {
	register(&check{id: "C17", explore: exploreC17, one: checkC17, assumptions: []string{
		"quotations contain no guillemets",
		"A ∧ (B ∧ C) and (A ∧ B) ∧ C, which are equivalent, may print the same; likewise for ∨ and ?",
	}})
}

func exploreC17(h *H) {
	n, m := 7, 9
	if !h.quick() {
		n, m = 8, 11
	}
	h.cases("trees", fmt.Sprintf("all formula trees of up to %d nodes", n), func(emit func(string) bool) {
		for i := 1; i <= n; i++ {
			if !treeCodes(i, emit) {
				return
			}
		}
	})
	h.cases("names", fmt.Sprintf("all sequences of up to %d variables of 8 kinds, nested", m), func(emit func(string) bool) {
		// The order matters only within a kind, but all orders up to 5 are tried.
		kinds := "egruf=n!"
		var seq func(s string, max int, sorted bool) bool
		seq = func(s string, max int, sorted bool) bool {
			if !emit("names " + s) {
				return false
			}
			if len(s) == max {
				return true
			}
			for i := range kinds {
				if sorted && s != "" && strings.IndexByte(kinds, s[len(s)-1]) > i {
					continue
				}
				if !seq(s+kinds[i:i+1], max, sorted) {
					return false
				}
			}
			return true
		}
		_ = seq("", 5, false) && seq("", m, true)
	})
	exploreLogic(h)
}

// Tree codes are prefix codes; see treeOf.
const (
	stCodes  = "ieE&|?gaAb=<>spzmx"
	argCodes = "01uvlqQc"
)

// sorts of the operands of each code: S statement, A argument.
var operands = map[byte]string{
	'i': "SS", 'e': "S", 'E': "SS", '&': "SS", '|': "SS", '?': "SS",
	'g': "", 'a': "A", 'A': "AA", 'b': "A", '=': "AA", '<': "A", '>': "A", 's': "SA", 'p': "A", 'z': "A", 'm': "A", 'x': "S",
	'0': "", '1': "", 'u': "", 'v': "", 'l': "AA", 'q': "", 'Q': "", 'c': "S",
}

// treeCodes emits the codes of all trees of a size.
func treeCodes(n int, emit func(string) bool) bool {
	var gen func(s, todo string) bool
	gen = func(s, todo string) bool {
		if todo == "" {
			if len(s) == n {
				return emit("tree " + s)
			}
			return true
		}
		if len(s)+len(todo) > n {
			return true
		}
		codes := stCodes
		if todo[0] == 'A' {
			codes = argCodes
		}
		for i := range codes {
			if !gen(s+codes[i:i+1], operands[codes[i]]+todo[1:]) {
				return false
			}
		}
		return true
	}
	return gen("", "S")
}

// treeBuilder makes formulas of codes. Variables are numbered in the order of
// their first appearance, as the interpreter does.
type treeBuilder struct {
	code    string
	n       int
	unbound map[byte]int
}

func (b *treeBuilder) number() int { b.n++; return b.n - 1 }

func (b *treeBuilder) next() byte {
	c := b.code[0]
	b.code = b.code[1:]
	return c
}

func word(s string) logic.Predicate { return &logic.Pred{Name: s} }

func (b *treeBuilder) st(in []*logic.Binding) logic.Statement {
	pred := func(p logic.Predicate, args ...logic.Argument) logic.Statement {
		return &logic.Predication{Predicate: p, Arguments: args}
	}
	switch c := b.next(); c {
	case 'i', 'E', 'e':
		d := &logic.Binding{N: b.number(), Quantifier: logic.The}
		if c != 'i' {
			d.Quantifier = logic.Some
		}
		in = append(in[:len(in):len(in)], d)
		if c != 'e' {
			d.Restriction = b.st(in)
		}
		d.Scope = b.st(in)
		return d
	case '&', '|', '?':
		k := map[byte]logic.Connector{'&': logic.And, '|': logic.Or, '?': logic.Ri}[c]
		l := b.st(in)
		return &logic.Connection{Connector: k, Left: l, Right: b.st(in)}
	case 'g':
		return pred(word("gi"))
	case 'a':
		return pred(word("ra"), b.arg(in))
	case 'A':
		x := b.arg(in)
		return pred(word("gi"), x, b.arg(in))
	case 'b':
		return pred(word("gi"), nil, b.arg(in))
	case '=':
		x := b.arg(in)
		return pred(word(logic.Equal), x, b.arg(in))
	case '<':
		return pred(word(logic.Among), nil, b.arg(in))
	case '>':
		return pred(word(logic.Equal), b.arg(in))
	case 's':
		s := b.st(in)
		return pred(&logic.Abstraction{Statement: s}, b.arg(in))
	case 'p':
		return pred(b.v(in, 0).(logic.Predicate), b.arg(in))
	case 'z':
		return pred(&logic.Serial{Left: word("gi"), Right: word(logic.Among)}, b.arg(in))
	case 'm':
		return pred(&logic.Swap{Predicate: word("gi"), Pos: 1}, b.arg(in))
	case 'x':
		return pred(&logic.Serial{Left: &logic.Abstraction{Statement: b.st(in)}, Right: word("gi")})
	}
	panic("harness: bad tree code")
}

func (b *treeBuilder) v(in []*logic.Binding, i int) interface{} {
	if i >= len(in) {
		return b.free('u')
	}
	d := in[len(in)-1-i]
	return &logic.Variable{N: d.N, Def: d}
}

func (b *treeBuilder) free(c byte) *logic.Variable {
	n, ok := b.unbound[c]
	if !ok {
		n = b.number()
		b.unbound[c] = n
	}
	return &logic.Variable{N: n}
}

func (b *treeBuilder) arg(in []*logic.Binding) logic.Argument {
	switch c := b.next(); c {
	case '0':
		return b.v(in, 0).(logic.Argument)
	case '1':
		return b.v(in, 1).(logic.Argument)
	case 'u', 'v':
		return b.free(c)
	case 'l':
		x := b.arg(in)
		return &logic.Plurality{Arguments: []logic.Argument{x, b.arg(in)}}
	case 'q':
		return &logic.Quote{Text: "X ru ("}
	case 'Q':
		return &logic.Quote{Text: "gí (). {", FullText: true}
	case 'c':
		return &logic.Abstraction{Statement: b.st(in)}
	}
	panic("harness: bad tree code")
}

// namesTree makes a formula with variables of the kinds.
func namesTree(kinds string) logic.Statement {
	var args []logic.Argument
	var binds []*logic.Binding
	for i := 0; i < len(kinds); i++ {
		if kinds[i] == 'u' {
			args = append(args, &logic.Variable{N: i})
			continue
		}
		d := &logic.Binding{N: i, Quantifier: logic.The}
		v := &logic.Variable{N: i, Def: d}
		r := func(p string, a ...logic.Argument) logic.Statement {
			return &logic.Predication{Predicate: word(p), Arguments: a}
		}
		switch kinds[i] {
		case 'e':
			d.Quantifier = logic.Some
		case 'g':
			d.Restriction = r("gi", v)
		case 'r':
			d.Restriction = &logic.Connection{Connector: logic.And, Left: r("ra", v), Right: r("gi", v)}
		case 'f':
			d.Restriction = &logic.Predication{Predicate: &logic.Serial{Left: word("shi"), Right: word("go")}, Arguments: []logic.Argument{v}}
		case '=':
			d.Restriction = r(logic.Equal, v, &logic.Quote{Text: "gi"})
		case 'n':
			d.Restriction = &logic.Binding{N: i, Quantifier: logic.None, Scope: r("gi", v)}
			d.Restriction = &logic.Predication{Predicate: &logic.Abstraction{Statement: r("gi", v)}, Arguments: []logic.Argument{v}}
		case '!':
			d.Restriction = &logic.Predication{Predicate: v, Arguments: []logic.Argument{v}}
		}
		binds = append(binds, d)
		if i%2 == 0 {
			args = append(args, v) // others remain unused
		}
	}
	var s logic.Statement = &logic.Predication{Predicate: word("gi"), Arguments: args}
	for i := len(binds) - 1; i >= 0; i-- {
		binds[i].Scope = s
		s = binds[i]
	}
	return s
}

func checkC17(w *W, c string) {
	var f logic.Statement
	switch {
	case strings.HasPrefix(c, "tree "):
		b := &treeBuilder{code: c[5:], unbound: map[byte]int{}}
		f = b.st(nil)
	case strings.HasPrefix(c, "names "):
		f = namesTree(c[6:])
	default:
		_, f = w.formula(c)
		if f == nil {
			return
		}
	}
	bad := false
	convertFormula(f).visit(func(x *lf) {
		bad = bad || x.k == kQuote && strings.ContainsAny(x.s, "«»‹›")
	})
	if bad {
		w.count("guillemets")
		return
	}
	w.validated()
	checkPrinted(w, f, true)
	// Parts of formulas are printed as well.
	n := 0
	f.Visit(func(x logic.Node) {
		if s, ok := x.(logic.Statement); ok && s != nil && s != f && n < 12 {
			n++
			checkPrinted(w, s, false)
		}
	})
}

func checkPrinted(w *W, f logic.Statement, whole bool) {
	s, pretty := logic.String(f), logic.PrettyString(f)
	plain := strings.Map(func(r rune) rune {
		switch {
		case r == 0x2129:
			return 'ι'
		case r >= 0x1D434 && r < 0x1D434+26:
			return r - 0x1D434 + 'A'
		}
		return r
	}, pretty)
	if plain != s {
		w.bad("the pretty form is\n  %s\nthe plain form is\n  %s", pretty, s)
	}
	for i, r := range pretty {
		if r == 'ι' {
			w.bad("an ι in the pretty form at %d: %s", i, pretty)
			break
		}
	}
	text := strings.TrimSuffix(s, ".")
	if whole && text == s {
		w.bad("no period at the end of %s", s)
	}
	rd := &reader{s: text}
	got, ok := rd.all()
	want := convertFormula(f)
	if !ok {
		w.bad("cannot read the printed form at %q: %s\nof %s", rd.rest(), s, want.show())
		return
	}
	m := &printMatcher{name: map[*lv]string{}, v: map[string]*lv{}}
	if !m.same(flatten(want), flatten(got)) {
		w.bad("printed form\n  %s\nreads as\n  %s\nbut is of\n  %s\n(%s)", s, got.show(), want.show(), m.why)
	}
}

// flatten makes runs of one connective right-associative.
func flatten(x *lf) *lf {
	if x == nil {
		return nil
	}
	kids := make([]*lf, len(x.kids))
	for i, k := range x.kids {
		kids[i] = flatten(k)
	}
	y := x.with(kids...)
	if y.k == kCon {
		for l := y.kids[0]; l.k == kCon && l.s == y.s; l = y.kids[0] {
			y = y.with(l.kids[0], flatten(l.with(l.kids[1], y.kids[1])))
		}
	}
	return y
}

// printMatcher compares a formula with one that was read.
type printMatcher struct {
	name map[*lv]string
	v    map[string]*lv
	why  string
}

func (m *printMatcher) variable(a, b *lf) bool {
	n, seen := m.name[a.v]
	if seen && n != b.s {
		m.why = "one variable is printed as " + n + " and " + b.s
		return false
	}
	if v := m.v[b.s]; v != nil && v != a.v {
		m.why = "two variables are printed as " + b.s
		return false
	}
	m.name[a.v], m.v[b.s] = b.s, a.v
	return true
}

func (m *printMatcher) same(a, b *lf) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if a.k != b.k || len(a.kids) != len(b.kids) {
		return false
	}
	switch a.k {
	case kVar:
		return m.variable(a, b)
	case kBind:
		// the name of a read binder is in full form: quantifier, colon, name
		i := strings.IndexByte(b.s, ':')
		if a.s != b.s[:i] || !m.variable(a, &lf{s: b.s[i+1:]}) {
			return false
		}
	case kSwap: // the position is not printed
	default:
		if a.s != b.s || a.full != b.full {
			return false
		}
	}
	for i := range a.kids {
		if !m.same(a.kids[i], b.kids[i]) {
			return false
		}
	}
	return true
}

// reader reads the printed form:
//
//	statement  = unit { " " connective " " unit }   -- all the same connective
//	unit       = "(" statement ")" | binding | predication
//	binding    = quantifier variable " " statement | "[" quantifier variable " : " statement "] " statement
//	predication= predicate "(" arguments ")" | [argument] operator [argument]
//
// A binding extends as far to the right as possible.
type reader struct {
	s string
	i int
}

type readFailure struct{}

func (r *reader) rest() string { return r.s[r.i:] }

func (r *reader) fail() { panic(readFailure{}) }

func (r *reader) all() (f *lf, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(readFailure); !is {
				panic(e)
			}
			f, ok = nil, false
		}
	}()
	f = r.statement()
	return f, r.i == len(r.s)
}

func (r *reader) has(p string) bool { return strings.HasPrefix(r.s[r.i:], p) }

func (r *reader) eat(p string) bool {
	if r.has(p) {
		r.i += len(p)
		return true
	}
	return false
}

func (r *reader) want(p string) {
	if !r.eat(p) {
		r.fail()
	}
}

var readQuantifiers = []string{"ι", "λ", "∀", "Λ", "∃", "∄", "¿"}

func (r *reader) quantifier() string {
	for _, q := range readQuantifiers {
		if r.eat(q) {
			return q
		}
	}
	return ""
}

func (r *reader) name() string {
	i := r.i
	if r.i >= len(r.s) || r.s[r.i] < 'A' || r.s[r.i] > 'Z' {
		r.fail()
	}
	r.i++
	for r.i < len(r.s) && '0' <= r.s[r.i] && r.s[r.i] <= '9' {
		r.i++
	}
	return r.s[i:r.i]
}

func (r *reader) statement() *lf {
	us := []*lf{r.unit()}
	con := ""
	for {
		found := false
		for _, k := range []string{"∧", "∨", "?"} {
			if (con == "" || con == k) && r.eat(" "+k+" ") {
				con, found = k, true
				us = append(us, r.unit())
				break
			}
		}
		if !found {
			break
		}
	}
	f := us[len(us)-1]
	for i := len(us) - 2; i >= 0; i-- {
		f = lfCon(con, us[i], f)
	}
	return f
}

func (r *reader) unit() *lf {
	if r.has("(") && !r.has("(mu ") {
		r.want("(")
		f := r.statement()
		r.want(")")
		return f
	}
	if r.eat("[") {
		q := r.quantifier()
		n := r.name()
		r.want(" : ")
		f := r.statement()
		r.want("] ")
		return lfBind(q+":"+n, nil, f, r.statement())
	}
	if q := r.quantifier(); q != "" {
		n := r.name()
		r.want(" ")
		return lfBind(q+":"+n, nil, nil, r.statement())
	}
	// An operator without its left argument, or an argument and an operator.
	i := r.i
	if op := r.operator(); op != "" {
		if !r.has("(") && !r.has("∘") {
			return lfPred(lfWord(op), nil, r.optional())
		}
	} else if a := r.try(); a != nil {
		if op := r.operator(); op != "" {
			return lfPred(lfWord(op), a, r.optional())
		}
	}
	r.i = i
	p := r.predicate()
	r.want("(")
	as := r.arguments(")")
	r.want(")")
	return lfPred(p, as...)
}

func (r *reader) operator() string {
	for _, op := range []string{"=", "≺"} {
		if r.eat(op) {
			return op
		}
	}
	return ""
}

// optional reads the right argument of an operator.
func (r *reader) optional() *lf {
	if a := r.try(); a != nil {
		return a
	}
	return nil
}

// try reads an argument if there is one.
func (r *reader) try() *lf {
	c, _ := utf8.DecodeRuneInString(r.rest())
	if strings.ContainsRune("⌊‹«{", c) || c >= 'A' && c <= 'Z' {
		return r.argument()
	}
	return nil
}

func (r *reader) arguments(end string) []*lf {
	var as []*lf
	if r.has(end) {
		return nil
	}
	for {
		if r.eat("·") {
			as = append(as, nil)
		} else {
			as = append(as, r.argument())
		}
		if !r.eat(", ") {
			return as
		}
	}
}

func (r *reader) argument() *lf {
	switch {
	case r.eat("⌊"):
		as := r.arguments("⌉")
		r.want("⌉")
		return &lf{k: kPlural, kids: as}
	case r.eat("‹"):
		return r.quote("›", false)
	case r.eat("«"):
		return r.quote("»", true)
	case r.eat("{"):
		s := r.statement()
		r.want("}")
		return lfAbs(s)
	}
	return &lf{k: kVar, s: r.name()}
}

func (r *reader) quote(end string, full bool) *lf {
	i := strings.Index(r.rest(), end)
	if i < 0 {
		r.fail()
	}
	f := &lf{k: kQuote, s: r.rest()[:i], full: full}
	r.i += i + len(end)
	return f
}

func (r *reader) predicate() *lf {
	var p *lf
	switch {
	case r.eat("(mu "):
		p = &lf{k: kSwap, kids: []*lf{r.predicate()}}
		r.want(")")
	case r.eat("{"):
		p = lfAbs(r.statement())
		r.want("}")
	default:
		c, _ := utf8.DecodeRuneInString(r.rest())
		if c >= 'A' && c <= 'Z' {
			p = &lf{k: kVar, s: r.name()}
			break
		}
		i := r.i
		if r.operator() == "" {
			for r.i < len(r.s) {
				c, n := utf8.DecodeRuneInString(r.rest())
				if !unicode.IsLower(c) && c != '\'' {
					break
				}
				r.i += n
			}
		}
		if r.i == i {
			r.fail()
		}
		p = lfWord(r.s[i:r.i])
	}
	if r.eat("∘") {
		p = &lf{k: kSerial, kids: []*lf{p, r.predicate()}}
	}
	return p
}
