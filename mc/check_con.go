package main

// C14: connected phrases. The oracle is the code itself on simpler trees: the
// formula of a text with a connection must combine the formulas of the two
// texts that have only one of its sides.

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/eaburns/toaq/ast"
)

func init() {
	register(&check{id: "C14", explore: exploreC14, one: checkC14})
}

func c14Spaces(quick bool) []space {
	d := func(q, t int) int {
		if quick {
			return q
		}
		return t
	}
	sp := func(name, prefix, tokens string, depth int) space {
		return space{name: name, prefix: prefix, tokens: phrases(tokens), sep: " ", depth: depth}
	}
	return []space{
		sp("arguments", "gi?", `ji/; suq/; sa hoq/; tu hoq/; hi hoq/; ru; ra; ri; to ra; to`, d(6, 7)),
		sp("arguments2", "gi?", `ji/ ru suq/; ji/ ra hoq/; hoq/; to ri; to; ra; go; go ji/ ru hoq/; po/; fi`, d(4, 6)),
		sp("many", "gi?", `ji/ ru suq/; hoq/ ra sa raq/; gi~ ra gi~; ne\ ji/ ra suq/; go ji/ ri suq/; gi? ru gi?; na ru gi?; ji/`, d(5, 6)),
		sp("prenex", "", `ji/ ru suq/; hoq/ ra sa raq/; gi~ ra gi~; ne\ ji/ ra suq/; gi?; gi? ru gi?; pa; bi; ji/; na; ru`, d(5, 6)),
		sp("prenex-var", "sa do/ pa", `do/ ru ji/; po/ do/; hi suq/ ra do/; gi?; gi? ra gi?; gi~ ru gi~; ne\ ji/ ru do/; ne\ po/ do/; do/; giV do/; na; ru`, d(5, 6)),
		sp("adverbs", "gi?", `gi~; gi~ gi?; to ru; to; ru; ra; ji/; sa ji/; ji/ ra suq/`, d(6, 7)),
		sp("prepositions", "gi?", `ne\; ne\ ji/; gi\; to ru; to; ru; ra; ji/; sa suq/; gi?`, d(5, 7)),
		sp("prepositions-var", "sa do/ pa gi? do/", `ne\; ne\ ji/; gi\ ra gi?; to ru; to; ru; ra; ji/; sa suq/; do/`, d(5, 6)),
		sp("linked", "gi?", `go; fi; cu; ji/; suq/; ru; ra; to ra; to; sa hoq/`, d(6, 7)),
		sp("termsets", "gi? to ra", `ji/; suq/; sa hoq/; to; gi~; go ji/; ne\ ji/; to ru`, d(6, 7)),
		sp("termset-more", "gi? to ri ji/ suq/ to hoq/", `ji/; gi~; go suq/; ji/ ru hoq/; ne\ ji/; to ra ji/ gi~ to; sa raq/`, d(5, 6)),
		sp("predicates", "", `gi?; mai?; ru; ra; to ru; to ra; to; ji/; lu? gi?; na`, d(6, 7)),
		sp("predicate-args", "gi?", `gi/; gi/ gi?; gi?; ru; ra; to ru; to; ji/ ru suq/; giV; sa`, d(5, 6)),
		sp("predicate-tones", "gi?", `gi~ ru gi?; gi\ ru gi? ji/; giV ra gi?; gi^ ra gi?; gi/ ra gi?; ji/; to ru; to; ru; na`, d(5, 6)),
		sp("relative", "gi? ji/", `giV; luV gi?; hoa/; gi?; to ru; to; ru; ra; na; ji/ ru suq/`, d(5, 6)),
		sp("content", "gi?", `gi^; lu^ gi?; gi?; ji/; to ru; to; ru; ra; na; ji/ ru suq/`, d(5, 6)),
		sp("statements", "", `gi?; gi? ji/; na; ru; ra; to ru; to; ji/ pa; ji/ ru suq/ bi; sa ji/ pa`, d(5, 6)),
		sp("po", "gi?", `po/; po?; ji/; suq/; ru; ra; ga; to ra; to; sa hoq/; hi hoq/`, d(5, 6)),
		sp("roi", "gi?", `ji/ roi; suq/; sa hoq/; ru; ra; to roi; to ru; to; po/; go`, d(5, 6)),
	}
}

func exploreC14(h *H) {
	for _, s := range c14Spaces(h.quick()) {
		h.texts(s)
	}
}

// cn is a formula in canonical form, with descriptions in place.
type cn struct {
	label string
	idx   int // of a variable: the number of binders between it and its own; -1 if it is unbound
	kids  []*cn
	str   string
}

func (c *cn) s() string {
	if c.str == "" {
		var b strings.Builder
		b.WriteString("(" + c.label)
		if c.label == "V" {
			b.WriteString(strconv.Itoa(c.idx))
		}
		for _, k := range c.kids {
			b.WriteString(" ")
			b.WriteString(k.s())
		}
		b.WriteString(")")
		c.str = b.String()
	}
	return c.str
}

func (c *cn) binds() bool { return c.label[0] == 'I' || c.label[0] == 'B' }

func (c *cn) shift(n int) *cn {
	if c.label == "V" {
		if c.idx >= n {
			return &cn{label: "V", idx: c.idx + 1}
		}
		return c
	}
	if c.binds() {
		n++
	}
	d := &cn{label: c.label}
	for _, k := range c.kids {
		d.kids = append(d.kids, k.shift(n))
	}
	return d
}

// inPlace puts definite descriptions and hi-phrases in the places of their variables.
// budget limits the size.
func inPlace(x *lf, sub map[*lv]*lf, budget *int) *lf {
	if x == nil {
		return nil
	}
	*budget--
	if *budget < 0 {
		return x
	}
	if x.k == kVar {
		if y := sub[x.v]; y != nil {
			y.visit(func(*lf) { *budget-- })
			return y
		}
		return x
	}
	if x.k == kBind && x.kids[0] != nil && (x.s == "ι" || x.s == "Λ" || x.s == "¿") {
		delete(sub, x.v) // the binder may be a shared copy of one that was replaced before
		d := &lf{k: kIota, v: x.v, kids: []*lf{inPlace(x.kids[0], sub, budget)}}
		if x.s == "¿" {
			d.s = "¿"
		}
		sub[x.v] = d
		return inPlace(x.kids[1], sub, budget)
	}
	kids := make([]*lf, len(x.kids))
	for i, k := range x.kids {
		kids[i] = inPlace(k, sub, budget)
	}
	return x.with(kids...)
}

func toCN(x *lf, in []*lv) *cn {
	if x == nil {
		return &cn{label: "·"}
	}
	c := &cn{label: string(x.k) + x.s}
	switch x.k {
	case kBind, kIota:
		in = append(in[:len(in):len(in)], x.v)
	case kQuote:
		c.label = fmt.Sprintf("Q%v%q", x.full, x.s)
	case kVar:
		c.label, c.idx = "V", -1
		for i := range in {
			if in[i] == x.v {
				c.idx = len(in) - 1 - i
			}
		}
	case kSwap:
		c.label += strconv.Itoa(x.n)
	}
	for _, k := range x.kids {
		c.kids = append(c.kids, toCN(k, in))
	}
	return c
}

// combines says whether f is l and r combined by op, at the places where they differ.
func combines(op string, f, l, r *cn) bool {
	if f.s() == l.s() && f.s() == r.s() {
		return true
	}
	if f.label == "C"+op && f.kids[0].s() == l.s() && f.kids[1].s() == r.s() {
		return true
	}
	if f.label == "I" {
		l, r = described(l), described(r)
	}
	if f.label == l.label && f.label == r.label && len(f.kids) == len(l.kids) && len(f.kids) == len(r.kids) {
		if f.label == "V" {
			return f.idx == l.idx && f.idx == r.idx
		}
		for i := range f.kids {
			if !combines(op, f.kids[i], l.kids[i], r.kids[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// described turns a term into the description of what is identical to it.
func described(c *cn) *cn {
	if c.label == "I" || c.label == "V" || c.label == "·" {
		return c
	}
	eq := &cn{label: "P", kids: []*cn{{label: "W="}, {label: "V", idx: 0}, c.shift(0)}}
	return &cn{label: "I", kids: []*cn{eq}}
}

// surgeon replaces the n-th connection of a tree by one of its sides.
type surgeon struct {
	n     int
	right bool
	op    string
	done  bool
	fail  bool
	skip  bool // a side is a variable or hoa, which alone is read differently
}

var coPTypes = map[string]bool{
	"CoPStatement": true, "CoPPredicate": true, "CoPArgument": true, "CoPRelative": true,
	"CoPAdverb": true, "CoPPreposition": true, "CoPContent": true,
}

func (s *surgeon) walk(v reflect.Value) {
	if s.done || s.fail {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		if e.Kind() == reflect.Ptr && !e.IsNil() && e.Elem().Kind() == reflect.Struct && coPTypes[e.Elem().Type().Name()] {
			s.n--
			if s.n < 0 {
				s.replace(v, e.Elem())
				return
			}
		}
		if e.Kind() == reflect.Slice {
			cp := reflect.New(e.Type()).Elem()
			cp.Set(e)
			s.walk(cp)
			v.Set(cp)
			return
		}
		s.walk(e)
	case reflect.Ptr:
		if !v.IsNil() {
			s.walk(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len() && !s.done && !s.fail; i++ {
			if ts, ok := v.Index(i).Interface().(*ast.TermSet); ok {
				s.n--
				if s.n < 0 {
					side := ts.Left
					if s.right {
						side = ts.Right
					}
					var out ast.Terms
					for j := 0; j < v.Len(); j++ {
						if j == i {
							out = append(out, side.(ast.Terms)...)
						} else {
							out = append(out, v.Index(j).Interface().(ast.Term))
						}
					}
					s.op = ts.RU.T
					s.done = true
					v.Set(reflect.ValueOf(out))
					return
				}
			}
			s.walk(v.Index(i))
		}
	case reflect.Struct:
		if v.Type().Name() == "Word" || v.Type().Name() == "WordPredicate" {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			s.walk(v.Field(i))
		}
	}
}

func (s *surgeon) replace(field, cop reflect.Value) {
	ru := cop.FieldByName("RU").Interface().(ast.Word)
	s.op = ru.T
	side := cop.FieldByName("Left")
	if s.right {
		side = cop.FieldByName("Right")
	}
	n := side.Interface().(ast.Node)
	switch st, ok := n.(ast.Statement); {
	case ok && cop.Type().Name() == "CoPContent":
		n = &ast.LUContent{LU: ast.Word{T: "lu"}, Statement: st}
	case ok && cop.Type().Name() == "CoPRelative":
		n = &ast.LURelative{LU: ast.Word{T: "lu"}, Statement: st}
	}
	if a, ok := n.(*ast.PredicateArgument); ok && cop.Type().Name() == "CoPPredicate" {
		n = a.Predicate
	}
	if p, ok := n.(*ast.WordPredicate); ok {
		pt := &T{Kind: "WordPredicate", Text: p.T}
		if _, v := variableName(pt); v || isHoa(pt) {
			s.skip = true
		}
	}
	nv := reflect.ValueOf(n)
	if !nv.Type().AssignableTo(field.Type()) {
		s.fail = true
		return
	}
	field.Set(nv)
	s.done = true
}

func checkC14(w *W, c string) {
	if strings.Count(c, "roi") > 1 {
		return // nested plurals are flattened
	}
	t, f := w.formula(c)
	if t == nil {
		return
	}
	whole := convertFormula(f)
	seen := map[ast.Node]bool{}
	whole.visit(func(x *lf) {
		if x.k == kBind && x.s == "ι" && !localIota(x.src) && x.src != nil {
			if seen[x.src] {
				w.bad("a definite referent is introduced twice: %s", whole.show())
			}
			seen[x.src] = true
		}
	})
	budget := 20000
	fc := toCN(inPlace(whole, map[*lv]*lf{}, &budget), nil)
	if budget < 0 {
		w.count("too large")
		return
	}
	for i := 0; ; i++ {
		var sides [2]*cn
		var shown [2]string
		var op string
		n := 0
		for k := range sides {
			s := &surgeon{n: i, right: k == 1}
			t1 := deepCopy(t).(*ast.Text)
			s.walk(reflect.ValueOf(t1).Elem())
			if !s.done {
				if s.fail {
					panic("harness: cannot take a side of a connection in " + c)
				}
				break
			}
			op = bare(s.op)
			if s.skip {
				w.count("variable as one side")
				continue
			}
			g, msg := interpret(t1)
			if msg != "" {
				w.count("side failed")
				continue
			}
			if g == nil {
				w.bad("no formula for one side of %d", i)
				return
			}
			l := convertFormula(g)
			shown[k] = l.show()
			sides[k] = toCN(inPlace(l, map[*lv]*lf{}, &budget), nil)
			n++
		}
		if n < 2 || budget < 0 {
			if op == "" {
				break
			}
			continue
		}
		if op == "roi" {
			continue
		}
		w.validated()
		w.count("connections")
		con := map[string]string{"ru": "∧", "ra": "∨", "ri": "?"}[op]
		if !combines(con, fc, sides[0], sides[1]) {
			w.bad("connection %d (%s): formula\n  %s\nwith the left side\n  %s\nwith the right side\n  %s", i, op, whole.show(), shown[0], shown[1])
			return
		}
	}
}
