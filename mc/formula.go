package main

// The common form of formulas: built by the reference interpreter, and
// converted from the code's formulas.

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"
)

// Kinds of lf.
const (
	kBind   = 'B' // s is the quantifier, v the variable, kids are restriction (or nil) and scope
	kCon    = 'C' // s is the connector, kids are left and right
	kPred   = 'P' // kids are the predicate and the arguments (nil is a gap)
	kVar    = 'V' // v is the variable; s the name, if it is from a word like do
	kPlural = 'L' // kids are the arguments
	kQuote  = 'Q' // s is the text, full says whether it is a full-text quote
	kWord   = 'W' // s is the name
	kAbs    = 'A' // kids is the statement
	kSerial = 'S' // kids are left and right
	kSwap   = 'M' // kids is the predicate, n is the position
	kIota   = 'I' // used by C14 only: a description in place; v, kids is the restriction
)

type lf struct {
	k    byte
	s    string
	full bool
	n    int
	v    *lv
	kids []*lf
	// focus says whether a focus word marks a variable or a quantifier.
	focus bool
	src   ast.Node // of the code's formulas
}

// lv is a variable.
type lv struct {
	bound bool
	n     int // the code's number, or that of the reference
}

func (f *lf) with(kids ...*lf) *lf {
	g := *f
	g.kids = kids
	return &g
}

func lfBind(q string, v *lv, r, s *lf) *lf { return &lf{k: kBind, s: q, v: v, kids: []*lf{r, s}} }
func lfCon(c string, l, r *lf) *lf         { return &lf{k: kCon, s: c, kids: []*lf{l, r}} }
func lfPred(p *lf, args ...*lf) *lf        { return &lf{k: kPred, kids: append([]*lf{p}, args...)} }
func lfVar(v *lv) *lf                      { return &lf{k: kVar, v: v} }
func lfWord(s string) *lf                  { return &lf{k: kWord, s: s} }
func lfAbs(s *lf) *lf                      { return &lf{k: kAbs, kids: []*lf{s}} }

// visit calls f in pre-order.
func (x *lf) visit(f func(*lf)) {
	if x == nil {
		return
	}
	f(x)
	for _, k := range x.kids {
		k.visit(f)
	}
}

// free calls f for each occurrence of a bound variable that is not bound within x.
func (x *lf) free(f func(*lf)) {
	var walk func(x *lf, in []*lv)
	walk = func(x *lf, in []*lv) {
		if x == nil {
			return
		}
		if x.k == kBind || x.k == kIota {
			in = append(in[:len(in):len(in)], x.v)
		}
		if x.k == kVar && x.v.bound {
			for _, v := range in {
				if v == x.v {
					return
				}
			}
			f(x)
		}
		for _, k := range x.kids {
			walk(k, in)
		}
	}
	walk(x, nil)
}

// canon writes a formula up to renaming of variables.
// Variables without a binder are all written U.
func (x *lf) canon() string {
	var b strings.Builder
	x.canonTo(&b, nil)
	return b.String()
}

func (x *lf) canonTo(b *strings.Builder, in []*lv) {
	if x == nil {
		b.WriteString("·")
		return
	}
	if x.k == kBind || x.k == kIota {
		in = append(in[:len(in):len(in)], x.v)
	}
	b.WriteByte('(')
	b.WriteByte(x.k)
	switch x.k {
	case kBind, kCon, kWord:
		b.WriteString(x.s)
	case kQuote:
		b.WriteString(strconv.Quote(x.s))
		if x.full {
			b.WriteByte('!')
		}
	case kSwap:
		b.WriteString(strconv.Itoa(x.n))
	case kVar:
		switch {
		case !x.v.bound:
			b.WriteByte('U')
		default:
			i := len(in) - 1
			for i >= 0 && in[i] != x.v {
				i--
			}
			if i < 0 {
				b.WriteString("?outside")
			} else {
				b.WriteString(strconv.Itoa(i))
			}
		}
	}
	for _, k := range x.kids {
		b.WriteByte(' ')
		k.canonTo(b, in)
	}
	b.WriteByte(')')
}

// show writes a formula for people.
func (x *lf) show() string {
	names := map[*lv]string{}
	name := func(v *lv) string {
		s, ok := names[v]
		if !ok {
			s = fmt.Sprintf("x%d", len(names))
			if !v.bound {
				s = "u" + s
			}
			names[v] = s
		}
		return s
	}
	var b strings.Builder
	var w func(x *lf)
	list := func(ks []*lf) {
		for i, k := range ks {
			if i > 0 {
				b.WriteString(", ")
			}
			w(k)
		}
	}
	w = func(x *lf) {
		if x == nil {
			b.WriteString("·")
			return
		}
		switch x.k {
		case kBind:
			b.WriteString("[" + x.s + name(x.v))
			if x.kids[0] != nil {
				b.WriteString(": ")
				w(x.kids[0])
			}
			b.WriteString("] ")
			w(x.kids[1])
		case kCon:
			b.WriteString("(")
			w(x.kids[0])
			b.WriteString(" " + x.s + " ")
			w(x.kids[1])
			b.WriteString(")")
		case kPred:
			w(x.kids[0])
			b.WriteString("(")
			list(x.kids[1:])
			b.WriteString(")")
		case kVar:
			b.WriteString(name(x.v))
		case kPlural:
			b.WriteString("⌊")
			list(x.kids)
			b.WriteString("⌉")
		case kQuote:
			if x.full {
				b.WriteString("«" + x.s + "»")
			} else {
				b.WriteString("‹" + x.s + "›")
			}
		case kWord:
			b.WriteString(x.s)
		case kAbs:
			b.WriteString("{")
			w(x.kids[0])
			b.WriteString("}")
		case kSerial:
			b.WriteString("<")
			w(x.kids[0])
			b.WriteString("∘")
			w(x.kids[1])
			b.WriteString(">")
		case kSwap:
			b.WriteString("(mu ")
			w(x.kids[0])
			b.WriteString(")")
		case kIota:
			b.WriteString("ι" + name(x.v) + "(")
			w(x.kids[0])
			b.WriteString(")")
		}
	}
	w(x)
	return b.String()
}

// fromLogic converts a formula of the code.
type fromLogic struct {
	vars map[*logic.Binding]*lv
	free map[int]*lv
}

func convertFormula(n logic.Node) *lf {
	c := &fromLogic{vars: map[*logic.Binding]*lv{}, free: map[int]*lv{}}
	return c.node(n)
}

func (c *fromLogic) binder(b *logic.Binding) *lv {
	v := c.vars[b]
	if v == nil {
		v = &lv{bound: true, n: b.N}
		c.vars[b] = v
	}
	return v
}

func (c *fromLogic) node(n logic.Node) *lf {
	switch n := n.(type) {
	case nil:
		return nil
	case *logic.Binding:
		if n == nil {
			return nil
		}
		f := &lf{k: kBind, s: string(n.Quantifier), v: c.binder(n), src: n.AST, focus: n.Focus}
		var r *lf
		if n.Restriction != nil {
			r = c.node(n.Restriction)
		}
		f.kids = []*lf{r, c.node(n.Scope)}
		return f
	case *logic.Connection:
		return &lf{k: kCon, s: string(n.Connector), kids: []*lf{c.node(n.Left), c.node(n.Right)}, src: n.AST}
	case *logic.Predication:
		f := &lf{k: kPred, kids: []*lf{c.node(n.Predicate)}, src: n.AST}
		for _, a := range n.Arguments {
			if a == nil {
				f.kids = append(f.kids, nil)
			} else {
				f.kids = append(f.kids, c.node(a))
			}
		}
		return f
	case *logic.Variable:
		f := &lf{k: kVar, src: n.AST, n: n.N, focus: n.Focus}
		if n.Def != nil {
			f.v = c.binder(n.Def)
			return f
		}
		f.v = c.free[n.N]
		if f.v == nil {
			f.v = &lv{n: n.N}
			c.free[n.N] = f.v
		}
		return f
	case *logic.Plurality:
		f := &lf{k: kPlural, src: n.AST}
		for _, a := range n.Arguments {
			if a == nil {
				f.kids = append(f.kids, nil)
			} else {
				f.kids = append(f.kids, c.node(a))
			}
		}
		return f
	case *logic.Quote:
		return &lf{k: kQuote, s: n.Text, full: n.FullText, src: n.AST}
	case *logic.Pred:
		return &lf{k: kWord, s: n.Name, src: n.AST}
	case *logic.Abstraction:
		return &lf{k: kAbs, kids: []*lf{c.node(n.Statement)}, src: n.AST}
	case *logic.Serial:
		return &lf{k: kSerial, kids: []*lf{c.node(n.Left), c.node(n.Right)}, src: n.AST}
	case *logic.Swap:
		return &lf{k: kSwap, n: n.Pos, kids: []*lf{c.node(n.Predicate)}, src: n.AST}
	}
	panic(fmt.Sprintf("harness: unknown formula node %T", n))
}
