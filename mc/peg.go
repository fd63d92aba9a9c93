package main

// A small PEG engine. It reads a grammar in the notation of toaq.peg
// (templates, error names, code predicates shown as &{…}) and interprets it
// with memoisation. It is the reference model for everything that concerns
// parsing; it shares no code with the generated parser.

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

type opKind byte

const (
	opClass opKind = iota
	opLit
	opAny
	opSeq
	opChoice
	opOpt
	opStar
	opPlus
	opAnd
	opNot
	opCall
	opPunct // code predicate: the rune just consumed is punctuation
)

type expr struct {
	op   opKind
	kids []*expr
	set  map[rune]bool
	low  [4]uint64 // the part of set below 256
	has  bool      // whether set has anything from 256
	neg  bool
	lit  string
	name string // opCall: callee before resolution
	args []*expr
	rule int
}

type rule struct {
	name   string // full name, with template arguments
	base   string
	errRul bool // has an error name
	body   *expr
}

type grammar struct {
	rules []*rule
	index map[string]int
}

type ruleDef struct {
	name   string
	params []string
	err    bool
	body   *expr
}

// ---- reader ----

type gtok struct {
	kind byte // 'i' ident, 's' string, 'c' class, 'p' code predicate, or the symbol itself; 'a' is "<-"
	text string
}

func lexGrammar(src string) ([]gtok, error) {
	var toks []gtok
	rs := []rune(src)
	for i := 0; i < len(rs); {
		r := rs[i]
		switch {
		case unicode.IsSpace(r):
			i++
		case r == '#':
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
		case r == '<' && i+1 < len(rs) && rs[i+1] == '-':
			toks = append(toks, gtok{'a', "<-"})
			i += 2
		case r == '"' || r == '\'':
			j := i + 1
			for j < len(rs) && rs[j] != r {
				if rs[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(rs) {
				return nil, fmt.Errorf("unterminated string")
			}
			s, err := strconv.Unquote(`"` + string(rs[i+1:j]) + `"`)
			if err != nil {
				return nil, err
			}
			toks = append(toks, gtok{'s', s})
			i = j + 1
		case r == '[':
			j := i + 1
			for j < len(rs) && rs[j] != ']' {
				if rs[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(rs) {
				return nil, fmt.Errorf("unterminated class")
			}
			toks = append(toks, gtok{'c', string(rs[i+1 : j])})
			i = j + 1
		case r == '&' && i+1 < len(rs) && rs[i+1] == '{':
			depth := 0
			j := i + 1
			for ; j < len(rs); j++ {
				if rs[j] == '{' {
					depth++
				}
				if rs[j] == '}' {
					depth--
					if depth == 0 {
						break
					}
				}
			}
			toks = append(toks, gtok{'p', ""})
			i = j + 1
		case r == '_' || unicode.IsLetter(r) || unicode.IsMark(r):
			j := i
			for j < len(rs) && (rs[j] == '_' || unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || unicode.IsMark(rs[j])) {
				j++
			}
			toks = append(toks, gtok{'i', string(rs[i:j])})
			i = j
		default:
			toks = append(toks, gtok{byte(r), string(r)})
			i++
		}
	}
	return toks, nil
}

type greader struct {
	t []gtok
	i int
}

func (g *greader) peek() byte {
	if g.i < len(g.t) {
		return g.t[g.i].kind
	}
	return 0
}

// atDef reports whether a rule definition begins at the current token.
func (g *greader) atDef() bool {
	j := g.i
	if j >= len(g.t) || g.t[j].kind != 'i' {
		return false
	}
	j++
	if j < len(g.t) && g.t[j].kind == '<' {
		for j < len(g.t) && g.t[j].kind != '>' {
			j++
		}
		j++
	}
	if j < len(g.t) && g.t[j].kind == 's' {
		j++
	}
	return j < len(g.t) && g.t[j].kind == 'a'
}

func readGrammar(src string) (map[string]*ruleDef, []string, error) {
	toks, err := lexGrammar(src)
	if err != nil {
		return nil, nil, err
	}
	g := &greader{t: toks}
	defs := map[string]*ruleDef{}
	var order []string
	for g.i < len(g.t) {
		if !g.atDef() {
			return nil, nil, fmt.Errorf("want rule definition at token %d %q", g.i, g.t[g.i].text)
		}
		d := &ruleDef{name: g.t[g.i].text}
		g.i++
		if g.peek() == '<' {
			g.i++
			for g.peek() != '>' {
				if g.peek() == 'i' {
					d.params = append(d.params, g.t[g.i].text)
				}
				g.i++
			}
			g.i++
		}
		if g.peek() == 's' {
			d.err = true
			g.i++
		}
		g.i++ // <-
		b, err := g.choice()
		if err != nil {
			return nil, nil, fmt.Errorf("rule %s: %v", d.name, err)
		}
		d.body = b
		if defs[d.name] != nil {
			return nil, nil, fmt.Errorf("rule %s defined twice", d.name)
		}
		defs[d.name] = d
		order = append(order, d.name)
	}
	return defs, order, nil
}

func (g *greader) choice() (*expr, error) {
	var alts []*expr
	for {
		s, err := g.seq()
		if err != nil {
			return nil, err
		}
		alts = append(alts, s)
		if g.peek() != '/' {
			break
		}
		g.i++
	}
	if len(alts) == 1 {
		return alts[0], nil
	}
	return &expr{op: opChoice, kids: alts}, nil
}

func (g *greader) seq() (*expr, error) {
	var kids []*expr
	for {
		k := g.peek()
		if k == 0 || k == '/' || k == ')' || k == ',' || k == '>' || (k == 'i' && g.atDef()) {
			break
		}
		e, err := g.pred()
		if err != nil {
			return nil, err
		}
		kids = append(kids, e)
	}
	if len(kids) == 0 {
		return nil, fmt.Errorf("empty sequence")
	}
	if len(kids) == 1 {
		return kids[0], nil
	}
	return &expr{op: opSeq, kids: kids}, nil
}

func (g *greader) pred() (*expr, error) {
	switch g.peek() {
	case 'p':
		g.i++
		return &expr{op: opPunct}, nil
	case '&', '!':
		op := opAnd
		if g.peek() == '!' {
			op = opNot
		}
		g.i++
		e, err := g.pred()
		if err != nil {
			return nil, err
		}
		return &expr{op: op, kids: []*expr{e}}, nil
	}
	e, err := g.operand()
	if err != nil {
		return nil, err
	}
	for {
		var op opKind
		switch g.peek() {
		case '?':
			op = opOpt
		case '*':
			op = opStar
		case '+':
			op = opPlus
		default:
			return e, nil
		}
		g.i++
		e = &expr{op: op, kids: []*expr{e}}
	}
}

func (g *greader) operand() (*expr, error) {
	if g.i >= len(g.t) {
		return nil, fmt.Errorf("unexpected end")
	}
	t := g.t[g.i]
	g.i++
	switch t.kind {
	case '(':
		e, err := g.choice()
		if err != nil {
			return nil, err
		}
		if g.peek() != ')' {
			return nil, fmt.Errorf("want )")
		}
		g.i++
		return e, nil
	case '.':
		return &expr{op: opAny}, nil
	case 's':
		return &expr{op: opLit, lit: t.text}, nil
	case 'c':
		return classExpr(t.text)
	case 'i':
		e := &expr{op: opCall, name: t.text}
		// A label is name:expr.
		if g.peek() == ':' {
			g.i++
			return g.pred()
		}
		if g.peek() == '<' {
			g.i++
			for {
				a, err := g.operand()
				if err != nil {
					return nil, err
				}
				e.args = append(e.args, a)
				if g.peek() == ',' {
					g.i++
					continue
				}
				break
			}
			if g.peek() != '>' {
				return nil, fmt.Errorf("want >")
			}
			g.i++
		}
		return e, nil
	}
	return nil, fmt.Errorf("unexpected %q", t.text)
}

func classExpr(s string) (*expr, error) {
	e := &expr{op: opClass, set: map[rune]bool{}}
	rs := []rune(s)
	i := 0
	if len(rs) > 0 && rs[0] == '^' {
		e.neg = true
		i = 1
	}
	next := func() (rune, error) {
		r := rs[i]
		i++
		if r != '\\' || i >= len(rs) {
			return r, nil
		}
		r = rs[i]
		i++
		switch r {
		case 't':
			return '\t', nil
		case 'n':
			return '\n', nil
		case 'r':
			return '\r', nil
		case 'u':
			n, err := strconv.ParseUint(string(rs[i:i+4]), 16, 32)
			i += 4
			return rune(n), err
		}
		return r, nil
	}
	for i < len(rs) {
		a, err := next()
		if err != nil {
			return nil, err
		}
		b := a
		if i+1 < len(rs) && rs[i] == '-' {
			i++
			if b, err = next(); err != nil {
				return nil, err
			}
		}
		for r := a; r <= b; r++ {
			e.set[r] = true
			if r < 256 {
				e.low[r>>6] |= 1 << (uint(r) & 63)
			} else {
				e.has = true
			}
		}
	}
	return e, nil
}

// expandGrammar instantiates templates, starting at the given rules.
func expandGrammar(defs map[string]*ruleDef, starts ...string) (*grammar, error) {
	g := &grammar{index: map[string]int{}}
	type bind map[string]string
	var callName func(e *expr, b bind) (string, error)
	callName = func(e *expr, b bind) (string, error) {
		if e.op != opCall {
			return "", fmt.Errorf("template argument is not a name")
		}
		if len(e.args) == 0 {
			if s, ok := b[e.name]; ok {
				return s, nil
			}
			return e.name, nil
		}
		var as []string
		for _, a := range e.args {
			s, err := callName(a, b)
			if err != nil {
				return "", err
			}
			as = append(as, s)
		}
		return e.name + "<" + strings.Join(as, ",") + ">", nil
	}
	var use func(full string) (int, error)
	var resolve func(e *expr, b bind) (*expr, error)
	resolve = func(e *expr, b bind) (*expr, error) {
		if e.op == opCall {
			full, err := callName(e, b)
			if err != nil {
				return nil, err
			}
			i, err := use(full)
			if err != nil {
				return nil, err
			}
			return &expr{op: opCall, rule: i, name: full}, nil
		}
		c := *e
		c.kids = nil
		for _, k := range e.kids {
			r, err := resolve(k, b)
			if err != nil {
				return nil, err
			}
			c.kids = append(c.kids, r)
		}
		return &c, nil
	}
	use = func(full string) (int, error) {
		if i, ok := g.index[full]; ok {
			return i, nil
		}
		base, args := splitTemplate(full)
		d := defs[base]
		if d == nil {
			return 0, fmt.Errorf("undefined rule %s", full)
		}
		if len(d.params) != len(args) {
			return 0, fmt.Errorf("rule %s: wrong number of arguments in %s", base, full)
		}
		i := len(g.rules)
		r := &rule{name: full, base: base, errRul: d.err}
		g.rules = append(g.rules, r)
		g.index[full] = i
		b := bind{}
		for k, p := range d.params {
			b[p] = args[k]
		}
		body, err := resolve(d.body, b)
		if err != nil {
			return 0, err
		}
		r.body = body
		return i, nil
	}
	for _, s := range starts {
		if _, err := use(s); err != nil {
			return nil, err
		}
	}
	return g, nil
}

func splitTemplate(full string) (string, []string) {
	i := strings.IndexByte(full, '<')
	if i < 0 {
		return full, nil
	}
	var args []string
	depth, last := 0, i+1
	for j := i; j < len(full); j++ {
		switch full[j] {
		case '<':
			depth++
		case '>':
			depth--
			if depth == 0 {
				args = append(args, full[last:j])
			}
		case ',':
			if depth == 1 {
				args = append(args, full[last:j])
				last = j + 1
			}
		}
	}
	return full[:i], args
}

// ---- evaluation ----

type memEnt struct {
	gen  uint32
	end  int32
	perr int32
}

// A matcher evaluates a grammar. It is not safe for concurrent use.
type matcher struct {
	g      *grammar
	text   string
	memo   []memEnt
	gen    uint32
	hitEOF bool // whether anything looked at the end of the text
	steps  int
}

func newMatcher(g *grammar) *matcher { return &matcher{g: g} }

func (m *matcher) reset(text string) {
	m.text = text
	n := (len(text) + 1) * len(m.g.rules)
	if n > len(m.memo) {
		m.memo = make([]memEnt, n+n/2)
		m.gen = 0
	}
	m.gen++
	m.hitEOF = false
}

// match matches a rule at a position.
// It returns the end (or -1) and the furthest failure.
func (m *matcher) match(rule, pos int) (int, int) {
	e := &m.memo[pos*len(m.g.rules)+rule]
	if e.gen == m.gen {
		return int(e.end), int(e.perr)
	}
	m.steps++
	r := m.g.rules[rule]
	perr := -1
	end := m.eval(r.body, pos, &perr)
	if r.errRul {
		// A rule with an error name fails as a whole.
		perr = pos
		if end >= 0 {
			perr = -1
		}
	}
	e.gen, e.end, e.perr = m.gen, int32(end), int32(perr)
	return end, perr
}

func (m *matcher) eval(x *expr, pos int, perr *int) int {
	switch x.op {
	case opClass:
		if pos >= len(m.text) {
			m.hitEOF = true
			up(perr, pos)
			return -1
		}
		r, w := rune(m.text[pos]), 1
		if r >= utf8.RuneSelf {
			r, w = utf8.DecodeRuneInString(m.text[pos:])
		}
		var ok bool
		if r < 256 {
			ok = x.low[r>>6]>>(uint(r)&63)&1 != 0
		} else if x.has {
			ok = x.set[r]
		}
		if x.neg {
			ok = !ok && r != utf8.RuneError
		}
		if w == 0 || !ok {
			up(perr, pos)
			return -1
		}
		return pos + w
	case opLit:
		if pos+len(x.lit) > len(m.text) {
			m.hitEOF = true
		}
		if !strings.HasPrefix(m.text[pos:], x.lit) {
			up(perr, pos)
			return -1
		}
		return pos + len(x.lit)
	case opAny:
		r, w := utf8.DecodeRuneInString(m.text[pos:])
		if w == 0 {
			m.hitEOF = true
		}
		if w == 0 || r == utf8.RuneError {
			up(perr, pos)
			return -1
		}
		return pos + w
	case opPunct:
		r, _ := utf8.DecodeLastRuneInString(m.text[:pos])
		if !unicode.IsPunct(r) {
			up(perr, pos)
			return -1
		}
		return pos
	case opSeq:
		for _, k := range x.kids {
			if pos = m.eval(k, pos, perr); pos < 0 {
				return -1
			}
		}
		return pos
	case opChoice:
		for _, k := range x.kids {
			if e := m.eval(k, pos, perr); e >= 0 {
				return e
			}
		}
		return -1
	case opOpt:
		if e := m.eval(x.kids[0], pos, perr); e >= 0 {
			return e
		}
		return pos
	case opPlus, opStar:
		if x.op == opPlus {
			if pos = m.eval(x.kids[0], pos, perr); pos < 0 {
				return -1
			}
		}
		for {
			e := m.eval(x.kids[0], pos, perr)
			if e < 0 || e == pos {
				return pos
			}
			pos = e
		}
	case opAnd, opNot:
		before := *perr
		e := m.eval(x.kids[0], pos, perr)
		*perr = before
		if (e >= 0) == (x.op == opAnd) {
			return pos
		}
		up(perr, pos)
		return -1
	case opCall:
		e, pe := m.match(x.rule, pos)
		up(perr, pe)
		return e
	}
	panic("bad expression")
}

func up(p *int, v int) {
	if v > *p {
		*p = v
	}
}

// A cst is a concrete syntax tree of named rules.
type cst struct {
	rule *rule
	s, e int
	kids []*cst
}

func (m *matcher) tree(rule, pos int) *cst {
	end, _ := m.match(rule, pos)
	if end < 0 {
		return nil
	}
	n := &cst{rule: m.g.rules[rule], s: pos, e: end}
	m.treeExpr(n, n.rule.body, pos)
	return n
}

func (m *matcher) treeExpr(n *cst, x *expr, pos int) int {
	var dummy int
	switch x.op {
	case opSeq:
		for _, k := range x.kids {
			if pos = m.treeExpr(n, k, pos); pos < 0 {
				return -1
			}
		}
		return pos
	case opChoice:
		for _, k := range x.kids {
			if m.eval(k, pos, &dummy) >= 0 {
				return m.treeExpr(n, k, pos)
			}
		}
		return -1
	case opOpt:
		if m.eval(x.kids[0], pos, &dummy) >= 0 {
			return m.treeExpr(n, x.kids[0], pos)
		}
		return pos
	case opPlus, opStar:
		for {
			e := m.eval(x.kids[0], pos, &dummy)
			if e < 0 || e == pos {
				return pos
			}
			pos = m.treeExpr(n, x.kids[0], pos)
		}
	case opCall:
		k := m.tree(x.rule, pos)
		n.kids = append(n.kids, k)
		return k.e
	default:
		return m.eval(x, pos, &dummy)
	}
}
