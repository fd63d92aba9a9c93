package main

// The reference interpretation: the rules by which a text means a formula.
// It works on the common form of syntax trees, with immutable environments
// and continuations.

import (
	"strings"
)

// unsupported is thrown for a construct that is not supported.
type unsupported string

type vbind struct {
	name string
	v    *lv
	up   *vbind
}

type hoaBind struct {
	v  *lv
	up *hoaBind
}

// renv is what is in scope.
type renv struct {
	vars *vbind
	hoa  *hoaBind
}

func (e renv) lookup(name string) *lv {
	for b := e.vars; b != nil; b = b.up {
		if b.name == name {
			return b.v
		}
	}
	return nil
}

func (e renv) bind(name string, v *lv) renv {
	e.vars = &vbind{name, v, e.vars}
	return e
}

func (e renv) withHoa(v *lv) renv {
	e.hoa = &hoaBind{v, e.hoa}
	return e
}

// lift is a binding that is to be put at an outer level.
type lift struct {
	node *T
	q    string
	v    *lv
	r    *lf
}

type refInterp struct {
	n   int
	top []lift
	hi  [][]lift
	// done are the phrases that already have a lifted binding.
	done map[*T]lift
}

func (in *refInterp) fresh(bound bool) *lv {
	in.n++
	return &lv{bound: bound, n: in.n}
}

// refFormula returns the formula before simplification, nil if there is none.
func refFormula(text *T) (f *lf, why unsupported) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				panic(r)
			}
			f, why = nil, u
		}
	}()
	in := &refInterp{done: map[*T]lift{}}
	d := text.get("Discourse")
	if d == nil {
		return nil, ""
	}
	for _, k := range d.Kids {
		if k.T.Kind != "StatementSentence" && k.T.Kind != "CoPSentence" {
			continue
		}
		s := in.sentence(k.T)
		if f == nil {
			f = s
		} else {
			f = lfCon("∧", f, s)
		}
	}
	if f == nil {
		return nil, ""
	}
	for i := len(in.top) - 1; i >= 0; i-- {
		f = lfBind("ι", in.top[i].v, in.top[i].r, f)
	}
	return f, ""
}

func (in *refInterp) sentence(t *T) *lf {
	if t.Kind == "StatementSentence" {
		return in.subordinate(renv{}, t.get("Statement"))
	}
	if c := bare(t.get("RU").Text); c != "ru" {
		panic(unsupported("bad sentence connector: " + c))
	}
	l := in.sentence(t.get("Left"))
	return lfCon("∧", l, in.sentence(t.get("Right")))
}

// subordinate interprets a statement at whose top hi-phrases are introduced.
func (in *refInterp) subordinate(e renv, t *T) *lf {
	in.hi = append(in.hi, nil)
	f := in.statement(e, nil, t)
	his := in.hi[len(in.hi)-1]
	in.hi = in.hi[:len(in.hi)-1]

	keep := map[*lv]bool{}
	for b := e.vars; b != nil; b = b.up {
		keep[b.v] = true
	}
	for b := e.hoa; b != nil; b = b.up {
		keep[b.v] = true
	}
	for _, l := range in.top {
		keep[l.v] = true
	}
	for _, h := range his {
		keep[h.v] = true
	}
	for i := len(his) - 1; i >= 0; i-- {
		h := his[i]
		f = lfBind("¿", h.v, in.loosen(h.r, keep), f)
		delete(in.done, h.node)
	}
	return f
}

// loosen makes the free variables that are not kept unbound.
func (in *refInterp) loosen(x *lf, keep map[*lv]bool) *lf {
	loose := map[*lf]bool{}
	x.free(func(v *lf) {
		if !keep[v.v] {
			loose[v] = true
		}
	})
	if len(loose) == 0 {
		return x
	}
	var walk func(x *lf) *lf
	walk = func(x *lf) *lf {
		if x == nil {
			return nil
		}
		if loose[x] {
			y := *x
			y.v = in.fresh(false)
			return &y
		}
		if len(x.kids) == 0 {
			return x
		}
		kids := make([]*lf, len(x.kids))
		for i, k := range x.kids {
			kids[i] = walk(k)
		}
		return x.with(kids...)
	}
	return walk(x)
}

// rarg is an argument of a predication; pos 0 means the next free place.
type rarg struct {
	f   *lf
	pos int
}

func addArg(as []rarg, f *lf, pos int) []rarg {
	return append(as[:len(as):len(as)], rarg{f, pos})
}

func (in *refInterp) statement(e renv, as []rarg, t *T) *lf {
	switch t.Kind {
	case "Predication":
		return in.terms(e, as, false, kidsOf(t.get("Terms")), func(e renv, as []rarg) *lf {
			return in.predication(e, t.get("Predicate"), as)
		})
	case "PrenexStatement":
		p := t.get("Prenex")
		bi := bare(p.get("BI").Text) != "pa"
		return in.terms(e, as, bi, kidsOf(p.get("Terms")), func(e renv, as []rarg) *lf {
			if bi {
				as = nil
			}
			return in.statement(e, as, t.get("Statement"))
		})
	case "CoPStatement":
		c := connective(t)
		l := in.statement(e, as, t.get("Left"))
		return lfCon(c, l, in.statement(e, as, t.get("Right")))
	}
	panic("model: statement " + t.Kind)
}

func kidsOf(t *T) []*T {
	if t == nil {
		return nil
	}
	var ts []*T
	for _, k := range t.Kids {
		ts = append(ts, k.T)
	}
	return ts
}

// terms interprets terms from left to right; rest is what they scope over.
// The arguments of a bi-prenex are not used by what follows.
func (in *refInterp) terms(e renv, as []rarg, bi bool, ts []*T, rest func(renv, []rarg) *lf) *lf {
	if len(ts) == 0 {
		return rest(e, as)
	}
	t, more := ts[0], ts[1:]
	// tail is the remainder of the statement.
	tail := func(e renv, as []rarg) *lf { return in.terms(e, as, bi, more, rest) }
	switch t.Kind {
	case "TermSet":
		c := connective(t)
		l := in.terms(e, as, bi, append(kidsOf(t.get("Left")), more...), rest)
		return lfCon(c, l, in.terms(e, as, bi, append(kidsOf(t.get("Right")), more...), rest))
	case "LinkedTerm":
		pos := map[string]int{"fi": 1, "go": 2, "cu": 3, "ta": 4}[bare(t.get("GO").Text)]
		if pos == 0 {
			panic("model: linking word " + t.get("GO").Text)
		}
		return in.argumentBi(e, t.get("Argument"), bi, func(e renv, a *lf) *lf {
			return tail(e, addArg(as, a, pos))
		})
	case "CoPArgument", "PredicateArgument":
		return in.argumentBi(e, t, bi, func(e renv, a *lf) *lf {
			return tail(e, addArg(as, a, 0))
		})
	case "PredicateAdverb", "CoPAdverb":
		content := tail(e, as)
		x := in.fresh(true)
		r := lfPred(in.equals(lfAbs(content)), lfVar(x))
		if in.dependent(content) {
			return lfBind("Λ", x, r, in.adverb(e, t, x))
		}
		in.top = append(in.top, lift{t, "ι", x, r})
		return in.adverb(e, t, x)
	case "PredicationPreposition", "CoPPreposition":
		top, hi := in.top, in.hi[len(in.hi)-1]
		done := map[*T]lift{}
		for k, v := range in.done {
			done[k] = v
		}
		content := tail(e, as)
		if !in.dependent(content) {
			x := in.fresh(true)
			in.top = append(in.top, lift{t, "ι", x, lfPred(in.equals(lfAbs(content)), lfVar(x))})
			return in.preposition(e, t, func(e renv, p *T, a *lf) *lf {
				return in.predication(e, p, []rarg{{lfVar(x), 0}, {a, 0}})
			})
		}
		// The rest is in the scope of the argument of the preposition.
		in.top, in.done = top, done
		in.hi[len(in.hi)-1] = hi
		return in.preposition(e, t, func(e renv, p *T, a *lf) *lf {
			content := tail(e, as)
			x := in.fresh(true)
			r := lfPred(in.equals(lfAbs(content)), lfVar(x))
			return lfBind("Λ", x, r, in.predication(e, p, []rarg{{lfVar(x), 0}, {a, 0}}))
		})
	}
	panic("model: term " + t.Kind)
}

func (in *refInterp) adverb(e renv, t *T, x *lv) *lf {
	if t.Kind == "CoPAdverb" {
		c := connective(t)
		l := in.adverb(e, t.get("Left"), x)
		return lfCon(c, l, in.adverb(e, t.get("Right"), x))
	}
	return in.predication(e, t.get("Predicate"), []rarg{{lfVar(x), 0}})
}

func (in *refInterp) preposition(e renv, t *T, f func(renv, *T, *lf) *lf) *lf {
	if t.Kind == "CoPPreposition" {
		c := connective(t)
		l := in.preposition(e, t.get("Left"), f)
		return lfCon(c, l, in.preposition(e, t.get("Right"), f))
	}
	return in.argument(e, t.get("Argument"), func(e renv, a *lf) *lf {
		return f(e, t.get("Predicate"), a)
	})
}

// argument interprets an argument phrase that scopes over rest.
func (in *refInterp) argument(e renv, t *T, rest func(renv, *lf) *lf) *lf {
	return in.argumentBi(e, t, false, rest)
}

// argumentBi is argument; bi says whether the argument is used nowhere.
func (in *refInterp) argumentBi(e renv, t *T, bi bool, rest func(renv, *lf) *lf) *lf {
	if t.Kind == "CoPArgument" {
		if bare(t.get("RU").Text) == "roi" {
			x := in.fresh(true)
			r := in.argument(e, t.get("Left"), func(e renv, l *lf) *lf {
				return in.argument(e, t.get("Right"), func(e renv, r *lf) *lf {
					return lfPred(lfWord("="), lfVar(x), &lf{k: kPlural, kids: []*lf{l, r}})
				})
			})
			return lfBind("ι", x, r, rest(e, lfVar(x)))
		}
		c := connective(t)
		l := in.argumentBi(e, t.get("Left"), bi, rest)
		return lfCon(c, l, in.argumentBi(e, t.get("Right"), bi, rest))
	}
	if t.Kind != "PredicateArgument" {
		panic("model: argument " + t.Kind)
	}
	focus := t.get("Focus") != nil
	// A focus word marks the argument wherever it is used.
	mark := func(a *lf) *lf {
		b := *a
		b.focus = focus
		return &b
	}
	inPlace := func(q string, v *lv, r, s *lf) *lf {
		b := lfBind(q, v, r, s)
		b.focus = focus && bi
		return b
	}
	if d, ok := in.done[t]; ok && !in.rebound(e, d) {
		return rest(e, mark(lfVar(d.v)))
	}
	pred, rel := t.get("Predicate"), t.get("Relative")
	q := "ι"
	if w := t.get("Quantifier"); w != nil {
		q = map[string]string{"ke": "ι", "ja": "λ", "sa": "∃", "tu": "∀", "sia": "∄", "hi": "¿"}[bare(w.Text)]
		if q == "" {
			panic("model: quantifier " + w.Text)
		}
	}
	x := in.fresh(true)
	if name, ok := variableName(pred); ok {
		if t.get("Quantifier") != nil {
			e := e.bind(name, x)
			var r *lf
			if rel != nil {
				r = in.relative(e.withHoa(x), rel)
			}
			return inPlace(q, x, r, rest(e, mark(&lf{k: kVar, v: x, s: name})))
		}
		return in.among(e, x, in.variable(e, name), rel, false, mark, inPlace, rest)
	}
	if isHoa(pred) {
		if e.hoa == nil {
			return rest(e, mark(lfVar(in.fresh(false))))
		}
		return in.among(e, x, lfVar(e.hoa.v), rel, t.get("Quantifier") != nil, mark, inPlace, rest)
	}
	r := in.predication(e, pred, []rarg{{mark(lfVar(x)), 0}})
	if rel != nil {
		r = lfCon("∧", r, in.relative(e.withHoa(x), rel))
	}
	switch q {
	case "ι":
		if in.dependentBut(r, x) {
			return inPlace("Λ", x, r, rest(e, mark(lfVar(x))))
		}
		l := lift{t, q, x, r}
		in.top = append(in.top, l)
		in.done[t] = l
		return rest(e, mark(lfVar(x)))
	case "¿":
		l := lift{t, q, x, r}
		in.hi[len(in.hi)-1] = append(in.hi[len(in.hi)-1], l)
		in.done[t] = l
		return rest(e, mark(lfVar(x)))
	}
	return inPlace(q, x, r, rest(e, mark(lfVar(x))))
}

// among restricts a referent.
func (in *refInterp) among(e renv, x *lv, a *lf, rel *T, always bool, mark func(*lf) *lf, inPlace func(string, *lv, *lf, *lf) *lf, rest func(renv, *lf) *lf) *lf {
	if rel == nil && !always {
		return rest(e, mark(a))
	}
	r := lfPred(lfWord("≺"), mark(lfVar(x)), a)
	if rel != nil {
		r = lfCon("∧", r, in.relative(e.withHoa(x), rel))
	}
	return inPlace("Λ", x, r, rest(e, mark(lfVar(x))))
}

// rebound says whether an unbound variable of a description is bound here.
func (in *refInterp) rebound(e renv, d lift) bool {
	found := false
	if d.q == "ι" {
		d.r.visit(func(x *lf) {
			if x.k == kVar && !x.v.bound && x.s != "" && e.lookup(x.s) != nil {
				found = true
			}
		})
	}
	return found
}

func (in *refInterp) variable(e renv, name string) *lf {
	v := e.lookup(name)
	if v == nil {
		v = in.fresh(false)
	}
	return &lf{k: kVar, v: v, s: name}
}

// dependent says whether a formula has variables bound outside of it,
// other than at the outermost level.
func (in *refInterp) dependent(x *lf) bool { return in.dependentBut(x, nil) }

func (in *refInterp) dependentBut(x *lf, but *lv) bool {
	dep := false
	x.free(func(v *lf) {
		if v.v == but {
			return
		}
		for _, l := range in.top {
			if l.v == v.v {
				return
			}
		}
		dep = true
	})
	return dep
}

func (in *refInterp) relative(e renv, t *T) *lf {
	switch t.Kind {
	case "PredicationRelative":
		return in.subordinate(e, t.get("Predication"))
	case "LURelative":
		return in.subordinate(e, t.get("Statement"))
	case "CoPRelative":
		c := connective(t)
		l := in.relative(e, t.get("Left"))
		r := t.get("Right")
		if strings.HasSuffix(r.Kind, "Relative") {
			return lfCon(c, l, in.relative(e, r))
		}
		return lfCon(c, l, in.subordinate(e, r))
	}
	panic("model: relative clause " + t.Kind)
}

func connective(t *T) string {
	c := bare(t.get("RU").Text)
	switch c {
	case "ru":
		return "∧"
	case "ra":
		return "∨"
	case "ri":
		return "?"
	case "roi":
		panic(unsupported("bad connector: " + c))
	}
	panic(unsupported("impossible: " + c))
}

// predication applies a predicate to arguments; connected predicates distribute.
func (in *refInterp) predication(e renv, t *T, as []rarg) *lf {
	n := len(as)
	for _, a := range as {
		if a.pos > n {
			n = a.pos
		}
	}
	args := make([]*lf, n)
	for _, a := range as {
		if a.pos > 0 {
			args[a.pos-1] = a.f
		}
	}
	i := 0
	for _, a := range as {
		if a.pos == 0 {
			for args[i] != nil {
				i++
			}
			args[i] = a.f
		}
	}
	return in.predicate(e, t).each(func(p *lf) *lf { return lfPred(p, args...) })
}

// ptree is a predicate or a connection of predicates.
type ptree struct {
	p    *lf
	c    string
	l, r *ptree
}

func (t *ptree) each(f func(*lf) *lf) *lf {
	if t.p != nil {
		return f(t.p)
	}
	return lfCon(t.c, t.l.each(f), t.r.each(f))
}

func (t *ptree) subst(f func(*lf) *ptree) *ptree {
	if t.p != nil {
		return f(t.p)
	}
	return &ptree{c: t.c, l: t.l.subst(f), r: t.r.subst(f)}
}

func single(p *lf) *ptree { return &ptree{p: p} }

// equals is the predicate of being something.
func (in *refInterp) equals(a *lf) *lf { return in.lambda2(lfWord("="), a) }

func (in *refInterp) lambda2(p, a *lf) *lf {
	x := in.fresh(true)
	return lfAbs(lfBind("λ", x, nil, lfPred(p, lfVar(x), a)))
}

func (in *refInterp) predicate(e renv, t *T) *ptree {
	switch t.Kind {
	case "WordPredicate":
		if name, ok := variableName(t); ok {
			return single(in.variable(e, name))
		}
		if isHoa(t) {
			if e.hoa == nil {
				return single(lfVar(in.fresh(false)))
			}
			return single(lfVar(e.hoa.v))
		}
		return single(lfWord(predName(t.Text)))
	case "SerialPredicate":
		l := in.predicate(e, t.get("Left"))
		r := in.predicate(e, t.get("Right"))
		return l.subst(func(a *lf) *ptree {
			return r.subst(func(b *lf) *ptree {
				return single(&lf{k: kSerial, kids: []*lf{a, b}})
			})
		})
	case "CoPPredicate":
		c := connective(t)
		left := t.get("Left")
		if left.Kind == "PredicateArgument" {
			// to ru ji/ to gi?: a predicate with the tone of an argument.
			left = left.get("Predicate")
		}
		l := in.predicate(e, left)
		return &ptree{c: c, l: l, r: in.predicate(e, t.get("Right"))}
	case "MIPredicate":
		q := &lf{k: kQuote, s: strings.TrimSpace(t.get("Phrase").text())}
		switch w := bare(t.get("MI").Text); w {
		case "mi":
			return single(in.lambda2(&lf{k: kSwap, n: 1, kids: []*lf{lfWord("chua")}}, q))
		case "shu":
			return single(in.equals(q))
		}
	case "MOPredicate":
		return single(in.equals(&lf{k: kQuote, full: true, s: strings.TrimSpace(t.get("Discourse").text())}))
	case "POPredicate":
		p := map[string]string{"po": "raq", "jei": "="}[bare(t.get("PO").Text)]
		if p == "" {
			break
		}
		x := in.fresh(true)
		return single(lfAbs(lfBind("λ", x, nil, in.argument(e, t.get("Argument"), func(_ renv, a *lf) *lf {
			return lfPred(lfWord(p), lfVar(x), a)
		}))))
	case "LUPredicate":
		if bare(t.get("LU").Text) != "lu" {
			return single(lfAbs(in.subordinate(e, t.get("Statement"))))
		}
		x := in.fresh(true)
		return single(lfAbs(lfBind("λ", x, nil, in.subordinate(e.withHoa(x), t.get("Statement")))))
	case "CoPContent":
		c := connective(t)
		l := in.predicate(e, t.get("Left"))
		if r := t.get("Right"); strings.HasSuffix(r.Kind, "Content") {
			return &ptree{c: c, l: l, r: in.predicate(e, r)}
		}
		return &ptree{c: c, l: l, r: single(in.equals(lfAbs(in.subordinate(e, t.get("Right")))))}
	case "LUContent":
		return single(in.equals(lfAbs(in.subordinate(e, t.get("Statement")))))
	case "PredicationContent":
		return single(in.equals(lfAbs(in.subordinate(e, t.get("Predication")))))
	}
	panic("model: predicate " + t.Kind)
}

// bare returns the letters of a word in lower case without tones.
func bare(s string) string {
	var b strings.Builder
	for _, r := range s {
		if base, _, ok := readVowel(r); ok {
			r = base
		}
		if r >= 'A' && r <= 'Z' {
			r += 'a' - 'A'
		}
		if r == 'ı' {
			r = 'i'
		}
		if r >= 'a' && r <= 'z' {
			b.WriteRune(r)
		}
	}
	return b.String()
}

func predName(s string) string {
	switch n := bare(s); n {
	case "mea":
		return "≺"
	case "jeqtu":
		return "="
	default:
		return n
	}
}

func variableName(t *T) (string, bool) {
	if t.Kind != "WordPredicate" {
		return "", false
	}
	n := bare(t.Text)
	if !strings.HasPrefix(n, "do") || len(n) > 2 && strings.IndexByte("aeiouq", n[2]) >= 0 {
		return "", false
	}
	return n, true
}

func isHoa(t *T) bool { return t.Kind == "WordPredicate" && bare(t.Text) == "hoa" }

// addHoa supplies the argument of restrictions that have none.
func addHoa(x *lf, b *lv) *lf {
	if x == nil {
		return nil
	}
	switch x.k {
	case kBind:
		return x.with(addHoa(x.kids[0], x.v), addHoa(x.kids[1], nil))
	case kCon:
		return x.with(addHoa(x.kids[0], b), addHoa(x.kids[1], b))
	case kPred:
		if b != nil && len(x.kids) == 1 {
			used := false
			x.visit(func(y *lf) { used = used || y.k == kVar && y.v == b })
			if !used {
				return x.with(addHoa(x.kids[0], nil), lfVar(b))
			}
		}
	}
	if len(x.kids) == 0 {
		return x
	}
	kids := make([]*lf, len(x.kids))
	for i, k := range x.kids {
		kids[i] = addHoa(k, nil)
	}
	return x.with(kids...)
}

// simp simplifies formulas.
type simp struct {
	sub map[*lv]*lf
	// asPred are the variables that are used as predicates.
	asPred map[*lv]bool
}

func refSimplify(x *lf) *lf {
	s := &simp{sub: map[*lv]*lf{}, asPred: map[*lv]bool{}}
	var preds func(p *lf)
	preds = func(p *lf) {
		switch p.k {
		case kVar:
			s.asPred[p.v] = true
		case kSerial, kSwap:
			for _, k := range p.kids {
				preds(k)
			}
		}
	}
	x.visit(func(x *lf) {
		if x.k == kPred {
			preds(x.kids[0])
		}
	})
	return s.do(x)
}

func (s *simp) do(x *lf) *lf {
	if x == nil {
		return nil
	}
	switch x.k {
	case kBind:
		r := s.do(x.kids[0])
		if val := definiens(x, r); val != nil && !s.asPred[x.v] {
			s.sub[x.v] = val
			return s.do(x.kids[1])
		}
		return x.with(r, s.do(x.kids[1]))
	case kVar:
		if y := s.sub[x.v]; y != nil {
			return y
		}
		return x
	case kPlural:
		var kids []*lf
		for _, k := range x.kids {
			if k = s.do(k); k != nil && k.k == kPlural {
				kids = append(kids, k.kids...)
			} else {
				kids = append(kids, k)
			}
		}
		return x.with(kids...)
	case kPred:
		args := make([]*lf, len(x.kids)-1)
		for i, a := range x.kids[1:] {
			args[i] = s.do(a)
		}
		p := x.kids[0]
		for p.k == kSwap {
			for len(args) <= p.n {
				args = append(args, nil)
			}
			args[0], args[p.n] = args[p.n], args[0]
			p = p.kids[0]
		}
		if body := s.beta(p, args); body != nil {
			return s.do(body)
		}
		return x.with(append([]*lf{s.predicate(p)}, args...)...)
	}
	kids := make([]*lf, len(x.kids))
	for i, k := range x.kids {
		kids[i] = s.do(k)
	}
	return x.with(kids...)
}

func (s *simp) predicate(p *lf) *lf {
	switch p.k {
	case kVar:
		if y := s.sub[p.v]; y != nil && y.k == kVar {
			return y
		}
		return p
	case kAbs:
		return s.do(p)
	case kSerial:
		return p.with(s.predicate(p.kids[0]), s.predicate(p.kids[1]))
	case kSwap:
		return p.with(s.predicate(p.kids[0]))
	}
	return p
}

// definiens returns what a description by identity is identical to.
func definiens(x, r *lf) *lf {
	if x.s != "ι" && x.s != "Λ" || r == nil || r.k != kPred || len(r.kids) != 3 {
		return nil
	}
	p, a, b := r.kids[0], r.kids[1], r.kids[2]
	if p.k != kWord || p.s != "=" || a == nil || b == nil {
		return nil
	}
	if a.k != kVar {
		a, b = b, a
	}
	if a.k != kVar || a.v != x.v || b.k != kQuote && b.k != kPlural && b.k != kAbs {
		return nil
	}
	in := false
	b.visit(func(y *lf) { in = in || y.k == kVar && y.v == x.v })
	if in {
		return nil
	}
	return b
}

// beta returns the body of an abstraction if it can be applied to the arguments.
func (s *simp) beta(p *lf, args []*lf) *lf {
	if p.k != kAbs {
		return nil
	}
	var vs []*lv
	b := p.kids[0]
	for b.k == kBind && b.s == "λ" && b.kids[0] == nil {
		vs = append(vs, b.v)
		b = b.kids[1]
	}
	if len(vs) == 0 || len(vs) != len(args) {
		return nil
	}
	for i, a := range args {
		if a == nil || a.k != kVar && s.asPred[vs[i]] {
			return nil
		}
	}
	for i, a := range args {
		s.sub[vs[i]] = a
	}
	return b
}
