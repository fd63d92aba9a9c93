package main

// C18: simplification.

func init() {
	register(&check{id: "C18", explore: exploreC18, one: checkC18})
}

func exploreC18(h *H) {
	want := map[string]bool{"lambda": true, "lambda-args": true, "identity": true, "identity2": true, "quotes": true,
		"quote-predicates": true, "content": true, "roi": true, "adverbs": true, "prepositions": true, "preposition-tree": true,
		"lu": true, "serial": true, "serial-args": true, "hi": true, "deep": true, "relative-var": true, "argument-tree": true}
	for _, s := range logicSpaces(h.quick()) {
		if want[s.name] {
			h.texts(s)
		}
	}
	q := 5
	if !h.quick() {
		q = 6
	}
	h.texts(space{name: "values", prefix: "ke do/", tokens: phrases(`jeqVtu- hoa/; jeqVtu- do/; lu? do? na; shu/ gi? ga; ji/ roi suq/; gi^ do/ na; na; bi; pa; gi? do/; mi? do/ ga; lu? hoa? do/ na`), sep: " ", depth: q})
}

// nf puts a formula in normal form: all descriptions by identity with a quote,
// plural or abstraction are replaced, all abstractions applied as far as possible,
// and plurals flattened.
func nf(x *lf, sub map[*lv]*lf) *lf {
	if x == nil {
		return nil
	}
	switch x.k {
	case kVar:
		if y := sub[x.v]; y != nil {
			return y
		}
		return x
	case kBind:
		r := nf(x.kids[0], sub)
		if val := definiens(x, r); val != nil {
			sub[x.v] = val
			return nf(x.kids[1], sub)
		}
		return x.with(r, nf(x.kids[1], sub))
	}
	kids := make([]*lf, len(x.kids))
	for i, k := range x.kids {
		kids[i] = nf(k, sub)
	}
	y := x.with(kids...)
	switch y.k {
	case kPlural:
		var flat []*lf
		for _, k := range kids {
			if k != nil && k.k == kPlural {
				flat = append(flat, k.kids...)
			} else {
				flat = append(flat, k)
			}
		}
		return y.with(flat...)
	case kPred:
		p, args := kids[0], kids[1:]
		swapped := false
		for p.k == kSwap {
			for len(args) <= p.n {
				args = append(args[:len(args):len(args)], nil)
			}
			args = append([]*lf{}, args...)
			args[0], args[p.n] = args[p.n], args[0]
			p = p.kids[0]
			swapped = true
		}
		if swapped {
			y = y.with(append([]*lf{p}, args...)...)
		}
		if p.k != kAbs {
			return y
		}
		var vs []*lv
		b := p.kids[0]
		for b.k == kBind && b.s == "λ" && b.kids[0] == nil {
			vs = append(vs, b.v)
			b = b.kids[1]
		}
		if len(vs) == 0 || len(vs) != len(args) {
			return y
		}
		s := map[*lv]*lf{}
		for i, a := range args {
			if a == nil {
				return y
			}
			s[vs[i]] = a
		}
		return nf(b, s)
	}
	return y
}

func checkC18(w *W, c string) {
	t, f := w.formula(c)
	if t == nil {
		return
	}
	raw, why := refFormula(convert(t))
	if why != "" || raw == nil {
		return
	}
	got := convertFormula(f)
	w.validated()
	g, e := nf(got, map[*lv]*lf{}), nf(addHoa(raw, nil), map[*lv]*lf{})
	if g.canon() != e.canon() {
		w.bad("formula\n  %s\nis not equivalent to\n  %s\nnormal forms\n  %s\n  %s", got.show(), raw.show(), g.show(), e.show())
	}
	// Nothing that can be simplified remains, and no variable of what was removed.
	asPred := map[*lv]bool{}
	var preds func(p *lf)
	preds = func(p *lf) {
		switch p.k {
		case kVar:
			asPred[p.v] = true
		case kSerial, kSwap:
			for _, k := range p.kids {
				preds(k)
			}
		}
	}
	got.visit(func(x *lf) {
		if x.k == kPred {
			preds(x.kids[0])
		}
	})
	got.visit(func(x *lf) {
		switch x.k {
		case kBind:
			if definiens(x, x.kids[0]) != nil && !asPred[x.v] {
				w.bad("a description by identity remains: %s", got.show())
			}
		case kPlural:
			for _, k := range x.kids {
				if k == nil || k.k == kPlural {
					w.bad("a plural within a plural remains: %s", got.show())
				}
			}
		case kPred:
			if x.kids[0].k == kSwap {
				w.bad("a swap remains: %s", got.show())
			}
			s := &simp{sub: map[*lv]*lf{}, asPred: asPred}
			if s.beta(x.kids[0], x.kids[1:]) != nil {
				w.bad("an applied abstraction remains: %s", got.show())
			}
		}
	})
	got.free(func(v *lf) { w.bad("a removed variable remains: %s", got.show()) })
}
