package main

// Checks of properties of syntax trees and tones: C08 to C12.

import (
	"fmt"
	"reflect"
	"strings"
	"unicode"

	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/tone"
)

func init() {
	register(&check{id: "C08", explore: exploreTrees, one: checkC08})
	register(&check{id: "C09", explore: exploreTrees, one: checkC09})
	register(&check{id: "C10", explore: exploreC10, one: checkC10})
	register(&check{id: "C11", explore: exploreC11, one: checkC11,
		assumptions: []string{"words are spelled with plain and precomposed letters, as in syntax trees"}})
	register(&check{id: "C12", explore: exploreC12, one: checkC12})
}

// exploreTrees covers trees of all shapes; spelling is of no concern.
func exploreTrees(h *H) {
	for _, s := range grammarSpaces(h.quick()) {
		if h.quick() && s.depth > 5 && len(s.tokens) > 3 {
			s.depth--
		}
		h.texts(s)
	}
	exploreMods(h)
	for _, s := range charSpaces(true) {
		if s.name == "questions" || s.name == "spacing" {
			s.depth--
			h.texts(s)
		}
	}
	if h.c.id != "C09" { // all nodes of a tree are tried as places to stop
		h.longTexts()
	}
}

// ---- C08 ----

// modelBraces is the bracketed form of a tree.
func modelBraces(t *T, depth int) string {
	var items []interface{}
	add := func(k *T) {
		for k != nil && k.Kind == "Space" {
			k = k.get("M")
		}
		if k != nil {
			items = append(items, k)
		}
	}
	if wordKinds[t.Kind] {
		if t.Kind != "Space" {
			items = append(items, t.Text)
		}
		add(t.get("M"))
	} else {
		for _, k := range t.Kids {
			add(k.T)
		}
	}
	var b strings.Builder
	d := depth
	if len(items) > 1 {
		b.WriteByte("({[<"[depth%4])
		d++
	}
	for i, x := range items {
		if i > 0 {
			b.WriteByte(' ')
		}
		switch x := x.(type) {
		case string:
			b.WriteString(x)
		case *T:
			b.WriteString(modelBraces(x, d))
		}
	}
	if len(items) > 1 {
		b.WriteByte(")}]>"[depth%4])
	}
	return b.String()
}

func checkC08(w *W, c string) {
	t := w.accepted(c)
	if t == nil {
		return
	}
	w.validated()
	for _, n := range allNodes(t) {
		var got string
		if p := try(func() { got = ast.BracesString(n) }); p != nil {
			w.bad("BracesString of a %T panics: %v", n, p)
			return
		}
		if want := modelBraces(convert(n), 0); got != want {
			w.bad("BracesString of a %T gives\n%s\nwant\n%s", n, got, want)
			return
		}
	}
}

// ---- C09 ----

type visitEvent struct {
	node  nodeID // zero for the call with nil
	owner int    // number of the visitor called
}

// numVisitor numbers the visitors it returns by the calls that returned them.
type numVisitor struct {
	id    int
	s     *visitState
	depth int
}

type visitState struct {
	events []visitEvent
	prune  map[int]bool
	n      int
}

func (v *numVisitor) Visit(n ast.Node) ast.Visitor {
	v.s.events = append(v.s.events, visitEvent{idOf(n), v.id})
	if n == nil {
		return nil
	}
	v.s.n++
	if v.s.prune[v.s.n] {
		return nil
	}
	return &numVisitor{id: v.s.n, s: v.s}
}

// modelVisit is what a traversal with numVisitors should do.
func modelVisit(n ast.Node, s *visitState, owner int) {
	s.events = append(s.events, visitEvent{idOf(n), owner})
	s.n++
	me := s.n
	if s.prune[me] {
		return
	}
	for _, k := range children(n) {
		modelVisit(k, s, me)
	}
	s.events = append(s.events, visitEvent{nodeID{}, me})
}

func checkC09(w *W, c string) {
	t := w.accepted(c)
	if t == nil {
		return
	}
	compare := func(root ast.Node, prune map[int]bool) bool {
		want := &visitState{prune: prune}
		modelVisit(root, want, 0)
		got := &visitState{prune: prune}
		if p := try(func() { ast.Visit(root, &numVisitor{s: got}) }); p != nil {
			w.bad("visiting a %T without the children of %v panics: %v", root, prune, p)
			return false
		}
		for i := 0; i < len(got.events) || i < len(want.events); i++ {
			if i >= len(got.events) || i >= len(want.events) || got.events[i] != want.events[i] {
				w.bad("visiting a %T without the children of %v: call %d of %d differs (want %d calls): %s", root, prune, i, len(got.events), len(want.events),
					describeEvents(got.events, want.events, i))
				return false
			}
		}
		w.nval++
		return true
	}
	nodes := allNodes(t)
	if !compare(t, nil) {
		return
	}
	// Every node as the root.
	for _, n := range nodes[1:] {
		if !compare(n, nil) {
			return
		}
	}
	// Every single pruned node; every pair in small trees.
	for i := 1; i <= len(nodes); i++ {
		if !compare(t, map[int]bool{i: true}) {
			return
		}
		if len(nodes) <= 14 {
			for j := i + 1; j <= len(nodes); j++ {
				if !compare(t, map[int]bool{i: true, j: true}) {
					return
				}
			}
		}
	}
	// FuncVisitor sees the same.
	var seen []nodeID
	ast.Visit(t, ast.FuncVisitor(func(n ast.Node) {
		if n != nil {
			seen = append(seen, idOf(n))
		}
	}))
	if len(seen) != len(nodes) {
		w.bad("FuncVisitor sees %d nodes of %d", len(seen), len(nodes))
	}
}

func describeEvents(got, want []visitEvent, i int) string {
	f := func(es []visitEvent) string {
		if i >= len(es) {
			return "nothing"
		}
		if es[i].node == (nodeID{}) {
			return fmt.Sprintf("nil to visitor %d", es[i].owner)
		}
		return fmt.Sprintf("%v to visitor %d", es[i].node.t, es[i].owner)
	}
	return "got " + f(got) + ", want " + f(want)
}

// ---- C10 ----

func exploreC10(h *H) {
	small, large := h.modBases()
	bases := append([]string{}, small...)
	for i, s := range large {
		if !h.quick() || i%4 == 0 || len(s) < 24 {
			bases = append(bases, s)
		}
	}
	h.cases("mutations", fmt.Sprintf("%d trees, each against every single change of a field of a node", len(bases)), func(emit func(string) bool) {
		for _, b := range bases {
			if !emit(b) || !emit(b+" .") || !emit(strings.ReplaceAll(b, " ", " bei ")) || !emit("kio "+b+" ki hu ji/") {
				return
			}
		}
	})
	h.cases("pairs", "all pairs of nodes of a set of texts with every node type", func(emit func(string) bool) {
		for i := range c10Texts {
			for j := range c10Texts {
				if !emit(fmt.Sprintf("\x00%d %d", i, j)) {
					return
				}
			}
		}
	})
}

// c10Texts have every type of node, and near misses of one another.
var c10Texts = []string{
	"", " ", "gi?", "gi? ", "gi? da", "je gi? da", "je gi? ka", "gi? da ru gi?", "gi? da ra gi?", "to ru gi? da to gi?", "ji/", "ji/ bi", "ji/ pa",
	"ji/ bi gi?", "ji/ pa gi?", "gi? ji/", "gi? ji/ na", "gi? na", "gi? ru gi?", "gi? na ru gi?", "to ru gi? na to gi?", "gi? gi?", "gi? mai?",
	"mi? gi?", "mi? gi? ga", "shu? gi? ga", "mi? ji/", "mi? gi~", "po? ji/", "po? ji/ ga", "jei? ji/", "mo? gi? teo", "mo? mai? teo", "lu? gi?", "ma? gi?", "lu? mai?",
	"gi? go ji/", "gi? fi ji/", "gi? to ru ji/ ji/ to ji/ ji/", "gi? to ru ji/ to ji/", "gi? ku ji/", "gi? sa ji/", "gi? ku sa ji/", "gi? ji/ giV", "gi? ji/ maiV",
	"gi? ji/ ru ji/", "gi? ji/ ra ji/", "giV", "luV gi?", "giV ru giV", "to ru giV to giV", "gi? gi~", "gi? gi~ ru gi~", "gi? to ru gi~ to gi~",
	"gi? gi\\ ji/", "gi? mai\\ ji/", "gi? gi\\ ji/ ru gi\\ ji/", "gi? gi\\ ru gi\\ ji/", "gi? gi^", "gi? lu^ gi?", "gi? gi^ ru gi?", "gi? to ru gi^ to gi?",
	"kio gi? ki", "kio mai? ki", "ju gi?", "hu ji/", "bei", "gi? bei", "gi? kio gi? ki", "gi? ju gi?", "gi? hu ji/", "gi? bei bei", "gi-", "gi?gi-", "Gi?",
}

func checkC10(w *W, c string) {
	if strings.HasPrefix(c, "\x00") {
		var i, j int
		fmt.Sscanf(c[1:], "%d %d", &i, &j)
		as, bs := c10Nodes(c10Texts[i]), c10Nodes(c10Texts[j])
		for _, a := range as {
			for _, b := range bs {
				compareEqual(w, a.n, b.n, a.s == b.s, "")
				if w.bads != nil {
					w.bad("comparing a %T of %q with a %T of %q", a.n, c10Texts[i], b.n, c10Texts[j])
					return
				}
			}
		}
		return
	}
	t := w.accepted(c)
	if t == nil {
		return
	}
	base := convert(t).ser(serContent)
	t2, _, _ := parseText(c)
	compareEqual(w, t, t, true, "itself")
	compareEqual(w, t, t2, true, "another parse")
	compareEqual(w, t, deepCopy(t), true, "a copy")
	n := 0
	for k := 0; w.bads == nil; k++ {
		cp := deepCopy(t)
		m := &mutator{k: k}
		m.walk(reflect.ValueOf(cp))
		if m.did == "" {
			break
		}
		n++
		cs := ""
		if p := try(func() { cs = convert(cp).ser(serContent) }); p != nil {
			panic(fmt.Sprintf("harness: %v after %s", p, m.did))
		}
		compareEqual(w, t, cp, cs == base, m.did)
	}
}

type serNode struct {
	n ast.Node
	s string
}

func c10Nodes(text string) []serNode {
	t, err, p := parseText(text)
	if err != nil || p != nil {
		return nil
	}
	var out []serNode
	for _, n := range allNodes(t) {
		out = append(out, serNode{n, convert(n).ser(serContent)})
	}
	return out
}

func compareEqual(w *W, a, b ast.Node, want bool, what string) {
	w.validated()
	for k := 0; k < 2; k++ {
		var got bool
		if p := try(func() { got = ast.Equal(a, b) }); p != nil {
			w.bad("Equal panics (%s, order %d): %v", what, k, p)
			return
		}
		if got != want {
			w.bad("Equal gives %v, want %v (%s, order %d)", got, want, what, k)
			return
		}
		a, b = b, a
	}
	if want {
		w.count("equal")
	} else {
		w.count("unequal")
	}
}

// A mutator makes the k-th possible change of a tree.
type mutator struct {
	k   int
	did string
}

// turn reports whether the change at hand is the one to make.
func (m *mutator) turn(f string, args ...interface{}) bool {
	if m.did != "" {
		return false
	}
	m.k--
	if m.k >= 0 {
		return false
	}
	m.did = fmt.Sprintf(f, args...)
	return true
}

func (m *mutator) walk(v reflect.Value) {
	if m.did != "" {
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			m.walk(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			m.walk(v.Index(i))
		}
		if !v.CanSet() || v.IsNil() {
			return
		}
		if v.Len() > 1 {
			if m.turn("last element of a %s dropped", v.Type()) {
				v.Set(v.Slice(0, v.Len()-1))
				return
			}
			if m.turn("first element of a %s dropped", v.Type()) {
				v.Set(v.Slice(1, v.Len()))
				return
			}
			if m.turn("elements of a %s swapped", v.Type()) {
				x := v.Index(0).Interface()
				v.Index(0).Set(v.Index(v.Len() - 1))
				v.Index(v.Len() - 1).Set(reflect.ValueOf(x))
				return
			}
		}
		if v.Len() > 0 && m.turn("element of a %s repeated", v.Type()) {
			v.Set(reflect.Append(v, v.Index(0)))
			return
		}
	case reflect.Struct:
		t := v.Type()
		if wordKinds[t.Name()] {
			tf, sf, ef, mf := v.FieldByName("T"), v.FieldByName("S"), v.FieldByName("E"), v.FieldByName("M")
			if m.turn("text of a %s changed", t) {
				tf.SetString(tf.String() + "x")
				return
			}
			if m.turn("case of a %s changed", t) {
				tf.SetString(strings.ToUpper(tf.String()))
				return
			}
			if m.turn("span of a %s changed", t) {
				sf.SetInt(sf.Int() + 3)
				ef.SetInt(ef.Int() + 5)
				return
			}
			if !mf.IsNil() {
				if m.turn("modifier of a %s dropped", t) {
					mf.Set(reflect.Zero(mf.Type()))
					return
				}
				m.walk(mf)
			} else if m.turn("modifier added to a %s", t) {
				mf.Set(reflect.ValueOf(&ast.Interjection{T: "bei"}))
			}
			return
		}
		for _, f := range fields(v) {
			fv := v.FieldByName(f)
			if fv.Type() == wordPtrType {
				if fv.IsNil() {
					if m.turn("%s added to a %s", f, t) {
						fv.Set(reflect.ValueOf(&ast.Word{T: "na"}))
						return
					}
				} else if m.turn("%s of a %s dropped", f, t) {
					fv.Set(reflect.Zero(fv.Type()))
					return
				}
			}
			// Optional parts that are not words.
			if (f == "Terms" && t.Name() == "Predication" || f == "Relative" || f == "Leading") && !fv.IsNil() && m.turn("%s of a %s dropped", f, t) {
				fv.Set(reflect.Zero(fv.Type()))
				return
			}
			if f == "Relative" && fv.IsNil() && m.turn("Relative added to a %s", t) {
				x, _, _ := parseText("giV")
				fv.Set(reflect.ValueOf(x.Discourse[0]))
				return
			}
			if f == "Leading" && fv.IsNil() && m.turn("Leading added to a %s", t) {
				fv.Set(reflect.ValueOf(&ast.Space{T: " "}))
				return
			}
			if f == "Terms" && t.Name() == "Predication" && fv.IsNil() && m.turn("Terms added to a %s", t) {
				x, _, _ := parseText("ji/")
				fv.Set(reflect.ValueOf(x.Discourse[0]))
				return
			}
			m.walk(fv)
			if m.did != "" {
				return
			}
		}
		if l := v.FieldByName("Left"); l.IsValid() && m.turn("sides of a %s swapped", t) {
			r := v.FieldByName("Right")
			x := l.Interface()
			l.Set(r)
			r.Set(reflect.ValueOf(x))
		}
	}
}

// ---- C11 ----

func exploreC11(h *H) {
	// Syllables with every tone; later syllables carry the compound tone in
	// real words but the laws are stated for every tone.
	h.cases("one-syllable", "every initial x desinence x tone x letter form x case", func(emit func(string) bool) {
		for _, ini := range append([]string{""}, initials...) {
			for _, des := range desinences {
				for _, s := range toneForms(ini, des) {
					for _, x := range letterCases(s) {
						if !emit(x) {
							return
						}
					}
				}
			}
		}
	})
	some := [][2]string{{"g", "i"}, {"ch", "uaq"}, {"s", "ao"}, {"k", "e"}, {"n", "iaiq"[:3]}, {"h", "oq"}, {"t", "u"}}
	if !h.quick() {
		some = append(some, [][2]string{{"sh", "ea"}, {"j", "ie"}, {"d", "oeq"}, {"r", "eoq"}, {"p", "ui"}}...)
	}
	var one []string
	for _, s := range some {
		one = append(one, toneForms(s[0], s[1])...)
	}
	one = dedup(one)
	h.cases("two-syllables", fmt.Sprintf("all pairs of %d syllables in every tone, letter form and two cases", len(one)), func(emit func(string) bool) {
		for _, a := range one {
			for _, b := range one {
				if !emit(a+b) || !emit(strings.ToUpper(strings.ReplaceAll(a+b, "ı", "i"))) {
					return
				}
			}
		}
	})
	h.cases("letters", "every character up to U+2FFFF that is not a marker, vowel or q, between two syllables", func(emit func(string) bool) {
		for r := rune(1); r < 0x30000; r++ {
			if strings.ContainsRune(string(tones), r) || r >= 0xd800 && r < 0xe000 {
				continue
			}
			if _, _, ok := readVowel(r); ok || r == 'q' || r == 'Q' {
				continue // no boundary of syllables
			}
			if !emit("gỉ" + string(r) + "á") {
				return
			}
		}
	})
	few := one
	if h.quick() {
		few = nil
		for i := 0; i < len(one); i += 3 {
			few = append(few, one[i])
		}
	}
	h.cases("three-syllables", fmt.Sprintf("all triples of %d syllables", len(few)), func(emit func(string) bool) {
		for _, a := range few {
			for _, b := range few {
				for _, x := range few {
					if !emit(a + b + x) {
						return
					}
				}
			}
		}
	})
}

// toneForms returns a syllable in every tone with precomposed letters.
func toneForms(ini, des string) []string {
	dot := func(s string) []string {
		return dedup([]string{strings.ReplaceAll(s, "i", "ı"), s})
	}
	var out []string
	out = append(out, dot(ini+des)...)
	for i := range tones {
		for _, rest := range dot(des[1:]) {
			out = append(out, ini+toned(rune(des[0]), tones[i])+rest)
			if tones[i] == 'V' {
				out = append(out, ini+breves[rune(des[0])]+rest)
			}
		}
	}
	return out
}

// A toneSyl is a syllable as the model reads it.
type toneSyl struct {
	plain string // ASCII letters with case
	tone  rune
}

// readSyls splits a word in syllables.
func readSyls(s string) []toneSyl {
	var out []toneSyl
	vowel := false
	cur := toneSyl{}
	flush := func() {
		if cur.plain != "" {
			out = append(out, cur)
		}
		cur = toneSyl{}
		vowel = false
	}
	for _, r := range s {
		if p, t, ok := readVowel(r); ok {
			if t != 0 {
				cur.tone = rune(t)
			}
			cur.plain += string(p)
			vowel = true
			continue
		}
		if r != 'q' && r != 'Q' && vowel {
			flush()
		}
		cur.plain += string(r)
	}
	flush()
	return out
}

// readVowel returns the ASCII letter and tone of a vowel.
func readVowel(r rune) (rune, byte, bool) {
	if r == 'ı' {
		return 'i', 0, true
	}
	if strings.ContainsRune(plainVowels, r) {
		return r, 0, true
	}
	for i := range tones {
		for k, x := range []rune(precomposed[tones[i]]) {
			if x == r {
				return rune(plainVowels[k]), tones[i], true
			}
		}
	}
	for k, x := range []rune(breveVowels) {
		if x == r {
			return rune(plainVowels[k]), 'V', true
		}
	}
	return 0, 0, false
}

func checkC11(w *W, c string) {
	w.validated()
	syls := readSyls(c)
	var ascii, plain string
	for _, s := range syls {
		plain += s.plain
		ascii += s.plain
		if s.tone != 0 {
			ascii += string(s.tone)
		}
	}
	if p := try(func() {
		if got := tone.ToASCII(c); got != ascii {
			w.bad("ToASCII(%q) = %q, want %q", c, got, ascii)
		}
		if got := tone.ToASCII(ascii); got != ascii {
			w.bad("ToASCII(%q) = %q", ascii, got)
		}
		if got := tone.Strip(c); got != plain {
			w.bad("Strip(%q) = %q, want %q", c, got, plain)
		}
		if got := tone.Strip(ascii); got != plain && !strings.ContainsRune(plain, 'V') {
			w.bad("Strip(%q) = %q, want %q", ascii, got, plain)
		}
		if got := tone.Tone(c); got != syls[0].tone {
			w.bad("Tone(%q) = %q, want %q", c, got, syls[0].tone)
		}
		for i := -1; i < len(tones); i++ {
			t := tone.None
			if i >= 0 {
				t = rune(tones[i])
			}
			want := setTone(c, t)
			got := tone.WithTone(c, t)
			if got != want {
				w.bad("WithTone(%q, %q) = %q, want %q", c, t, got, want)
				return
			}
			if r := tone.Tone(got); r != t {
				w.bad("the tone of %q is read as %q after setting it to %q", got, r, t)
			}
			if r := tone.Strip(got); r != plain {
				w.bad("setting the tone of %q to %q changes its letters: %q", c, t, got)
			}
			back := tone.WithTone(got, syls[0].tone)
			if back != setTone(c, syls[0].tone) {
				w.bad("setting the tone of %q to %q and back gives %q", c, t, back)
			}
		}
	}); p != nil {
		w.bad("%q: panic: %v", c, p)
	}
}

// setTone is the model of WithTone.
func setTone(c string, t rune) string {
	var b strings.Builder
	done := false
	for _, r := range c {
		p, _, ok := readVowel(r)
		if !ok || done {
			b.WriteRune(r)
			continue
		}
		done = true
		switch {
		case t != 0:
			b.WriteString(toned(p, byte(t)))
		case p == 'i':
			b.WriteRune('ı')
		default:
			b.WriteRune(p)
		}
	}
	return b.String()
}

// ---- C12 ----

func exploreC12(h *H) {
	exploreTrees(h)
	exploreWords(h)
}

func checkC12(w *W, c string) {
	t := w.accepted(c)
	if t == nil {
		return
	}
	w.validated()
	base := convert(t).ser(serContent)
	same := func(what, s string) *ast.Text {
		u, err, p := parseText(s)
		if p != nil {
			w.bad("parsing the %s text %q panics: %v", what, s, p)
			return nil
		}
		if err != nil {
			w.bad("the %s text %q is rejected: %v", what, s, err)
			return nil
		}
		if got := convert(u).ser(serContent); got != base {
			w.bad("the %s text %q gives another tree\n%s\nthan the original\n%s", what, s, got, base)
			return nil
		}
		eq := false
		if p := try(func() { eq = ast.Equal(t, u) }); p != nil || !eq {
			w.bad("the tree of the %s text %q does not compare equal to the original (%v)", what, s, p)
		}
		return u
	}
	norm := convert(t).text()
	if u := same("normalised", norm); u != nil {
		if got := convert(u).text(); got != norm {
			w.bad("normalising %q again gives %q", norm, got)
		}
	}
	a := deepCopy(t).(*ast.Text)
	if p := try(func() { ast.ToASCII(a) }); p != nil {
		w.bad("ToASCII panics: %v", p)
		return
	}
	once := convert(a).ser(serContent)
	asc := convert(a).text()
	convert(a).words(func(x *T, space bool) {
		if !space {
			for _, r := range x.Text {
				if r > unicode.MaxASCII {
					w.bad("ToASCII leaves the word %q", x.Text)
					return
				}
			}
		}
	})
	if u := same("ASCII", asc); u != nil {
		ast.ToASCII(u)
		if got := convert(u).ser(serContent); got != once {
			w.bad("the ASCII form of the tree of %q is\n%s\nwant\n%s", asc, got, once)
		}
	}
	ast.ToASCII(a)
	if got := convert(a).ser(serContent); got != once {
		w.bad("converting to ASCII twice gives\n%s\nonce\n%s", got, once)
	}
}
