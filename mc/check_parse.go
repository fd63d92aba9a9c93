package main

// Checks of properties of parsing: C01 to C07 and C26.

import (
	"fmt"
	"os"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/eaburns/peggy/peg"
	"github.com/eaburns/toaq/ast"
)

// try calls f and returns what it panics with.
func try(f func()) (p interface{}) {
	defer func() {
		if r := recover(); r != nil {
			p = r
		}
	}()
	f()
	return nil
}

// parseText parses with the code under test.
func parseText(text string) (t *ast.Text, e ast.Error, p interface{}) {
	p = try(func() { t, e = ast.NewParser(text).Text() })
	return
}

// accepted parses a text that both the grammar and the code accept;
// otherwise it returns nil, and the case is of no concern.
func (w *W) accepted(c string) *ast.Text {
	if !w.verdict(c).ok {
		return nil
	}
	t, err, p := parseText(c)
	if err != nil || p != nil || t == nil {
		w.count("not parsed")
		return nil
	}
	w.count("parsed")
	return t
}

func visitText(n ast.Node) string {
	var b strings.Builder
	ast.Visit(n, ast.FuncVisitor(func(n ast.Node) {
		if x, ok := n.(*ast.Word); ok {
			b.WriteString(x.T)
		}
	}))
	return b.String()
}

func init() {
	register(&check{id: "C01", explore: exploreParsing, one: checkC01,
		assumptions: []string{"the normalised spelling of a text is that of the reference grammar's words"}})
	register(&check{id: "C02", explore: exploreParsing, one: checkC02,
		assumptions: []string{"the Toaq grammar is ref_grammar.peg, a frozen copy of the published grammar"}})
	register(&check{id: "C03", explore: exploreC03, one: checkC03})
	register(&check{id: "C04", explore: exploreParsing, one: checkC04})
	register(&check{id: "C05", explore: exploreC05, one: checkC05})
	register(&check{id: "C06", explore: exploreC06, one: checkC06})
	register(&check{id: "C07", explore: exploreC07, one: checkC07})
	register(&check{id: "C26", explore: exploreParsing, one: checkC26,
		assumptions: []string{"code predicates of the grammar file are the test for punctuation"}})
}

func checkC01(w *W, c string) {
	t := w.accepted(c)
	if t == nil {
		return
	}
	w.validated()
	want := w.r.tree(c).text()
	if got := convert(t).text(); got != want {
		w.bad("the words of the tree spell %q, want %q", got, want)
	}
	if p := try(func() {
		if got := visitText(t); got != want {
			w.bad("the words visited spell %q, want %q", got, want)
		}
	}); p != nil {
		w.bad("traversing the tree panics: %v", p)
	}
	var n *peg.Node
	var err ast.Error
	if p := try(func() { n, err = ast.NewParser(c).Tree() }); p != nil || err != nil {
		return // C03
	}
	if n.Text != c {
		w.bad("the parse tree's text is %q", n.Text)
	}
	if s := pegNodeBad(n); s != "" {
		w.bad("%s", s)
	}
}

// pegNodeBad checks that inner nodes have the text of their children.
func pegNodeBad(n *peg.Node) string {
	if len(n.Kids) == 0 {
		return ""
	}
	var s string
	for _, k := range n.Kids {
		s += k.Text
	}
	if s != n.Text {
		return fmt.Sprintf("parse tree node %s has text %q, its children %q", n.Name, n.Text, s)
	}
	for _, k := range n.Kids {
		if s := pegNodeBad(k); s != "" {
			return s
		}
	}
	return ""
}

func checkC02(w *W, c string) {
	v := w.verdict(c)
	t, err, p := parseText(c)
	w.validated()
	if p != nil {
		w.bad("the parser panics: %v", p)
		return
	}
	if v.ok != (err == nil) {
		w.bad("accepted by the grammar: %v; by the parser: %v (%v)", v.ok, err == nil, err)
		return
	}
	if !v.ok {
		w.count("rejected")
	} else {
		w.count("accepted")
		want := w.r.tree(c).ser(serContent)
		got := convert(t).ser(serContent)
		if want != got {
			w.bad("tree differs\nwant %s\ngot  %s", want, got)
		}
	}
	if len(c) > 12 {
		return
	}
	// The words at offsets of the text.
	parser := ast.NewParser(c)
	for o := 0; o <= len(c) && w.bads == nil; o++ {
		if o > 3 && o < len(c)-1 {
			continue
		}
		var wd *ast.Word
		var n int
		if p := try(func() { wd, n, err = parser.Word(o) }); p != nil {
			w.bad("Word(%d) panics: %v", o, p)
			return
		}
		want, k, _ := w.r.word(c, o)
		if (want != nil) != (err == nil) {
			w.bad("a word at %d in the grammar: %v; in the parser: %v (%v)", o, want != nil, err == nil, err)
		} else if err == nil {
			if n != k {
				w.bad("Word(%d) has %d bytes, want %d", o, n, k)
			}
			if want, got := want.ser(serContent), convert(wd).ser(serContent); want != got {
				w.bad("Word(%d) differs\nwant %s\ngot  %s", o, want, got)
			}
		}
	}
	w.v = verdict{} // the matcher is no longer at the whole text
}

// ---- C03 ----

func exploreC03(h *H) {
	exploreParsing(h)
	// Long texts: termination and depth.
	alpha := toks("gi? ji/ gi- giV gi^ gi~ gi\\ na bi da je go sa ku ru to lu? lu/ mi? po/ mo? ga teo kio ki ju hu bei moq ,")
	n := 12
	if !h.quick() {
		n = 40
	}
	h.cases("repetition", fmt.Sprintf("every pair of %d tokens repeated 1..%d times, in steps", len(alpha), n), func(emit func(string) bool) {
		for _, a := range alpha {
			for _, b := range alpha {
				for k := n / 2; k <= n; k += n / 2 {
					if !emit(strings.Repeat(a+" "+b+" ", k)) {
						return
					}
				}
			}
		}
	})
	h.cases("deep", "single constructs nested or repeated up to 300 times", func(emit func(string) bool) {
		for _, a := range alpha {
			for _, k := range []int{50, 100, 300} {
				if !emit(strings.Repeat(a+" ", k)) || !emit(strings.Repeat(a, k)) {
					return
				}
			}
		}
		for _, k := range []int{20, 60} {
			for _, f := range [][3]string{{"lu? ", "gi?", ""}, {"kio ", "gi?", " ki"}, {"mo? ", "gi?", " teo"}, {"po? ", "ji/", " ga"},
				{"to ru ", "gi?", " to gi?"}, {"gi? ", "ji/", ""}, {"mi? ", "gi?", " ga"}, {"gi\xc3\xad ", "gi?", "\xff"}} {
				if !emit(strings.Repeat(f[0], k) + f[1] + strings.Repeat(f[2], k)) {
					return
				}
			}
		}
	})
}

func checkC03(w *W, c string) {
	w.validated()
	t, err, p := parseText(c)
	if p != nil {
		w.bad("Text panics: %v", p)
		return
	}
	if (t == nil) == (err == nil) {
		w.bad("Text returns tree %v and error %v", t != nil, err)
		return
	}
	var n *peg.Node
	var terr ast.Error
	if p := try(func() { n, terr = ast.NewParser(c).Tree() }); p != nil {
		w.bad("Tree panics: %v", p)
		return
	}
	if (n == nil) == (terr == nil) {
		w.bad("Tree returns tree %v and error %v", n != nil, terr)
		return
	}
	if (err == nil) != (terr == nil) {
		w.bad("Text accepts: %v, Tree accepts: %v", err == nil, terr == nil)
		return
	}
	if err != nil {
		w.count("rejected")
		if p := try(func() { _ = err.Error() }); p != nil {
			w.bad("the error's message panics: %v", p)
		}
	} else {
		w.count("accepted")
		if n.Text != c {
			w.bad("Tree consumed only %d of %d bytes", len(n.Text), len(c))
		}
		last := 0
		convert(t).words(func(x *T, _ bool) {
			if x.E > last {
				last = x.E
			}
		})
		if last != len(c) {
			w.bad("Text consumed only %d of %d bytes", last, len(c))
		}
	}
	if len(c) > 12 && w.h.quick() && w.space != "crash" {
		return // words are covered by the shorter texts
	}
	for o := 0; o <= len(c); o++ {
		if o > 3 && o < len(c)-3 {
			continue
		}
		var wd *ast.Word
		var we ast.Error
		var k int
		if p := try(func() { wd, k, we = ast.NewParser(c).Word(o) }); p != nil {
			w.bad("Word(%d) panics: %v", o, p)
			return
		}
		if (wd == nil) == (we == nil) {
			w.bad("Word(%d) returns word %v and error %v", o, wd != nil, we)
			return
		}
		if we == nil && (k <= 0 || o+k > len(c)) {
			w.bad("Word(%d) consumed %d of %d bytes", o, k, len(c)-o)
		}
	}
}

// ---- C04 ----

func checkC04(w *W, c string) {
	t := w.accepted(c)
	if t == nil {
		return
	}
	w.validated()
	pos := 0
	convert(t).words(func(x *T, space bool) {
		if x.S != pos || x.E < x.S || x.E > len(c) {
			w.bad("word %q has span %d:%d, want it to start at %d in a text of %d bytes", x.Text, x.S, x.E, pos, len(c))
			pos = x.E
			return
		}
		pos = x.E
		raw := c[x.S:x.E]
		if !space {
			raw = normWord(raw)
		}
		if raw != x.Text {
			w.bad("word %q has span %d:%d, where the text is %q", x.Text, x.S, x.E, c[x.S:x.E])
		}
	})
	if pos != len(c) {
		w.bad("the last word ends at %d in a text of %d bytes", pos, len(c))
	}
	if w.bads != nil {
		return
	}
	spans(t, func(n ast.Node, ws, we int) {
		var s, e int
		if p := try(func() { s = n.Start() }); p != nil {
			w.bad("%T.Start panics: %v", n, p)
			return
		}
		if p := try(func() { e = n.End() }); p != nil {
			w.bad("%T.End panics: %v", n, p)
			return
		}
		if s != ws || e != we {
			w.bad("%T has span %d:%d, its words %d:%d", n, s, e, ws, we)
		}
	})
}

// ---- C05 ----

var syllableRE = regexp.MustCompile(`^(ch|sh|[bcdfghjklmnprst])([aeiou]+q?)([-/V?^\\~]?)`)

// notations rewrites an ASCII text in other spellings of the same words.
// It returns nil if the text is not made of plain ASCII syllables.
func notations(c string) []string {
	type syl struct {
		ini, des string
		tone     byte
	}
	type part struct {
		syl *syl
		raw string
	}
	var parts []part
	for i := 0; i < len(c); {
		m := syllableRE.FindStringSubmatch(c[i:])
		if m == nil {
			_, n := utf8.DecodeRuneInString(c[i:])
			if c[i] > ' ' && !strings.ContainsRune(".,:!;", rune(c[i])) {
				return nil
			}
			parts = append(parts, part{raw: c[i : i+n]})
			i += n
			continue
		}
		s := &syl{ini: m[1], des: m[2]}
		if m[3] != "" {
			s.tone = m[3][0]
		}
		parts = append(parts, part{syl: s})
		i += len(m[0])
	}
	var out []string
	for k := 0; ; k++ {
		var b strings.Builder
		more := false
		for _, p := range parts {
			if p.syl == nil {
				b.WriteString(p.raw)
				continue
			}
			sp := spell(p.syl.ini, p.syl.des, p.syl.tone)
			if k < len(sp) {
				more = true
				b.WriteString(sp[k])
			} else {
				b.WriteString(sp[len(sp)-1])
			}
		}
		if !more {
			break
		}
		out = append(out, b.String())
	}
	return dedup(out)
}

func exploreC05(h *H) {
	h.cases("syllables", "every initial x desinence x tone, in 7 contexts; all spellings and cases of each", func(emit func(string) bool) {
		ctx := []string{"@", "gi? @", "gi?@"}
		if !h.quick() {
			ctx = append(ctx, "@ji/", "gi?@gi-", "gi? @ ji/", "to ru @ to @")
		}
		for _, ini := range initials {
			for _, des := range desinences {
				for ti := -1; ti < len(tones); ti++ {
					s := ini + des
					if ti >= 0 {
						s += tones[ti : ti+1]
					}
					for _, x := range ctx {
						if !emit(strings.ReplaceAll(x, "@", s)) {
							return
						}
					}
				}
			}
		}
	})
	h.cases("function-words", "every function word x tone in every context; all spellings and cases", func(emit func(string) bool) {
		for _, f := range functionWords {
			for ti := -1; ti < len(tones); ti++ {
				s := f
				if ti >= 0 {
					s += tones[ti : ti+1]
				}
				for _, x := range functionContexts {
					if !emit(strings.ReplaceAll(x, "@", s)) {
						return
					}
				}
			}
		}
	})
	d := 4
	if h.quick() {
		d = 3
	}
	h.texts(space{name: "grammar", tokens: toks("gi? jio/ kuaq- giaV geo^ gi~ giai\\ na bi da je go sa ku ru to lu? luV mi/ po^ mo~ ga teo kio ki ju hu bei"), sep: " ", depth: d})
	h.texts(space{name: "glued", tokens: toks("gi? jio/ kuaq- gieV na sa to ru"), sep: "", depth: d + 1})
}

func checkC05(w *W, c string) {
	if c == "" || strings.Contains(c, "moq?") {
		return // a question mark, not a tone
	}
	ns := notations(c)
	if ns == nil {
		panic("harness: not an ASCII text: " + c)
	}
	base, berr, p := parseText(c)
	if p != nil {
		w.bad("panics: %v", p)
		return
	}
	w.validated()
	var bt string
	if berr == nil {
		w.count("accepted")
		bt = convert(base).ser(serContent)
	} else {
		w.count("rejected")
	}
	for _, n := range ns {
		for ci, x := range letterCases(n) {
			t, err, p := parseText(x)
			if p != nil {
				w.bad("spelling %q panics: %v", x, p)
				return
			}
			if (err == nil) != (berr == nil) {
				w.bad("%q accepted: %v, spelling %q accepted: %v", c, berr == nil, x, err == nil)
				return
			}
			if err != nil {
				continue
			}
			ct := convert(t)
			if ci == 0 {
				if got := ct.ser(serContent); got != bt {
					w.bad("%q and %q give different trees\n%s\n%s", c, x, bt, got)
					return
				}
				eq := false
				if p := try(func() { eq = ast.Equal(base, t) && ast.Equal(t, base) }); p != nil || !eq {
					w.bad("the trees of %q and %q are not equal (%v)", c, x, p)
					return
				}
				continue
			}
			// The case of every letter is that of the input.
			if got, want := ct.text(), normText(x); got != want {
				w.bad("%q is read as %q, want %q", x, got, want)
				return
			}
			lowerT(ct)
			if got := ct.ser(serContent); got != bt {
				w.bad("%q and %q give different trees\n%s\n%s", c, x, bt, got)
				return
			}
		}
	}
}

// normText normalises the words of a text without parsing it: runs of
// characters other than spacing are words.
func normText(s string) string {
	var b strings.Builder
	word := ""
	flush := func() { b.WriteString(normWord(word)); word = "" }
	for _, r := range s {
		if strings.ContainsRune(" .,:!;\n", r) {
			flush()
			b.WriteRune(r)
			continue
		}
		word += string(r)
	}
	flush()
	return b.String()
}

// lowerT lower-cases all words; I without a tone becomes ı.
func lowerT(t *T) {
	if wordKinds[t.Kind] {
		t.Text = strings.ReplaceAll(strings.ToLower(t.Text), "i", "ı")
	}
	for _, k := range t.Kids {
		lowerT(k.T)
	}
}

// ---- C06 ----

func exploreC06(h *H) {
	for _, s := range grammarSpaces(h.quick()) {
		if h.quick() && s.depth > 4 && len(s.tokens) > 3 {
			s.depth--
		}
		h.texts(s)
	}
	for _, s := range charSpaces(h.quick()) {
		h.texts(s)
	}
	h.longTexts()
	h.texts(space{name: "lines", tokens: append(toks("gi? , x í \xff ki «"), "\n"), sep: "", depth: 5})
	h.cases("runes", "every character to U+0500 and every byte in 6 contexts", func(emit func(string) bool) {
		emitRunes(0x500, emit)
	})
}

var msgRE = regexp.MustCompile(`^(.*?):(\d+)\.(\d+): `)

// c06path is the file path that the parser is told to report.
const c06path = "dir/a b.toaq"

func lineCol(s string) (l, c int) {
	l, c = 1, 1
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		i += n
		c++
		if r == '\n' {
			l++
			c = 1
		}
	}
	return l, c
}

func checkC06(w *W, c string) {
	v := w.verdict(c)
	check := func(what, path string, err ast.Error, perr int) {
		w.validated()
		var offs int
		var msg string
		var tree *peg.Fail
		if p := try(func() { offs, msg, tree = err.ByteOffset(), err.Error(), err.Tree() }); p != nil {
			w.bad("%s: asking for the error panics: %v", what, p)
			return
		}
		if offs != perr {
			w.bad("%s: reported at byte %d, want %d", what, offs, perr)
			return
		}
		m := msgRE.FindStringSubmatch(msg)
		if m == nil {
			w.bad("%s: message %q has no location", what, msg)
			return
		}
		l, col := lineCol(c[:perr])
		if m[2] != strconv.Itoa(l) || m[3] != strconv.Itoa(col) {
			w.bad("%s: reported at %s.%s, want %d.%d (byte %d)", what, m[2], m[3], l, col, perr)
		}
		if m[1] != path {
			w.bad("%s: message %q does not begin with the parser's file path %q", what, msg, path)
		}
		got := "EOF"
		if perr < len(c) {
			end := perr + 10
			if end > len(c) {
				end = len(c)
			}
			got = "'" + c[perr:end] + "'"
		}
		if !strings.HasSuffix(msg, "; got "+got) {
			w.bad("%s: message %q does not say got %s", what, msg, got)
		}
		seen := map[*peg.Fail]bool{}
		at := false
		var walk func(f *peg.Fail)
		walk = func(f *peg.Fail) {
			if f == nil || seen[f] {
				return
			}
			seen[f] = true
			if len(f.Kids) == 0 && f.Pos > perr {
				w.bad("%s: a leaf %s%s of the failure tree is at %d, the error at %d", what, f.Name, f.Want, f.Pos, perr)
			}
			at = at || len(f.Kids) == 0 && f.Pos == perr && f.Want != ""
			for _, k := range f.Kids {
				walk(k)
			}
		}
		if tree == nil {
			w.bad("%s: no failure tree", what)
		}
		walk(tree)
		if !at {
			w.bad("%s: no leaf of the failure tree is at the error, %d", what, perr)
		}
	}
	if !v.ok {
		_, err, p := parseText(c)
		if p != nil || err == nil {
			w.count("not rejected")
		} else {
			w.count("rejected")
			check("Text", "", err, v.perr)
			var terr, perr ast.Error
			if p := try(func() {
				p := ast.NewParser(c)
				p.FilePath = c06path
				_, terr = p.Tree()
				_, perr = p.Text()
			}); p == nil && terr != nil && perr != nil {
				check("Tree", c06path, terr, v.perr)
				check("Text after Tree", c06path, perr, v.perr)
			}
		}
	}
	if w.bads != nil || len(c) > 24 {
		return
	}
	for o := 0; o <= len(c); o++ {
		if o > 3 && o < len(c)-3 {
			continue
		}
		if o < len(c) && !utf8.RuneStart(c[o]) {
			continue // in the middle of a character
		}
		t, n, perr := w.r.word(c, o)
		w.v = verdict{}
		var wd *ast.Word
		var k int
		var err ast.Error
		if p := try(func() {
			p := ast.NewParser(c)
			p.FilePath = c06path
			wd, k, err = p.Word(o)
		}); p != nil {
			continue
		}
		if (t != nil) != (err == nil) {
			w.count("word verdict differs")
			continue
		}
		if err != nil {
			w.count("word rejected")
			check(fmt.Sprintf("Word(%d)", o), c06path, err, perr)
		} else if k != n || wd.T != t.Text {
			w.count("word differs")
		}
	}
}

// ---- C07 ----

var c07texts = []string{"", "gi?", "ji/ gi?", "gi? ji/ ru suq/ da", "kio gi? ki mai? ji/", "sa ji/ giV bi gi? gi^ na", "to ru gi? to gi?", "mo? gi? teo na",
	"gi? to ru ji/ ji/ to ji/ ji/", "lu? gi? ru", "hu ji/ po? ji/ ga gi~", " , gi? .", "x", "gi? gi", "ji/ bi", "to ru gi? to", "gi? \xff", "kio gi?", "mo? gi? na"}

// A case of C07 is a text, a newline and a sequence of operations:
// T text, R tree, W word at offset 0, w word at offset 4, e word at the end;
// lower-case m after an operation scrambles what it returned.
func exploreC07(h *H) {
	n := 4
	if h.quick() {
		n = 3
	}
	ops := []string{"T", "R", "W", "w", "e", "Tm", "Rm", "Wm", "wm"}
	h.cases("histories", fmt.Sprintf("%d texts x all sequences of up to %d of %q", len(c07texts), n, ops), func(emit func(string) bool) {
		for _, t := range c07texts {
			var rec func(seq string, d int) bool
			rec = func(seq string, d int) bool {
				if seq != "" && !emit(t+"\x00"+seq) {
					return false
				}
				if d == n {
					return true
				}
				for _, o := range ops {
					if !rec(seq+o, d+1) {
						return false
					}
				}
				return true
			}
			if !rec("", 0) {
				return
			}
		}
	})
}

func dumpPeg(n *peg.Node) string {
	if n == nil {
		return "nil"
	}
	s := "(" + n.Name + strconv.Quote(n.Text)
	for _, k := range n.Kids {
		s += dumpPeg(k)
	}
	return s + ")"
}

func dumpErr(e ast.Error) string {
	if e == nil {
		return ""
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%d %s", e.ByteOffset(), e.Error())
	seen := map[*peg.Fail]int{}
	var walk func(f *peg.Fail)
	walk = func(f *peg.Fail) {
		if i, ok := seen[f]; ok {
			fmt.Fprintf(&b, "#%d", i)
			return
		}
		seen[f] = len(seen)
		fmt.Fprintf(&b, "(%s %d %s", f.Name, f.Pos, f.Want)
		for _, k := range f.Kids {
			walk(k)
		}
		b.WriteString(")")
	}
	walk(e.Tree())
	return b.String()
}

func checkC07(w *W, c string) {
	i := strings.LastIndex(c, "\x00")
	text, seq := c[:i], c[i+1:]
	type res struct {
		dump     func() string // of the result, as it is now
		want     string
		scramble func()
	}
	do := func(p *ast.Parser, op byte) *res {
		offs := -1
		switch op {
		case 'T':
			t, e := p.Text()
			return &res{dump: func() string {
				if e != nil {
					return "error " + dumpErr(e)
				}
				return convert(t).ser(serFull)
			}, scramble: func() {
				if t != nil {
					scramble(reflect.ValueOf(t))
				}
				if e != nil {
					scrambleFail(e.Tree())
				}
			}}
		case 'R':
			t, e := p.Tree()
			return &res{dump: func() string { return dumpPeg(t) + dumpErr(e) }, scramble: func() {
				if t != nil {
					scramblePeg(t)
				}
				if e != nil {
					scrambleFail(e.Tree())
				}
			}}
		case 'W':
			offs = 0
		case 'w':
			offs = 4
		case 'e':
			offs = len(text)
		}
		if offs > len(text) {
			offs = len(text)
		}
		t, n, e := p.Word(offs)
		return &res{dump: func() string {
			if e != nil {
				return "error " + dumpErr(e)
			}
			return convert(t).ser(serFull) + strconv.Itoa(n)
		}, scramble: func() {
			if t != nil {
				scramble(reflect.ValueOf(t))
			}
			if e != nil {
				scrambleFail(e.Tree())
			}
		}}
	}
	var kept []*res
	if p := try(func() {
		pr := ast.NewParser(text)
		for j := 0; j < len(seq); j++ {
			op := seq[j]
			r := do(pr, op)
			r.want = do(ast.NewParser(text), op).dump()
			if got := r.dump(); got != r.want {
				w.bad("call %d (%c) of %s on %q gives\n%s\na fresh parser gives\n%s", j, op, seq, text, got, r.want)
				return
			}
			if j+1 < len(seq) && seq[j+1] == 'm' {
				j++
				r.scramble()
			} else {
				kept = append(kept, r)
			}
			for _, k := range kept {
				if got := k.dump(); got != k.want {
					w.bad("after %s on %q an earlier result has changed to\n%s\nfrom\n%s", seq[:j+1], text, got, k.want)
					return
				}
			}
		}
	}); p != nil {
		w.bad("%s on %q panics: %v", seq, text, p)
	}
	w.validated()
}

// scramble overwrites everything reachable in a tree.
func scramble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			scramble(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i))
			if v.Len() > 1 {
				v.Index(i).Set(v.Index(0))
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scramble(v.Field(i))
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.CanSet() && (f.Kind() == reflect.Interface || f.Kind() == reflect.Ptr) {
				f.Set(reflect.Zero(f.Type()))
			}
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("SCRAMBLED")
		}
	case reflect.Int:
		if v.CanSet() {
			v.SetInt(-7)
		}
	}
}

func scramblePeg(n *peg.Node) {
	for i, k := range n.Kids {
		scramblePeg(k)
		n.Kids[i] = nil
	}
	n.Name, n.Text, n.Kids = "SCRAMBLED", "SCRAMBLED", nil
}

func scrambleFail(f *peg.Fail) {
	if f == nil {
		return
	}
	ks := f.Kids
	f.Name, f.Want, f.Pos, f.Kids = "SCRAMBLED", "SCRAMBLED", -7, nil
	for i, k := range ks {
		if k != nil {
			scrambleFail(k)
		}
		ks[i] = nil
	}
}

// ---- C26 ----

var pubGrammar *grammar

func checkC26(w *W, c string) {
	m, _ := w.buf["m"].(*matcher)
	if m == nil {
		w.h.mu.Lock()
		if pubGrammar == nil {
			src, err := os.ReadFile("/repo/ast/toaq.peg")
			if err != nil {
				panic("harness: " + err.Error())
			}
			defs, order, err := readGrammar(string(src))
			if err == nil {
				pubGrammar, err = expandGrammar(defs, order[0])
			}
			if err != nil {
				w.h.mu.Unlock()
				w.bad("the published grammar cannot be read: %v", err)
				return
			}
		}
		w.h.mu.Unlock()
		m = newMatcher(pubGrammar)
		w.buf["m"] = m
	}
	m.reset(c)
	end, _ := m.match(0, 0)
	pub := end == len(c)
	_, err, p := parseText(c)
	if p != nil {
		return
	}
	w.validated()
	if pub {
		w.count("accepted")
	} else {
		w.count("rejected")
	}
	if pub != (err == nil) {
		w.bad("accepted by the published grammar: %v; by the parser: %v", pub, err == nil)
	}
}
