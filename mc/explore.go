package main

// The bounded spaces of texts.

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A space is the set of all texts that are a prefix followed by up to depth
// tokens. Texts that the reference grammar rejects and that no extension can
// repair are visited but not extended.
type space struct {
	name   string
	prefix string
	tokens []string
	sep    string
	depth  int
}

// A long text is given by its parts, so that cases stay short.
const repeatMark = "\x00repeat "

type repeated struct {
	U, V string
	N    int
	W    string
}

func expandCase(c string) string {
	if !strings.HasPrefix(c, repeatMark) {
		return c
	}
	var r repeated
	must(json.Unmarshal([]byte(c[len(repeatMark):]), &r))
	return r.U + strings.Repeat(r.V, r.N) + r.W
}

// longTexts visits texts that are longer than 32 and 64 KiB.
func (h *H) longTexts() {
	blanks := strings.Repeat(" ", 400)
	parts := []repeated{
		{"", "gi? ji/ da ", 0, "gi? suq/"},
		{"gi?" + blanks, "ji/" + blanks, 0, "suq/ da gi?"},
		{"gi?", "gi-", 0, " ji/ da ji/"},
		{"gi?", " ", 0, "ji/"},
		{"", "gi? kio ji/ ki da ", 0, "gi?"},
		{"kio gi? ki" + blanks, "gi?" + blanks, 0, "ru gi? na kio ji/ ki"},
		{"gi?" + blanks, "po/" + blanks, 0, "ji/"},
		{"to ru ji/ pa gi? ", "ji/" + blanks, 0, "to gi? na" + blanks + "da hu ji/"},
	}
	ends := []string{"", " x", " to"}
	ns := []int{33500, 66500}
	n := h.nworkers
	if n > 3 {
		h.nworkers = 3 // the parsers need some 4 KB for each byte
	}
	defer func() { h.nworkers = n }()
	h.cases("long", fmt.Sprintf("%d kinds of text with a part repeated up to the lengths %v, with %d ends", len(parts), ns, len(ends)), func(emit func(string) bool) {
		for _, n := range ns {
			for _, p := range parts {
				for _, e := range ends {
					r := p
					r.N = n / len(p.V)
					r.W += e
					b, err := json.Marshal(r)
					must(err)
					if !emit(repeatMark + string(b)) {
						return
					}
				}
			}
		}
	})
}

func toks(s string) []string { return strings.Fields(s) }

// texts visits every text of a space.
func (h *H) texts(s space) {
	if h.stop() {
		return
	}
	st := &spaceStat{Name: s.name, Bound: fmt.Sprintf("prefix %q + all sequences of up to %d of %d tokens %q", s.prefix, s.depth, len(s.tokens), s.tokens)}
	h.stats = append(h.stats, st)
	type node struct {
		text string
		d    int
	}
	var wg sync.WaitGroup
	queue := make(chan node, 1<<16)
	var pending int64
	push := func(n node) bool {
		atomic.AddInt64(&pending, 1)
		select {
		case queue <- n:
			return true
		default:
			atomic.AddInt64(&pending, -1)
			return false
		}
	}
	visit := func(w *W, n node) bool {
		w.verdict(n.text)
		v := w.v
		w.runCase(n.text)
		atomic.AddInt64(&st.States, 1)
		if v.ok {
			if a := atomic.AddInt64(&st.Accepted, 1); a == 5 || a == 500 {
				h.sample(map[string]string{"space": s.name, "case": n.text})
			}
		}
		return v.ok || v.extend
	}
	var expand func(w *W, n node)
	expand = func(w *W, n node) {
		if h.stop() {
			return
		}
		if !visit(w, n) || n.d == s.depth {
			return
		}
		for _, t := range s.tokens {
			atomic.AddInt64(&st.Transitions, 1)
			var x string
			if n.text == "" {
				x = t
			} else {
				x = n.text + s.sep + t
			}
			k := node{x, n.d + 1}
			if n.d < 2 && n.d+1 < s.depth && push(k) {
				continue
			}
			expand(w, k)
		}
	}
	push(node{s.prefix, 0})
	for i := 0; i < h.nworkers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := h.newWorker(i)
			w.space = s.name
			for n := range queue {
				expand(w, n)
				if atomic.AddInt64(&pending, -1) == 0 {
					close(queue)
				}
			}
			h.done(w)
		}(i)
	}
	wg.Wait()
	st.Complete = !h.stop()
	if os.Getenv("MC_V") != "" {
		fmt.Fprintf(os.Stderr, "%s %s states=%d trans=%d accepted=%d complete=%v %.1fs\n",
			h.c.id, st.Name, st.States, st.Transitions, st.Accepted, st.Complete, time.Since(h.start).Seconds())
	}
}

// Tones by the words they make.
const (
	verbT = "?"
	argT  = "/"
	relT  = "V"
	conT  = "^"
	prepT = `\`
	advT  = "~"
	cmpT  = "-"
)

// grammarSpaces are the spaces for properties of parsing.
// Every space is small enough to be explored completely.
func grammarSpaces(quick bool) []space {
	d := func(q, t int) int {
		if quick {
			return q
		}
		return t
	}
	s := []space{
		{name: "broad", tokens: toks("gi? ji/ gi- giV gi^ gi~ gi\\ na bi da je go sa ku ru to lu? lu/ mi? mi/ po? po/ mo? mo/ ga teo kio ki ju hu bei moq moq? , kie"), sep: " ", depth: d(3, 4)},
		{name: "statement", tokens: toks("gi? ji/ na ru bi da je"), sep: " ", depth: d(6, 8)},
		{name: "forethought", tokens: toks("gi? ji/ na ru to bi da"), sep: " ", depth: d(6, 8)},
		{name: "forethought2", prefix: "to ru", tokens: toks("gi? ji/ na ru to da"), sep: " ", depth: d(6, 8)},
		{name: "argument", prefix: "gi?", tokens: toks("sa ku ji/ giV na po/ ga go ru"), sep: " ", depth: d(5, 6)},
		{name: "relative", prefix: "ji/", tokens: toks("giV luV gi? ji/ ru to na"), sep: " ", depth: d(6, 7)},
		{name: "content", prefix: "gi?", tokens: toks("gi^ lu^ gi? ji/ ru to na"), sep: " ", depth: d(6, 7)},
		{name: "adverb", prefix: "gi?", tokens: toks("gi~ lu~ gi? ji/ ru to gi\\ na"), sep: " ", depth: d(5, 6)},
		{name: "preposition", prefix: "gi?", tokens: toks("gi\\ lu\\ gi? ji/ ru to na"), sep: " ", depth: d(6, 7)},
		{name: "prenex", tokens: toks("ji/ gi~ bi pa gi? ru to na sa"), sep: " ", depth: d(5, 6)},
		{name: "termset", prefix: "gi? to ru", tokens: toks("ji/ to gi~"), sep: " ", depth: d(10, 12)},
		{name: "termset-long", prefix: "gi? to ru", tokens: toks("ji/ to"), sep: " ", depth: d(14, 16)},
		{name: "termset2", prefix: "gi? to ru", tokens: toks("ji/ to go gi\\ ru"), sep: " ", depth: d(7, 8)},
		{name: "mods", tokens: toks("gi? ji/ kio ki ju hu bei , na da"), sep: " ", depth: d(5, 6)},
		{name: "mods-glued", tokens: toks("gi? ji/ kio ki ju hu bei na sa"), sep: "", depth: d(5, 6)},
		{name: "quote", tokens: toks("mo? mo/ teo gi? ji/ . da , mi? ga"), sep: " ", depth: d(5, 6)},
	}
	for _, t := range []struct{ n, tone, pre, post string }{
		{"verb", verbT, "", ""}, {"arg", argT, "gi?", ""}, {"rel", relT, "ji/", ""},
		{"con", conT, "gi?", ""}, {"prep", prepT, "gi?", ""}, {"adv", advT, "gi?", ""},
	} {
		tk := toks("gi@ lu@ mi@ po@ mo@ gi? ji/ ga teo na ru to")
		for i := range tk {
			tk[i] = strings.ReplaceAll(tk[i], "@", t.tone)
		}
		s = append(s, space{name: "phrase-" + t.n, prefix: t.pre, tokens: dedup(tk), sep: " ", depth: d(4, 5)})
	}
	return s
}

func dedup(ss []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range ss {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}
