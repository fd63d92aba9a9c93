package main

// Spaces made by inserting free modifiers in accepted texts.

import (
	"fmt"
	"sort"
	"strings"
	"sync"
)

// collect returns the accepted texts of a space, using the reference grammar only.
func (h *H) collect(s space) []string {
	var mu sync.Mutex
	var out []string
	var wg sync.WaitGroup
	type node struct {
		t string
		d int
	}
	next := func(r *ref, n node, f func(node)) {
		v := r.parse(n.t)
		if v.ok {
			mu.Lock()
			out = append(out, n.t)
			mu.Unlock()
		}
		if n.d == s.depth || !(v.ok || v.extend) {
			return
		}
		for _, t := range s.tokens {
			x := t
			if n.t != "" {
				x = n.t + s.sep + t
			}
			f(node{x, n.d + 1})
		}
	}
	var first []node
	next(newRef(), node{s.prefix, 0}, func(n node) { first = append(first, n) })
	ch := make(chan node, len(first))
	for _, n := range first {
		ch <- n
	}
	close(ch)
	for i := 0; i < h.nworkers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := newRef()
			for n := range ch {
				var rec func(node)
				rec = func(n node) {
					if h.stop() {
						return
					}
					next(r, n, rec)
				}
				rec(n)
			}
		}()
	}
	wg.Wait()
	sort.Strings(out)
	return out
}

var freeMods = []string{"bei", "kio gi? ki", "ju gi?", "hu ji/", ","}

// modBases are the texts that modifiers are inserted in: the accepted texts of
// spaces that between them have every construct.
func (h *H) modBases() (small, large []string) {
	d := func(q, t int) int {
		if h.quick() {
			return q
		}
		return t
	}
	small = h.collect(space{tokens: toks("gi? ji/ gi- giV gi^ gi~ gi\\ na bi da je go sa ku ru lu? lu/ luV mi? mi/ po? po/ mo? mo/ ga teo moq?"), sep: " ", depth: d(3, 4)})
	for _, s := range []space{
		{prefix: "to ru", tokens: toks("gi? ji/ na to da"), sep: " ", depth: d(5, 6)},
		{prefix: "gi? to ru", tokens: toks("ji/ to go gi~ gi\\"), sep: " ", depth: d(5, 6)},
		{prefix: "gi? to ru", tokens: toks("ji/ to"), sep: " ", depth: 11},
		{prefix: "ji/", tokens: toks("giV luV gi? ru to"), sep: " ", depth: d(5, 6)},
		{prefix: "gi?", tokens: toks("gi^ lu^ gi? ru to"), sep: " ", depth: d(5, 6)},
		{prefix: "gi?", tokens: toks("gi\\ gi? ji/ ru to"), sep: " ", depth: d(6, 7)},
		{prefix: "gi?", tokens: toks("gi~ lu~ gi? ru to"), sep: " ", depth: d(5, 6)},
		{prefix: "gi?", tokens: toks("mi/ gi\\ ji/ gi~ po/ ga"), sep: " ", depth: d(4, 5)},
		{tokens: toks("mo? mi? gi? ji/ teo ga da"), sep: " ", depth: d(4, 5)},
		{tokens: toks("ji/ bi gi? ru na je"), sep: " ", depth: d(5, 6)},
	} {
		large = append(large, h.collect(s)...)
	}
	return small, dedup(large)
}

// inserts emits the base with a modifier at every gap.
func inserts(base string, mods []string, emit func(string) bool) bool {
	w := strings.Fields(base)
	for i := 0; i <= len(w); i++ {
		for _, m := range mods {
			x := append(append(append([]string{}, w[:i]...), m), w[i:]...)
			if !emit(strings.Join(x, " ")) {
				return false
			}
		}
	}
	return true
}

func exploreMods(h *H) {
	small, large := h.modBases()
	h.cases("modifiers", fmt.Sprintf("each of %q at every gap of %d texts", freeMods, len(small)), func(emit func(string) bool) {
		for _, b := range small {
			if !inserts(b, freeMods, emit) {
				return
			}
		}
	})
	mods := freeMods
	if h.quick() {
		mods = []string{"bei", "kio gi? ki ."}
	}
	h.cases("modifiers-long", fmt.Sprintf("each of %q at every gap of %d longer texts", mods, len(large)), func(emit func(string) bool) {
		for _, b := range large {
			if !inserts(b, mods, emit) {
				return
			}
		}
	})
	// Every gap carries a modifier of its own.
	h.cases("modifiers-everywhere", fmt.Sprintf("a modifier at every gap of %d texts", len(small)+len(large)), func(emit func(string) bool) {
		for _, b := range append(append([]string{}, small...), large...) {
			for _, m := range []string{"bei", "kio gi? ki", "hu ji/ ,"} {
				if !emit(strings.Join(strings.Fields(b), " "+m+" ")) {
					return
				}
			}
			if !emit(strings.ReplaceAll(b, " ", "  \n")) {
				return
			}
		}
	})
	if !h.quick() {
		h.cases("modifier-pairs", "two modifiers at every pair of gaps of short texts", func(emit func(string) bool) {
			for _, b := range small {
				if len(strings.Fields(b)) > 3 {
					continue
				}
				ok := inserts(b, freeMods, func(x string) bool {
					return inserts(x, freeMods, emit)
				})
				if !ok {
					return
				}
			}
		})
	}
}
