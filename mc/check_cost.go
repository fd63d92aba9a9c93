package main

// Check of the cost of texts: C28.

import (
	"encoding/json"
	"fmt"
	"math"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/eaburns/peggy/peg"
	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"
)

func init() {
	register(&check{id: "C28", explore: exploreC28, one: checkC28, watch: 100 * time.Second,
		assumptions: []string{
			"a cost that grows faster than a polynomial shows when a part of a text is repeated: parts of up to 2 (thorough: 3) phrases are repeated up to 64 times",
			"the cost of interpretation is the number of allocated objects (deterministic), that of parsing the processor time of the thread, with a margin of over 100 to what the unchanged code needs",
			"connections are not repeated in the texts that are interpreted, since formulas distribute over them and are then exponentially large",
		}})
}

// A costCase is a text with a repeated part.
type costCase struct {
	Kind string `json:"kind"` // parse or interpret
	U    string `json:"u"`
	V    string `json:"v"` // repeated
	W    string `json:"w"`
}

func (c costCase) String() string {
	b, err := json.Marshal(c)
	must(err)
	return string(b)
}

func (c costCase) text(n int) string { return c.U + strings.Repeat(c.V, n) + c.W }

func sequences(toks []string, sep string, n int) []string {
	out := []string{}
	var rec func(s string, k int)
	rec = func(s string, k int) {
		if k > 0 {
			out = append(out, s)
		}
		if k == n {
			return
		}
		for _, t := range toks {
			rec(s+t+sep, k+1)
		}
	}
	rec("", 0)
	return out
}

func exploreC28(h *H) {
	words := toks(`gi? ji/ sa do/ bi luV lu? lu/ giV gi^ gi~ gi\ gi- mo? teo mi? po? ga kio ki hu ju to ru roi na go mu da je ku- keo , ha moq`)
	depth := 2
	if !h.quick() {
		depth = 3
	}
	emitAll := func(kind string, us, vs, ws []string, emit func(string) bool) {
		for _, u := range us {
			for _, v := range vs {
				for _, w := range ws {
					if !emit(costCase{kind, u, v, w}.String()) {
						return
					}
				}
			}
		}
	}
	h.cases("parse-words", fmt.Sprintf("every sequence of up to %d words of %q, 64 times, in each of the contexts", depth, words), func(emit func(string) bool) {
		us := []string{"", "gi? ", "to ru ", "sa do/ bi ", "kio gi? "}
		ws := []string{"", "gi?", "ji/", "ji/ to gi? x"}
		if h.quick() {
			us, ws = us[:4], ws[:3]
		}
		emitAll("parse", us, sequences(words, " ", depth), ws, emit)
	})
	h.cases("parse-letters", "every sequence of up to 3 characters, 64 times, in each of the contexts", func(emit func(string) bool) {
		cs := append(toks(`g a i o q ? / - m u s h kio ki ru . , é ı`), " ", "\xff", "\n", "\u0301")
		d := 2
		if !h.quick() {
			d = 3
		}
		emitAll("parse", []string{"", "gi?", "gi? "}, sequences(cs, "", d), []string{"", "?", " gi?"}, emit)
	})
	n := h.nworkers
	h.nworkers = 1 // the count of objects is of the process
	phrases := phrases(`gi?; ji/; sa ji/; sa do/; do/; hi ji/; giV; giV do/; luV gi? hoa/; hoa/; gi^; gi^ do/; gi~; gi\ ji/; gi\ do/; gi\ sa do/; lu/ gi? hoa/; po/ ji/; po/ do/; ke do/; na; go ji/; shu/ gi? ga; roi ji/; lu? hoa?; jeqVtu-; li/ gi?; gi/ gi-; sa do/ pa`)
	h.cases("interpret", fmt.Sprintf("every sequence of up to %d phrases of %q, 8 and 16 times, in each of the contexts", depth, phrases), func(emit func(string) bool) {
		us := []string{"gi? ", "sa do/ bi gi? do/ ", "", "gi? ji/ ru suq/ ", "sa do/ bi gi? po/ do/ "}
		ws := []string{"", "gi?", "ji/"}
		if h.quick() {
			us = us[:3]
		}
		emitAll("interpret", us, sequences(phrases, " ", depth), ws, emit)
	})
	h.nworkers = n
}

func threadTime() time.Duration {
	var u syscall.Rusage
	must(syscall.Getrusage(1 /* RUSAGE_THREAD */, &u))
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func mallocs() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.Mallocs
}

const parseLimit = 2 * time.Second

func checkC28(w *W, c string) {
	var cc costCase
	must(json.Unmarshal([]byte(c), &cc))
	switch cc.Kind {
	case "parse":
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		// Exponential costs are seen at once; the longer texts are for the others.
		for _, n := range []int{16, 64} {
			text := cc.text(n)
			t0 := threadTime()
			var what string
			p := ast.NewParser(text)
			txt, err := p.Text()
			if err != nil {
				what = "its error"
				err.ByteOffset()
				_ = err.Error()
				f := err.Tree()
				peg.DedupFails(f)
				w.count("rejected")
			} else {
				what = "its tree"
				p.Tree()
				ast.BracesString(txt)
				w.count("accepted")
			}
			p.Word(0)
			if d := threadTime() - t0; d > parseLimit {
				w.bad("the text of %d bytes %.300q takes %v to parse and get %s", len(text), text, d, what)
				return
			}
		}
		w.validated()
	case "interpret":
		var cost, size [2]float64
		ns := [2]int{8, 16}
		// The cost of prepositions is a known finding; see there.
		preps := strings.Count(cc.V, `\`)
		if preps > 0 {
			ns = [2]int{6 / preps, 12 / preps}
		}
		for i, n := range ns {
			text := cc.text(n)
			txt, err := ast.NewParser(text).Text()
			if err != nil {
				w.count("rejected")
				return
			}
			var st logic.Statement
			m := mallocs()
			if p := try(func() { st = logic.Interpret(txt) }); p != nil {
				w.count("unsupported") // see C13
				return
			}
			if st == nil {
				w.count("fragment")
				return
			}
			cost[i] = float64(mallocs() - m)
			size[i] = float64(len(logic.String(st)) + len(text))
		}
		w.validated()
		w.count("interpreted")
		grow := size[1] / size[0] / 2
		if grow < 1 {
			grow = 1
		}
		if r := cost[1] / (cost[0] + 100); r > 12*grow*grow {
			msg := fmt.Sprintf("to interpret %q takes %.0f objects, twice the repetitions %.0f, while text and formula grow from %.0f to %.0f bytes", cc.text(ns[0]), cost[0], cost[1], size[0], size[1])
			added := (ns[1] - ns[0]) * preps
			if preps > 0 && r <= 3*grow*grow*math.Pow(2, float64(added)) {
				// Each preposition doubles the cost.
				w.known("prepositions", msg)
				return
			}
			w.bad("%s", msg)
		}
	}
}
