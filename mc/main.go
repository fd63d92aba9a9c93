package main

// Driver: explores the bounded space of a property's cases with the real code.
//
//	mc run Cxx        run the check (spawns a child so that crashes are survived)
//	mc case Cxx FILE  run one case from a replay file

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// A check decides one property.
type check struct {
	id string
	// explore enumerates the cases.
	explore func(h *H)
	// one runs a single case and reports violations with w.bad.
	one func(w *W, c string)
	// assumptions are recorded in the evidence.
	assumptions []string
	// level is the evidence level; model_checking if empty.
	level string
	// serial checks drive external processes and have their own parallelism.
	workers int
	// watch is the per-case time limit; 30s if zero.
	watch time.Duration
}

var checks = map[string]*check{}

func register(c *check) { checks[c.id] = c }

type violation struct {
	Property string  `json:"property"`
	Space    string  `json:"space"`
	Case     goQuote `json:"case"` // a quoted Go string
	Detail   string  `json:"detail"`
}

// goQuote survives JSON even if it is not UTF-8.
type goQuote string

func (q goQuote) MarshalJSON() ([]byte, error) {
	return json.Marshal(strconv.QuoteToASCII(string(q)))
}

func (q *goQuote) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	s, err := strconv.Unquote(s)
	*q = goQuote(s)
	return err
}

type spaceStat struct {
	Name        string `json:"name"`
	Bound       string `json:"bound"`
	States      int64  `json:"states"`
	Transitions int64  `json:"transitions"`
	Accepted    int64  `json:"accepted"`
	Complete    bool   `json:"complete"`
}

// H is the state of one run of a check.
type H struct {
	c        *check
	tier     string
	seed     int
	start    time.Time
	deadline time.Time
	nworkers int
	slots    []byte

	mu       sync.Mutex
	viols    []violation
	stats    []*spaceStat
	samples  []interface{}
	extra    map[string]interface{}
	stopped  int32
	ranOut   int32
	validate int64
	outcomes map[string]int64

	knownList, knownSeen map[string]string
}

// W is a worker.
type W struct {
	h     *H
	i     int
	r     *ref
	v     verdict
	space string
	bads  []string
	out   map[string]int64
	nval  int64
	buf   map[string]interface{} // scratch kept between cases by a check
}

func (w *W) bad(f string, args ...interface{}) {
	m := fmt.Sprintf(f, args...)
	if len(m) > 4000 {
		m = m[:2000] + " ... " + m[len(m)-2000:]
	}
	w.bads = append(w.bads, m)
}

// known reports a violation that known_findings.txt lists under a name.
func (w *W) known(name, detail string) {
	w.h.mu.Lock()
	defer w.h.mu.Unlock()
	if w.h.knownList == nil {
		w.h.knownList = readKnown(w.h.c.id)
	}
	text, ok := w.h.knownList[name]
	if !ok {
		w.bads = append(w.bads, detail)
		return
	}
	if w.h.knownSeen == nil {
		w.h.knownSeen = map[string]string{}
	}
	if w.h.knownSeen[name] == "" {
		w.h.knownSeen[name] = text + " (for example: " + detail + ")"
	}
	w.out["known finding: "+name]++
}

// readKnown returns the findings of a property: lines "known: property=Cxx name: text".
func readKnown(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(srcDir(), "..", "known_findings.txt"))
	must(err)
	for _, l := range strings.Split(string(b), "\n") {
		if l, ok := strings.CutPrefix(l, "known: property="+id+" "); ok {
			if name, text, ok := strings.Cut(l, ": "); ok {
				out[name] = text
			}
		}
	}
	return out
}

// count counts an outcome class; the totals are in the evidence.
func (w *W) count(k string) { w.out[k]++ }

// validated counts a case in which the model was compared with the code.
func (w *W) validated() { w.nval++ }

// verdict returns the reference verdict for a text.
func (w *W) verdict(text string) verdict {
	if w.r.text != text || w.v == (verdict{}) {
		w.v = w.r.parse(text)
	}
	return w.v
}

const slotSize = 1 << 16

func (h *H) newWorker(i int) *W {
	return &W{h: h, i: i, r: newRef(), out: map[string]int64{}, buf: map[string]interface{}{}}
}

func (h *H) quick() bool { return h.tier != "thorough" }

func (h *H) stop() bool {
	if atomic.LoadInt32(&h.stopped) != 0 {
		return true
	}
	if time.Now().After(h.deadline) {
		atomic.StoreInt32(&h.ranOut, 1)
		return true
	}
	return false
}

// setSlot publishes the case a worker is busy with, for the parent.
func (w *W) setSlot(c string) {
	if w.h.slots == nil {
		return
	}
	s := w.h.slots[w.i*slotSize : (w.i+1)*slotSize]
	n := len(c)
	if n > slotSize-16 {
		n = slotSize - 16
	}
	copy(s[16:], c[:n])
	putU64(s[8:], uint64(n)+1)
	putU64(s, uint64(time.Now().UnixNano()))
}

func (w *W) clearSlot() {
	if w.h.slots == nil {
		return
	}
	s := w.h.slots[w.i*slotSize : (w.i+1)*slotSize]
	putU64(s, 0)
}

func putU64(b []byte, v uint64) {
	for i := 0; i < 8; i++ {
		b[i] = byte(v >> (8 * uint(i)))
	}
}

func getU64(b []byte) (v uint64) {
	for i := 0; i < 8; i++ {
		v |= uint64(b[i]) << (8 * uint(i))
	}
	return v
}

// runCase runs a case, and a second time in a fresh worker if it fails.
func (w *W) runCase(c string) {
	w.setSlot(c)
	w.bads = nil
	w.guard(c)
	w.clearSlot()
	if w.bads == nil {
		return
	}
	w2 := w.h.newWorker(w.i)
	w2.space = w.space
	w2.setSlot(c)
	w2.guard(c)
	w2.clearSlot()
	if w2.bads == nil {
		w.h.mu.Lock()
		w.h.outcomes["unconfirmed"]++
		w.h.mu.Unlock()
		fmt.Fprintf(os.Stderr, "unconfirmed: %q: %s\n", c, w.bads[0])
		return
	}
	w.h.violate(violation{w.h.c.id, w.space, goQuote(c), strings.Join(w2.bads, "\n")})
}

func (h *H) violate(v violation) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.viols = append(h.viols, v)
	if len(h.viols) >= 5 {
		atomic.StoreInt32(&h.stopped, 1)
	}
}

func (w *W) guard(c string) {
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if strings.HasPrefix(s, "harness:") || strings.HasPrefix(s, "model:") {
				fmt.Fprintf(os.Stderr, "%s\ncase %q\n%s\n", s, c, debug.Stack())
				os.Exit(3)
			}
			w.bad("panic: %s", s)
			if os.Getenv("MC_STACK") != "" {
				fmt.Fprintf(os.Stderr, "%s\n", debug.Stack())
			}
		}
	}()
	w.h.c.one(w, expandCase(c))
}

func (h *H) done(w *W) {
	h.mu.Lock()
	for k, n := range w.out {
		h.outcomes[k] += n
	}
	h.mu.Unlock()
	atomic.AddInt64(&h.validate, w.nval)
}

func (h *H) sample(s interface{}) {
	h.mu.Lock()
	if len(h.samples) < 12 {
		h.samples = append(h.samples, s)
	}
	h.mu.Unlock()
}

// cases runs the cases a generator emits.
func (h *H) cases(name, bound string, gen func(emit func(string) bool)) {
	st := &spaceStat{Name: name, Bound: bound}
	h.stats = append(h.stats, st)
	ch := make(chan []string, 2*h.nworkers)
	var wg sync.WaitGroup
	for i := 0; i < h.nworkers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := h.newWorker(i)
			w.space = name
			for b := range ch {
				for _, c := range b {
					if h.stop() {
						break
					}
					w.runCase(c)
					atomic.AddInt64(&st.States, 1)
				}
			}
			h.done(w)
		}(i)
	}
	var batch []string
	n := int64(0)
	bs := 16
	if name == "long" {
		bs = 1
	}
	gen(func(c string) bool {
		if h.stop() {
			return false
		}
		n++
		if n%4096 == 1 && n < 20000 {
			h.sample(map[string]string{"space": name, "case": c})
		}
		batch = append(batch, c)
		if len(batch) >= bs {
			ch <- batch
			batch = nil
		}
		return true
	})
	if len(batch) > 0 {
		ch <- batch
	}
	close(ch)
	wg.Wait()
	st.Transitions = n
	st.Complete = !h.stop()
	if os.Getenv("MC_V") != "" {
		fmt.Fprintf(os.Stderr, "%s %+v %.1fs\n", h.c.id, *st, time.Since(h.start).Seconds())
	}
}

// Exit codes of the child besides 0 and 1.
const hangExit = 98

func child(c *check, slots string, workers int, deadline time.Duration) {
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(8 << 30)
	h := &H{c: c, tier: os.Getenv("VERIF_TIER"), start: time.Now(), nworkers: workers,
		extra: map[string]interface{}{}, outcomes: map[string]int64{}}
	if h.tier != "thorough" {
		h.tier = "quick"
	}
	h.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	h.deadline = h.start.Add(deadline)
	f, err := os.OpenFile(slots, os.O_RDWR, 0)
	if err == nil {
		h.slots, err = syscall.Mmap(int(f.Fd()), 0, 64*slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
	watch := c.watch
	if watch == 0 {
		watch = 30 * time.Second
	}
	go func() {
		for {
			time.Sleep(time.Second)
			now := time.Now().UnixNano()
			for i := 0; i < 64; i++ {
				t := int64(getU64(h.slots[i*slotSize:]))
				if t != 0 && now-t > int64(watch) {
					fmt.Fprintf(os.Stderr, "a case takes longer than %v\n", watch)
					os.Exit(hangExit)
				}
			}
		}
	}()
	c.explore(h)
	h.finish()
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func (h *H) finish() {
	var states, trans, acc int64
	for _, s := range h.stats {
		states += s.States
		trans += s.Transitions
		acc += s.Accepted
	}
	level := h.c.level
	if level == "" {
		level = "model_checking"
	}
	exhaustive := atomic.LoadInt32(&h.ranOut) == 0 && len(h.viols) == 0
	if len(h.samples) == 0 {
		h.samples = append(h.samples, "none")
	}
	cov := map[string]interface{}{
		"states":                        states,
		"transitions":                   trans,
		"traces_validated_against_impl": atomic.LoadInt64(&h.validate),
		"samples":                       h.samples,
		"exhaustive":                    exhaustive,
		"spaces":                        h.stats,
		"outcomes":                      h.outcomes,
	}
	for k, v := range h.extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property":    h.c.id,
		"tier":        h.tier,
		"seed":        h.seed,
		"level":       level,
		"coverage":    cov,
		"assumptions": append([]string{}, h.c.assumptions...),
		"wall_s":      time.Since(h.start).Seconds(),
		"violations":  len(h.viols),
	}
	if len(h.knownSeen) > 0 {
		cov["known_findings"] = h.knownSeen
	}
	writeJSON(filepath.Join(verifDir(), "evidence", h.c.id+".json"), ev)
	for name, s := range h.knownSeen {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", h.c.id, name, s)
	}
	if len(h.viols) > 0 {
		report(h.viols)
		os.Exit(1)
	}
	fmt.Printf("%s: held on %d cases (%d compared with the code) in %.1fs, exhaustive=%v\n",
		h.c.id, states, atomic.LoadInt64(&h.validate), time.Since(h.start).Seconds(), exhaustive)
	os.Exit(0)
}

func report(vs []violation) {
	for i, v := range vs {
		p := filepath.Join(verifDir(), "evidence", fmt.Sprintf("replay_%s_%d.json", v.Property, i))
		writeJSON(p, v)
		fmt.Printf("case %q in %s:\n%s\n", v.Case, v.Space, v.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, p)
	}
}

func writeJSON(p string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
	os.MkdirAll(filepath.Dir(p), 0o777)
	if err := os.WriteFile(p, append(b, '\n'), 0o666); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

func parent(c *check) {
	dir, err := os.MkdirTemp("", "mc-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer os.RemoveAll(dir)
	workers := runtime.NumCPU()
	if workers > 32 {
		workers = 32
	}
	if c.workers > 0 {
		workers = c.workers
	}
	budget := 300 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		budget = 3 * time.Hour
	}
	if s := os.Getenv("MC_BUDGET"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	exit := func(code int) { os.RemoveAll(dir); os.Exit(code) }
	for attempt := 0; ; attempt++ {
		slots := filepath.Join(dir, "slots")
		if err := os.WriteFile(slots, make([]byte, 64*slotSize), 0o666); err != nil {
			fmt.Fprintln(os.Stderr, err)
			exit(3)
		}
		cmd := exec.Command(os.Args[0], "child", c.id, slots, strconv.Itoa(workers), strconv.Itoa(int(budget/time.Second)))
		cmd.Stdout = os.Stdout
		var errOut tail
		cmd.Stderr = &errOut
		err := cmd.Run()
		code := cmd.ProcessState.ExitCode()
		if err == nil || code == 1 || code == 3 {
			os.Stderr.Write(errOut.b)
			exit(code)
		}
		// The child crashed or hung: find the case that does it.
		fmt.Fprintf(os.Stderr, "the exploration ended with %v\n%s\n", err, errOut.b)
		data, _ := os.ReadFile(slots)
		var vs []violation
		for i := 0; i < 64 && len(data) == 64*slotSize; i++ {
			s := data[i*slotSize : (i+1)*slotSize]
			if getU64(s) == 0 || getU64(s[8:]) == 0 {
				continue
			}
			v := violation{Property: c.id, Space: "crash", Case: goQuote(s[16 : 16+getU64(s[8:])-1])}
			p := filepath.Join(dir, "case.json")
			writeJSON(p, v)
			one := exec.Command(os.Args[0], "case", c.id, p)
			out, d, timedOut := runLimited(one, 2*time.Minute)
			switch {
			case timedOut:
				v.Detail = "does not terminate within 2 minutes"
			case d == 1:
				v.Detail = out
			case d != 0 && d != 3:
				v.Detail = "crashes:\n" + out
			default:
				continue
			}
			vs = append(vs, v)
			break
		}
		if vs != nil {
			ev := map[string]interface{}{
				"property": c.id, "tier": tierName(), "seed": 0, "level": "model_checking",
				"coverage":   map[string]interface{}{"states": 1, "transitions": 1, "traces_validated_against_impl": 1, "samples": []goQuote{vs[0].Case}},
				"wall_s":     0.0,
				"violations": 1,
			}
			writeJSON(filepath.Join(verifDir(), "evidence", c.id+".json"), ev)
			report(vs)
			exit(1)
		}
		if attempt > 0 {
			fmt.Fprintln(os.Stderr, "no single case explains it")
			exit(3)
		}
		// Perhaps the cases disturb one another when run side by side.
		// That is C21's business, not this property's.
		workers = 1
	}
}

func tierName() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// tail keeps the end of what is written to it.
type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	if len(t.b) > 1<<16 {
		t.b = append([]byte{}, t.b[:1<<14]...)
	}
	t.b = append(t.b, p...)
	return len(p), nil
}

func runLimited(cmd *exec.Cmd, d time.Duration) (string, int, bool) {
	var out tail
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		return err.Error(), 3, false
	}
	done := make(chan bool)
	go func() { cmd.Wait(); close(done) }()
	select {
	case <-done:
		s := string(out.b)
		if len(s) > 3000 {
			s = s[:3000]
		}
		return s, cmd.ProcessState.ExitCode(), false
	case <-time.After(d):
		cmd.Process.Kill()
		<-done
		return "", -1, true
	}
}

func main() {
	if len(os.Args) < 3 || checks[os.Args[2]] == nil {
		fmt.Fprintln(os.Stderr, "usage: mc run|case ID")
		os.Exit(3)
	}
	c := checks[os.Args[2]]
	switch os.Args[1] {
	case "run":
		parent(c)
	case "child":
		n, _ := strconv.Atoi(os.Args[4])
		d, _ := strconv.Atoi(os.Args[5])
		child(c, os.Args[3], n, time.Duration(d)*time.Second)
	case "coop":
		coopServe()
	case "races":
		raceServe()
	case "case":
		debug.SetMaxStack(256 << 20)
		var v violation
		b, err := os.ReadFile(os.Args[3])
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		h := &H{c: c, tier: tierName(), start: time.Now(), deadline: time.Now().Add(time.Hour), nworkers: 1,
			extra: map[string]interface{}{}, outcomes: map[string]int64{}}
		w := h.newWorker(0)
		w.space = v.Space
		w.guard(string(v.Case))
		for _, b := range w.bads {
			fmt.Println(b)
		}
		if w.bads != nil {
			os.Exit(1)
		}
		fmt.Println("holds")
	default:
		os.Exit(3)
	}
}
