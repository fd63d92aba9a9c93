package main

// C21: concurrent users do not affect one another.
//
// The library is explored in processes built from instrumented copies of the
// sources: two users run one at a time under a scheduler that preempts them at
// planned points, and every plan within the bound is run. The server is
// explored in the same way, from outside, at the statements of its handler.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"verifsched"

	"github.com/eaburns/peggy/peg"
	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"
	"github.com/eaburns/toaq/tone"
)

func init() {
	register(&check{id: "C21", explore: exploreC21, one: checkC21, watch: 280 * time.Second,
		assumptions: []string{
			"bound: two users; preemptions per schedule as listed under spaces; a user is preempted at entries of functions and at statements of functions that touch package state that can change",
			"functions that touch no package state and use no shared object commute with every step of the other user, so preempting inside them adds nothing",
			"data races are detected by the race detector's happens-before analysis on executions of every pair of operations, run without the scheduler",
		}})
}

// A user is one of two concurrent users.
type user struct {
	Op   string `json:"op"`
	Text string `json:"text"`
}

// A concCase is a pair of users and a family of schedules.
type concCase struct {
	Kind    string  `json:"kind"` // coop, race, server, race-server, race-bot
	U       [2]user `json:"u"`
	Classes int     `json:"classes,omitempty"`
	Bound   int     `json:"bound,omitempty"`
	// Plan is the first user and, for the server, its first preemption.
	Plan []int  `json:"plan,omitempty"`
	List []user `json:"list,omitempty"`
}

func (c concCase) String() string {
	b, err := json.Marshal(c)
	must(err)
	return string(b)
}

// ---- operations ----

// userOps prepare an operation on a text and return it. It gives all that a
// user can see of the result.
var userOps = map[string]func(text string) func() string{
	"parse": func(text string) func() string {
		return func() string {
			t, err := ast.NewParser(text).Text()
			if err != nil {
				return "error " + err.Error()
			}
			return convert(t).ser(serFull)
		}
	},
	"tree": func(text string) func() string {
		return func() string {
			p := ast.NewParser(text)
			n, err := p.Tree()
			if err != nil {
				return "error " + err.Error()
			}
			t, err := p.Text()
			if err != nil {
				return "error " + err.Error()
			}
			return peg.Pretty(n) + convert(t).ser(serFull)
		}
	},
	"braces": func(text string) func() string {
		t := userText(text)
		return func() string { return ast.BracesString(t) }
	},
	"visit": func(text string) func() string {
		t := userText(text)
		return func() string {
			var b strings.Builder
			ast.Visit(t, ast.FuncVisitor(func(n ast.Node) {
				fmt.Fprintf(&b, "%T %d %d ", n, n.Start(), n.End())
			}))
			return b.String()
		}
	},
	"equal": func(text string) func() string {
		t, u := userText(text), userText(text)
		return func() string { return fmt.Sprint(ast.Equal(t, u)) }
	},
	"ascii": func(text string) func() string {
		t := userText(text)
		return func() string { ast.ToASCII(t); return convert(t).ser(serFull) }
	},
	"interpret": func(text string) func() string {
		t := userText(text)
		return func() string {
			s := logic.Interpret(t)
			if s == nil {
				return "fragment"
			}
			return snapshot(s, false)
		}
	},
	"print": func(text string) func() string {
		s := logic.Interpret(userText(text))
		return func() string {
			if s == nil {
				return ""
			}
			return logic.String(s) + "\n" + logic.PrettyString(s)
		}
	},
	"clear": func(text string) func() string {
		s := logic.Interpret(userText(text))
		return func() string {
			if s == nil {
				return ""
			}
			logic.NillOutAST(s)
			return snapshot(s, false)
		}
	},
	"tone": func(text string) func() string {
		ws := strings.Fields(text)
		return func() string {
			var b strings.Builder
			for _, w := range ws {
				b.WriteString(tone.ToASCII(w) + " " + tone.Strip(w) + " " + string(tone.Tone(w)))
				for _, t := range tones {
					b.WriteString(" " + tone.WithTone(w, rune(t)))
				}
			}
			return b.String()
		}
	},
	"all": func(text string) func() string {
		return func() string {
			t, err := ast.NewParser(text).Text()
			if err != nil {
				return "error " + err.Error()
			}
			r := ast.BracesString(t)
			s := logic.Interpret(t)
			if s == nil {
				return r + "\nfragment"
			}
			return r + "\n" + logic.PrettyString(s)
		}
	},
}

func userText(text string) *ast.Text {
	t, err := ast.NewParser(text).Text()
	must(err)
	return t
}

func guarded(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("panic: %v", r)
		}
	}()
	return f()
}

// ---- subprocesses ----

// coopResult is what a subprocess says of a case.
type coopResult struct {
	Bad       string `json:"bad"`
	Schedules int    `json:"schedules"`
	Points    [2]int `json:"points"`
	Stuck     int    `json:"stuck"`
}

// coopServe runs the cases on standard input.
func coopServe() {
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1 << 30)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var c concCase
		must(json.Unmarshal(line, &c))
		b, err := json.Marshal(runCoop(c))
		must(err)
		os.Stdout.Write(append(b, '\n'))
	}
}

func runCoop(c concCase) (res coopResult) {
	var want [2]string
	for i, u := range c.U {
		want[i] = guarded(userOps[u.Op](u.Text))
	}
	first := c.Plan[0]
	run := func(plan ...int) (points [2]int, full bool) {
		var got [2]string
		var fs [2]func()
		for i, u := range c.U {
			i, f := i, userOps[u.Op](u.Text)
			fs[i] = func() { got[i] = guarded(f) }
		}
		points, full, stuck := verifsched.RunCoop(c.Classes, first, plan, fs)
		res.Schedules++
		if stuck {
			res.Stuck++
		}
		for i := range got {
			if got[i] != want[i] {
				res.Bad = fmt.Sprintf("user %d (%s %q) gets\n%.600s\nalone it gets\n%.600s\nUser %d starts; preemptions after %v points.",
					i, c.U[i].Op, c.U[i].Text, got[i], want[i], first, plan)
			}
		}
		return points, full
	}
	points, _ := run()
	res.Points = points
	for i := 1; i <= points[first] && res.Bad == ""; i++ {
		if _, full := run(i); !full || c.Bound < 2 {
			continue
		}
		for j := 1; j <= points[1-first] && res.Bad == ""; j++ {
			if _, full := run(i, j); !full {
				break
			}
		}
	}
	return res
}

// raceServe runs the operations of a list against one another, in parallel.
func raceServe() {
	var c concCase
	must(json.NewDecoder(os.Stdin).Decode(&c))
	for i, a := range c.List {
		for _, b := range c.List[i:] {
			for n := 0; n < c.Bound; n++ {
				var wg sync.WaitGroup
				begin := make(chan bool)
				for _, u := range []user{a, b} {
					f := userOps[u.Op](u.Text)
					want := ""
					if n == 0 {
						want = guarded(userOps[u.Op](u.Text))
					}
					u := u
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-begin
						if got := guarded(f); n == 0 && got != want {
							fmt.Printf("beside another user, %s %q gives\n%.600s\nalone\n%.600s\n", u.Op, u.Text, got, want)
							os.Exit(1)
						}
					}()
				}
				close(begin)
				wg.Wait()
			}
		}
	}
}

var selfMu sync.Mutex
var selves = map[string]*selfBuild{}
var sharedState []string

type selfBuild struct {
	once sync.Once
	path string
}

// self builds this program, with race detection or with instrumented copies
// of the library.
func self(how string) string {
	selfMu.Lock()
	b := selves[how]
	if b == nil {
		b = &selfBuild{}
		selves[how] = b
	}
	selfMu.Unlock()
	b.once.Do(func() { b.path = buildSelf(how) })
	if b.path == "" {
		panic("harness: no " + how + " build")
	}
	return b.path
}

func buildSelf(how string) string {
	dir, err := os.MkdirTemp(scratch(), "self-")
	must(err)
	out := filepath.Join(dir, "mc")
	args := []string{"build", "-buildvcs=false", "-o", out}
	if how == "race" {
		args = append(args, "-race")
	} else {
		overlay, state := coopOverlay()
		sharedState = state
		rep := map[string]string{}
		for p, src := range overlay {
			f := filepath.Join(dir, strings.ReplaceAll(strings.Trim(p, "/"), "/", "_"))
			must(os.WriteFile(f, []byte(src), 0o666))
			rep[p] = f
		}
		o := filepath.Join(dir, "overlay.json")
		writeJSON(o, map[string]interface{}{"Replace": rep})
		args = append(args, "-overlay="+o)
	}
	cmd := exec.Command("go", append(args, ".")...)
	cmd.Dir = srcDir()
	if msg, err := cmd.CombinedOutput(); err != nil {
		panic(fmt.Sprintf("harness: go %q: %v\n%s", args, err, msg))
	}
	return out
}

// A coopProc is a subprocess that explores schedules.
type coopProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *tail
}

var coopPool struct {
	sync.Mutex
	free []*coopProc
}

func getCoop() *coopProc {
	coopPool.Lock()
	if n := len(coopPool.free); n > 0 {
		p := coopPool.free[n-1]
		coopPool.free = coopPool.free[:n-1]
		coopPool.Unlock()
		return p
	}
	coopPool.Unlock()
	p := &coopProc{cmd: exec.Command(self("coop"), "coop", "C21"), err: &tail{}}
	p.cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
	p.cmd.Stderr = p.err
	var err error
	p.in, err = p.cmd.StdinPipe()
	must(err)
	o, err := p.cmd.StdoutPipe()
	must(err)
	p.out = bufio.NewReaderSize(o, 1<<20)
	must(start(p.cmd))
	return p
}

func (p *coopProc) stop() {
	p.cmd.Process.Kill()
	p.in.Close()
	p.cmd.Wait()
}

// ---- the space ----

func exploreC21(h *H) {
	libMu.on = true
	go try(func() {
		self("race")
		raceServerBinary()
		raceBotBinary()
	})
	self("coop")
	h.extra["changeable_package_state"] = append([]string{}, sharedState...)
	var names []string
	for n := range userOps {
		names = append(names, n)
	}
	names = sortedStrings(names)
	texts := []string{"gi? ji/", "sa do/ bi gi? do/ na", "ji/"}
	pairs := [][2]string{{texts[0], texts[0]}, {texts[0], texts[1]}, {texts[1], texts[2]}, {"gỉ sa púq da", "gi?"}}
	if !h.quick() {
		pairs = append(pairs, [][2]string{{"to ru gi? to suq? ji/ na gi?", "gi? lu^ hoa? suq/ na"}, {"gi? ji/ kio gi? ki", "lu/ hoa? do/ bi gi? do/ da"}}...)
	}
	emitPairs := func(classes, bound int, ps [][2]string, ops [][2]string, emit func(string) bool) {
		for _, p := range ps {
			for _, o := range ops {
				for first := 0; first < 2; first++ {
					if !emit(concCase{Kind: "coop", U: [2]user{{o[0], p[0]}, {o[1], p[1]}}, Classes: classes, Bound: bound, Plan: []int{first}}.String()) {
						return
					}
				}
			}
		}
	}
	var all [][2]string
	for i, a := range names {
		for _, b := range names[i:] {
			all = append(all, [2]string{a, b})
		}
	}
	h.cases("shared-state", fmt.Sprintf("all pairs of %d operations on %d pairs of texts; up to 2 preemptions at every statement of the functions that touch changeable package state", len(names), len(pairs)), func(emit func(string) bool) {
		emitPairs(verifsched.Shared, 2, pairs, all, emit)
	})
	h.cases("functions", "pairs of operations on pairs of texts; 1 preemption at every function entry and every statement of functions that touch changeable package state", func(emit func(string) bool) {
		ps := pairs[:1]
		if !h.quick() {
			ps = pairs
		}
		emitPairs(verifsched.Shared|verifsched.Entry, 1, ps, all, emit)
	})
	h.cases("functions-logic", "pairs of interpretations of texts that use most of the interpreter's state; 1 preemption at every function entry and every statement of functions that touch changeable package state", func(emit func(string) bool) {
		long := []string{
			"gi? ji/ ru suq/ hoq/ ji/",
			"ke do/ pa to ru gi? to suq? do/ hi ji/ giV hoa/ na na",
			"gi? po/ ji/ ru suq/ lu^ gi? hoq/ do/ na",
			"sa do/ ne\\ suq/ ru hoq/ bi gi? do/ gi~ da gi? lu/ gi? hoa/ na ji/",
		}
		var ps [][2]string
		for _, a := range long {
			for _, b := range long {
				if h.quick() && a != b && b != long[0] {
					continue
				}
				ps = append(ps, [2]string{a, b})
			}
		}
		ops := [][2]string{{"interpret", "interpret"}, {"interpret", "print"}}
		if !h.quick() {
			ops = append(ops, [2]string{"all", "all"})
		}
		emitPairs(verifsched.Shared|verifsched.Entry, 1, ps, ops, emit)
	})
	bodies := []string{"gi? ji/", "gi? sa", "ji/", ""}
	h.cases("server", "two concurrent requests; up to 2 preemptions at statements of the server's source", func(emit func(string) bool) {
		for i, a := range bodies {
			for j, b := range bodies {
				if h.quick() && (j < i || i > 1 && j > i) {
					continue
				}
				ok := true
				planPrefixes(func(first, at int) bool {
					ok = emit(concCase{Kind: "server", U: [2]user{{"POST", a}, {"POST", b}}, Plan: []int{first, at}, Bound: 2}.String())
					return ok
				})
				if !ok {
					return
				}
			}
		}
		for _, m := range []string{"GET", "PUT"} {
			ok := true
			planPrefixes(func(first, at int) bool {
				ok = emit(concCase{Kind: "server", U: [2]user{{"POST", bodies[0]}, {m, ""}}, Plan: []int{first, at}, Bound: 2}.String())
				return ok
			})
			if !ok {
				return
			}
		}
	})
	h.cases("races", "every pair of operations on every pair of texts, run in parallel under the race detector; pairs of requests to the server and of messages to the bot", func(emit func(string) bool) {
		emit(concCase{Kind: "race-server"}.String())
		emit(concCase{Kind: "race-bot"}.String())
		var list []user
		for _, n := range names {
			for _, t := range texts {
				list = append(list, user{n, t})
			}
		}
		rep := 3
		if !h.quick() {
			rep = 20
		}
		emit(concCase{Kind: "race", List: list, Bound: rep}.String())
	})
}

func sortedStrings(ss []string) []string {
	out := append([]string{}, ss...)
	for i := range out {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func checkC21(w *W, s string) {
	var c concCase
	must(json.Unmarshal([]byte(s), &c))
	switch c.Kind {
	case "coop":
		p := getCoop()
		p.in.Write([]byte(s + "\n"))
		line, err := p.out.ReadBytes('\n')
		if err != nil {
			p.stop()
			if bytes.Contains(p.err.b, []byte("harness:")) {
				panic("harness: " + string(p.err.b))
			}
			w.bad("the users together crash the program: %s", lastLine(string(p.err.b)))
			return
		}
		var r coopResult
		must(json.Unmarshal(line, &r))
		w.nval += int64(r.Schedules)
		w.out["schedules"] += int64(r.Schedules)
		w.out["points"] += int64(r.Points[0] + r.Points[1])
		w.out["schedules in which a user waited for the other"] += int64(r.Stuck)
		if r.Bad != "" {
			p.stop()
			w.bad("%s", r.Bad)
			return
		}
		coopPool.Lock()
		coopPool.free = append(coopPool.free, p)
		coopPool.Unlock()
	case "race":
		cmd := exec.Command(self("race"), "races", "C21")
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
		cmd.Stdin = strings.NewReader(s)
		out, code, late := runLimited(cmd, 250*time.Second)
		w.validated()
		switch {
		case late:
			w.bad("the users together do not come to an end")
		case strings.Contains(out, "harness:"):
			panic("harness: " + out)
		case code != 0:
			w.bad("%s", out)
		}
	case "race-server":
		raceServer(w)
	case "race-bot":
		raceBot(w)
	case "server":
		checkServerFine(w, c)
	}
}

func raceServerBinary() string {
	return goBuild{name: "server-race", pkg: "server", flags: []string{"-race"}}.build()
}

func raceBotBinary() string {
	return goBuild{name: "bot-race", pkg: "bot", fakeChat: true, flags: []string{"-race"}}.build()
}

// raceServer sends pairs of requests to a server with race detection.
func raceServer(w *W) {
	s := startServer(raceServerBinary(), "GORACE=halt_on_error=1 exitcode=66")
	defer s.stop()
	reqs := []hreq{post("gi? ji/"), post("ji/"), post("xx"), post("gi? sa"), {Method: "GET", Path: "/", Framing: "none", Cut: -1}, {Method: "PUT", Path: "/", Framing: "none", Cut: -1},
		{Method: "POST", Path: "/", Body: "gi?", Framing: "length", Cut: 1}}
	for i, a := range reqs {
		for _, b := range reqs[i:] {
			for n := 0; n < 3; n++ {
				var wg sync.WaitGroup
				var as [2]answer
				for k, r := range []hreq{a, b} {
					k, r := k, r
					wg.Add(1)
					go func() {
						defer wg.Done()
						c := &hconn{s: s}
						as[k] = c.do(r)
						c.close()
					}()
				}
				wg.Wait()
				w.validated()
				for k, r := range []hreq{a, b} {
					if m := judgeAnswer(w, r, as[k]); m != "" || !s.alive() {
						time.Sleep(100 * time.Millisecond)
						w.bad("requests %+v and %+v: %s\n%s", a, b, m, lastLine(string(s.out.b)))
						return
					}
				}
			}
		}
	}
}

// raceBot sends messages to a bot with race detection on two channels at once.
func raceBot(w *W) {
	b := newBot(raceBotBinary(), 2, "GORACE=halt_on_error=1 exitcode=66")
	defer b.stop()
	texts := []string{".miu gi? ji/", ".miu ji/", ".miu xx", "hello", ".miu gi? sa"}
	for i, x := range texts {
		for _, y := range texts[i:] {
			ms := []botEvent{msg(x), msg(y)}
			for k := range ms {
				if op, err := b.wait(chanNames[k]); err != nil || op.Op != "recv" {
					w.bad("the bot does %+v (%v)", op, err)
					return
				}
			}
			for k := range ms {
				b.grant(chanNames[k], &ms[k], "")
			}
			w.validated()
			for k := range ms {
				want, ok := wantReply(ms[k])
				op, err := b.wait(chanNames[k])
				if err != nil || !ok && op.Op != "recv" || ok && (op.Op != "send" || !sameReply(op.Text, want)) {
					w.bad("messages %q and %q at once: in channel %d the bot does %+v (%v), want %q", x, y, k, op, err, want)
					return
				}
			}
			for k := range ms {
				if b.pending[chanNames[k]].Op == "send" {
					b.grant(chanNames[k], nil, "")
				}
			}
		}
	}
}

var fineServers struct {
	sync.Mutex
	free []*fineServer
}

type fineServer struct {
	s     *server
	sched *remoteSched
}

// checkServerFine interleaves two requests at the statements of the handler.
func checkServerFine(w *W, c concCase) {
	fineServers.Lock()
	var fs *fineServer
	if n := len(fineServers.free); n > 0 {
		fs = fineServers.free[n-1]
		fineServers.free = fineServers.free[:n-1]
	}
	fineServers.Unlock()
	if fs == nil {
		bin := goBuild{name: "server-fine", pkg: "server", sched: true, overlay: remoteOverlay("server")}.build()
		fs = &fineServer{sched: newRemoteSched()}
		fs.s = startServer(bin, fs.sched.env())
		<-fs.sched.ready
	}
	reqs := [2]hreq{}
	for i, u := range c.U {
		reqs[i] = hreq{Method: u.Op, Path: "/", Body: goQuote(u.Text), Framing: "length", Cut: -1}
		if u.Op == "GET" {
			reqs[i].Framing = "none"
		}
	}
	explorePlans(w, c.Plan[0], c.Plan[1], c.Bound, func(first int, plan []int) ([2]int, bool, string) {
		x := &interleaver{sched: fs.sched}
		ev := make(chan func(), 4)
		x.other = func() <-chan func() { return ev }
		var as [2]answer
		for i := range x.ts {
			i := i
			x.ts[i] = &rthread{stopped: true}
			x.ts[i].resume = func() {
				go func() {
					conn := &hconn{s: fs.s}
					a := conn.do(reqs[i])
					conn.close()
					ev <- func() {
						as[i] = a
						x.ts[i].done, x.ts[i].stopped = true, true
						x.ts[i].stops++
					}
				}()
			}
		}
		stops, full := x.run(first, plan)
		if x.err != "" {
			return stops, full, x.err + " " + lastLine(string(fs.s.out.b))
		}
		for i, r := range reqs {
			if m := judgeAnswer(w, r, as[i]); m != "" {
				return stops, full, fmt.Sprintf("request %d (%s %q): %s", i, r.Method, r.Body, m)
			}
		}
		return stops, full, ""
	})
	if w.bads != nil {
		fs.s.stop()
		fs.sched.stop()
		return
	}
	fineServers.Lock()
	fineServers.free = append(fineServers.free, fs)
	fineServers.Unlock()
}
