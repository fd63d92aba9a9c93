package main

// Drives the goroutines of an instrumented program from outside: each stops at
// every statement of the program's own source until it is let go.

import (
	"encoding/json"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"time"
)

// A remoteSched receives the points that goroutines stop at.
type remoteSched struct {
	path   string
	l      net.Listener
	conn   net.Conn
	points chan int64
	ready  chan bool
}

func newRemoteSched() *remoteSched {
	botSeq.Lock()
	botSeq.n++
	n := botSeq.n
	botSeq.Unlock()
	r := &remoteSched{path: filepath.Join(scratch(), fmt.Sprintf("sched%d-%d", os.Getpid(), n)), points: make(chan int64, 1024), ready: make(chan bool)}
	l, err := net.Listen("unix", r.path)
	must(err)
	r.l = l
	go func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		r.conn = c
		close(r.ready)
		d := json.NewDecoder(c)
		for {
			var g int64
			if d.Decode(&g) != nil {
				close(r.points)
				return
			}
			r.points <- g
		}
	}()
	return r
}

func (r *remoteSched) env() string { return "VERIF_SCHED=" + r.path }

func (r *remoteSched) grant(g int64) { fmt.Fprintf(r.conn, "%d\n", g) }

func (r *remoteSched) stop() {
	r.l.Close()
	if r.conn != nil {
		r.conn.Close()
	}
	os.Remove(r.path)
}

// An rthread is one of the activities that are interleaved.
type rthread struct {
	gid     int64
	atPoint bool
	stopped bool // at a point or in an operation, or done
	done    bool
	stops   int
	// resume lets it go on from an operation, or starts it.
	resume func()
}

// An interleaver runs two threads, one at a time.
type interleaver struct {
	sched *remoteSched
	ts    [2]*rthread
	cur   int
	// event waits for an event that is not a point; it returns false after the timeout.
	// It updates the threads.
	other func() <-chan func()
	err   string
}

// await waits until thread i stops. It returns false if it seems blocked.
func (x *interleaver) await(i int) bool {
	t := x.ts[i]
	timer := time.NewTimer(400 * time.Millisecond)
	defer timer.Stop()
	for !t.stopped {
		select {
		case g, ok := <-x.sched.points:
			if !ok {
				x.err = "the program has stopped"
				return false
			}
			x.point(g)
		case f := <-x.other():
			f()
			if x.err != "" {
				return false
			}
		case <-timer.C:
			return false
		}
	}
	return true
}

func (x *interleaver) point(g int64) {
	for _, t := range x.ts {
		if t.gid == g {
			t.atPoint, t.stopped = true, true
			t.stops++
			return
		}
	}
	// A new goroutine belongs to the running thread if that has none yet.
	if t := x.ts[x.cur]; t.gid == 0 {
		t.gid = g
		t.atPoint, t.stopped = true, true
		t.stops++
		return
	}
	x.sched.grant(g)
}

// step lets thread i go on to its next stop.
func (x *interleaver) step(i int) bool {
	t := x.ts[i]
	x.cur = i
	if t.stopped && !t.done {
		t.stopped = false
		if t.atPoint {
			t.atPoint = false
			x.sched.grant(t.gid)
		} else {
			t.resume()
		}
	}
	return x.await(i)
}

// run runs the threads: first starts, and the running thread is preempted
// after plan[k] stops. It returns the number of stops of each.
func (x *interleaver) run(first int, plan []int) (stops [2]int, full bool) {
	i, since, next, blocked := first, 0, 0, 0
	for !x.ts[0].done || !x.ts[1].done {
		if x.ts[i].done {
			i, since = 1-i, 0
			continue
		}
		if next < len(plan) && since == plan[next] && !x.ts[1-i].done {
			next++
			i, since = 1-i, 0
			continue
		}
		if x.step(i) {
			since++
			blocked = 0
			continue
		}
		if x.err != "" {
			break
		}
		// It waits for the other thread.
		blocked++
		if blocked > 50 {
			x.err = "the program is stuck"
			break
		}
		if !x.ts[1-i].done {
			i, since = 1-i, 0
		}
	}
	return [2]int{x.ts[0].stops, x.ts[1].stops}, next == len(plan)
}

// checkBotFine runs all interleavings of two channels with up to two
// preemptions at statements of the bot.
func checkBotFine(w *W, bc botCase) {
	sched := newRemoteSched()
	defer sched.stop()
	b := startBot(goBuild{name: "botfine", pkg: "bot", fakeChat: true, sched: true, overlay: remoteOverlay("bot")}.build(), chanNames[:2], sched.env())
	defer b.stop()
	<-sched.ready
	// Bring both channels to where they wait for events.
	gids := map[string]int64{}
	idle := map[string]bool{}
	last := int64(0)
	deadline := time.After(20 * time.Second)
	var queue []int64
	for len(idle) < 2 {
		if last == 0 && len(queue) > 0 {
			last = queue[0]
			queue = queue[1:]
			sched.grant(last)
		}
		select {
		case op, ok := <-b.ops:
			switch {
			case ok && op.Op == "join":
				b.grant(op.Chan, nil, "")
			case ok && op.Op == "recv" && last != 0:
				gids[op.Chan] = last
				idle[op.Chan] = true
				last = 0
			default:
				panic(fmt.Sprintf("harness: the bot does %+v at the start", op))
			}
		case g := <-sched.points:
			if g == last {
				sched.grant(g)
			} else {
				queue = append(queue, g)
			}
		case <-deadline:
			panic(fmt.Sprintf("harness: the instrumented bot does not come to wait for events: %s", b.out.b))
		}
	}
	runPlan := func(first int, plan []int) ([2]int, bool, string) {
		x := &interleaver{sched: sched}
		at := [2]int{}
		var replies [2][]string
		pending := [2]string{"recv", "recv"}
		for i := range x.ts {
			i := i
			x.ts[i] = &rthread{gid: gids[chanNames[i]], stopped: true, done: len(bc.Hist[i]) == 0}
			x.ts[i].resume = func() {
				if pending[i] == "recv" {
					ev := bc.Hist[i][at[i]]
					at[i]++
					b.grant(chanNames[i], &ev, "")
				} else {
					b.grant(chanNames[i], nil, "")
				}
			}
		}
		ev := make(chan func())
		quit := make(chan bool)
		defer close(quit)
		x.other = func() <-chan func() { return ev }
		go func() {
			for {
				var f func()
				select {
				case op, ok := <-b.ops:
					f = func() {
						if !ok {
							x.err = "the bot has stopped: " + lastLine(string(b.out.b))
							return
						}
						i := 0
						if op.Chan == chanNames[1] {
							i = 1
						}
						t := x.ts[i]
						pending[i] = op.Op
						t.stopped, t.atPoint = true, false
						t.stops++
						if op.Op == "send" {
							replies[i] = append(replies[i], op.Text)
						}
						t.done = op.Op == "recv" && at[i] == len(bc.Hist[i])
					}
				case <-quit:
					return
				}
				select {
				case ev <- f:
				case <-quit:
					return
				}
			}
		}()
		stops, full := x.run(first, plan)
		if x.err != "" {
			return stops, full, x.err
		}
		for i, h := range bc.Hist {
			var want []string
			for _, e := range h {
				if r, ok := wantReply(e); ok {
					want = append(want, r)
				}
			}
			if len(replies[i]) != len(want) {
				return stops, full, fmt.Sprintf("channel %s gets the replies %q, want %q", chanNames[i], replies[i], want)
			}
			for k := range want {
				if !sameReply(replies[i][k], want[k]) {
					return stops, full, fmt.Sprintf("channel %s gets the replies %q, want %q", chanNames[i], replies[i], want)
				}
			}
		}
		return stops, full, ""
	}
	explorePlans(w, bc.Plan[0], bc.Plan[1], bc.Plan[2], runPlan)
}

// maxStops bounds the stops of a thread after which it may be preempted.
const maxStops = 110

// planPrefixes emits the first threads and first preemptions of plans. Those
// that no execution reaches cost next to nothing.
func planPrefixes(emit func(first, at int) bool) {
	for first := 0; first < 2; first++ {
		for i := 0; i < maxStops; i++ {
			if !emit(first, i) {
				return
			}
		}
	}
}

// explorePlans runs all plans of up to bound preemptions in which the thread
// first starts and is preempted after at stops.
func explorePlans(w *W, first, at, bound int, run func(first int, plan []int) ([2]int, bool, string)) {
	one := func(plan ...int) ([2]int, bool, bool) {
		stops, full, msg := run(first, plan)
		w.count("schedules")
		w.validated()
		if msg != "" {
			w.bad("with thread %d first and preemptions after %v stops: %s", first, plan, msg)
		}
		return stops, full, msg == ""
	}
	if at == 0 {
		stops, _, _ := one()
		if stops[0] >= maxStops || stops[1] >= maxStops {
			w.count("more stops than explored")
		}
		return
	}
	stops, full, ok := one(at)
	if !ok || !full || bound < 2 {
		return
	}
	for j := 1; j < stops[1-first]; j++ {
		if _, full, ok := one(at, j); !ok || !full {
			return
		}
	}
}
