// Package verifsched has the calls that the checker puts in instrumented
// copies of the sources. Without a checker in control they do nothing.
package verifsched

import (
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---- Two threads in one process, one running at a time ----

// Classes of points.
const (
	Entry  = 1 // entry of a function
	Shared = 2 // statement of a function that touches changeable package state
)

type coop struct {
	classes int
	cur     int
	plan    []int
	next    int
	since   int
	points  [2]int
	done    [2]bool
	wake    [2]chan bool
	free    int32
	ticks   int64
}

var active *coop

// RunCoop runs two functions, one at a time. The function first starts. The
// running one is preempted at its plan[i]-th point since it was resumed.
// It returns the number of points that each passed, whether all of the plan was
// carried out, and whether one had to be let go because it waited for the other.
func RunCoop(classes, first int, plan []int, fs [2]func()) (points [2]int, full, stuck bool) {
	c := &coop{classes: classes, cur: first, plan: plan}
	c.wake[0], c.wake[1] = make(chan bool, 2), make(chan bool, 2)
	var wg sync.WaitGroup
	finished := make(chan bool)
	active = c
	for i := 0; i < 2; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.thread(i, fs[i])
		}()
	}
	c.wake[first] <- true
	go func() { wg.Wait(); close(finished) }()
	last := int64(-1)
	for {
		t := time.NewTimer(2 * time.Millisecond)
		select {
		case <-finished:
			t.Stop()
			active = nil
			return c.points, c.next == len(c.plan), atomic.LoadInt32(&c.free) != 0
		case <-t.C:
			n := atomic.LoadInt64(&c.ticks)
			if n == last && atomic.LoadInt32(&c.free) == 0 && allBlocked() {
				// The running thread waits for the other one: let both go.
				atomic.StoreInt32(&c.free, 1)
				for i := range c.wake {
					select {
					case c.wake[i] <- true:
					default:
					}
				}
			}
			last = n
		}
	}
}

// thread is one of the two threads.
func (c *coop) thread(i int, f func()) {
	<-c.wake[i]
	defer c.exit(i)
	f()
}

// allBlocked returns whether neither thread can run.
func allBlocked() bool {
	buf := make([]byte, 1<<16)
	buf = buf[:runtime.Stack(buf, true)]
	found := false
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !strings.Contains(g, "verifsched.(*coop).thread(") {
			continue
		}
		found = true
		i, j := strings.Index(g, "["), strings.Index(g, "]")
		if i < 0 || j < i {
			return false
		}
		switch st := strings.Split(g[i+1:j], ",")[0]; {
		case strings.HasPrefix(st, "run"), st == "sleep", st == "syscall", st == "IO wait", strings.HasPrefix(st, "GC"), st == "preempted", st == "copystack":
			return false
		}
	}
	return found
}

func (c *coop) exit(i int) {
	if atomic.LoadInt32(&c.free) != 0 {
		return
	}
	c.done[i] = true
	if !c.done[1-i] {
		c.cur = 1 - i
		c.since = 0
		c.wake[1-i] <- true
	}
}

// P is a point at which the running thread may be preempted.
func P(class int) {
	c := active
	if c == nil || class&c.classes == 0 || atomic.LoadInt32(&c.free) != 0 {
		return
	}
	atomic.AddInt64(&c.ticks, 1)
	me := c.cur
	c.points[me]++
	c.since++
	if c.next < len(c.plan) && c.since == c.plan[c.next] && !c.done[1-me] {
		c.next++
		c.cur = 1 - me
		c.since = 0
		c.wake[1-me] <- true
		<-c.wake[me]
	}
}

// ---- Goroutines of a program that the checker drives from outside ----

type remote struct {
	mu    sync.Mutex
	conn  net.Conn
	waits map[int64]chan bool
	free  bool
}

var rem = func() *remote {
	p := os.Getenv("VERIF_SCHED")
	if p == "" {
		return nil
	}
	c, err := net.Dial("unix", p)
	if err != nil {
		fmt.Fprintln(os.Stderr, "verifsched:", err)
		os.Exit(9)
	}
	r := &remote{conn: c, waits: map[int64]chan bool{}}
	go func() {
		d := json.NewDecoder(c)
		for {
			var g int64
			err := d.Decode(&g)
			r.mu.Lock()
			if err != nil || g == 0 {
				r.free = true
				for _, w := range r.waits {
					close(w)
				}
				r.waits = map[int64]chan bool{}
				r.mu.Unlock()
				if err != nil {
					return
				}
				continue
			}
			if w := r.waits[g]; w != nil {
				delete(r.waits, g)
				close(w)
			}
			r.mu.Unlock()
		}
	}()
	return r
}()

func goid() int64 {
	var b [64]byte
	f := strings.Fields(string(b[:runtime.Stack(b[:], false)]))
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n
}

// R is a point at which a goroutine waits for the checker.
func R() {
	if rem == nil {
		return
	}
	g := goid()
	rem.mu.Lock()
	if rem.free {
		rem.mu.Unlock()
		return
	}
	w := make(chan bool)
	rem.waits[g] = w
	_, err := rem.conn.Write([]byte(strconv.FormatInt(g, 10) + "\n"))
	rem.mu.Unlock()
	if err == nil {
		<-w
	}
}

// ---- Faults ----

var fault struct {
	mu          sync.Mutex
	kind        string
	at, call    int // the call and the point in it
	calls, seen int
	armed       bool
}

func init() {
	f := strings.Split(os.Getenv("VERIF_FAULT"), ":")
	if len(f) == 3 {
		fault.kind = f[0]
		fault.call, _ = strconv.Atoi(f[1])
		fault.at, _ = strconv.Atoi(f[2])
	}
}

// Begin begins a call in which a fault may be injected.
func Begin() {
	if fault.kind == "" {
		return
	}
	fault.mu.Lock()
	fault.calls++
	fault.armed = fault.calls == fault.call
	fault.mu.Unlock()
	F()
}

// End ends the call.
func End() {
	if fault.kind == "" {
		return
	}
	fault.mu.Lock()
	fault.armed = false
	fault.mu.Unlock()
}

type custom struct{ a, b int }

// F is a point at which a fault may be injected.
func F() {
	if fault.kind == "" {
		return
	}
	fault.mu.Lock()
	hit := false
	if fault.armed {
		fault.seen++
		hit = fault.seen == fault.at
	}
	fault.mu.Unlock()
	if !hit {
		return
	}
	switch fault.kind {
	case "string":
		panic("injected")
	case "empty":
		panic("")
	case "error":
		panic(errors.New("injected"))
	case "nilmap":
		var m map[string]int
		m["x"]++
	case "nilptr":
		var p *custom
		p.a++
	case "index":
		var s []int
		_ = s[fault.at]
	case "custom":
		panic(&custom{1, 2})
	case "int":
		panic(fault.at)
	case "fragment":
		panic("fragment")
	}
}
