package main

// Builds the programs of the repository and runs them.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

const repoDir = "/repo"

var (
	scratchOnce sync.Once
	scratchPath string
)

// scratch returns a directory for build output, removed by run.sh.
func scratch() string {
	scratchOnce.Do(func() {
		scratchPath = os.Getenv("MC_SCRATCH")
		if scratchPath == "" {
			d, err := os.MkdirTemp("", "mc-scratch-")
			if err != nil {
				panic("harness: " + err.Error())
			}
			scratchPath = d
		}
	})
	return scratchPath
}

// srcDir is the directory of the checker's sources.
func srcDir() string {
	if d := os.Getenv("MC_SRC"); d != "" {
		return d
	}
	return "/verif/mc"
}

// A goBuild says how to build a program of the repository.
type goBuild struct {
	name     string // of the output
	pkg      string // relative to /repo
	fakeChat bool
	overlay  map[string]string // /repo path to source text
	sched    bool              // needs the module verifsched
	flags    []string
}

var (
	builtMu sync.Mutex
	built   = map[string]string{}
)

// build builds a program once and returns its path.
// It panics if it does not build, since then nothing can be decided.
func (b goBuild) build() string {
	builtMu.Lock()
	defer builtMu.Unlock()
	if p := built[b.name]; p != "" {
		return p
	}
	dir, err := os.MkdirTemp(scratch(), "build-"+b.name+"-")
	must(err)
	mod, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	must(err)
	m := string(mod)
	if b.fakeChat {
		m += "\nreplace github.com/velour/chat => " + filepath.Join(dir, "chat") + "\n"
		makeFakeChat(filepath.Join(dir, "chat"))
	}
	if b.sched {
		m += "\nrequire verifsched v0.0.0\nreplace verifsched => " + filepath.Join(srcDir(), "testdata", "verifsched") + "\n"
	}
	must(os.WriteFile(filepath.Join(dir, "go.mod"), []byte(m), 0o666))
	sums := map[string]bool{}
	for _, f := range []string{filepath.Join(repoDir, "go.sum"), filepath.Join(srcDir(), "go.sum")} {
		s, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(s), "\n") {
			if l != "" {
				sums[l] = true
			}
		}
	}
	var lines []string
	for l := range sums {
		lines = append(lines, l)
	}
	sort.Strings(lines)
	must(os.WriteFile(filepath.Join(dir, "go.sum"), []byte(strings.Join(lines, "\n")+"\n"), 0o666))
	out := filepath.Join(dir, b.name)
	args := []string{"build", "-buildvcs=false", "-mod=mod", "-modfile=" + filepath.Join(dir, "go.mod"), "-o", out}
	if len(b.overlay) > 0 {
		rep := map[string]string{}
		n := 0
		for p, src := range b.overlay {
			f := filepath.Join(dir, fmt.Sprintf("overlay%d_%s", n, filepath.Base(p)))
			n++
			must(os.WriteFile(f, []byte(src), 0o666))
			rep[p] = f
		}
		writeJSON(filepath.Join(dir, "overlay.json"), map[string]interface{}{"Replace": rep})
		args = append(args, "-overlay="+filepath.Join(dir, "overlay.json"))
	}
	args = append(args, b.flags...)
	args = append(args, "./"+b.pkg)
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = append(os.Environ(), "GOFLAGS=", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local")
	if msg, err := cmd.CombinedOutput(); err != nil {
		panic(fmt.Sprintf("harness: go %q: %v\n%s", args, err, msg))
	}
	built[b.name] = out
	return out
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// makeFakeChat makes a copy of the chat module in which the chat service is
// replaced by a connection to the checker.
func makeFakeChat(dir string) {
	cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", "github.com/velour/chat")
	cmd.Dir = srcDir()
	out, err := cmd.Output()
	if err != nil {
		panic(fmt.Sprintf("harness: go list: %v", err))
	}
	from := strings.TrimSpace(string(out))
	must(os.MkdirAll(filepath.Join(dir, "discord"), 0o777))
	must(os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module github.com/velour/chat\n\ngo 1.13\n"), 0o666))
	fs, err := filepath.Glob(filepath.Join(from, "*.go"))
	must(err)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		must(err)
		must(os.WriteFile(filepath.Join(dir, filepath.Base(f)), b, 0o666))
	}
	b, err := os.ReadFile(filepath.Join(srcDir(), "testdata", "discord", "discord.go"))
	must(err)
	must(os.WriteFile(filepath.Join(dir, "discord", "discord.go"), b, 0o666))
}

func cliBinary() string {
	return goBuild{name: "toaq", pkg: "."}.build()
}

func serverBinary() string {
	return goBuild{name: "server", pkg: "server"}.build()
}

func botBinary() string {
	return goBuild{name: "bot", pkg: "bot", fakeChat: true}.build()
}

// start starts a program that dies with the checker.
func start(cmd *exec.Cmd) error {
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return cmd.Start()
}

// ---- the server ----

// A server is a running server.
type server struct {
	cmd  *exec.Cmd
	addr string
	out  *tail
	dead chan bool
}

func startServer(bin string, env ...string) *server {
	return startServerIn(bin, repoDir, "", env...)
}

// startServerIn starts a server in a directory, at a given port or at a free one.
// A given port is not announced to the server.
func startServerIn(bin, dir, fixed string, env ...string) *server {
	for try := 0; ; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		_, port, _ := net.SplitHostPort(l.Addr().String())
		l.Close()
		s := &server{addr: "127.0.0.1:" + port, out: &tail{}, dead: make(chan bool)}
		s.cmd = exec.Command(bin)
		s.cmd.Dir = dir
		s.cmd.Env = append(append(os.Environ(), "PORT="+port), env...)
		if fixed != "" {
			s.addr = "127.0.0.1:" + fixed
			s.cmd.Env = nil
			for _, e := range os.Environ() {
				if !strings.HasPrefix(e, "PORT=") {
					s.cmd.Env = append(s.cmd.Env, e)
				}
			}
		}
		s.cmd.Stdout, s.cmd.Stderr = s.out, s.out
		must(start(s.cmd))
		go func() { s.cmd.Wait(); close(s.dead) }()
		for i := 0; i < 300; i++ {
			if c, err := net.Dial("tcp", s.addr); err == nil {
				c.Close()
				if s.alive() {
					return s
				}
			}
			if !s.alive() {
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		s.stop()
		if try == 3 {
			msg := "the server does not listen at " + s.addr + ": " + string(s.out.b)
			if len(env) > 0 {
				msg = "harness: " + msg
			}
			panic(msg)
		}
	}
}

func (s *server) alive() bool {
	select {
	case <-s.dead:
		return false
	default:
		return true
	}
}

func (s *server) stop() {
	s.cmd.Process.Kill()
	<-s.dead
}

// An answer is what came back for a request.
type answer struct {
	err    error // no complete response
	status int
	body   []byte
}

func (a answer) String() string {
	if a.err != nil {
		return "no response: " + a.err.Error()
	}
	return fmt.Sprintf("%d %.300q", a.status, a.body)
}

// readAnswer reads the next response on a connection.
func readAnswer(r *bufio.Reader, method string) answer {
	resp, err := http.ReadResponse(r, &http.Request{Method: method})
	if err != nil {
		return answer{err: err}
	}
	for resp.StatusCode == 100 {
		if resp, err = http.ReadResponse(r, &http.Request{Method: method}); err != nil {
			return answer{err: err}
		}
	}
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return answer{err: err, status: resp.StatusCode, body: b}
	}
	return answer{status: resp.StatusCode, body: b}
}

// ---- the bot ----

// A botEvent is an event of a chat channel.
type botEvent struct {
	Kind string `json:"kind"` // message, edit, delete, join, leave, rename
	Nick string `json:"nick"`
	Anon bool   `json:"anon,omitempty"` // without a sender
	Text string `json:"text"`
	// Reply makes the message a reply to one with this text.
	Reply string `json:"reply,omitempty"`
}

// A botOp is an operation that the bot is blocked in.
type botOp struct {
	Op    string `json:"op"` // join, recv, send, edit, delete
	Chan  string `json:"ch"`
	Guild string `json:"guild"`
	Text  string `json:"text"`
}

// A bot is a running bot.
type bot struct {
	cmd  *exec.Cmd
	out  *tail
	dead chan bool
	conn net.Conn
	l    net.Listener
	ops  chan botOp
	path string
	// pending has the operation that each channel is blocked in.
	pending map[string]botOp
	stray   []botOp
}

var botSeq struct {
	sync.Mutex
	n int
}

func startBot(bin string, chans []string, env ...string) *bot {
	botSeq.Lock()
	botSeq.n++
	n := botSeq.n
	botSeq.Unlock()
	b := &bot{out: &tail{}, dead: make(chan bool), ops: make(chan botOp, 1024), pending: map[string]botOp{}}
	b.path = filepath.Join(scratch(), fmt.Sprintf("bot%d-%d", os.Getpid(), n))
	l, err := net.Listen("unix", b.path)
	must(err)
	b.l = l
	b.cmd = exec.Command(bin)
	b.cmd.Dir = repoDir
	b.cmd.Env = append(append(os.Environ(), "DISCORD_TOKEN="+b.path, "DISCORD_SERVER=toaq", "DISCORD_CHANS="+strings.Join(chans, ",")), env...)
	b.cmd.Stdout, b.cmd.Stderr = b.out, b.out
	must(start(b.cmd))
	go func() { b.cmd.Wait(); close(b.dead) }()
	kind := ""
	if len(env) > 0 {
		kind = "harness: "
	}
	got := make(chan net.Conn, 1)
	go func() {
		c, err := l.Accept()
		if err == nil {
			got <- c
		}
	}()
	select {
	case b.conn = <-got:
	case <-b.dead:
		panic(kind + "the bot does not start: " + string(b.out.b))
	case <-time.After(20 * time.Second):
		panic(kind + "the bot does not connect")
	}
	go func() {
		d := json.NewDecoder(b.conn)
		for {
			var op botOp
			if d.Decode(&op) != nil {
				close(b.ops)
				return
			}
			b.ops <- op
		}
	}()
	return b
}

// wait waits until a channel is blocked in an operation.
func (b *bot) wait(ch string) (botOp, error) {
	t := time.NewTimer(20 * time.Second)
	defer t.Stop()
	for {
		if op, ok := b.pending[ch]; ok {
			return op, nil
		}
		select {
		case op, ok := <-b.ops:
			if !ok {
				select {
				case <-b.dead:
				case <-time.After(5 * time.Second):
				}
				return botOp{}, fmt.Errorf("the bot has stopped (%v): %s", b.cmd.ProcessState, lastLine(string(b.out.b)))
			}
			if _, ok := b.pending[op.Chan]; ok {
				b.stray = append(b.stray, op)
				return botOp{}, fmt.Errorf("the bot does two things at once in channel %q: %+v and %+v", op.Chan, b.pending[op.Chan], op)
			}
			b.pending[op.Chan] = op
		case <-t.C:
			return botOp{}, fmt.Errorf("the bot does nothing in channel %q", ch)
		}
	}
}

func lastLine(s string) string {
	s = strings.TrimSpace(s)
	if len(s) > 600 {
		s = s[:600]
	}
	return s
}

// grant lets the operation that a channel is blocked in complete.
func (b *bot) grant(ch string, ev *botEvent, fail string) {
	delete(b.pending, ch)
	m, err := json.Marshal(map[string]interface{}{"ch": ch, "ev": ev, "err": fail})
	must(err)
	b.conn.Write(append(m, '\n'))
}

func (b *bot) stop() {
	b.cmd.Process.Kill()
	<-b.dead
	b.conn.Close()
	b.l.Close()
	os.Remove(b.path)
}
