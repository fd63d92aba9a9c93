package main

// C20: the web service.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"html/template"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/eaburns/peggy/peg"
	"github.com/eaburns/pretty"
	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"
)

func init() {
	register(&check{id: "C20", explore: exploreC20, one: checkC20, watch: 90 * time.Second,
		assumptions: []string{
			"the server built from the working tree runs on the loopback network, one process per worker, and is driven over raw TCP connections",
			"the library results it is compared with come from the same working tree; C01 to C18 decide whether those are right",
			"a truncated body is one whose sender closes its side of the connection before the announced end",
		}})
}

// A hreq is a request.
type hreq struct {
	Method  string  `json:"method"`
	Path    string  `json:"path"`
	Body    goQuote `json:"body"`
	Gen     int     `json:"gen,omitempty"` // repeat the body
	Tail    goQuote `json:"tail,omitempty"`
	Framing string  `json:"framing"` // length, chunked, close, none; badsize is a malformed chunk
	Chunk   int     `json:"chunk,omitempty"`
	Cut     int     `json:"cut"`             // bytes of the payload sent; -1 for all
	Split   int     `json:"split,omitempty"` // pause after this many bytes
	Header  string  `json:"header,omitempty"`
	// Fault, in the first request of a session, makes an instrumented copy of
	// the interpreter fail, as kind:call:point.
	Fault string `json:"fault,omitempty"`
}

func sessionCase(rs ...hreq) string {
	b, err := json.Marshal(rs)
	must(err)
	return string(b)
}

func post(body string) hreq {
	return hreq{Method: "POST", Path: "/", Body: goQuote(body), Framing: "length", Cut: -1}
}

func (r hreq) body() string {
	if r.Gen > 0 {
		return strings.Repeat(string(r.Body), r.Gen) + string(r.Tail)
	}
	return string(r.Body)
}

// wire returns the head and payload to send and whether the body is whole.
func (r hreq) wire() (string, string, bool) {
	path := r.Path
	if path == "" {
		path = "/"
	}
	head := r.Method + " " + path + " HTTP/1.1\r\nHost: toaq\r\n" + r.Header
	body := r.body()
	payload := body
	switch r.Framing {
	case "length":
		head += fmt.Sprintf("Content-Length: %d\r\n", len(body))
	case "chunked", "badsize":
		head += "Transfer-Encoding: chunked\r\n"
		payload = ""
		for s := body; s != ""; {
			n := r.Chunk
			if n <= 0 || n > len(s) {
				n = len(s)
			}
			payload += fmt.Sprintf("%x\r\n%s\r\n", n, s[:n])
			s = s[n:]
		}
		if r.Framing == "badsize" {
			return head + "\r\n", payload + "zz\r\n\r\n", false
		}
		payload += "0\r\n\r\n"
	}
	head += "\r\n"
	if r.Cut >= 0 && r.Cut < len(payload) {
		return head, payload[:r.Cut], false
	}
	return head, payload, true
}

// libMu is held by users of the library that compare the results of others
// with it, if those may show that the library cannot be used concurrently.
var libMu maybeMutex

type maybeMutex struct {
	on bool
	mu sync.Mutex
}

func (m *maybeMutex) Lock() {
	if m.on {
		m.mu.Lock()
	}
}

func (m *maybeMutex) Unlock() {
	if m.on {
		m.mu.Unlock()
	}
}

// wantPost is what the library says of a text.
func wantPost(text string) (map[string]string, error) {
	libMu.Lock()
	defer libMu.Unlock()
	want := map[string]string{}
	var err error
	if p := try(func() {
		p := ast.NewParser(text)
		tree, e := p.Tree()
		if e != nil {
			want["Error"] = e.Error()
			return
		}
		t, e := p.Text()
		if e != nil {
			err = fmt.Errorf("Tree succeeds but Text fails with %v", e)
			return
		}
		want["Braces"] = ast.BracesString(t)
		want["AST"] = pretty.String(t)
		want["Parse"] = peg.Pretty(tree)
		want["Text"] = textWords(t)
		want["Logic"] = logicString(t)
	}); p != nil {
		return nil, fmt.Errorf("the library panics: %v", p)
	}
	// As JSON conveys them.
	for k, v := range want {
		b, e := json.Marshal(v)
		must(e)
		var s string
		must(json.Unmarshal(b, &s))
		want[k] = s
	}
	return want, err
}

// textWords joins the words of a tree.
func textWords(t *ast.Text) string { return convert(t).text() }

// logicString is the formula of a text, "fragment" if it has none,
// and "bug:" if the interpreter fails.
func logicString(t *ast.Text) string {
	var st logic.Statement
	if p := try(func() { st = logic.Interpret(t) }); p != nil {
		return "bug:"
	}
	if st == nil {
		return "fragment"
	}
	return logic.PrettyString(st)
}

// ---- the space ----

func exploreC20(h *H) {
	serverBinary()
	d := 3
	if !h.quick() {
		d = 4
	}
	h.texts(space{name: "posts", tokens: toks("gi? ji/ gi- giV gi^ gi~ gi\\ na bi da je go sa ku ru to lu? lu/ mi? mi/ po? mo? ga teo kio ki ju hu bei moq moq? , kie ? q gg"), sep: " ", depth: d})
	small, large := h.modBases()
	h.cases("accepted", fmt.Sprintf("%d+%d accepted texts with every construct", len(small), len(large)), func(emit func(string) bool) {
		for i, x := range append(append([]string{}, small...), large...) {
			if i >= len(small) && h.quick() && i%4 != 0 {
				continue
			}
			if !emit(x) {
				return
			}
		}
	})
	page := []string{"gỉ jí da", "jí", "gỉ jí na", "", "xx", "bu gỉ sa jí ru tú suq"}
	h.cases("bytes", "every single byte alone and after a sentence; every byte pair of a chosen set", func(emit func(string) bool) {
		for b := 0; b < 256; b++ {
			for _, pre := range []string{"", "gỉ jí da ", "gỉ jí"} {
				if !emit(sessionCase(post(pre + string([]byte{byte(b)})))) {
					return
				}
			}
		}
		set := []string{"\x00", " ", "\n", "\r", "\t", "\"", "\\", "<", "&", "%", "%s", "\x7f", "\x80", "\xc3", "\xff", "\u2028", "\ufeff", "é", "ı", "\U0001F600", "gi?", "."}
		for _, a := range set {
			for _, b := range set {
				if !emit(sessionCase(post(a+b))) || !emit(sessionCase(post("gi? "+a+b+" da"))) {
					return
				}
			}
		}
	})
	methods := []string{"GET", "HEAD", "PUT", "DELETE", "PATCH", "OPTIONS", "TRACE", "FOO", "post", "get", "POSTT"}
	h.cases("methods", "every method, path and framing of the body", func(emit func(string) bool) {
		for _, m := range append([]string{"POST"}, methods...) {
			for _, p := range []string{"/", "/x", "/?a=b", "/parse?x=%20", "/fontx"} {
				for _, fr := range []string{"none", "length", "chunked"} {
					for _, b := range []string{"", "gỉ jí da", "xx"} {
						if fr == "none" && (b != "" || m == "POST") {
							continue
						}
						for _, hd := range []string{"", "Content-Type: application/x-www-form-urlencoded\r\n", "Expect: 100-continue\r\n", "Content-Type: multipart/form-data; boundary=x\r\n"} {
							if !emit(sessionCase(hreq{Method: m, Path: p, Body: goQuote(b), Framing: fr, Chunk: 3, Cut: -1, Header: hd})) {
								return
							}
						}
					}
				}
			}
		}
	})
	h.cases("setups", "no port given; a folder without the page", func(emit func(string) bool) {
		for _, f := range []string{"setup:port", "setup:no page"} {
			for _, ms := range [][]hreq{{{Method: "GET", Framing: "none", Cut: -1}, post("gi? ji/")}, {post("gi?"), {Method: "GET", Framing: "none", Cut: -1}, post("xx")}} {
				ms[0].Fault = f
				if !emit(sessionCase(ms...)) {
					return
				}
			}
		}
	})
	bodies := []string{"gỉ jí da", "jí", "gỉ jí na gỉ jí da", "kỉo gỉ kí gỉ", "gi? ji/ da\ngi? ji/ da\n", "gỉ gỉ gỉ.", "xx"}
	h.cases("truncation", "every body of a list cut at every byte of the payload, in every framing and chunk size; malformed chunks; bodies sent in two parts split at every byte", func(emit func(string) bool) {
		for _, b := range bodies {
			for _, f := range []struct {
				f string
				n int
			}{{"length", 0}, {"chunked", 0}, {"chunked", 1}, {"chunked", 3}, {"badsize", 4}} {
				r := hreq{Method: "POST", Path: "/", Body: goQuote(b), Framing: f.f, Chunk: f.n, Cut: -1}
				if !emit(sessionCase(r)) {
					return
				}
				_, p, _ := r.wire()
				for r.Cut = 0; r.Cut < len(p); r.Cut++ {
					if !emit(sessionCase(r)) {
						return
					}
				}
				r.Cut = -1
				for r.Split = 1; r.Split < len(p); r.Split++ {
					if !emit(sessionCase(r)) {
						return
					}
				}
			}
		}
	})
	h.cases("large", "long bodies, whole, and cut at the edges of buffers", func(emit func(string) bool) {
		for _, n := range []int{30, 300, 600} {
			for _, b := range []string{"gỉ jí da ", "gỉ ", "xx ", "jí bi ", "gỉ jí na "} {
				for _, fr := range []string{"length", "chunked"} {
					r := hreq{Method: "POST", Path: "/", Body: goQuote(b), Gen: n, Framing: fr, Chunk: 1000, Cut: -1}
					if !emit(sessionCase(r)) {
						return
					}
					_, p, _ := r.wire()
					for _, cut := range []int{511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, len(p) - 1, len(p) - 7} {
						r.Cut = cut
						if cut < len(p) && cut > 0 && !emit(sessionCase(r)) {
							return
						}
					}
				}
			}
		}
	})
	h.cases("lengths", "bodies with as many bytes as each power of two from 512 to 64 Ki, and one fewer and one more, and 1000, 10000 and 100000", func(emit func(string) bool) {
		var ns []int
		for n := 512; n <= 1<<16; n *= 2 {
			ns = append(ns, n-1, n, n+1)
		}
		ns = append(ns, 1000, 10000, 100000)
		for _, n := range ns {
			for i, tail := range []string{"gỉ jí da", "jí gỉ"} {
				for j, fr := range []string{"length", "chunked"} {
					if n > 1<<15 && h.quick() && i != j {
						continue
					}
					r := hreq{Method: "POST", Path: "/", Body: " ", Gen: n - len(tail), Tail: goQuote(tail), Framing: fr, Chunk: 1000, Cut: -1}
					if !emit(sessionCase(r)) {
						return
					}
				}
			}
		}
	})
	h.cases("files", "requests for the files of the font folder, and for others by every way of spelling their paths", func(emit func(string) bool) {
		fs, err := os.ReadDir(filepath.Join(repoDir, "server", "font"))
		must(err)
		paths := []string{"/font/", "/font", "/font/.", "/font/nothing", "/font/latinmodern-math.otf/"}
		for _, f := range fs {
			paths = append(paths, "/font/"+f.Name(), "/font/./"+f.Name(), "/font//"+f.Name(), "/"+f.Name())
		}
		for _, f := range []string{"server.go", "template", "server/server.go", "go.mod", "main.go", "etc/passwd", ".git/HEAD"} {
			for _, up := range []string{"", "../", "../../", "../../../../../../", "%2e%2e/", "%2e%2e%2f", "..%2f", "..%2f..%2f", "..\\", "..%5c", "/", "//", "%2f", "./../"} {
				for _, dir := range []string{"/", "/font/", "/font/x/", "//", "/x/"} {
					paths = append(paths, dir+up+f)
				}
			}
		}
		for _, p := range paths {
			for _, m := range []string{"GET", "HEAD"} {
				if !emit(sessionCase(hreq{Method: m, Path: p, Framing: "none", Cut: -1})) {
					return
				}
			}
		}
	})
	h.cases("interpreter-faults", "the interpreter of an instrumented copy panics at each of its function calls in the second of four requests, with each kind of value", func(emit func(string) bool) {
		for _, kind := range faultKinds {
			for k := 1; k <= 60; k++ {
				if h.quick() && kind != faultKinds[0] && k > 3 {
					break
				}
				r := post("gỉ jí")
				r.Fault = fmt.Sprintf("%s:2:%d", kind, k)
				if !emit(sessionCase(r, post("gỉ sa jí mí sủq"), post("gỉ jí"), post("jí"))) {
					return
				}
			}
		}
	})
	var alphabet []hreq
	for _, b := range page {
		alphabet = append(alphabet, post(b))
	}
	alphabet = append(alphabet,
		hreq{Method: "GET", Path: "/", Framing: "none", Cut: -1},
		hreq{Method: "PUT", Path: "/", Framing: "length", Body: "gỉ jí da", Cut: -1},
		hreq{Method: "POST", Path: "/", Framing: "length", Body: "gỉ jí da", Cut: 8},
		hreq{Method: "POST", Path: "/", Framing: "chunked", Body: "gỉ jí", Chunk: 2, Cut: 9},
		hreq{Method: "POST", Path: "/x", Framing: "chunked", Body: "gỉ jí da", Chunk: 2, Cut: -1})
	n := 3
	if !h.quick() {
		n = 4
	}
	h.cases("sessions", fmt.Sprintf("all sequences of up to %d of %d requests to one server", n, len(alphabet)), func(emit func(string) bool) {
		var rec func(s []hreq) bool
		rec = func(s []hreq) bool {
			if len(s) > 1 && !emit(sessionCase(s...)) {
				return false
			}
			if len(s) == n {
				return true
			}
			for _, r := range alphabet {
				if !rec(append(s[:len(s):len(s)], r)) {
					return false
				}
			}
			return true
		}
		rec(nil)
	})
}

// ---- running a case ----

var serverPool struct {
	sync.Mutex
	free []*server
}

func getServer() *server {
	serverPool.Lock()
	for n := len(serverPool.free); n > 0; n = len(serverPool.free) {
		s := serverPool.free[n-1]
		serverPool.free = serverPool.free[:n-1]
		if s.alive() {
			serverPool.Unlock()
			return s
		}
	}
	serverPool.Unlock()
	return startServer(serverBinary())
}

func putServer(s *server) {
	serverPool.Lock()
	serverPool.free = append(serverPool.free, s)
	serverPool.Unlock()
}

// A hconn is a connection to a server, reopened when needed.
type hconn struct {
	s *server
	c net.Conn
	r *bufio.Reader
}

func (c *hconn) close() {
	if c.c != nil {
		c.c.Close()
		c.c = nil
	}
}

// do sends a request and reads the answer.
func (c *hconn) do(r hreq) answer {
	for again := 0; ; again++ {
		reused := c.c != nil
		if c.c == nil {
			x, err := net.DialTimeout("tcp", c.s.addr, 10*time.Second)
			if err != nil {
				return answer{err: err}
			}
			c.c = x
			c.r = bufio.NewReader(x)
		}
		c.c.SetDeadline(time.Now().Add(60 * time.Second))
		head, payload, whole := r.wire()
		msg := head + payload
		if r.Split > 0 && r.Split < len(payload) {
			c.c.Write([]byte(head + payload[:r.Split]))
			time.Sleep(300 * time.Microsecond)
			msg = payload[r.Split:]
		}
		_, err := c.c.Write([]byte(msg))
		if !whole && err == nil {
			c.c.(*net.TCPConn).CloseWrite()
		}
		a := readAnswer(c.r, r.Method)
		if a.err != nil && reused && again == 0 && a.status == 0 {
			// The server may close an idle connection, as after an error.
			c.close()
			continue
		}
		if a.err != nil || !whole || a.status == 400 {
			c.close()
		}
		return a
	}
}

// setupMu is held by the cases that need a certain port.
var setupMu sync.Mutex

func checkC20(w *W, c string) {
	rs := []hreq{post(c)}
	if strings.HasPrefix(c, "[{") {
		rs = nil
		must(json.Unmarshal([]byte(c), &rs))
	}
	var s *server
	fault := rs[0].Fault
	setup := strings.HasPrefix(fault, "setup:")
	switch {
	case fault == "":
		s = getServer()
	case setup:
		setupMu.Lock()
		defer setupMu.Unlock()
		dir, port := repoDir, ""
		switch fault {
		case "setup:port":
			port = "8080"
			if l, err := net.Listen("tcp", ":8080"); err != nil {
				w.count("port 8080 is taken")
				return
			} else {
				l.Close()
			}
		case "setup:no page":
			d, err := os.MkdirTemp(scratch(), "nopage")
			must(err)
			defer os.RemoveAll(d)
			dir = d
		default:
			panic("harness: " + fault)
		}
		s = startServerIn(serverBinary(), dir, port)
		defer s.stop()
	default:
		s = startServer(goBuild{name: "server-fault", pkg: "server", sched: true, overlay: faultOverlay()}.build(), "VERIF_FAULT="+fault)
		defer s.stop()
	}
	conn := &hconn{s: s}
	defer conn.close()
	for i, r := range rs {
		a := conn.do(r)
		w.validated()
		if fault == "setup:no page" && r.Method == "GET" {
			w.count("no page")
			if a.err != nil || a.status < 500 {
				w.bad("GET is answered with %v though the page cannot be read", a)
			}
			continue
		}
		if fault != "" && !setup && i == 1 {
			var got, want map[string]string
			want, _ = wantPost(r.body())
			if a.err == nil && a.status == 200 && json.Unmarshal(a.body, &got) == nil && strings.HasPrefix(got["Logic"], "bug: ") {
				got["Logic"] = want["Logic"]
				if reflect.DeepEqual(got, want) {
					w.count("bug reported")
					continue
				}
			}
		}
		if msg := judgeAnswer(w, r, a); msg != "" {
			if !s.alive() {
				msg += "\nthe server has stopped: " + lastLine(string(s.out.b))
			}
			w.bad("request %d (%s %s, %s body %.200q): %s", i, r.Method, r.Path, r.Framing, r.body(), msg)
			if fault == "" {
				s.stop()
			}
			return
		}
	}
	if fault == "" {
		putServer(s)
	}
}

var pageOnce sync.Once

// The page as it is in the file, and without its comments.
var pageBody, pageHTML []byte

// judgeAnswer returns what is wrong with an answer.
func judgeAnswer(w *W, r hreq, a answer) string {
	_, _, whole := r.wire()
	switch {
	case r.Method == "POST" && !whole:
		w.count("cut body")
		if a.err == nil && a.status < 400 {
			return "a body that did not arrive in full is answered with " + a.String()
		}
		if bytes.Contains(a.body, []byte(`"Braces"`)) || bytes.Contains(a.body, []byte(`"Error"`)) {
			return "a body that did not arrive in full is parsed: " + a.String()
		}
		return ""
	case a.err != nil:
		return "the request is not answered: " + a.String()
	case strings.Contains(r.Path, "/font") && r.Path != "/fontx" || a.status == 301:
		// The library redirects from paths that are not in simplest form.
		return judgeFile(w, r, a)
	case r.Method == "GET":
		w.count("page")
		pageOnce.Do(func() {
			b, err := os.ReadFile(filepath.Join(repoDir, "server", "template"))
			must(err)
			pageBody = b
			t, err := template.New("template").Parse(string(b))
			must(err)
			var o bytes.Buffer
			must(t.Execute(&o, nil))
			pageHTML = o.Bytes()
		})
		if a.status != 200 || !bytes.Equal(a.body, pageBody) && !bytes.Equal(a.body, pageHTML) {
			return "GET does not return the page: " + a.String()
		}
		return ""
	case r.Method != "POST":
		w.count("refused")
		if a.status < 400 {
			return "the method is not refused: " + a.String()
		}
		return ""
	}
	return judgePost(w, r.body(), a)
}

// judgeFile returns what is wrong with the answer to a request for a file.
// The files of the font folder are served and no others.
func judgeFile(w *W, r hreq, a answer) string {
	folder := filepath.Join(repoDir, "server", "font")
	if r.Method == "GET" && strings.HasPrefix(r.Path, "/font/") {
		name := r.Path[len("/font/"):]
		if b, err := os.ReadFile(filepath.Join(folder, name)); err == nil && name == filepath.Base(name) {
			w.count("file")
			if a.status != 200 || !bytes.Equal(a.body, b) {
				return "the file is not served: " + a.String()
			}
			return ""
		}
	}
	w.count("no file")
	hiddenOnce.Do(func() {
		for _, f := range []string{"server/server.go", "server/template", "go.mod", "main.go", "/etc/passwd", ".git/HEAD"} {
			if !filepath.IsAbs(f) {
				f = filepath.Join(repoDir, f)
			}
			if b, err := os.ReadFile(f); err == nil && len(b) > 0 {
				hidden = append(hidden, bytes.TrimSpace(b))
			}
		}
	})
	for i, b := range hidden {
		// A path that leads to the page may be answered with the page.
		if i != 1 && bytes.Contains(a.body, b) {
			return "a file outside the font folder is served: " + a.String()
		}
	}
	return ""
}

var hiddenOnce sync.Once
var hidden [][]byte

// judgePost returns what is wrong with the answer to a whole text.
func judgePost(w *W, text string, a answer) string {
	if a.err != nil {
		return "the request is not answered: " + a.String()
	}
	if a.status != 200 {
		return "the request fails: " + a.String()
	}
	got := map[string]interface{}{}
	d := json.NewDecoder(bytes.NewReader(a.body))
	if err := d.Decode(&got); err != nil {
		return fmt.Sprintf("the answer is not a JSON object (%v): %s", err, a)
	}
	if d.More() {
		return "there is more than one object in the answer: " + a.String()
	}
	want, err := wantPost(text)
	if err != nil {
		return err.Error()
	}
	if want["Logic"] == "bug:" {
		w.count("bug")
		l, _ := got["Logic"].(string)
		if !strings.HasPrefix(l, "bug: ") {
			return fmt.Sprintf("the interpreter fails but the answer is %q", l)
		}
		got["Logic"] = "bug:"
	}
	switch {
	case want["Error"] != "":
		w.count("error")
	case want["Logic"] == "fragment":
		w.count("fragment")
	default:
		w.count("sentence")
	}
	g := map[string]string{}
	for k, v := range got {
		s, ok := v.(string)
		if !ok {
			return fmt.Sprintf("%s is %v", k, v)
		}
		g[k] = s
	}
	if !reflect.DeepEqual(g, want) {
		return fmt.Sprintf("the answer is\n%v\nwant\n%v", g, want)
	}
	// The verdict itself.
	if len(text) < 4096 && w.verdict(text).ok != (want["Error"] == "") {
		return fmt.Sprintf("the answer is %v but the grammar says %+v", g, w.v)
	}
	return ""
}

// logicPlain is the formula of a text without pretty letters.
func logicPlain(t *ast.Text) string {
	st, m := interpret(t)
	if m != "" {
		return "bug:"
	}
	if st == nil {
		return "fragment"
	}
	return logic.String(st)
}
