package main

// Check of the dictionary generator: C27.

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/eaburns/toaq/dict"
)

func init() {
	register(&check{id: "C27", explore: exploreC27, one: checkC27, watch: 200 * time.Second,
		assumptions: []string{
			"the dictionary service is a scripted server behind a proxy on the loopback network whose certificate the generator is told to trust; the generator is otherwise the unchanged program",
			"the generated file is judged by compiling it with the rest of the package dict and printing dict.Words",
		}})
}

// A genCase is a response of the service and the responses' effect is that of running the generator once.
type genCase struct {
	Resp resp `json:"resp"`
	// Strings makes a response with an entry for each sequence of pieces,
	// of a length up to Len, as the definition, source or headword.
	Len   int    `json:"len,omitempty"`
	Field string `json:"field,omitempty"`
	// Old is the previous content of the output file; absent if empty.
	Old string `json:"old,omitempty"`
}

func (g genCase) String() string {
	b, err := json.Marshal(g)
	must(err)
	return string(b)
}

var genPieces = []string{
	"a", `"`, `\`, "`", "\n", "\r", "\t", "\x00", "dict.", "dict.Word{", "Word{", "map[string]", "%s", "%!", "//", "/*", "*/",
	"\ufffd", "\u00df", "\U0001d434", "\u2028", "'", "{", "}", " ", "\x7f", "▯", "<", "&", "package dict\n", "predict.",
}

func genEntries(field string, n int) []dict.Word {
	var out []dict.Word
	var rec func(s string, k int)
	rec = func(s string, k int) {
		i := len(out)
		w := dict.Word{Word: fmt.Sprintf("gi%d", i), Def: fmt.Sprint("def ", i), By: "me", Score: i - 20}
		switch field {
		case "def":
			w.Def = s
		case "by":
			w.By = s
		case "head":
			w.Word = s
		}
		out = append(out, w)
		if k == n {
			return
		}
		for _, p := range genPieces {
			rec(s+p, k+1)
		}
	}
	rec("", 0)
	if field == "score" {
		out = nil
		for i, n := range []int{0, 1, -1, 9, 10, 1<<31 - 1, -1 << 31, 1<<63 - 1, -1 << 63} {
			out = append(out, dict.Word{Word: fmt.Sprintf("gi%d", i), Score: n})
		}
	}
	return out
}

func genBody(ws []dict.Word) string {
	b, err := json.Marshal(map[string]interface{}{"success": true, "error": nil, "data": ws})
	must(err)
	return string(b)
}

func exploreC27(h *H) {
	h.cases("strings", "every sequence of the listed pieces, to the depth listed, as definition, source and headword", func(emit func(string) bool) {
		depth := map[string]int{"def": 3, "by": 2, "head": 2, "score": 0}
		if !h.quick() {
			depth = map[string]int{"def": 3, "by": 3, "head": 3, "score": 0}
		}
		for _, f := range []string{"def", "by", "head", "score"} {
			if !emit(genCase{Resp: resp{200, "", "length", 0, -1, "", 0}, Field: f, Len: depth[f]}.String()) {
				return
			}
		}
		for _, fr := range []string{"chunked", "close"} {
			if !emit(genCase{Resp: resp{200, "", fr, 1000, -1, "", 0}, Field: "def", Len: 1}.String()) {
				return
			}
		}
	})
	old := "package dict\n\nvar Words = map[string]Word{}\n"
	h.cases("responses", "every response with entries and every refusal, with and without an earlier file", func(emit func(string) bool) {
		es := jsonEntries()
		var names []string
		for k := range es {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, o := range []string{"", old} {
			for _, k := range names {
				var p []string
				for _, e := range es[k] {
					p = append(p, e.json)
				}
				data := "[" + strings.Join(p, ",") + "]"
				for _, b := range []string{
					`{"success":true,"data":` + data + `}`,
					`{"success":false,"error":"100% busy","data":` + data + `}`,
					`{"success":true,"data":` + data,
				} {
					if !emit(genCase{Resp: resp{200, b, "length", 0, -1, "", 0}, Old: o}.String()) {
						return
					}
				}
			}
			for _, b := range []string{"", "null", "[]", "{}", `{"success":true}`, `{"success":true,"data":null}`, `{"success":false}`, `{"success":false,"error":"no"}`, "<html>"} {
				for _, st := range []int{200, 500} {
					if !emit(genCase{Resp: resp{st, b, "length", 0, -1, "", 0}, Old: o}.String()) {
						return
					}
				}
			}
		}
	})
	h.cases("truncation", "a response cut at every byte, in 3 framings", func(emit func(string) bool) {
		body := `{"success":true,"data":[{"head":"gỉ","body":"x","by":"y","score":1},{"head":"chuq","body":"z","by":"","score":2}]}`
		for _, fr := range []string{"length", "chunked", "close"} {
			r := resp{200, body, fr, 24, -1, "", 0}
			for r.Cut = 0; r.Cut < len(mustWire(r))-headLen(r); r.Cut++ {
				if h.quick() && r.Cut%3 != 0 && fr != "close" {
					continue
				}
				if !emit((genCase{Resp: r, Old: old}).String()) {
					return
				}
			}
		}
	})
	h.cases("unreachable", "no service, and no directory for the file", func(emit func(string) bool) {
		emit(genCase{Resp: resp{Status: 0, Cut: -1}, Old: old}.String())
		emit(genCase{Resp: resp{Status: -1, Cut: -1}, Old: old}.String())
	})
}

// A tlsService is a proxy that answers requests to all hosts with a given response.
type tlsService struct {
	l   net.Listener
	ca  string // file
	cfg *tls.Config
	mu  sync.Mutex
	out []byte // nil to drop the connection
}

func newTLSService(dir string) *tlsService {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	ca := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "ca"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(48 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
	der, err := x509.CreateCertificate(rand.Reader, ca, ca, &key.PublicKey, key)
	must(err)
	s := &tlsService{ca: filepath.Join(dir, "ca.pem")}
	must(os.WriteFile(s.ca, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o666))
	certs := map[string]*tls.Certificate{}
	var mu sync.Mutex
	s.cfg = &tls.Config{NextProtos: []string{"http/1.1"}, GetCertificate: func(hi *tls.ClientHelloInfo) (*tls.Certificate, error) {
		mu.Lock()
		defer mu.Unlock()
		if c := certs[hi.ServerName]; c != nil {
			return c, nil
		}
		leaf := &x509.Certificate{SerialNumber: big.NewInt(2), Subject: pkix.Name{CommonName: hi.ServerName}, DNSNames: []string{hi.ServerName},
			NotBefore: ca.NotBefore, NotAfter: ca.NotAfter, KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
		d, err := x509.CreateCertificate(rand.Reader, leaf, ca, &key.PublicKey, key)
		if err != nil {
			return nil, err
		}
		c := &tls.Certificate{Certificate: [][]byte{d, der}, PrivateKey: key}
		certs[hi.ServerName] = c
		return c, nil
	}}
	s.l, err = net.Listen("tcp", "127.0.0.1:0")
	must(err)
	go func() {
		for {
			c, err := s.l.Accept()
			if err != nil {
				return
			}
			go s.serve(c)
		}
	}()
	return s
}

func (s *tlsService) serve(c net.Conn) {
	defer c.Close()
	c.SetDeadline(time.Now().Add(60 * time.Second))
	s.mu.Lock()
	out := s.out
	s.mu.Unlock()
	if out == nil {
		return
	}
	br := bufio.NewReader(c)
	req, err := http.ReadRequest(br)
	if err != nil {
		return
	}
	conn := c
	if req.Method == "CONNECT" {
		io.WriteString(c, "HTTP/1.1 200 OK\r\n\r\n")
		t := tls.Server(c, s.cfg)
		if t.Handshake() != nil {
			return
		}
		conn = t
		if req, err = http.ReadRequest(bufio.NewReader(t)); err != nil {
			return
		}
	}
	io.Copy(io.Discard, req.Body)
	conn.Write(out)
	if t, ok := conn.(*tls.Conn); ok {
		t.CloseWrite()
	}
	conn.SetReadDeadline(time.Now().Add(2 * time.Second))
	io.Copy(io.Discard, conn)
}

func dictgenBinary() string {
	return goBuild{name: "dictgen", pkg: "dict/main.go"}.build()
}

var genSeq struct {
	sync.Mutex
	n int
}

const printWords = `package main

import (
	"encoding/json"
	"os"

	"github.com/eaburns/toaq/dict"
)

func main() {
	if err := json.NewEncoder(os.Stdout).Encode(dict.Words); err != nil {
		os.Exit(1)
	}
}
`

// compiledWords compiles the package dict with the generated file and returns Words.
func compiledWords(src string) (map[string]dict.Word, error) {
	genSeq.Lock()
	genSeq.n++
	n := genSeq.n
	genSeq.Unlock()
	name := fmt.Sprintf("words%d", n)
	var bin string
	if p := try(func() {
		bin = goBuild{name: name, pkg: "dict/zzprint", overlay: map[string]string{
			repoDir + "/dict/words.go":        src,
			repoDir + "/dict/zzprint/main.go": printWords,
		}}.build()
	}); p != nil {
		return nil, fmt.Errorf("%v", p)
	}
	defer os.RemoveAll(filepath.Dir(bin))
	out, err := exec.Command(bin).Output()
	if err != nil {
		return nil, err
	}
	var ws map[string]dict.Word
	return ws, json.Unmarshal(out, &ws)
}

func checkC27(w *W, c string) {
	var g genCase
	must(json.Unmarshal([]byte(c), &g))
	dir, _ := w.buf["dir"].(string)
	if dir == "" {
		d, err := os.MkdirTemp(scratch(), "gen-")
		must(err)
		dir = d
		w.buf["dir"] = dir
		w.buf["service"] = newTLSService(dir)
	}
	s := w.buf["service"].(*tlsService)
	r := g.Resp
	want := wantLoad{errOK: true}
	var wire []byte
	if r.Status > 0 {
		if g.Field != "" {
			ws := genEntries(g.Field, g.Len)
			r.Body = genBody(ws)
		}
		wire, _ = r.wire()
		want = judge(r)
	}
	s.mu.Lock()
	s.out = wire
	s.mu.Unlock()
	proxy := "http://" + s.l.Addr().String()
	if r.Status == 0 {
		proxy = "http://127.0.0.1:1"
	}
	out := filepath.Join(dir, "words.go")
	os.Remove(out)
	if g.Old != "" {
		must(os.WriteFile(out, []byte(g.Old), 0o666))
	}
	cmd := exec.Command(dictgenBinary(), "-o", out)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "HTTPS_PROXY="+proxy, "HTTP_PROXY="+proxy, "https_proxy="+proxy, "http_proxy="+proxy, "NO_PROXY=", "no_proxy=", "SSL_CERT_FILE="+s.ca, "SSL_CERT_DIR="+dir)
	t := &tail{}
	cmd.Stdout, cmd.Stderr = t, t
	must(start(cmd))
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		w.bad("the generator does not end")
		return
	}
	w.validated()
	b, err := os.ReadFile(out)
	had := err == nil
	if !cmd.ProcessState.Success() {
		w.count("refused")
		if !cmd.ProcessState.Exited() || strings.Contains(string(t.b), "\ngoroutine ") {
			w.bad("the generator crashes: %s", lastLine(string(t.b)))
		}
		if !want.errOK {
			w.bad("the generator fails, though the service sent a complete list of %d words: %s", len(want.words), lastLine(string(t.b)))
		}
		if g.Old != "" && string(b) != g.Old {
			w.bad("the generator fails and leaves the earlier file changed: %.300q", b)
		}
		if g.Old == "" && had && len(b) > 0 {
			w.bad("the generator fails and leaves a file: %.300q", b)
		}
		return
	}
	w.count("written")
	if !want.wordsOK {
		w.bad("the generator reports success for a response that has no complete list; the file is %.300q", b)
		return
	}
	// Small files are judged one by one only where they differ.
	memo, _ := w.buf["memo"].(map[string]map[string]dict.Word)
	if memo == nil {
		memo = map[string]map[string]dict.Word{}
		w.buf["memo"] = memo
	}
	key := stripComments(string(b))
	got, ok := memo[key]
	if !ok {
		got, err = compiledWords(string(b))
		if err != nil {
			w.bad("the generated file does not work: %v", lastLine(err.Error()))
			return
		}
		memo[key] = got
	}
	if len(got) == 0 && len(want.words) == 0 {
		return
	}
	if reflect.DeepEqual(got, want.words) {
		return
	}
	n := 0
	for k, x := range want.words {
		if y, ok := got[k]; !ok || x != y {
			if n++; n < 4 {
				w.bad("for %q the service sent %+q, the generated file has %+q", k, x, y)
			}
		}
	}
	for k := range got {
		if _, ok := want.words[k]; !ok {
			if n++; n < 4 {
				w.bad("the generated file has %q, which the service did not send", k)
			}
		}
	}
}

// stripComments drops the comment lines, which have the time.
func stripComments(s string) string {
	var b strings.Builder
	for _, l := range strings.Split(s, "\n") {
		if !strings.HasPrefix(l, "//") {
			b.WriteString(l)
			b.WriteString("\n")
		}
	}
	return b.String()
}
