package main

// Checks of the dictionary: C23 and C24.

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/eaburns/toaq/dict"
)

func init() {
	register(&check{id: "C23", explore: exploreC23, one: checkC23, watch: 60 * time.Second,
		assumptions: []string{
			"the dictionary service is a scripted server on the loopback network; it sends exactly the bytes of the case and then closes the connection",
			"where the statement leaves the outcome open (a complete list under an HTTP error status, a null entry, an entry without a headword) both an error and the complete list are accepted",
		}})
	register(&check{id: "C24", explore: exploreC24, one: checkC24})
}

// ---- C23 ----

// A resp is a response of the scripted service.
type resp struct {
	Status  int    `json:"status"`
	Body    string `json:"body"`
	Framing string `json:"framing"` // length, chunked or close
	Chunk   int    `json:"chunk"`   // size of chunks
	Cut     int    `json:"cut"`     // bytes of the payload sent; -1 for all of them
	Query   string `json:"query"`
	Gen     int    `json:"gen,omitempty"` // number of entries of a generated body
}

// generated returns a success with n entries.
func generated(n int) string {
	var b strings.Builder
	b.WriteString(`{"success":true,"error":null,"data":[`)
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(",")
		}
		fmt.Fprintf(&b, `{"head":"gi%d","body":"▯ is number %d","by":"a","score":%d}`, i, i, i%7)
	}
	b.WriteString("]}")
	return b.String()
}

func (r resp) String() string {
	b, err := json.Marshal(r)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(b)
}

// wire returns the bytes that the service sends, and whether the transfer is complete.
// With framing "close" the client cannot tell a cut body from a whole one,
// but it can tell that the JSON value in it is cut.
func (r resp) wire() ([]byte, bool) {
	head := fmt.Sprintf("HTTP/1.1 %d X\r\nContent-Type: application/json\r\n", r.Status)
	var payload string
	switch r.Framing {
	case "length":
		head += fmt.Sprintf("Content-Length: %d\r\n", len(r.Body))
		payload = r.Body
	case "chunked":
		head += "Transfer-Encoding: chunked\r\n"
		for s := r.Body; s != ""; {
			n := r.Chunk
			if n <= 0 || n > len(s) {
				n = len(s)
			}
			payload += fmt.Sprintf("%x\r\n%s\r\n", n, s[:n])
			s = s[n:]
		}
		payload += "0\r\n\r\n"
	default:
		payload = r.Body
	}
	head += "Connection: close\r\n\r\n"
	if r.Cut >= 0 && r.Cut < len(payload) {
		return []byte(head + payload[:r.Cut]), false
	}
	return []byte(head + payload), true
}

// received returns the part of the body that the client receives.
func (r resp) received() string {
	n := r.Cut
	if n < 0 {
		return r.Body
	}
	if r.Framing != "chunked" {
		if n > len(r.Body) {
			n = len(r.Body)
		}
		return r.Body[:n]
	}
	got := 0
	for s := r.Body; s != ""; {
		k := r.Chunk
		if k <= 0 || k > len(s) {
			k = len(s)
		}
		if n -= len(fmt.Sprintf("%x\r\n", k)); n <= 0 {
			break
		}
		if n < k {
			got += n
			break
		}
		got += k
		n -= k + 2
		s = s[k:]
	}
	return r.Body[:got]
}

type scripted struct {
	l    net.Listener
	resp chan []byte
	got  chan string
}

func newScripted() *scripted {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	s := &scripted{l: l, resp: make(chan []byte, 1), got: make(chan string, 64)}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			b := <-s.resp
			// Another request for the same case gets the same answer.
			select {
			case s.resp <- b:
			default:
			}
			s.got <- readRequest(c)
			c.Write(b)
			if t, ok := c.(*net.TCPConn); ok {
				t.CloseWrite()
			}
			c.SetReadDeadline(time.Now().Add(2 * time.Second))
			io.Copy(io.Discard, c)
			c.Close()
		}
	}()
	return s
}

// readRequest reads a request and returns its body.
func readRequest(c net.Conn) string {
	c.SetReadDeadline(time.Now().Add(10 * time.Second))
	var buf []byte
	b := make([]byte, 4096)
	for {
		n, err := c.Read(b)
		buf = append(buf, b[:n]...)
		if i := strings.Index(string(buf), "\r\n\r\n"); i >= 0 {
			var size int
			for _, l := range strings.Split(string(buf[:i]), "\r\n") {
				if k, v, ok := strings.Cut(l, ":"); ok && strings.EqualFold(k, "Content-Length") {
					fmt.Sscan(v, &size)
				}
			}
			if len(buf) >= i+4+size {
				return string(buf[i+4:])
			}
		}
		if err != nil {
			return string(buf)
		}
	}
}

// headwords with their normal forms.
func headwords() [][2]string {
	out := [][2]string{
		{"", ""}, {"gi", "gi"}, {"GI", "gi"}, {"gı", "gi"}, {"Gỉ", "gi"}, {"hóaq", "hoaq"}, {"HÓAQ", "hoaq"},
		{"du jảı", "du jai"}, {"Kảqgāı", "kaqgai"}, {"gi?", "gi"}, {"gi/ chu\\", "gi chu"}, {"da.", "da."},
		{" boq", " boq"}, {"meqēa", "meqea"}, {"a'b", "a'b"}, {"n\u0303", "n\u0303"},
	}
	for i := range tones {
		for k, x := range []rune(precomposed[tones[i]]) {
			out = append(out, [2]string{"s" + string(x) + "q", "s" + strings.ToLower(string(plainVowels[k])) + "q"})
		}
	}
	for k, x := range []rune(breveVowels) {
		out = append(out, [2]string{"S" + string(x), "s" + strings.ToLower(string(plainVowels[k]))})
	}
	return out
}

// An entry of a response and what it means.
type jentry struct {
	json string
	word dict.Word
	bad  bool // does not fit the format
	null bool // may be dropped, kept as empty, or refused
}

// A field of a response.
type jfield struct {
	json string // empty if absent
	kind string
}

func jsonEntries() map[string][]jentry {
	e := func(head, norm, def, by string, score int) jentry {
		b, _ := json.Marshal(map[string]interface{}{"head": head, "body": def, "by": by, "score": score, "id": "x", "notes": []int{1}})
		return jentry{json: string(b), word: dict.Word{Word: norm, Def: def, By: by, Score: score}}
	}
	one := e("gỉ", "gi", "▯ is good", "official", 3)
	two := e("ChỦq", "chuq", "▯ eats ▯", "x", -1)
	dup := e("gi", "gi", "another", "y", 0)
	dup2 := e("GI", "gi", "third", "", 7)
	null := jentry{json: "null", null: true}
	nohead := jentry{json: `{"body":"x"}`, null: true}
	return map[string][]jentry{
		"none":      {},
		"one":       {one},
		"two":       {one, two},
		"dup":       {one, dup},
		"dup-first": {dup, one},
		"dup-caps":  {dup2, two, one, dup},
		"three":     {two, dup2, one},
		"null":      {one, null},
		"nohead":    {nohead, two},
		"number":    {one, {json: "1", bad: true}},
		"badscore":  {{json: `{"head":"a","score":"x"}`, bad: true}, two},
		"badhead":   {two, {json: `{"head":1}`, bad: true}},
	}
}

// wantLoad says what loading the response may give.
type wantLoad struct {
	words   map[string]dict.Word
	errOK   bool   // an error is acceptable
	wordsOK bool   // the complete list is acceptable
	says    string // the reason of the service for a refusal
}

// judge is the model of Load: it decides on the response from its parts.
func judge(r resp) wantLoad {
	_, whole := r.wire()
	sent := r.received()
	refuse := wantLoad{errOK: true}
	var top map[string]json.RawMessage
	dec := json.NewDecoder(strings.NewReader(r.Body))
	if err := dec.Decode(&top); err != nil || top == nil {
		return refuse
	}
	rest, _ := io.ReadAll(io.MultiReader(dec.Buffered(), strings.NewReader("")))
	trailing := strings.TrimSpace(string(rest)) != ""
	field := func(k string) (json.RawMessage, bool) {
		v, ok := top[k]
		return v, ok && string(v) != "null"
	}
	var success bool
	if v, ok := field("success"); !ok || json.Unmarshal(v, &success) != nil || !success {
		_, data := field("data")
		if e, is := field("error"); is && (!ok || json.Unmarshal(v, &success) == nil) && !data && r.Status == 200 && whole && !trailing {
			// A well-formed refusal that says why.
			json.Unmarshal(e, &refuse.says)
		}
		return refuse
	}
	if v, ok := field("error"); ok {
		var s string
		if json.Unmarshal(v, &s) != nil {
			return refuse
		}
	}
	v, ok := field("data")
	if !ok {
		return refuse
	}
	var raw []json.RawMessage
	if json.Unmarshal(v, &raw) != nil {
		return refuse
	}
	w := wantLoad{words: map[string]dict.Word{}, wordsOK: true}
	for _, e := range raw {
		var m map[string]json.RawMessage
		if json.Unmarshal(e, &m) != nil {
			return refuse
		}
		var x dict.Word
		get := func(k string, p interface{}) bool {
			v, ok := m[k]
			return !ok || json.Unmarshal(v, p) == nil
		}
		if !get("head", &x.Word) || !get("body", &x.Def) || !get("by", &x.By) || !get("score", &x.Score) {
			return refuse
		}
		if _, ok := m["head"]; !ok {
			w.errOK = true
		}
		n := normHead(x.Word)
		x.Word = n
		w.words[n] = x
	}
	if r.Status != 200 || trailing {
		w.errOK = true
	}
	if !whole {
		// The transfer failed. The list can still be complete if all of the value came.
		w.wordsOK = len(sent) >= len(strings.TrimRight(r.Body, " \n\t\r"))
		w.errOK = w.errOK || r.Framing != "close" || !w.wordsOK
	}
	return w
}

func mustWire(r resp) []byte {
	r.Cut = -1
	b, _ := r.wire()
	return b
}

func headLen(r resp) int { return strings.Index(string(mustWire(r)), "\r\n\r\n") + 4 }

func exploreC23(h *H) {
	q := `{"action":"search","query":"*"}`
	obj := func(fs ...string) string {
		var p []string
		for _, f := range fs {
			if f != "" {
				p = append(p, f)
			}
		}
		return "{" + strings.Join(p, ",") + "}"
	}
	f := func(k, v string) string {
		if v == "" {
			return ""
		}
		return fmt.Sprintf("%q:%s", k, v)
	}
	data := []string{"", "null", "{}", `"x"`, "0", "[[]]", "[1]"}
	var names []string
	es := jsonEntries()
	for k := range es {
		names = append(names, k)
	}
	sort.Strings(names)
	var good []string
	for _, k := range names {
		var p []string
		for _, e := range es[k] {
			p = append(p, e.json)
		}
		s := "[" + strings.Join(p, ",") + "]"
		data = append(data, s)
		good = append(good, s)
	}
	succ := []string{"", "true", "false", "null", `"true"`, "1"}
	errs := []string{"", "null", `"no such thing"`, `""`, `"%s%d 100%"`, "1", "{}"}
	h.cases("shapes", "every combination of values of success, data and error, in two orders, with 4 statuses and 2 framings", func(emit func(string) bool) {
		for _, s := range succ {
			for _, d := range data {
				for _, e := range errs {
					for _, st := range []int{200, 201, 404, 500} {
						for _, fr := range []string{"length", "chunked"} {
							a := resp{st, obj(f("success", s), f("data", d), f("error", e)), fr, 16, -1, q, 0}
							b := resp{st, obj(f("error", e), f("extra", "[1,{}]"), f("data", d), f("success", s)), fr, 7, -1, q, 0}
							if !emit(a.String()) || st == 200 && !emit(b.String()) {
								return
							}
						}
					}
				}
			}
		}
		for _, b := range []string{"", " ", "null", "[]", "1", `"x"`, "true", "<html>", "{", "}", "{}{}", "\x00", "{\"success\":true,\"data\":[]}}", "\xff\xfe"} {
			for _, st := range []int{200, 204, 404, 500, 503} {
				if st == 204 && b != "" {
					continue
				}
				for _, fr := range []string{"length", "chunked", "close"} {
					if st == 204 && fr != "close" {
						continue
					}
					if !emit(resp{st, b, fr, 0, -1, q, 0}.String()) {
						return
					}
				}
			}
		}
	})
	h.cases("headwords", "every vowel in every tone, letter case and spelling; every ordered pair of headwords", func(emit func(string) bool) {
		hs := headwords()
		ent := func(i, n int) string {
			b, _ := json.Marshal(map[string]interface{}{"head": hs[i][0], "body": fmt.Sprint("def ", n), "by": "me", "score": n})
			return string(b)
		}
		for i := range hs {
			if !emit(resp{200, `{"success":true,"data":[` + ent(i, 1) + `]}`, "length", 0, -1, q, 0}.String()) {
				return
			}
			for j := range hs {
				if h.quick() && i%3 != 0 && hs[i][1] != hs[j][1] {
					continue
				}
				if !emit(resp{200, `{"success":true,"data":[` + ent(i, 1) + "," + ent(j, 2) + `]}`, "length", 0, -1, q, 0}.String()) {
					return
				}
			}
		}
	})
	h.cases("truncation", "every response with entries cut at every byte of the payload, in 3 framings", func(emit func(string) bool) {
		for _, d := range good {
			for _, body := range []string{
				obj(f("success", "true"), f("data", d), f("error", "null")) + "\n",
				obj(f("data", d), f("success", "true")),
				obj(f("success", "false"), f("error", `"busy"`), f("data", d)),
			} {
				for _, fr := range []string{"length", "chunked", "close"} {
					sizes := []int{0}
					if fr == "chunked" {
						sizes = []int{5, 64, 0}
						if h.quick() {
							sizes = []int{24}
						}
					}
					for _, n := range sizes {
						r := resp{200, body, fr, n, -1, q, 0}
						for r.Cut = 0; r.Cut < len(mustWire(r))-headLen(r); r.Cut++ {
							if !emit(r.String()) {
								return
							}
						}
					}
				}
			}
		}
	})
	h.cases("long", "lists of up to 60000 entries, whole and cut at steps of the buffer size", func(emit func(string) bool) {
		for _, n := range []int{50, 100, 500, 2000, 20000, 60000} {
			for _, fr := range []string{"length", "chunked", "close"} {
				if !emit(resp{200, "", fr, 1000, -1, q, n}.String()) {
					return
				}
				size := len(generated(n))
				if n == 2000 || n == 20000 {
					for cut := 4096; cut < size; cut += size / 16 / 4096 * 4096 {
						for d := -1; d <= 1; d++ {
							if !emit(resp{200, "", fr, 4096, cut + d, q, n}.String()) {
								return
							}
						}
					}
				}
			}
		}
	})
	h.cases("refused", "no connection", func(emit func(string) bool) {
		emit(resp{Status: 0, Cut: -1}.String())
		emit(resp{Status: -1, Cut: -1}.String())
	})
}

// openBodies has the hosts of which the body of a response is not closed.
var (
	openBodies sync.Map
	watchOnce  sync.Once
)

// A watchTransport notes which bodies are closed.
type watchTransport struct{ http.RoundTripper }

func (t watchTransport) RoundTrip(req *http.Request) (*http.Response, error) {
	resp, err := t.RoundTripper.RoundTrip(req)
	if err == nil {
		openBodies.Store(req.URL.Host, true)
		resp.Body = watchBody{resp.Body, req.URL.Host}
	}
	return resp, err
}

type watchBody struct {
	io.ReadCloser
	host string
}

func (b watchBody) Close() error {
	openBodies.Delete(b.host)
	return b.ReadCloser.Close()
}

func checkC23(w *W, c string) {
	var r resp
	if err := json.Unmarshal([]byte(c), &r); err != nil {
		panic("harness: " + err.Error())
	}
	if r.Gen > 0 {
		r.Body = generated(r.Gen)
	}
	s, _ := w.buf["server"].(*scripted)
	if s == nil {
		s = newScripted()
		w.buf["server"] = s
	}
	var url string
	var want wantLoad
	switch {
	case r.Status <= 0:
		// Nobody listens, or the connection is dropped at once.
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic("harness: " + err.Error())
		}
		url = "http://" + l.Addr().String() + "/"
		if r.Status == 0 {
			l.Close()
		} else {
			go func() {
				for {
					c, err := l.Accept()
					if err != nil {
						return
					}
					c.Close()
				}
			}()
			defer l.Close()
		}
		want = wantLoad{errOK: true}
	default:
		select {
		case <-s.resp:
		default:
		}
		for len(s.got) > 0 {
			<-s.got
		}
		b, _ := r.wire()
		s.resp <- b
		url = "http://" + s.l.Addr().String() + "/api"
		want = judge(r)
	}
	w.validated()
	watchOnce.Do(func() { http.DefaultTransport = watchTransport{http.DefaultTransport} })
	var got map[string]dict.Word
	var err error
	if p := try(func() { got, err = dict.Load(url, r.Query) }); p != nil {
		w.bad("Load panics: %v", p)
		return
	}
	if r.Status > 0 {
		if _, open := openBodies.LoadAndDelete(s.l.Addr().String()); open {
			w.bad("Load does not close the response")
		}
		select {
		case q := <-s.got:
			if q != r.Query {
				w.bad("the service is sent %q, not the query %q", q, r.Query)
			}
		default:
			w.count("no request seen")
			if err == nil {
				w.bad("Load succeeds without a request")
			}
		}
	}
	switch {
	case err != nil:
		w.count("error")
		if want.says != "" {
			w.count("reason of the service")
			if !strings.Contains(err.Error(), want.says) {
				w.bad("Load fails with %q, which does not say the reason of the service, %q", err, want.says)
			}
		}
		if !want.errOK {
			w.bad("Load fails with %v, though the service sent the complete list\n%.300v", err, want.words)
		}
		if len(got) != 0 {
			w.bad("Load gives both words and the error %v", err)
		}
	case !want.wordsOK:
		w.bad("Load gives a list of %d words as a success: %.300v", len(got), got)
	default:
		w.count("list")
		if len(got) == 0 && len(want.words) == 0 {
			return
		}
		if !reflect.DeepEqual(got, want.words) {
			if r.Gen > 0 {
				w.bad("Load gives %d words, not the complete list of %d", len(got), len(want.words))
				return
			}
			w.bad("Load gives\n%v\nwant\n%v", got, want.words)
		}
	}
}

// ---- C24 ----

func exploreC24(h *H) {
	h.cases("entries", "every entry of the built-in dictionary", func(emit func(string) bool) {
		var ks []string
		for k := range dict.Words {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if !emit(k) {
				return
			}
		}
	})
}

func checkC24(w *W, k string) {
	e, ok := dict.Words[k]
	if !ok {
		panic("harness: no entry " + k)
	}
	w.validated()
	if e.Word != k {
		w.bad("the entry of %q is filed under %q", e.Word, k)
	}
	if n := normHead(k); n != k {
		w.bad("the headword %q is not in the normal form %q", k, n)
	}
}

// normHead returns the lower-case, toneless form of a headword.
func normHead(s string) string {
	var b strings.Builder
	for _, r := range s {
		if p, _, ok := readVowel(r); ok {
			r = p
		}
		if strings.ContainsRune(`-/?^\~`, r) {
			continue
		}
		b.WriteString(strings.ToLower(string(r)))
	}
	return b.String()
}
