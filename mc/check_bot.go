package main

// C22: the chat bot. C25: all front ends.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/eaburns/peggy/peg"
	"github.com/eaburns/pretty"
	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"
)

func init() {
	register(&check{id: "C22", explore: exploreC22, one: checkC22, watch: 120 * time.Second,
		assumptions: []string{
			"the bot built from the working tree runs against a stand-in for the chat service module, in which each operation completes when the explorer says so",
			"bound: histories and interleavings as listed under spaces; between two operations of a channel the explorer also preempts the bot at statements of its own source, in an instrumented copy",
		}})
	register(&check{id: "C25", explore: exploreC25, one: checkC25, watch: 90 * time.Second,
		assumptions: []string{
			"the three programs built from the working tree are run as processes; the library they are compared with is that of the working tree",
		}})
}

const botPrefix = ".miu"

// wantReply is the reply to an event, if any.
func wantReply(e botEvent) (string, bool) {
	if e.Kind != "message" {
		return "", false
	}
	text := e.Text
	if !e.Anon && e.Nick == "ToaqBridgeBot" {
		if _, rest, ok := strings.Cut(text, ": "); ok {
			text = rest
		}
	}
	if !strings.HasPrefix(text, botPrefix) {
		return "", false
	}
	return botReply(strings.TrimSpace(text[len(botPrefix):])), true
}

// botReply is the reply to a command with a text. A report of an interpreter
// failure ends in "bug:".
func botReply(input string) string {
	libMu.Lock()
	defer libMu.Unlock()
	var reply string
	if p := try(func() {
		t, err := ast.NewParser(input).Text()
		if err != nil {
			reply = "syntax error " + err.Error()
			return
		}
		if b := ast.BracesString(t); b != "" {
			reply = b + "\n"
		}
		reply += logicString(t)
	}); p != nil {
		panic(fmt.Sprintf("model: the library panics on %q: %v", input, p))
	}
	return reply
}

// sameReply compares a reply with the expected one.
func sameReply(got, want string) bool {
	got = string(jsonText(got))
	if strings.HasSuffix(want, "bug:") {
		return strings.HasPrefix(got, want+" ")
	}
	return got == string(jsonText(want))
}

// jsonText is a string after it went through JSON.
func jsonText(s string) string {
	b, err := json.Marshal(s)
	must(err)
	must(json.Unmarshal(b, &s))
	return s
}

// A botCase is a history in each of some channels.
type botCase struct {
	Hist [][]botEvent `json:"hist"`
	Mode string       `json:"mode,omitempty"` // fine, or a fault kind:call:point
	// FailSend is the number of the reply whose sending fails, from 1.
	FailSend int `json:"fail_send,omitempty"`
	// Plan is the first channel, its first preemption and the bound.
	Plan []int `json:"plan,omitempty"`
}

func (c botCase) String() string {
	b, err := json.Marshal(c)
	must(err)
	return string(b)
}

func msg(text string) botEvent { return botEvent{Kind: "message", Nick: "toaqer", Text: text} }

func bridged(text string) botEvent {
	return botEvent{Kind: "message", Nick: "ToaqBridgeBot", Text: text}
}

func exploreC22(h *H) {
	botBinary()
	texts := []string{"gỉ jí da", "jí", "gỉ jí na", "", "xx", "gỉ sa jí da moq"}
	var singles []botEvent
	for _, nick := range []string{"toaqer", "ToaqBridgeBot", "Toaq Telegram bridge", "toaqbridgebot", ""} {
		for _, pre := range []string{"", "x: ", "x y: ", ": ", "x:", "x: y: ", " ", "  x : "} {
			for _, cmd := range []string{".miu", ".miu ", ".miu\n", ".miu  ", ".MIU ", "miu ", "..miu ", ". miu", ".mi ", ".miu.miu ", ".miu: ", ".miu\t\n "} {
				for _, t := range texts {
					for _, post := range []string{"", " ", ": gi?"} {
						singles = append(singles, botEvent{Kind: "message", Nick: nick, Text: pre + cmd + t + post})
					}
				}
			}
		}
	}
	for _, k := range []string{"edit", "delete", "join", "leave", "rename"} {
		for _, n := range []string{"toaqer", "ToaqBridgeBot"} {
			singles = append(singles, botEvent{Kind: k, Nick: n, Text: ".miu gỉ jí da"})
		}
	}
	for _, t := range []string{".miu gỉ jí da", "hello", "x: .miu gỉ", ""} {
		singles = append(singles, botEvent{Kind: "message", Anon: true, Text: t}, botEvent{Kind: "message", Nick: "a", Text: t, Reply: ".miu gỉ jí"},
			botEvent{Kind: "message", Nick: "ToaqBridgeBot", Text: t, Reply: "x"})
	}
	for b := 0; b < 128; b++ {
		singles = append(singles, msg(".miu"+string(rune(b))), msg(".miu gỉ jí"+string(rune(b))), msg(string(rune(b))+".miu gỉ"))
	}
	for _, s := range []string{"%s %d", "gi? %", "@everyone", "gỉ\u2028jí", "\ufeffgỉ", strings.Repeat("gỉ jí na ", 200) + "gỉ"} {
		singles = append(singles, msg(s), msg(".miu "+s))
	}
	h.cases("messages", fmt.Sprintf("%d single events: every sender, tag, command spelling and text of lists, every ASCII character at three places", len(singles)), func(emit func(string) bool) {
		// Several in one history, to start fewer processes; each is followed by a plain command.
		for i := 0; i < len(singles); i += 8 {
			var hist []botEvent
			for j := i; j < i+8 && j < len(singles); j++ {
				hist = append(hist, singles[j], msg(".miu gỉ jí da"))
			}
			if !emit(botCase{Hist: [][]botEvent{hist}}.String()) {
				return
			}
		}
	})
	alphabet := []botEvent{
		msg(".miu gỉ jí da"), msg(".miu jí"), msg(".miu xx"), msg(".miu"), msg("gỉ jí da"), bridged("n: .miu gỉ jí"), bridged("n: gỉ"), bridged(".miu gỉ na"),
		{Kind: "edit", Nick: "a", Text: ".miu gỉ"}, {Kind: "message", Anon: true, Text: ".miu gỉ sa jí"}, {Kind: "join", Nick: "a"}, {Kind: "delete", Nick: "a"},
	}
	n := 3
	if !h.quick() {
		n = 4
	}
	h.cases("one-channel", fmt.Sprintf("all sequences of up to %d of %d events", n, len(alphabet)), func(emit func(string) bool) {
		var rec func(s []botEvent) bool
		rec = func(s []botEvent) bool {
			if len(s) == n || len(s) > 0 && n-len(s) == 0 {
				return emit(botCase{Hist: [][]botEvent{s}}.String())
			}
			for _, r := range alphabet {
				if !rec(append(s[:len(s):len(s)], r)) {
					return false
				}
			}
			return true
		}
		rec(nil)
	})
	few := []botEvent{msg(".miu gỉ jí da"), msg(".miu xx"), bridged("n: .miu jí"), msg("gỉ"), msg(".miu gỉ sa jí")}
	if h.quick() {
		few = few[:4]
	}
	seqs := func(n int) [][]botEvent {
		out := [][]botEvent{}
		var rec func(s []botEvent)
		rec = func(s []botEvent) {
			if len(s) > 0 {
				out = append(out, s)
			}
			if len(s) == n {
				return
			}
			for _, r := range few {
				rec(append(s[:len(s):len(s)], r))
			}
		}
		rec(nil)
		return out
	}
	h.cases("two-channels", fmt.Sprintf("all pairs of sequences of up to 2 of %d events, in all interleavings of the operations", len(few)), func(emit func(string) bool) {
		for _, a := range seqs(2) {
			for _, b := range seqs(2) {
				if !emit(botCase{Hist: [][]botEvent{a, b}}.String()) {
					return
				}
			}
		}
	})
	h.cases("three-channels", "one event in each of three channels, in all interleavings", func(emit func(string) bool) {
		for _, a := range few {
			for _, b := range few {
				for _, c := range few {
					if !emit(botCase{Hist: [][]botEvent{{a}, {b}, {c}}}.String()) {
						return
					}
				}
			}
		}
	})
	h.cases("refused-replies", "the service refuses one reply of a history", func(emit func(string) bool) {
		for _, a := range seqs(2) {
			for k := 1; k <= 2; k++ {
				if !emit(botCase{Hist: [][]botEvent{append(a[:len(a):len(a)], few[0], few[2])}, FailSend: k}.String()) {
					return
				}
			}
		}
	})
	h.cases("lost-connection", "the service cannot be reached, refuses a channel, or fails to deliver an event after each history of up to 2 events in one channel and one of up to 1 in the other", func(emit func(string) bool) {
		for _, e := range []string{"unreachable", "join:1", "join:2", "join:3"} {
			if !emit(botCase{Mode: e}.String()) {
				return
			}
		}
		for _, a := range append(seqs(2), nil) {
			if !emit(botCase{Hist: [][]botEvent{a}, Mode: "lost"}.String()) {
				return
			}
			for _, b := range append(seqs(1), nil) {
				if !emit(botCase{Hist: [][]botEvent{a, b}, Mode: "lost"}.String()) {
					return
				}
			}
		}
	})
	h.cases("interpreter-faults", "the interpreter of an instrumented copy panics at each of its function calls, with each kind of value", func(emit func(string) bool) {
		for _, kind := range faultKinds {
			for k := 1; ; k++ {
				c := botCase{Hist: [][]botEvent{{msg(".miu gỉ jí"), msg(".miu gỉ sa jí mí sủq"), msg(".miu gỉ jí"), msg(".miu jí")}}, Mode: fmt.Sprintf("%s:2:%d", kind, k)}
				if !emit(c.String()) {
					return
				}
				if k > 60 || h.quick() && kind != faultKinds[0] && k > 3 {
					break
				}
			}
		}
	})
	h.cases("preemptions", "two channels with one or two messages each; the bot is preempted at each statement of its source", func(emit func(string) bool) {
		fine := few
		if h.quick() {
			fine = few[:3]
		}
		for i, a := range fine {
			for j, b := range fine {
				hs := [][]botEvent{{a}, {b}}
				ok := true
				planPrefixes(func(first, at int) bool {
					ok = emit(botCase{Hist: hs, Mode: "fine", Plan: []int{first, at, 2}}.String())
					if ok && (!h.quick() || i == j) {
						bound := 2
						if h.quick() {
							bound = 1
						}
						ok = emit(botCase{Hist: [][]botEvent{{a, few[0]}, {b}}, Mode: "fine", Plan: []int{first, at, bound}}.String())
					}
					return ok
				})
				if !ok {
					return
				}
			}
		}
	})
}

var faultKinds = []string{"string", "error", "nilptr", "nilmap", "index", "custom", "int", "empty", "fragment"}

// chanNames are the channels of a case.
var chanNames = []string{"toaq", "offtopic", "bots"}

var botPool = struct {
	sync.Mutex
	free map[int][]*bot
}{free: map[int][]*bot{}}

func getBot(n int) *bot {
	botPool.Lock()
	l := botPool.free[n]
	if len(l) > 0 {
		b := l[len(l)-1]
		botPool.free[n] = l[:len(l)-1]
		botPool.Unlock()
		return b
	}
	botPool.Unlock()
	return newBot(botBinary(), n)
}

func putBot(b *bot, n int) {
	botPool.Lock()
	botPool.free[n] = append(botPool.free[n], b)
	botPool.Unlock()
}

// newBot starts a bot that has joined n channels.
func newBot(bin string, n int, env ...string) *bot {
	b := startBot(bin, chanNames[:n], env...)
	for _, c := range chanNames[:n] {
		op, err := b.wait(c)
		if err != nil || op.Op != "join" || op.Guild != "toaq" {
			kind := ""
			if len(env) > 0 {
				kind = "harness: "
			}
			panic(fmt.Sprintf("%sthe bot does not join %s: %+v %v", kind, c, op, err))
		}
		b.grant(c, nil, "")
	}
	return b
}

func checkC22(w *W, c string) {
	var bc botCase
	must(json.Unmarshal([]byte(c), &bc))
	switch {
	case bc.Mode == "fine":
		checkBotFine(w, bc)
		return
	case bc.Mode == "lost" || bc.Mode == "unreachable" || strings.HasPrefix(bc.Mode, "join:"):
		checkBotLost(w, bc)
		return
	case bc.Mode != "":
		b := newBot(goBuild{name: "botfault", pkg: "bot", fakeChat: true, sched: true, overlay: faultOverlay()}.build(), 1, "VERIF_FAULT="+bc.Mode)
		defer b.stop()
		faulty := 0
		for i, e := range bc.Hist[0] {
			got, err := converse(b, chanNames[0], e)
			if err != nil {
				w.bad("event %d (%+v): %v", i, e, err)
				return
			}
			want, _ := wantReply(e)
			w.validated()
			if sameReply(got, want) {
				continue
			}
			t, perr := ast.NewParser(strings.TrimSpace(strings.TrimPrefix(e.Text, botPrefix))).Text()
			if perr == nil && strings.HasPrefix(got, ast.BracesString(t)+"\nbug: ") && i == 1 {
				faulty++
				w.count("bug reported")
				continue
			}
			w.bad("event %d (%+v): the interpreter fails (%s) and the reply is %q", i, e, bc.Mode, got)
			return
		}
		return
	}
	n := len(bc.Hist)
	b := getBot(n)
	ok := false
	defer func() {
		if ok {
			putBot(b, n)
		} else {
			b.stop()
		}
	}()
	// The steps of each channel: receive an event, send the reply.
	type step struct {
		ev   botEvent
		send bool
		want string
	}
	steps := make([][]step, n)
	for i, h := range bc.Hist {
		for _, e := range h {
			steps[i] = append(steps[i], step{ev: e})
			if r, ok := wantReply(e); ok {
				steps[i] = append(steps[i], step{ev: e, send: true, want: r})
			}
		}
	}
	run := func(order []int) string {
		at := make([]int, n)
		sent := 0
		for k, i := range order {
			s := steps[i][at[i]]
			at[i]++
			op, err := b.wait(chanNames[i])
			where := fmt.Sprintf("order %v step %d, channel %s, event %+v", order, k, chanNames[i], s.ev)
			if err != nil {
				return where + ": " + err.Error()
			}
			if !s.send {
				if op.Op != "recv" {
					return fmt.Sprintf("%s: the bot does %+v that it should not", where, op)
				}
				b.grant(chanNames[i], &s.ev, "")
				w.count("events")
			} else {
				if op.Op != "send" {
					return fmt.Sprintf("%s: the bot does %+v, it should reply %q", where, op, s.want)
				}
				if !sameReply(op.Text, s.want) {
					return fmt.Sprintf("%s: the bot replies\n%q\nwant\n%q", where, op.Text, s.want)
				}
				w.count("replies")
				sent++
				fail := ""
				if sent == bc.FailSend {
					fail = "HTTP error Bad Request"
					w.count("refused replies")
				}
				b.grant(chanNames[i], nil, fail)
			}
			// It comes to its next operation before anything else happens.
			if _, err := b.wait(chanNames[i]); err != nil {
				return where + ": after that, " + err.Error()
			}
		}
		for i := range steps {
			op, err := b.wait(chanNames[i])
			if err != nil {
				return "at the end, " + err.Error()
			}
			if op.Op != "recv" {
				return fmt.Sprintf("order %v: at the end the bot does %+v that it should not", order, op)
			}
		}
		return ""
	}
	left := make([]int, n)
	total := 0
	for i := range steps {
		left[i] = len(steps[i])
		total += left[i]
	}
	var rec func(order []int) bool
	rec = func(order []int) bool {
		if len(order) == total {
			w.validated()
			w.count("interleavings")
			if m := run(order); m != "" {
				w.bad("%s", m)
				return false
			}
			return true
		}
		for i := range left {
			if left[i] == 0 {
				continue
			}
			left[i]--
			ok := rec(append(order, i))
			left[i]++
			if !ok {
				return false
			}
		}
		return true
	}
	ok = rec(nil)
}

// checkBotLost judges how the bot ends when the chat service is lost: a
// process that stays would answer nothing, and nobody would start it again.
func checkBotLost(w *W, bc botCase) {
	w.validated()
	ends := func(b *bot, when string) {
		select {
		case <-b.dead:
		case <-time.After(20 * time.Second):
			w.bad("%s, and the bot goes on", when)
			return
		}
		if c := b.cmd.ProcessState.ExitCode(); c <= 0 {
			w.bad("%s, and the bot ends with %v", when, b.cmd.ProcessState)
			return
		}
		if !strings.Contains(string(b.out.b), "no such luck") && bc.Mode != "unreachable" {
			w.bad("%s, and the bot ends without the reason: %s", when, lastLine(string(b.out.b)))
			return
		}
		w.count("ended")
	}
	if bc.Mode == "unreachable" {
		cmd := exec.Command(botBinary())
		cmd.Env = append(os.Environ(), "DISCORD_TOKEN="+filepath.Join(scratch(), "nothing"), "DISCORD_SERVER=toaq", "DISCORD_CHANS=toaq")
		out, code, late := runLimited(cmd, 20*time.Second)
		if late || code <= 0 {
			w.bad("the chat service cannot be reached, and the bot ends with %d (still running %v): %.300s", code, late, out)
		}
		return
	}
	if k := 0; bc.Mode != "lost" {
		fmt.Sscanf(bc.Mode, "join:%d", &k)
		b := startBot(botBinary(), chanNames)
		defer b.stop()
		for i, c := range chanNames {
			if op, err := b.wait(c); err != nil || op.Op != "join" {
				w.bad("the bot does not join %s: %+v %v", c, op, err)
				return
			}
			if i+1 == k {
				b.grant(c, nil, "no such luck")
				break
			}
			b.grant(c, nil, "")
		}
		ends(b, fmt.Sprintf("the chat service refuses channel %d", k))
		return
	}
	n := len(bc.Hist)
	b := newBot(botBinary(), n)
	defer b.stop()
	for i := n - 1; i >= 0; i-- {
		for _, e := range bc.Hist[i] {
			e := e
			if _, ok := wantReply(e); ok {
				if _, err := converse(b, chanNames[i], e); err != nil {
					w.bad("event %+v: %v", e, err)
					return
				}
				continue
			}
			if op, err := b.wait(chanNames[i]); err != nil || op.Op != "recv" {
				w.bad("event %+v: the bot does %+v %v", e, op, err)
				return
			}
			b.grant(chanNames[i], &e, "")
		}
	}
	if op, err := b.wait(chanNames[0]); err != nil || op.Op != "recv" {
		w.bad("the bot does not wait for events: %+v %v", op, err)
		return
	}
	b.grant(chanNames[0], nil, "no such luck")
	ends(b, "the connection to the chat service fails")
}

// converse sends an event and returns the reply, if any.
func converse(b *bot, ch string, e botEvent) (string, error) {
	op, err := b.wait(ch)
	if err != nil {
		return "", err
	}
	if op.Op != "recv" {
		return "", fmt.Errorf("the bot does %+v instead of waiting for events", op)
	}
	b.grant(ch, &e, "")
	if op, err = b.wait(ch); err != nil {
		return "", err
	}
	if op.Op != "send" {
		return "", fmt.Errorf("the bot does %+v instead of replying", op)
	}
	b.grant(ch, nil, "")
	if next, err := b.wait(ch); err != nil {
		return "", err
	} else if next.Op != "recv" {
		return "", fmt.Errorf("after the reply %q the bot does %+v", op.Text, next)
	}
	return op.Text, nil
}

// ---- C25 ----

func exploreC25(h *H) {
	cliBinary()
	serverBinary()
	botBinary()
	d := 2
	if !h.quick() {
		d = 3
	}
	h.texts(space{name: "texts", tokens: toks("gi? ji/ gi- giV gi^ gi~ gi\\ na bi da je moq go sa ku ru to lu? lu/ mi? po? mo? ga teo kio ki ju hu bei moq? , kie ? gg GI? gỉ"), sep: " ", depth: d})
	h.texts(space{name: "connectives", prefix: "gi?", tokens: toks("ji/ ru ra ri ro roi re na gi? da to"), sep: " ", depth: d + 2})
	h.cases("no-file", "names that cannot be read", func(emit func(string) bool) {
		for _, n := range []string{"nothing", "", "/", ".", "t0/x", "-", "-h", "--", "\xff"} {
			if !emit(noFile + n) {
				return
			}
		}
	})
	small, large := h.modBases()
	h.cases("accepted", fmt.Sprintf("%d+%d accepted texts with every construct", len(small), len(large)), func(emit func(string) bool) {
		for i, x := range append(append([]string{}, small...), large...) {
			if i >= len(small) && h.quick() && i%3 != 0 {
				continue
			}
			if !emit(x) {
				return
			}
		}
	})
	h.cases("bytes", "every byte alone and after a sentence, and spacing around a text", func(emit func(string) bool) {
		for b := 0; b < 256; b++ {
			if !emit(string([]byte{byte(b)})) || !emit("gi? ji/"+string([]byte{byte(b)})) || !emit("gi? ji/ da "+string([]byte{byte(b)})) {
				return
			}
		}
		for _, a := range []string{"", " ", "\n", "\t", "\r\n", "\u00a0", "\u2003", "\ufeff", "  \n"} {
			for _, b := range []string{"", " ", "\n", "\t", "\r\n", "\u00a0", "\u2003", "."} {
				for _, t := range []string{"", "gỉ jí da", "jí", "xx", "gi?\nji/"} {
					if !emit(a + t + b) {
						return
					}
				}
			}
		}
		for _, n := range []int{10, 100, 400} {
			for _, t := range []string{"gỉ jí da ", "gỉ na gỉ jí da\n", "jí ", "xx "} {
				if !emit(strings.Repeat(t, n)) {
					return
				}
			}
		}
	})
}

var dirOnce sync.Once
var caseDir string

// cliFile returns a file with a text.
func cliFile(w *W, text string) string {
	dirOnce.Do(func() {
		d, err := os.MkdirTemp(scratch(), "texts")
		must(err)
		caseDir = d
	})
	p := filepath.Join(caseDir, fmt.Sprintf("t%d", w.i))
	must(os.WriteFile(p, []byte(text), 0o666))
	return p
}

// noFile begins cases that are names instead of texts.
const noFile = "\x00no file "

// checkNoFile gives the program a name that it cannot read.
func checkNoFile(w *W, name string) {
	w.validated()
	cliFile(w, "")
	cmd := exec.Command(cliBinary(), name)
	cmd.Dir = caseDir
	cmd.Stdin = strings.NewReader("gi? ji/")
	out, code, late := runLimited(cmd, 60*time.Second)
	if late || code == 0 || code > 1 || code < 0 {
		w.bad("given the name %q, which cannot be read, the program exits with %d: %.300s", name, code, out)
	}
}

func checkC25(w *W, text string) {
	if strings.HasPrefix(text, noFile) {
		checkNoFile(w, text[len(noFile):])
		return
	}
	var t *ast.Text
	var perr error
	if p := try(func() { t, perr = ast.NewParser(text).Text() }); p != nil {
		w.bad("the library panics: %v", p)
		return
	}
	w.validated()
	if len(text) < 2048 && w.verdict(text).ok != (perr == nil) {
		w.bad("the library says %v but the grammar says %+v", perr, w.v)
		return
	}
	var braces, formula string
	var parts []string // what the program prints
	if perr == nil {
		w.count("accepted")
		if p := try(func() {
			braces = ast.BracesString(t)
			formula = logicPlain(t)
			tree, err := ast.NewParser(text).Tree()
			if err != nil {
				panic("Text succeeds but Tree fails")
			}
			parts = []string{peg.Pretty(tree) + "\n", pretty.String(t) + "\n", textWords(t) + "\n" + braces + "\n"}
			if st, m := interpret(t); m == "" && st != nil {
				logic.NillOutAST(st)
				parts = append(parts, pretty.String(st)+"\n"+formula+"\n")
			}
		}); p != nil {
			w.bad("the library panics: %v", p)
			return
		}
	}
	// The program, reading standard input and reading a file.
	file := cliFile(w, text)
	for _, arg := range [][]string{nil, {file}} {
		cmd := exec.Command(cliBinary(), arg...)
		cmd.Stdin = strings.NewReader(text)
		var out, errOut bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errOut
		how := "on standard input"
		if arg != nil {
			how = "in a file"
			cmd.Stdin = nil
		}
		err := start(cmd)
		must(err)
		kill := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
		cmd.Wait()
		kill.Stop()
		code := cmd.ProcessState.ExitCode()
		o := out.String()
		if (code == 0) != (perr == nil) {
			w.bad("given the text %s, the program exits with %d, but the library says %v\n%.300s%.300s", how, code, perr, o, errOut.String())
			return
		}
		if perr != nil {
			if !strings.Contains(o, perr.Error()) {
				w.bad("given the text %s, the program prints\n%.500s\nbut the library's error is %v", how, o, perr)
				return
			}
			continue
		}
		if formula == "bug:" {
			// The connective that is not supported is named as the service names it.
			if i := strings.LastIndex(o, "\nbug: "); i < 0 || !strings.HasSuffix(o, "\n") || strings.Count(o[i:], "\n") != 2 {
				w.bad("given the text %s, which is not supported, the program prints\n...%s", how, end(o))
				return
			}
		} else if !strings.HasSuffix(o, "\n"+formula+"\n") {
			w.bad("given the text %s, the program prints\n...%s\nbut the library's formula is\n%s", how, end(o), formula)
			return
		}
		if !strings.Contains(o, "\n"+braces+"\n") {
			w.bad("given the text %s, the program prints\n...%s\nbut the library's braces are\n%s", how, end(o), braces)
			return
		}
		rest := o
		for _, part := range parts {
			i := strings.Index(rest, part)
			if i < 0 {
				w.bad("given the text %s, the program prints\n%.600s\nin which this is missing:\n%s", how, o, end(part))
				return
			}
			rest = rest[i+len(part):]
		}
	}
	// The service.
	s := getServer()
	conn := &hconn{s: s}
	a := conn.do(post(text))
	conn.close()
	if m := judgePost(w, text, a); m != "" {
		w.bad("the service: %s", m)
		s.stop()
		return
	}
	putServer(s)
	// The bot. It is given text without white space around it.
	b := getBot(1)
	if strings.HasPrefix(text, botPrefix) || !validText(text) {
		putBot(b, 1)
		return
	}
	got, err := converse(b, chanNames[0], msg(botPrefix+" "+text))
	want := botReply(strings.TrimSpace(text))
	if err != nil || !sameReply(got, want) {
		w.bad("the bot replies %q (%v), the library says %q", got, err, want)
		b.stop()
		return
	}
	putBot(b, 1)
}

// validText returns whether a text can be in a chat message.
func validText(s string) bool { return s == jsonText(s) }

func end(s string) string {
	if len(s) > 600 {
		return s[len(s)-600:]
	}
	return s
}
