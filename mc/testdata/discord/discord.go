// Package discord stands in for the chat service: every operation of the
// client is sent to the checker and completes when the checker says so.
package discord

import (
	"context"
	"encoding/json"
	"errors"
	"net"
	"os"
	"sync"

	"github.com/velour/chat"
)

// A Client is a client of the chat service.
type Client struct {
	mu    sync.Mutex
	conn  net.Conn
	waits map[string]chan answer
}

type answer struct {
	Chan string `json:"ch"`
	Ev   *event `json:"ev"`
	Err  string `json:"err"`
}

type event struct {
	Kind  string `json:"kind"`
	Nick  string `json:"nick"`
	Anon  bool   `json:"anon"`
	Text  string `json:"text"`
	Reply string `json:"reply"`
}

type op struct {
	Op    string `json:"op"`
	Chan  string `json:"ch"`
	Guild string `json:"guild"`
	Text  string `json:"text"`
}

// Dial connects; the token is the path of the checker's socket.
func Dial(ctx context.Context, token string) (*Client, error) {
	c, err := net.Dial("unix", token)
	if err != nil {
		return nil, err
	}
	cl := &Client{conn: c, waits: map[string]chan answer{}}
	go func() {
		d := json.NewDecoder(c)
		for {
			var a answer
			if d.Decode(&a) != nil {
				os.Exit(7)
			}
			cl.mu.Lock()
			w := cl.waits[a.Chan]
			cl.mu.Unlock()
			w <- a
		}
	}()
	return cl, nil
}

func (cl *Client) do(o op) answer {
	cl.mu.Lock()
	w := cl.waits[o.Chan]
	if w == nil {
		w = make(chan answer)
		cl.waits[o.Chan] = w
	}
	b, err := json.Marshal(o)
	if err == nil {
		_, err = cl.conn.Write(append(b, '\n'))
	}
	cl.mu.Unlock()
	if err != nil {
		return answer{Err: err.Error()}
	}
	return <-w
}

// Close closes the client.
func (cl *Client) Close(ctx context.Context) error { return cl.conn.Close() }

// Join joins a channel.
func (cl *Client) Join(ctx context.Context, guild, name string) (chat.Channel, error) {
	ch := &Channel{cl: cl, name: name, guild: guild}
	if a := cl.do(op{Op: "join", Chan: name, Guild: guild}); a.Err != "" {
		return nil, errors.New(a.Err)
	}
	return ch, nil
}

// RewriteName does nothing.
func (cl *Client) RewriteName(from, to string) {}

// A Channel is a channel.
type Channel struct {
	cl          *Client
	name, guild string
}

// Name returns the name.
func (ch *Channel) Name() string { return ch.name }

// ServiceName returns the name of the service.
func (ch *Channel) ServiceName() string { return "Discord " + ch.guild + " " + ch.name }

// Receive receives an event.
func (ch *Channel) Receive(ctx context.Context) (chat.Event, error) {
	a := ch.cl.do(op{Op: "recv", Chan: ch.name})
	if a.Err != "" {
		return nil, errors.New(a.Err)
	}
	u := &chat.User{ID: "1", Nick: a.Ev.Nick, FullName: a.Ev.Nick, DisplayName: a.Ev.Nick, Channel: ch}
	if a.Ev.Anon {
		u = nil
	}
	m := chat.Message{ID: "2", From: u, Text: a.Ev.Text}
	if a.Ev.Reply != "" {
		m.ReplyTo = &chat.Message{ID: "3", From: u, Text: a.Ev.Reply}
	}
	switch a.Ev.Kind {
	case "edit":
		return chat.Edit{OrigID: "2", New: m}, nil
	case "delete":
		return chat.Delete{ID: "2", Channel: ch}, nil
	case "join":
		return chat.Join{Who: *u}, nil
	case "leave":
		return chat.Leave{Who: *u}, nil
	case "rename":
		return chat.Rename{From: *u, To: *u}, nil
	}
	return m, nil
}

// Send sends a message.
func (ch *Channel) Send(ctx context.Context, m chat.Message) (chat.Message, error) {
	if a := ch.cl.do(op{Op: "send", Chan: ch.name, Text: m.Text}); a.Err != "" {
		return chat.Message{}, errors.New(a.Err)
	}
	m.ID = "4"
	return m, nil
}

// Delete deletes a message.
func (ch *Channel) Delete(ctx context.Context, m chat.Message) error {
	if a := ch.cl.do(op{Op: "delete", Chan: ch.name, Text: m.Text}); a.Err != "" {
		return errors.New(a.Err)
	}
	return nil
}

// Edit edits a message.
func (ch *Channel) Edit(ctx context.Context, m chat.Message) (chat.Message, error) {
	if a := ch.cl.do(op{Op: "edit", Chan: ch.name, Text: m.Text}); a.Err != "" {
		return chat.Message{}, errors.New(a.Err)
	}
	return m, nil
}
