// Package simdiscord stands in for the Discord client: the chat service at
// the other end is the simulator.
package simdiscord

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"

	"github.com/velour/chat"

	"toaqsim/simrt"
)

var (
	mu       sync.Mutex
	DialErr  error
	JoinErr  = map[string]error{} // by channel name
	channels []*Channel
	Dials    int
	Tokens   []string
	// DialGate and JoinGate stall the calls until closed.
	DialGate chan struct{}
	JoinGate = map[string]chan struct{}{}
	Joins    []string
	Closed   int
)

type Client struct{ token string }

func Dial(ctx context.Context, token string) (*Client, error) {
	mu.Lock()
	Dials++
	Tokens = append(Tokens, token)
	err := DialErr
	g := DialGate
	mu.Unlock()
	if g != nil {
		select {
		case <-g:
		case <-ctx.Done():
			return nil, ctx.Err()
		}
	}
	if err != nil {
		return nil, err
	}
	return &Client{token}, nil
}

func (cl *Client) Close(ctx context.Context) error { Closed++; return nil }

func (cl *Client) RewriteName(from, to string) {}

func (cl *Client) Join(ctx context.Context, guild, name string) (chat.Channel, error) {
	mu.Lock()
	Joins = append(Joins, guild+"/"+name)
	err := JoinErr[name]
	g := JoinGate[name]
	mu.Unlock()
	if g != nil {
		select {
		case <-g:
		case <-ctx.Done():
			return nil, ctx.Err()
		}
	}
	if err != nil {
		return nil, err
	}
	ch := &Channel{name: name, guild: guild, wake: make(chan struct{})}
	mu.Lock()
	channels = append(channels, ch)
	mu.Unlock()
	simrt.Log("joined %s", name)
	return ch, nil
}

func Channels() []*Channel { mu.Lock(); defer mu.Unlock(); return append([]*Channel{}, channels...) }

// Sent is one thing the bot did to a channel.
type Sent struct {
	Op   string // send, edit, delete
	Text string
	// After is how many events had been received from the channel before.
	After int
	Seq   int
	Msg   chat.Message
}

var seq int

type Channel struct {
	name, guild string
	mu          sync.Mutex
	wake        chan struct{}
	q           []chat.Event
	recvErr     error
	sendErr     error
	sendStall   bool
	recvStall   bool
	received    int
	log         []Sent
	inSend      int
	waiting     int
	failedOps   int
	nid         int
}

func (ch *Channel) Name() string        { return ch.name }
func (ch *Channel) ServiceName() string { return "Discord (" + ch.guild + ")" }

func (ch *Channel) broadcast() { close(ch.wake); ch.wake = make(chan struct{}) }

func (ch *Channel) Receive(ctx context.Context) (chat.Event, error) {
	for {
		ch.mu.Lock()
		if !ch.recvStall {
			if len(ch.q) > 0 {
				e := ch.q[0]
				ch.q = ch.q[1:]
				ch.received++
				ch.mu.Unlock()
				simrt.Log("recv %s #%d", ch.name, ch.received)
				if m, ok := e.(chat.Message); ok {
					e = give(m)
				}
				return e, nil
			}
			if ch.recvErr != nil {
				err := ch.recvErr
				ch.failedOps++
				ch.mu.Unlock()
				return nil, err
			}
		}
		ch.waiting++
		w := ch.wake
		ch.mu.Unlock()
		select {
		case <-w:
		case <-ctx.Done():
			ch.mu.Lock()
			ch.waiting--
			ch.mu.Unlock()
			return nil, ctx.Err()
		}
		ch.mu.Lock()
		ch.waiting--
		ch.mu.Unlock()
	}
}

func (ch *Channel) Send(ctx context.Context, m chat.Message) (chat.Message, error) {
	return ch.do(ctx, "send", m)
}

func (ch *Channel) do(ctx context.Context, op string, m chat.Message) (chat.Message, error) {
	ch.mu.Lock()
	ch.inSend++
	ch.mu.Unlock()
	defer func() { ch.mu.Lock(); ch.inSend--; ch.mu.Unlock() }()
	for {
		ch.mu.Lock()
		if !ch.sendStall {
			if ch.sendErr != nil {
				err := ch.sendErr
				ch.failedOps++
				ch.mu.Unlock()
				return chat.Message{}, err
			}
			mu.Lock()
			seq++
			s := seq
			mu.Unlock()
			ch.nid++
			m.ID = chat.MessageID(fmt.Sprintf("b%d", ch.nid))
			m.Text = strings.Clone(m.Text) // ours to keep, not the program's
			ch.log = append(ch.log, Sent{Op: op, Text: m.Text, After: ch.received, Seq: s, Msg: m})
			ch.mu.Unlock()
			simrt.Log("%s %s %q", op, ch.name, trunc(m.Text))
			return give(m), nil
		}
		w := ch.wake
		ch.mu.Unlock()
		select {
		case <-w:
		case <-ctx.Done():
			return chat.Message{}, ctx.Err()
		}
	}
}

// give makes what the program gets a copy of its own, so that it is seen if
// the program keeps it (world.inUse).
//
//go:noinline
func give(m chat.Message) chat.Message {
	m.Text = strings.Clone(m.Text)
	if m.From != nil {
		u := *m.From
		m.From = &u
	}
	return m
}

func trunc(s string) string {
	if len(s) > 60 {
		return s[:60]
	}
	return s
}

func (ch *Channel) Delete(ctx context.Context, m chat.Message) error {
	_, err := ch.do(ctx, "delete", m)
	return err
}
func (ch *Channel) Edit(ctx context.Context, m chat.Message) (chat.Message, error) {
	return ch.do(ctx, "edit", m)
}

// The simulator's end.

func (ch *Channel) Push(e chat.Event) {
	ch.mu.Lock()
	ch.q = append(ch.q, e)
	ch.broadcast()
	ch.mu.Unlock()
}
func (ch *Channel) FailReceive(err error) {
	ch.mu.Lock()
	ch.recvErr = err
	ch.broadcast()
	ch.mu.Unlock()
}
func (ch *Channel) FailSend(err error) {
	ch.mu.Lock()
	ch.sendErr = err
	ch.broadcast()
	ch.mu.Unlock()
}
func (ch *Channel) StallSend(on bool) {
	ch.mu.Lock()
	ch.sendStall = on
	ch.broadcast()
	ch.mu.Unlock()
}
func (ch *Channel) StallReceive(on bool) {
	ch.mu.Lock()
	ch.recvStall = on
	ch.broadcast()
	ch.mu.Unlock()
}

// State returns a snapshot.
func (ch *Channel) State() (received, queued, waiting, insend, failed int, log []Sent) {
	ch.mu.Lock()
	defer ch.mu.Unlock()
	return ch.received, len(ch.q), ch.waiting, ch.inSend, ch.failedOps, append([]Sent{}, ch.log...)
}

var ErrSim = errors.New("simulated transport failure")
