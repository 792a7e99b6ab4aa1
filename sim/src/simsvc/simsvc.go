// Package simsvc plays the dictionary service at the far end of simulated
// connections. The program's HTTP client is the real net/http transport.
package simsvc

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"time"

	"toaqsim/plan"
	"toaqsim/simnet"
	"toaqsim/simrt"
)

// Request is one request the service got.
type Request struct {
	Conn  int
	Host  string
	Path  string
	Body  string
	Reply *plan.Reply
	Load  int

	wire  []byte
	limit int
	sent  int
	piece int
	at    time.Duration
	done  bool
	cut   bool
}

// Delivered tells that the whole reply was sent.
func (r *Request) Delivered() bool { return r.done && !r.cut }

type sconn struct {
	c    *simnet.Conn
	host string
	off  int
	cur  *Request
	end  bool
}

// Service is the far end.
type Service struct {
	mu       sync.Mutex
	conns    []*sconn
	Requests []*Request
	// Find says how to answer a request.
	Find func(host, body string) (*plan.Reply, int)
	// Refuse says whether to refuse a connection.
	Refuse func(host string) error
	Fault  func(string)
	Dials  int
}

// Install makes the service the default transport's network.
func (s *Service) Install() *http.Transport {
	dial := func(ctx context.Context, network, addr string) (net.Conn, error) {
		host, _, _ := net.SplitHostPort(addr)
		s.mu.Lock()
		defer s.mu.Unlock()
		s.Dials++
		if err := s.Refuse(host); err != nil {
			return nil, &net.OpError{Op: "dial", Net: "tcp", Err: err}
		}
		c := simnet.NewConn("s" + strconv.Itoa(len(s.conns)))
		s.conns = append(s.conns, &sconn{c: c, host: host})
		simrt.Log("dial %s", host)
		return c, nil
	}
	simnet.Dial = dial
	tr := &http.Transport{
		DialContext:         dial,
		DialTLSContext:      dial,
		MaxIdleConnsPerHost: 2,
	}
	http.DefaultTransport = tr
	return tr
}

// Env lists what the service can do now.
func (s *Service) Env() []simrt.Choice {
	var cs []simrt.Choice
	now := simrt.SimTime()
	for i, c := range s.conns {
		i, c := i, c
		if c.end {
			continue
		}
		if c.cur == nil {
			s.read(i, c)
		}
		r := c.cur
		if r == nil || now < r.at {
			continue
		}
		if r.sent < r.limit {
			cs = append(cs, simrt.Choice{ID: fmt.Sprintf("s%d>", i), Do: func() {
				n := r.limit - r.sent
				if len(r.Reply.Wire) > 0 {
					if k := r.Reply.Wire[r.piece%len(r.Reply.Wire)]; k > 0 && k < n {
						n = k
					}
					r.piece++
				}
				c.c.Deliver(r.wire[r.sent : r.sent+n])
				r.sent += n
				if r.sent == len(r.wire) {
					r.done = true
					c.cur = nil
					if r.Reply.Close {
						c.end = true
						c.c.End(io.EOF)
					}
				}
			}})
			continue
		}
		cs = append(cs, simrt.Choice{ID: fmt.Sprintf("s%d!", i), Do: func() {
			r.done, r.cut, c.end = true, true, true
			c.cur = nil
			s.Fault("reply-" + r.Reply.Fault)
			if r.Reply.Fault == "reset" {
				c.c.Reset()
			} else {
				c.c.End(io.EOF)
			}
		}})
	}
	return cs
}

// NextAt is when a delayed reply becomes due, or -1.
func (s *Service) NextAt() time.Duration {
	at := time.Duration(-1)
	for _, c := range s.conns {
		if c.cur != nil && c.cur.at > simrt.SimTime() && (at < 0 || c.cur.at < at) {
			at = c.cur.at
		}
	}
	return at
}

func (s *Service) read(i int, c *sconn) {
	out := c.c.Out()
	if len(out) == c.off {
		return
	}
	rd := bytes.NewReader(out[c.off:])
	br := bufio.NewReader(rd)
	req, err := http.ReadRequest(br)
	if err != nil {
		return
	}
	body, err := io.ReadAll(req.Body)
	if err != nil {
		return
	}
	c.off = len(out) - rd.Len() - br.Buffered()
	rep, k := s.Find(req.Host, string(body))
	r := &Request{Conn: i, Host: req.Host, Path: req.URL.Path, Body: string(body), Reply: rep, Load: k}
	b := plan.ReplyBody(rep)
	var h strings.Builder
	st := rep.Status
	if st == 0 {
		st = 200
	}
	fmt.Fprintf(&h, "HTTP/1.1 %d X\r\nContent-Type: application/json\r\n", st)
	if rep.Close {
		h.WriteString("Connection: close\r\n")
	}
	hl := 0
	if rep.Chunked {
		h.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		hl = h.Len()
		for rest := b; len(rest) > 0; {
			n := 37
			if n > len(rest) {
				n = len(rest)
			}
			fmt.Fprintf(&h, "%x\r\n%s\r\n", n, rest[:n])
			rest = rest[n:]
		}
		h.WriteString("0\r\n\r\n")
	} else {
		fmt.Fprintf(&h, "Content-Length: %d\r\n\r\n", len(b))
		hl = h.Len()
		h.WriteString(b)
	}
	r.wire = []byte(h.String())
	r.limit = len(r.wire)
	if rep.Fault == "eof" || rep.Fault == "reset" {
		if rep.Cut < 0 {
			r.limit = hl * (1000 + rep.Cut) / 1000
		} else {
			r.limit = hl + int(int64(len(r.wire)-hl)*int64(rep.Cut)/1000)
		}
		// Never after the end of the JSON value.
		max := len(r.wire) - 1
		if rep.Chunked {
			max = len(r.wire) - 8
		}
		if r.limit > max {
			r.limit = max
		}
		if r.limit < 0 {
			r.limit = 0
		}
	}
	if rep.DelayMS > 0 {
		r.at = simrt.SimTime() + time.Duration(rep.DelayMS)*time.Millisecond
		s.Fault("reply-delayed")
	}
	c.cur = r
	s.Requests = append(s.Requests, r)
	simrt.Log("request %d for load %d", len(s.Requests), k)
}

// Open counts the connections the program has not closed.
func (s *Service) Open() (n int, who []int) {
	for i, c := range s.conns {
		if !c.c.Closed() {
			n++
			for _, r := range s.Requests {
				if r.Conn == i {
					who = append(who, r.Load)
				}
			}
		}
	}
	return n, who
}
