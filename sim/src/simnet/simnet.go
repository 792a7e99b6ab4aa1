// Package simnet is the simulated network: connections and listeners whose
// every delivery, cut and stall is an action of the simulator.
package simnet

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"sync"
	"syscall"
	"time"

	"toaqsim/simrt"
)

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// Conn is the program's end of a connection. The simulator plays the other end.
type Conn struct {
	Name string

	mu       sync.Mutex
	wake     chan struct{}
	in       []byte
	inErr    error // after in is drained
	out      []byte
	OutLimit int // <0: no limit; Write blocks while len(out) is at the limit
	outErr   error
	closed   bool
	wclosed  bool
	rdl, wdl time.Time
	rdlT     *time.Timer
	wdlT     *time.Timer
	MaxRead  int // largest read, 0: any

	Reads, Writes int
	OutTotal      int
}

func NewConn(name string) *Conn {
	return &Conn{Name: name, wake: make(chan struct{}), OutLimit: -1}
}

func (c *Conn) broadcast() { close(c.wake); c.wake = make(chan struct{}) }

func opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Err: err}
}

func (c *Conn) Read(b []byte) (int, error) {
	for {
		c.mu.Lock()
		switch {
		case c.closed:
			c.mu.Unlock()
			return 0, opErr("read", net.ErrClosed)
		case !c.rdl.IsZero() && !time.Now().Before(c.rdl):
			c.mu.Unlock()
			return 0, opErr("read", os.ErrDeadlineExceeded)
		case len(c.in) > 0:
			if len(b) == 0 {
				c.mu.Unlock()
				return 0, nil
			}
			if c.MaxRead > 0 && len(b) > c.MaxRead {
				b = b[:c.MaxRead]
			}
			n := copy(b, c.in)
			c.in = c.in[n:]
			c.Reads++
			c.mu.Unlock()
			return n, nil
		case c.inErr != nil:
			err := c.inErr
			c.mu.Unlock()
			if err == io.EOF {
				return 0, err
			}
			return 0, opErr("read", err)
		}
		w := c.wake
		c.mu.Unlock()
		<-w
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	n := 0
	for {
		c.mu.Lock()
		switch {
		case c.closed || c.wclosed:
			c.mu.Unlock()
			return n, opErr("write", net.ErrClosed)
		case c.outErr != nil:
			err := c.outErr
			c.mu.Unlock()
			return n, opErr("write", err)
		case !c.wdl.IsZero() && !time.Now().Before(c.wdl):
			c.mu.Unlock()
			return n, opErr("write", os.ErrDeadlineExceeded)
		}
		room := len(b) - n
		if c.OutLimit >= 0 && room > c.OutLimit-len(c.out) {
			room = c.OutLimit - len(c.out)
		}
		if room > 0 {
			c.out = append(c.out, b[n:n+room]...)
			c.OutTotal += room
			n += room
		}
		if n == len(b) {
			c.Writes++
			c.mu.Unlock()
			return n, nil
		}
		w := c.wake
		c.mu.Unlock()
		<-w
	}
}

func (c *Conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return opErr("close", net.ErrClosed)
	}
	c.closed = true
	c.broadcast()
	return nil
}

// CloseWrite is what net/http calls to half-close a TCP connection.
func (c *Conn) CloseWrite() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.wclosed = true
	return nil
}

func (c *Conn) LocalAddr() net.Addr  { return addr("sim:80") }
func (c *Conn) RemoteAddr() net.Addr { return addr("client-" + c.Name + ":1") }

func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *Conn) deadline(t time.Time, dl *time.Time, tm **time.Timer) {
	c.mu.Lock()
	defer c.mu.Unlock()
	*dl = t
	if *tm != nil {
		(*tm).Stop()
		*tm = nil
	}
	if !t.IsZero() {
		if d := time.Until(t); d > 0 {
			*tm = time.AfterFunc(d, func() { c.mu.Lock(); c.broadcast(); c.mu.Unlock() })
		}
	}
	c.broadcast()
}

func (c *Conn) SetReadDeadline(t time.Time) error  { c.deadline(t, &c.rdl, &c.rdlT); return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { c.deadline(t, &c.wdl, &c.wdlT); return nil }

// The simulator's end.

// Deliver makes bytes readable.
func (c *Conn) Deliver(b []byte) {
	c.mu.Lock()
	c.in = append(c.in, b...)
	c.broadcast()
	c.mu.Unlock()
}

// End makes reads fail with err (io.EOF: half-close) once drained.
func (c *Conn) End(err error) {
	c.mu.Lock()
	if c.inErr == nil {
		c.inErr = err
	}
	c.broadcast()
	c.mu.Unlock()
}

// Reset cuts the connection: undelivered bytes are lost, reads and writes fail.
func (c *Conn) Reset() {
	c.mu.Lock()
	c.in = nil
	c.inErr = syscall.ECONNRESET
	c.outErr = syscall.EPIPE
	c.broadcast()
	c.mu.Unlock()
}

// SetOutLimit changes how much the peer buffers.
func (c *Conn) SetOutLimit(n int) {
	c.mu.Lock()
	c.OutLimit = n
	c.broadcast()
	c.mu.Unlock()
}

// Out returns what the program has written so far.
func (c *Conn) Out() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.out
}

// Drained tells that the program has read everything delivered.
func (c *Conn) Drained() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.in) == 0
}

// Closed tells whether the program closed its end.
func (c *Conn) Closed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

func (c *Conn) WClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed || c.wclosed
}

// Listener is a simulated listening socket.
type Listener struct {
	Addr_  string
	mu     sync.Mutex
	wake   chan struct{}
	q      []acc
	closed bool
	paused bool // a connection was accepted since everybody was last at rest
	// Waiting counts goroutines in Accept.
	Waiting int
	Accepts int
}

type acc struct {
	c   *Conn
	err error
}

var (
	lmu       sync.Mutex
	listeners []*Listener
	// ListenErr, when set, decides the outcome of Listen.
	ListenErr func(addr string) error
)

// Listeners returns the program's listeners.
func Listeners() []*Listener {
	lmu.Lock()
	defer lmu.Unlock()
	return append([]*Listener{}, listeners...)
}

// Listen replaces net.Listen.
func Listen(network, address string) (net.Listener, error) {
	if ListenErr != nil {
		if err := ListenErr(address); err != nil {
			return nil, &net.OpError{Op: "listen", Net: network, Err: err}
		}
	}
	l := &Listener{Addr_: address, wake: make(chan struct{})}
	lmu.Lock()
	listeners = append(listeners, l)
	lmu.Unlock()
	simrt.AtRest(l.resume)
	simrt.Log("listen %s", address)
	return l, nil
}

// ListenConfigListen replaces (*net.ListenConfig).Listen.
func ListenConfigListen(*net.ListenConfig) func(context.Context, string, string) (net.Listener, error) {
	return func(_ context.Context, network, address string) (net.Listener, error) {
		return Listen(network, address)
	}
}

// Dial makes the program's outgoing connections.
var Dial = func(ctx context.Context, network, address string) (net.Conn, error) {
	return nil, &net.OpError{Op: "dial", Net: network, Err: syscall.ENETUNREACH}
}

// Transport makes a transport of the program use the simulated network.
func Transport(t *http.Transport) *http.Transport {
	d := func(ctx context.Context, network, address string) (net.Conn, error) {
		return Dial(ctx, network, address)
	}
	t.DialContext, t.DialTLSContext = d, d
	t.Dial, t.DialTLS = nil, nil
	t.ForceAttemptHTTP2 = false
	t.Proxy = nil
	return t
}

func init() {
	if t, ok := http.DefaultTransport.(*http.Transport); ok {
		Transport(t)
	}
}

func (l *Listener) Accept() (net.Conn, error) {
	for {
		l.mu.Lock()
		if l.closed {
			l.mu.Unlock()
			return nil, opErr("accept", net.ErrClosed)
		}
		if len(l.q) > 0 && !l.paused {
			a := l.q[0]
			l.q = l.q[1:]
			l.Accepts++
			l.paused = true
			l.mu.Unlock()
			if a.err != nil {
				return nil, opErr("accept", a.err)
			}
			return a.c, nil
		}
		l.Waiting++
		w := l.wake
		l.mu.Unlock()
		<-w
		l.mu.Lock()
		l.Waiting--
		l.mu.Unlock()
	}
}

// resume lets the next connection be accepted; the goroutine serving the
// last one has come to rest.
func (l *Listener) resume() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	if !l.paused {
		return false
	}
	l.paused = false
	if len(l.q) == 0 || l.Waiting == 0 {
		return false
	}
	close(l.wake)
	l.wake = make(chan struct{})
	return true
}

func (l *Listener) push(a acc) {
	l.mu.Lock()
	l.q = append(l.q, a)
	close(l.wake)
	l.wake = make(chan struct{})
	l.mu.Unlock()
}

// Connect queues a new connection.
func (l *Listener) Connect(c *Conn) { l.push(acc{c: c}) }

// Fail queues an accept error.
func (l *Listener) Fail(err error) { l.push(acc{err: err}) }

func (l *Listener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return net.ErrClosed
	}
	l.closed = true
	close(l.wake)
	l.wake = make(chan struct{})
	return nil
}

func (l *Listener) IsClosed() bool { l.mu.Lock(); defer l.mu.Unlock(); return l.closed }

func (l *Listener) Addr() net.Addr { return addr(l.Addr_) }

// ListenAndServe replaces http.ListenAndServe.
func ListenAndServe(address string, h http.Handler) error {
	return ServerListenAndServe(&http.Server{Addr: address, Handler: h})
}

// ServerListenAndServe replaces (*http.Server).ListenAndServe.
func ServerListenAndServe(s *http.Server) error {
	a := s.Addr
	if a == "" {
		a = ":http"
	}
	l, err := Listen("tcp", a)
	if err != nil {
		return err
	}
	return s.Serve(l)
}

// Fault returns the error of the given name.
func Fault(name string) error {
	switch name {
	case "EMFILE":
		return os.NewSyscallError("accept", syscall.EMFILE)
	case "ENFILE":
		return os.NewSyscallError("accept", syscall.ENFILE)
	case "ECONNABORTED":
		return os.NewSyscallError("accept", syscall.ECONNABORTED)
	case "EADDRINUSE":
		return os.NewSyscallError("bind", syscall.EADDRINUSE)
	case "EACCES":
		return os.NewSyscallError("bind", syscall.EACCES)
	case "EBADF":
		return os.NewSyscallError("accept", syscall.EBADF)
	case "EINVAL":
		return os.NewSyscallError("accept", syscall.EINVAL)
	case "ECONNREFUSED":
		return os.NewSyscallError("connect", syscall.ECONNREFUSED)
	case "ETIMEDOUT":
		return syscall.ETIMEDOUT
	case "EOF":
		return io.EOF
	case "ECONNRESET":
		return syscall.ECONNRESET
	}
	return errors.New(fmt.Sprint("fault ", name))
}
