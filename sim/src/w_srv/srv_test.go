// The web server world: the real server, the real net/http and the real
// library, with simulated connections, clients and clock.
package w_srv

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"html/template"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	simmain "github.com/eaburns/toaq/server"

	"toaqsim/plan"
	"toaqsim/simnet"
	"toaqsim/simos"
	"toaqsim/simrt"
	"toaqsim/world"
)

const marker = "SECRET-MARKER-7391"

type resp struct {
	status int
	header http.Header
	body   []byte
	close  bool
	clen   int64
}

type req struct {
	p        *plan.SReq
	wire     []byte
	hdrLen   int
	limit    int // how much is delivered before the fault or stall
	sent     int
	piece    int
	started  bool
	faulted  bool
	stalled  bool
	settled  bool // nothing more is expected
	resp     *resp
	startSeq int
	askSeq   int
	endSeq   int
	startAt  time.Duration
	endAt    time.Duration
	overlap  bool
	dropped  bool
	fullAt   time.Duration
}

type conn struct {
	i      int
	p      *plan.SConn
	c      *simnet.Conn
	reqs   []*req
	cur    int // request being sent
	rd     int // request whose response is next
	off    int // parsed output
	lastN  int
	reset  bool
	broken bool // malformed or cut: the rest is not judged
	conts  int
	slow   bool
	gen    int
	sawW   bool
}

type tstate struct {
	from, to int
	ok       bool
	body     string
}

// fstate is a font file's content between two points of the run.
type fstate struct {
	from, to int
	ok       bool
	body     []byte
}

type srv struct {
	*world.W
	p        *plan.Srv
	l        *simnet.Listener
	conns    []*conn
	seq      int
	finished int
	connects int
	files    []plan.FileOp
	fdone    []bool
	acc      []bool
	states   []tstate
	fonts    map[string][]fstate
	mtimes   int
	stallsOn bool // stalled clients stay stalled
	dead     bool
	faults   int
	resumed  bool
	bugs     int
	maybe    int
	aborted  bool
	phase    string
}

func TestWorld(t *testing.T) { world.Main(t, run) }

func fontBytes(name string, n int) []byte {
	b := make([]byte, n)
	r := simrt.Rand{S: uint64(len(name))*7919 + uint64(n)}
	for i := range b {
		if i%8 == 0 {
			v := r.Next()
			for j := 0; j < 8 && i+j < n; j++ {
				b[i+j] = byte(v >> (8 * j))
			}
		}
	}
	return b
}

func (s *srv) setup() {
	if s.Spec.Life > 0 {
		os.RemoveAll("server/font") // deployed anew
	}
	os.MkdirAll("server/font", 0755)
	for _, f := range []string{"secret.txt", "server/secret.txt", "server/secret.html", "font-secret.txt", "server/font.txt", "server/fontx.otf"} {
		os.WriteFile(f, []byte(marker+" "+f+"\n"), 0644)
	}
	s.fonts = map[string][]fstate{}
	for _, f := range s.p.Fonts {
		b := fontBytes(f.Name, f.Size)
		os.WriteFile(filepath.Join("server/font", f.Name), b, 0644)
		s.fonts[f.Name] = []fstate{{to: 1 << 30, ok: true, body: b}}
	}
	if len(s.p.Templates) > 0 {
		s.putTemplate(plan.FileOp{Op: "put", Arg: 0})
	} else {
		s.putTemplate(plan.FileOp{Op: "remove"})
	}
}

// mtime gives a changed file its modification time: a new one, or (as a copy
// that preserves times does) the same as before.
func (s *srv) mtime(path string, keep bool) {
	if !keep {
		s.mtimes++
	}
	t := time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(s.mtimes) * time.Minute)
	os.Chtimes(path, t, t)
}

// putFont changes a font file.
func (s *srv) putFont(f plan.FileOp) {
	if f.Name == "" {
		return
	}
	path := filepath.Join("server/font", f.Name)
	st := fstate{from: s.seq, to: 1 << 30}
	if f.Op == "font" {
		st.ok, st.body = true, fontBytes(fmt.Sprintf("%s#%d", f.Name, s.mtimes+len(s.fonts[f.Name])), f.Arg)
		os.WriteFile("server/font.new", st.body, 0644)
		s.mtime("server/font.new", f.Keep)
		os.Rename("server/font.new", path)
	} else {
		os.Remove(path)
	}
	if n := len(s.fonts[f.Name]); n > 0 {
		s.fonts[f.Name][n-1].to = s.seq
	} else {
		s.fonts[f.Name] = []fstate{{to: s.seq}}
	}
	s.fonts[f.Name] = append(s.fonts[f.Name], st)
}

// putTemplate changes the template file, and notes what a request sees from now on.
func (s *srv) putTemplate(f plan.FileOp) {
	const path = "server/template"
	fi, err := os.Lstat(path)
	isDir := err == nil && fi.IsDir()
	if isDir {
		os.RemoveAll(path)
	}
	st := tstate{from: s.seq, to: 1 << 30}
	switch f.Op {
	case "put":
		src := s.p.Templates[f.Arg]
		os.WriteFile("server/template.new", []byte(src), 0644)
		s.mtime("server/template.new", f.Keep)
		os.Rename("server/template.new", path)
		if t, err := template.New("template").Parse(src); err == nil {
			var b bytes.Buffer
			if err := t.Execute(&b, nil); err == nil {
				st.ok, st.body = true, b.String()
			}
		}
	case "remove":
		os.Remove(path)
	case "dir":
		os.Remove(path)
		os.Mkdir(path, 0755)
	case "loop":
		os.Remove(path)
		os.Symlink("template", path)
	}
	if n := len(s.states); n > 0 {
		s.states[n-1].to = s.seq
	}
	s.states = append(s.states, st)
}

func (s *srv) build() {
	for i := range s.p.Conns {
		c := &conn{i: i, p: &s.p.Conns[i], slow: s.p.Conns[i].SlowRead > 0}
		for k := range c.p.Reqs {
			c.reqs = append(c.reqs, s.mkReq(&c.p.Reqs[k]))
		}
		s.conns = append(s.conns, c)
	}
}

func (s *srv) mkReq(p *plan.SReq) *req {
	r := &req{p: p}
	if p.Raw != "" {
		r.wire = []byte(p.Raw)
		r.hdrLen = len(r.wire)
		r.limit = len(r.wire)
		return r
	}
	proto := "HTTP/1.1"
	if p.HTTP10 {
		proto = "HTTP/1.0"
	}
	var h bytes.Buffer
	fmt.Fprintf(&h, "%s %s %s\r\n", p.Method, p.Path, proto)
	h.WriteString("Host: toaq\r\n")
	if p.Range != "" {
		fmt.Fprintf(&h, "Range: %s\r\n", p.Range)
	}
	if p.CType != "" {
		fmt.Fprintf(&h, "Content-Type: %s\r\n", p.CType)
	}
	for _, l := range p.Hdr {
		h.WriteString(l + "\r\n")
	}
	if p.Expect {
		h.WriteString("Expect: 100-continue\r\n")
	}
	var body bytes.Buffer
	if p.Text >= 0 {
		text := s.Spec.Texts[p.Text].Text
		if p.Chunked != nil {
			h.WriteString("Transfer-Encoding: chunked\r\n")
			rest := text
			for i := 0; len(rest) > 0; i++ {
				n := len(rest)
				if len(p.Chunked) > 0 {
					if k := p.Chunked[i%len(p.Chunked)]; k > 0 && k < n {
						n = k
					}
				}
				ext := ""
				if p.Trailer {
					ext = ";a=b"
				}
				fmt.Fprintf(&body, "%x%s\r\n%s\r\n", n, ext, rest[:n])
				rest = rest[n:]
			}
			if p.Fault == "badchunk" {
				body.WriteString("zz\r\n\r\n")
			} else if p.Trailer {
				body.WriteString("0\r\nX-Sum: 1\r\n\r\n")
			} else {
				body.WriteString("0\r\n\r\n")
			}
		} else {
			fmt.Fprintf(&h, "Content-Length: %d\r\n", len(text))
			body.WriteString(text)
		}
	}
	h.WriteString("\r\n")
	r.hdrLen = h.Len()
	r.wire = append(h.Bytes(), body.Bytes()...)
	r.limit = len(r.wire)
	switch p.Fault {
	case "eof", "reset", "stall":
		// Cut is relative to the end of the header: negative cuts the header.
		r.limit = r.hdrLen + p.Cut
		if r.limit < 1 {
			r.limit = 1
		}
		if r.limit >= len(r.wire) {
			r.limit = len(r.wire) - 1
		}
	}
	return r
}

// complete: the whole request will reach (or has reached) the server in order.
func (r *req) whole() bool {
	switch r.p.Fault {
	case "eof", "reset", "badchunk", "abort":
		return false
	}
	return r.p.Raw == ""
}

func (s *srv) open(c *conn) {
	c.gen++
	name := strconv.Itoa(c.i)
	if c.gen > 1 {
		name += "." + strconv.Itoa(c.gen)
	}
	c.c = simnet.NewConn(name)
	c.c.MaxRead = c.p.MaxRead
	if c.slow && !s.resumed {
		c.c.OutLimit = c.p.SlowRead
	}
	c.off, c.lastN, c.sawW = 0, 0, false
	c.conts = 0
	s.l.Connect(c.c)
	s.connects++
}

func (s *srv) env() []simrt.Choice {
	if s.l == nil {
		ls := simnet.Listeners()
		if len(ls) == 0 {
			return nil
		}
		s.l = ls[0]
	}
	s.parse()
	var cs []simrt.Choice
	add := func(id string, f func()) {
		cs = append(cs, simrt.Choice{ID: id, Do: func() { s.seq++; f() }})
	}
	for i := range s.p.Accept {
		i := i
		if !s.acc[i] && s.connects >= s.p.Accept[i].After {
			add("a"+strconv.Itoa(i), func() {
				s.acc[i] = true
				s.l.Fail(simnet.Fault(s.p.Accept[i].Err))
				s.Fault("accept:" + s.p.Accept[i].Err)
			})
		}
	}
	for i := range s.files {
		i := i
		if !s.fdone[i] && s.finished >= s.files[i].After && (i == 0 || s.fdone[i-1]) {
			add("f"+strconv.Itoa(i), func() {
				s.fdone[i] = true
				if f := s.files[i]; f.Name != "" {
					s.putFont(f)
					s.Fault("file:" + f.Op)
				} else {
					s.putTemplate(f)
					s.Fault("template:" + f.Op)
				}
				s.faults++
			})
		}
	}
	for _, c := range s.conns {
		c := c
		if c.c == nil {
			if s.finished >= c.p.After && len(c.reqs) > 0 && !s.dead {
				add(fmt.Sprintf("c%d+", c.i), func() { s.open(c) })
			}
			continue
		}
		if c.broken || c.reset || c.cur >= len(c.reqs) {
			continue
		}
		r := c.reqs[c.cur]
		if !r.started && !c.p.Pipeline && c.rd < c.cur {
			continue // waits for the reply to the previous request
		}
		if r.sent < r.limit || (r.stalled && s.resumed && r.sent < len(r.wire)) {
			if r.p.Expect && r.sent == r.hdrLen && c.conts == 0 && r.resp == nil {
				continue // waits for "100 Continue"
			}
			add(fmt.Sprintf("c%d>", c.i), func() { s.send(c, r) })
			continue
		}
		if r.p.Fault == "stall" && r.sent < len(r.wire) {
			if !r.stalled {
				r.stalled = true
				s.Fault("stall")
				s.faults++
			}
			continue
		}
		if r.faulted {
			continue
		}
		switch r.p.Fault {
		case "eof":
			add(fmt.Sprintf("c%d!", c.i), func() {
				r.faulted, c.broken = true, true
				c.c.End(io.EOF)
				s.Fault("upload-eof")
				s.faults++
			})
		case "reset":
			add(fmt.Sprintf("c%d!", c.i), func() {
				r.faulted, c.broken, c.reset = true, true, true
				c.c.Reset()
				s.Fault("upload-reset")
				s.faults++
			})
		case "abort":
			add(fmt.Sprintf("c%d!", c.i), func() {
				r.faulted, c.broken, c.reset = true, true, true
				c.c.Reset()
				s.Fault("client-abort")
				s.faults++
				s.aborted = true
			})
		case "badchunk":
			r.faulted, c.broken = true, true
			s.Fault("bad-chunk")
			s.faults++
		default:
			if r.p.Raw != "" {
				r.faulted, c.broken = true, true
				s.Fault("malformed-request")
				s.faults++
			}
		}
	}
	return cs
}

func (s *srv) send(c *conn, r *req) {
	if !r.started {
		r.started = true
		r.startSeq = s.seq
		r.startAt = simrt.WorkTime()
		for _, o := range s.conns {
			for _, q := range o.reqs {
				if q != r && q.started && !q.settled && q.resp == nil {
					q.overlap, r.overlap = true, true
				}
			}
		}
	}
	end := r.limit
	if r.stalled && s.resumed {
		end = len(r.wire)
	}
	n := end - r.sent
	if len(r.p.Wire) > 0 {
		if k := r.p.Wire[r.piece%len(r.p.Wire)]; k > 0 && k < n {
			n = k
		}
		r.piece++
	}
	if r.p.Expect && r.sent < r.hdrLen && r.sent+n > r.hdrLen {
		n = r.hdrLen - r.sent
	}
	c.c.Deliver(r.wire[r.sent : r.sent+n])
	if r.sent < r.hdrLen && r.sent+n >= r.hdrLen {
		r.askSeq = s.seq // the server knows the request only from now on
	}
	r.sent += n
	if r.sent == len(r.wire) {
		r.fullAt = simrt.WorkTime()
		if r.whole() {
			c.cur++
		}
	}
}

// parse takes complete responses off the connections.
func (s *srv) parse() {
	for _, c := range s.conns {
		if c.c == nil {
			continue
		}
		out := c.c.Out()
		wc := c.c.WClosed()
		if len(out) == c.lastN && wc == c.sawW {
			continue
		}
		c.lastN, c.sawW = len(out), wc
		for c.rd < len(c.reqs) && c.off < len(out) {
			r := c.reqs[c.rd]
			if !r.started {
				break
			}
			x, n, ok := parseResp(out[c.off:], r.p.Method, wc)
			if !ok {
				break
			}
			c.off += n
			if x.status/100 == 1 {
				c.conts++
				continue
			}
			r.resp = x
			r.endSeq = s.seq
			r.endAt = simrt.WorkTime()
			c.rd++
			s.finished++
			simrt.Log("resp c%d #%d %d %d bytes", c.i, c.rd-1, x.status, len(x.body))
			s.judge(c, r)
			if x.close {
				if c.off < len(out) {
					s.Violate("extra-bytes", fmt.Sprintf("connection %d: %q after the reply that closes it", c.i, clip(string(out[c.off:]))), "C03")
				}
				if c.rd < len(c.reqs) && !c.broken {
					// The server closes the connection: the client asks again on another.
					for _, q := range c.reqs[c.rd:] {
						q.sent, q.piece, q.started = 0, 0, false
					}
					c.cur = c.rd
					s.open(c)
				}
				break
			}
		}
		if wc && c.rd < len(c.reqs) && !c.broken && c.c.Closed() {
			// Closed without (all) replies.
			r := c.reqs[c.rd]
			if r.started && r.sent == len(r.wire) && !r.settled && r.resp == nil {
				r.settled = true
				s.Violate("closed-unanswered", fmt.Sprintf("connection %d request %d (%s %s): the server closed the connection without a complete reply: %q", c.i, c.rd, r.p.Method, r.p.Path, clip(string(out[c.off:]))), s.lostProps(r)...)
				c.broken = true
			}
		}
	}
}

func (s *srv) lostProps(r *req) []string {
	ps := []string{"C03"}
	if r.p.Text >= 0 && r.p.Method == "POST" {
		ps = append(ps, "C01")
		if s.Spec.Texts[r.p.Text].Kind == "panic" || len(s.Spec.Sched.Panics) > 0 {
			ps = append(ps, "C04")
		}
	}
	if s.Spec.Prop == "C02" && s.faults > 0 {
		ps = append(ps, "C02")
	}
	if r.p.Method == "GET" {
		ps = append(ps, "C05")
	}
	if s.anyStalled() || s.resumed {
		ps = append(ps, "C18")
	}
	return ps
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "…"
	}
	return s
}

func parseResp(b []byte, method string, closed bool) (*resp, int, bool) {
	rd := bytes.NewReader(b)
	br := bufio.NewReader(rd)
	m := method
	if m == "" {
		m = "GET"
	}
	r, err := http.ReadResponse(br, &http.Request{Method: m})
	if err != nil {
		return nil, 0, false
	}
	if r.StatusCode/100 == 1 {
		return &resp{status: r.StatusCode}, len(b) - rd.Len() - br.Buffered(), true
	}
	body, err := io.ReadAll(r.Body)
	if err != nil {
		return nil, 0, false
	}
	delim := r.ContentLength < 0 && len(r.TransferEncoding) == 0 && m != "HEAD" && r.StatusCode != 204 && r.StatusCode != 304
	if delim && !closed {
		return nil, 0, false
	}
	return &resp{status: r.StatusCode, header: r.Header, body: body, close: r.Close || delim, clen: r.ContentLength}, len(b) - rd.Len() - br.Buffered(), true
}

func (s *srv) isPage(p string) bool {
	if i := strings.IndexByte(p, '?'); i >= 0 {
		p = p[:i]
	}
	return !strings.HasPrefix(p, "/font") && !strings.Contains(p, "..") && !strings.Contains(p, "//") && !strings.Contains(p, "/.") && !strings.Contains(p, "%")
}

func (s *srv) judge(c *conn, r *req) {
	s.Res.Checked++
	if r.overlap || s.faults > 0 {
		s.Res.Nontrivial++
	}
	x := r.resp
	id := fmt.Sprintf("connection %d request %d (%s %s)", c.i, c.rd-1, r.p.Method, r.p.Path)
	if bytes.Contains(x.body, []byte(marker)) {
		s.Violate("secret", fmt.Sprintf("%s: the reply exposes a file outside the font directory: %q", id, clip(string(x.body))), "C05")
	}
	if strings.Contains(string(x.body), "TEMPLATE-SOURCE") {
		s.Violate("secret", fmt.Sprintf("%s: the reply exposes the template's source", id), "C05")
	}
	if r.p.Raw != "" {
		if x.status/100 == 2 {
			s.Violate("malformed-accepted", fmt.Sprintf("%s: malformed request %q answered %d", id, clip(r.p.Raw), x.status), "C03", "C02")
		}
		return
	}
	if s.stallsOn && s.anyStalled() && !r.stalled && !c.slow {
		s.Probe("answered-during-stall")
		if d := r.endAt - r.fullAt; d > time.Second && r.sent == len(r.wire) {
			s.Violate("delayed", fmt.Sprintf("%s: answered %v after it was sent, while another client stalled", id, d), "C18")
		}
	}
	if !r.whole() && !(r.p.Fault == "abort" && r.sent == len(r.wire)) {
		// The body did not arrive.
		if r.p.Method == "POST" {
			s.Probe("reply-to-cut-upload")
			if x.status/100 == 2 || x.status/100 == 3 {
				s.Violate("partial-analysed", fmt.Sprintf("%s: the body was cut (%s after %d of %d bytes) but the reply is %d %q", id, r.p.Fault, r.sent, len(r.wire), x.status, clip(string(x.body))), "C02")
			} else if hasMembers(x.body) {
				s.Violate("partial-analysed", fmt.Sprintf("%s: the body was cut (%s) but the reply has analysis members: %q", id, r.p.Fault, clip(string(x.body))), "C02")
			}
		}
		return
	}
	if r.sent < len(r.wire) && r.p.Method == "POST" {
		s.Violate("early", fmt.Sprintf("%s: answered %d %q after %d of %d bytes of the request", id, x.status, clip(string(x.body)), r.sent, len(r.wire)), "C01", "C02")
		return
	}
	switch {
	case r.p.Method == "POST" && s.isPage(r.p.Path):
		s.judgePost(id, r)
	case r.p.Method == "GET" && s.isPage(r.p.Path):
		s.judgePage(id, r)
	case r.p.Method == "GET" && strings.HasPrefix(r.p.Path, "/font/"):
		s.judgeFont(id, r)
	case s.isPage(r.p.Path):
		if x.status != 405 {
			s.Violate("method", fmt.Sprintf("%s: status %d, want 405", id, x.status), "C03")
		}
	}
}

func hasMembers(b []byte) bool {
	var m map[string]interface{}
	if json.Unmarshal(b, &m) != nil {
		return false
	}
	for _, k := range []string{"Braces", "AST", "Text", "Parse", "Logic"} {
		if _, ok := m[k]; ok {
			return true
		}
	}
	return false
}

func (s *srv) judgePost(id string, r *req) {
	ref := &s.Spec.Texts[r.p.Text]
	if ref.Kind == "crash" {
		// The library panics on it: a complete reply, whatever it is.
		s.Probe("parser-panic")
		return
	}
	x := r.resp
	props := []string{"C01"}
	if len(s.Spec.Sched.Panics) > 0 || ref.Kind == "panic" {
		props = append(props, "C04")
	}
	if s.Spec.Prop == "C02" && s.faults > 0 {
		props = append(props, "C02")
	}
	if s.Spec.Prop == "C18" && (r.p.Fault == "stall" || s.faults > 0) {
		props = append(props, "C18")
	}
	if x.status != 200 {
		s.Violate("status", fmt.Sprintf("%s: status %d %q, want 200", id, x.status, clip(string(x.body))), append(props, "C03")...)
		return
	}
	var m map[string]interface{}
	dec := json.NewDecoder(bytes.NewReader(x.body))
	if err := dec.Decode(&m); err != nil {
		s.Violate("json", fmt.Sprintf("%s: reply is not JSON (%v): %q", id, err, clip(string(x.body))), append(props, "C03")...)
		return
	}
	if rest, _ := io.ReadAll(dec.Buffered()); strings.TrimSpace(string(rest)) != "" {
		s.Violate("json", fmt.Sprintf("%s: more than one value in the reply: %q", id, clip(string(rest))), append(props, "C03")...)
	}
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	str := func(k string) string { v, _ := m[k].(string); return v }
	if ref.HasErr {
		if len(keys) != 1 || keys[0] != "Error" || str("Error") != jsonText(ref.Err) {
			s.Violate("wrong-reply", fmt.Sprintf("%s: text %q: members %v Error=%q, want Error=%q", id, clip(ref.Text), keys, clip(str("Error")), clip(ref.Err)), props...)
		}
		return
	}
	if strings.Join(keys, ",") != "AST,Braces,Logic,Parse,Text" {
		s.Violate("wrong-reply", fmt.Sprintf("%s: text %q: members %v, Error=%q", id, clip(ref.Text), keys, clip(str("Error"))), props...)
		return
	}
	for _, f := range []struct {
		k string
		h plan.FH
	}{{"Braces", ref.BracesH}, {"AST", ref.AST}, {"Text", ref.Str}, {"Parse", ref.Parse}} {
		if !f.h.Is(str(f.k)) {
			s.Violate("wrong-reply", fmt.Sprintf("%s: text %q: %s is %q, want %q (%d bytes)", id, clip(ref.Text), f.k, clip(str(f.k)), f.h.Pre, f.h.N), props...)
			return
		}
	}
	got := str("Logic")
	switch ref.Kind {
	case "fragment":
		if got == "fragment" {
			return
		}
	case "stmt":
		if ref.Pretty.Is(got) {
			return
		}
	case "panic":
		s.Probe("natural-panic")
		if plan.NamesBug(got, ref.PanicMsg) || plan.NamesInjected(got) {
			if ref.PanicMsg == "" || !strings.Contains(got, ref.PanicMsg) {
				s.maybe++ // perhaps an injected one struck first
			}
			return
		}
		s.Violate("disguised", fmt.Sprintf("%s: text %q: the interpreter fails with %q but Logic is %q", id, clip(ref.Text), ref.PanicMsg, clip(got)), "C04", "C01")
		return
	}
	if plan.NamesInjected(got) {
		s.bugs++
		if s.bugs > s.injected() {
			s.Violate("bug-notice", fmt.Sprintf("%s: text %q: Logic is %q but no failure was injected here", id, clip(ref.Text), clip(got)), props...)
		}
		return
	}
	want := ref.Pretty.Pre
	if ref.Kind == "fragment" {
		want = "fragment"
	}
	s.Violate("wrong-reply", fmt.Sprintf("%s: text %q: Logic is %q, want %q", id, clip(ref.Text), clip(got), want), props...)
}

// jsonText is the string as JSON carries it.
func jsonText(s string) string {
	b, _ := json.Marshal(s)
	var t string
	json.Unmarshal(b, &t)
	return t
}

func (s *srv) injected() int {
	n := 0
	for k, v := range simrt.Injected {
		if strings.HasPrefix(k, "panic:") {
			n += v
		}
	}
	return n
}

func (s *srv) judgePage(id string, r *req) {
	x := r.resp
	var wants []string
	for _, st := range s.states {
		if st.from > r.endSeq || st.to < r.askSeq {
			continue
		}
		if st.ok {
			if x.status == 200 && string(x.body) == st.body {
				return
			}
			wants = append(wants, fmt.Sprintf("200 with %d bytes", len(st.body)))
		} else {
			if x.status >= 400 {
				return
			}
			wants = append(wants, "an error status")
		}
	}
	s.Violate("page", fmt.Sprintf("%s: got %d with %d bytes %q, want %s", id, x.status, len(x.body), clip(string(x.body)), strings.Join(wants, " or ")), "C05")
}

func (s *srv) judgeFont(id string, r *req) {
	x := r.resp
	name := strings.TrimPrefix(r.p.Path, "/font/")
	if i := strings.IndexByte(name, '?'); i >= 0 {
		name = name[:i]
	}
	if name == "" || strings.ContainsAny(name, "/%\\") || name == ".." || name == "index.html" {
		return // judged by the markers only
	}
	sts := s.fonts[name]
	if sts == nil {
		sts = []fstate{{to: 1 << 30}}
	}
	why := ""
	for _, st := range sts {
		if st.from > r.endSeq || st.to < r.askSeq {
			continue
		}
		w := fontIs(r, st)
		if w == "" {
			return
		}
		why += "; " + w
	}
	s.Violate("font", fmt.Sprintf("%s: status %d and %d bytes %q, want %s", id, x.status, len(x.body), clip(string(x.body)), strings.TrimPrefix(why, "; ")), "C05")
}

// fontIs tells why a reply is not one for a state of the file, or "".
func fontIs(r *req, st fstate) string {
	x, b := r.resp, st.body
	if !st.ok {
		if x.status != 404 {
			return "404"
		}
		return ""
	}
	if r.p.Range != "" {
		var a, e int
		switch {
		case strings.HasPrefix(r.p.Range, "bytes=-"):
			n, _ := strconv.Atoi(r.p.Range[7:])
			a, e = len(b)-n, len(b)
			if a < 0 {
				a = 0
			}
		default:
			ps := strings.SplitN(strings.TrimPrefix(r.p.Range, "bytes="), "-", 2)
			a, _ = strconv.Atoi(ps[0])
			e = len(b)
			if ps[1] != "" {
				e, _ = strconv.Atoi(ps[1])
				e++
			}
			if e > len(b) {
				e = len(b)
			}
		}
		switch {
		case len(b) == 0:
			if x.status != 416 && !((x.status == 200 || x.status == 206) && len(x.body) == 0) {
				return "nothing of an empty file"
			}
		case a >= len(b):
			if x.status != 416 {
				return fmt.Sprintf("416 for range %s of %d bytes", r.p.Range, len(b))
			}
		case x.status != 206 || !bytes.Equal(x.body, b[a:e]):
			return fmt.Sprintf("206 and bytes %d to %d of %d", a, e, len(b))
		}
		return ""
	}
	if x.status != 200 || !bytes.Equal(x.body, b) {
		return fmt.Sprintf("200 and the file's %d bytes", len(b))
	}
	return ""
}

func (s *srv) anyStalled() bool {
	for _, c := range s.conns {
		if c.slow && !s.resumed && c.c != nil {
			return true
		}
		for _, r := range c.reqs {
			if r.stalled && r.sent < len(r.wire) {
				return true
			}
		}
	}
	return false
}

// pending lists the requests whose reply is due now.
func (s *srv) pending() []string {
	var out []string
	for _, c := range s.conns {
		if c.broken || c.reset || (c.slow && !s.resumed) {
			continue
		}
		for k, r := range c.reqs {
			if r.resp != nil || r.settled {
				continue
			}
			if r.p.Fault == "stall" && !s.resumed {
				break // nothing behind it can be sent or answered
			}
			if !r.whole() {
				if r.faulted {
					break
				}
			}
			out = append(out, fmt.Sprintf("c%d#%d", c.i, k))
		}
	}
	for i := range s.fdone {
		if !s.fdone[i] && s.finished >= s.files[i].After {
			out = append(out, "f"+strconv.Itoa(i))
		}
	}
	return out
}

func (s *srv) unanswered() {
	for _, c := range s.conns {
		if c.broken || c.reset || (c.slow && !s.resumed) || c.c == nil {
			if c.c == nil && len(c.reqs) > 0 && c.p.After <= s.finished && s.l != nil && !s.dead {
				s.Violate("unanswered", fmt.Sprintf("connection %d was never made", c.i), s.Spec.Prop)
			}
			continue
		}
		for k, r := range c.reqs {
			if r.resp != nil || r.settled || !r.started || r.sent < len(r.wire) || !r.whole() {
				continue
			}
			ps := s.lostProps(r)
			out := c.c.Out()
			s.Violate("unanswered", fmt.Sprintf("%s: connection %d request %d (%s %s) has no complete reply although the server has been idle for a long time; output so far %q", s.phase, c.i, k, r.p.Method, r.p.Path, clip(string(out[c.off:]))), ps...)
			if s.stallsOn && s.anyStalled() {
				return
			}
		}
		if c.cur < len(c.reqs) {
			r := c.reqs[c.cur]
			if r.started && r.p.Expect && r.sent == r.hdrLen && r.resp == nil && c.conts == 0 {
				s.Violate("unanswered", fmt.Sprintf("%s: connection %d request %d: no 100 Continue", s.phase, c.i, c.cur), s.lostProps(r)...)
			}
		}
	}
}

func (s *srv) loop(phase string) {
	s.phase = phase
	var waited time.Duration
	var last int
	simrt.Loop(s.env, func() bool { s.parse(); return len(s.pending()) == 0 && s.l != nil }, func() time.Duration {
		if s.seq+s.finished != last {
			last, waited = s.seq+s.finished, 0
		}
		if waited > 30*time.Second {
			return -1
		}
		d := 20 * time.Millisecond
		if waited > time.Second {
			d = time.Second
		}
		waited += d
		return d
	})
	s.parse()
	s.exited()
	if len(s.pending()) > 0 && !simrt.Exited {
		s.unanswered()
	}
}

// exited reports a server that went away by itself.
func (s *srv) exited() {
	if !simrt.Exited || s.dead {
		return
	}
	props := []string{"C03"}
	if len(s.Spec.Sched.Panics) > 0 || s.Res.Probes["natural-panic"] > 0 || strings.Contains(simrt.Crash, "logic.") {
		props = append(props, "C04")
	}
	if s.Spec.Prop == "C18" || s.Spec.Prop == "C01" || s.Spec.Prop == "C02" || s.Spec.Prop == "C05" {
		props = append(props, s.Spec.Prop)
	}
	s.Violate("server-exit", fmt.Sprintf("%s: the server exited (status %d) although its listener is fine: %s %s", s.phase, simrt.ExitCode, clip(simrt.Crash), clip(string(simos.StdoutV.Buf))), props...)
}

func run(w *world.W) {
	s := &srv{W: w, p: w.Spec.Srv}
	s.files = s.p.Files
	s.fdone = make([]bool, len(s.files))
	s.acc = make([]bool, len(s.p.Accept))
	s.setup()
	s.build()
	os.Setenv("PORT", s.p.Port)
	os.Args = []string{"server"}
	if s.p.ListenErr != "" {
		simnet.ListenErr = func(string) error { w.Fault("listen:" + s.p.ListenErr); return simnet.Fault(s.p.ListenErr) }
		s.dead = true
	}
	simrt.Spawn("main", func() { simmain.SimMain(); simos.Exit(0) })

	if s.p.ListenErr != "" {
		world.Settle(30 * time.Second)
		s.mustHaveFailed("it cannot listen (" + s.p.ListenErr + ")")
		return
	}
	if s.p.Rounds > 0 {
		s.rounds()
		return
	}
	s.stallsOn = true
	s.loop("main phase")
	if s.p.IdleMS > 0 && !simrt.Exited {
		simrt.Log("clock runs for %d ms", s.p.IdleMS)
		world.Settle(time.Duration(s.p.IdleMS) * time.Millisecond)
		s.Fault("clock-advance")
	}
	if !simrt.Exited && s.p.Resume {
		s.resumed = true
		s.stallsOn = false
		for _, c := range s.conns {
			if c.slow && c.c != nil {
				c.c.SetOutLimit(-1)
				s.Fault("slow-reader")
			}
		}
		s.loop("after the stalled clients resumed")
	}
	if len(s.p.ProbeTexts) > 0 && !simrt.Exited {
		// Service continues.
		for i, t := range s.p.ProbeTexts {
			c := &conn{i: 1000 + i, p: &plan.SConn{Reqs: []plan.SReq{{Method: "POST", Path: "/", Text: t}}}}
			c.reqs = append(c.reqs, s.mkReq(&c.p.Reqs[0]))
			s.conns = append(s.conns, c)
		}
		s.loop("probe phase")
	}
	if simrt.Exited {
		return
	}
	// Let late writers write.
	world.Settle(2 * time.Second)
	s.parse()
	s.exited()
	for _, c := range s.conns {
		if c.c == nil || c.reset || c.broken {
			continue
		}
		if out := c.c.Out(); c.off < len(out) && c.rd == len(c.reqs) {
			s.Violate("extra-bytes", fmt.Sprintf("connection %d: %q after the last reply", c.i, clip(string(out[c.off:]))), "C03")
		}
	}
	if n := s.injected(); s.bugs+s.maybe < n && !s.lostReplies() {
		s.Violate("swallowed", fmt.Sprintf("%d interpreter failures were injected but only %d replies name a bug", n, s.bugs+s.maybe), "C04")
	}
	if s.p.Dead != "" && s.l != nil {
		// The listener fails for good.
		s.dead = true
		w.Fault("accept-permanent:" + s.p.Dead)
		s.l.Fail(simnet.Fault(s.p.Dead))
		world.Settle(30 * time.Second)
		s.mustHaveFailed("its listener failed (" + s.p.Dead + ")")
	}
}

// rounds: the same clients come again and again; when they have gone, nothing
// of theirs is left.
func (s *srv) rounds() {
	world.Settle(time.Minute)
	us := []world.Usage{s.Held()}
	for n := 1; n <= s.p.Rounds && !simrt.Exited; n++ {
		s.resumed, s.stallsOn = false, true
		s.conns = nil
		s.build()
		s.loop(fmt.Sprintf("round %d", n))
		if s.p.Resume && !simrt.Exited {
			s.resumed, s.stallsOn = true, false
			for _, c := range s.conns {
				if c.slow && c.c != nil {
					c.c.SetOutLimit(-1)
					simrt.Rest()
				}
			}
			s.loop(fmt.Sprintf("round %d, stalled clients resumed", n))
		}
		for _, c := range s.conns {
			if c.c == nil {
				continue
			}
			if s.p.HangUp || c.slow {
				c.c.Reset()
				s.Fault("client-reset")
			} else {
				c.c.End(io.EOF)
				s.Fault("client-hang-up")
			}
			world.Settle(time.Second)
			c.c.Reset() // and it answers nothing any more
			c.broken = true
		}
		world.Settle(10 * time.Minute)
		for _, c := range s.conns {
			s.Res.Checked++
			if c.c != nil && !c.c.Closed() && !simrt.Exited {
				s.Violate("connection", fmt.Sprintf("round %d: connection %d is still open 10 simulated minutes after its client has gone", n, c.i), "C21")
				break
			}
		}
		us = append(us, s.Held())
	}
	if !simrt.Exited {
		s.Leaks(us, nil)
	}
}

func (s *srv) lostReplies() bool {
	if s.aborted {
		return true
	}
	for _, c := range s.conns {
		if c.broken || c.reset || c.slow && !s.resumed {
			return true
		}
		for _, r := range c.reqs {
			if r.stalled && !s.resumed {
				return true
			}
		}
	}
	return false
}

func (s *srv) mustHaveFailed(why string) {
	s.Res.Checked++
	s.Res.Nontrivial++
	switch {
	case !simrt.Exited:
		s.Violate("deaf", "the server is still running 30 simulated seconds after "+why, "C08")
	case simrt.Crash != "":
		// A crash reports itself on standard error with a non-zero status.
	case simrt.ExitCode == 0:
		s.Violate("exit-status", "the server exited with status 0 although "+why, "C08")
	case len(simos.StdoutV.Buf)+len(simos.StderrV.Buf) == 0:
		s.Violate("silent", "the server exited without reporting that "+why, "C08")
	}
}
