package main

import (
	"sort"
	"strings"

	"verif/src/plan"
)

// G generates one run.
type G struct {
	*Rng
	c *Corpus
	t *table
	s *plan.Spec

	share []string // texts to use again (C20)
}

// pick draws a text, or one of those to use again.
func (g *G) pick(kinds ...string) string {
	if len(g.share) > 0 && g.P(60) {
		return g.share[g.Intn(len(g.share))]
	}
	return g.c.Pick(g.Rng, kinds...)
}

// schedule draws the parameters of the scheduler (swarm style: every run has
// its own mix).
func (g *G) schedule() {
	g.s.Sched = plan.Config{
		Seed:    g.Next(),
		MeanRun: g.Int(0, 30, 200, 200, 2000, 2000, 20000),
		HotP:    g.Int(0, 2, 5, 20),
		EnvBias: g.Int(10, 50, 50, 90),
	}
	if g.P(60) {
		g.s.MapSeed = 1 + g.Next()>>16
	}
	if g.P(14) {
		for n := g.Int(1, 1, 2, 3, 6, 12); n > 0; n-- {
			g.s.Sched.Pauses = append(g.s.Sched.Pauses, plan.Pause{
				At: uint64(g.Log(2_000_000)),
				MS: g.Int(30, 300, 1100, 2500, 6000, 12_000, 35_000, 70_000, 400_000, 4_000_000),
			})
		}
		if g.P(20) {
			// Another day, up to forty years on.
			g.s.Sched.Pauses[0] = plan.Pause{At: 1, MS: g.Log(1_200_000_000) * 1000}
		}
		ps := g.s.Sched.Pauses
		sort.Slice(ps, func(i, j int) bool { return ps[i].At < ps[j].At })
	}
}

func (g *G) sizes() []int {
	var xs []int
	for n := g.Range(1, 4); n > 0; n-- {
		xs = append(xs, g.Int(1, 1, 2, 3, 7, 16, 60, 200, 1000))
	}
	return xs
}

func (g *G) text(kinds ...string) int { return g.t.add(g.pick(kinds...)) }

// wide draws many different short texts: more than a cache is likely to hold.
func (g *G) wide() []string {
	n := g.Int(40, 80, 140, 140, 300)
	seen := map[string]bool{}
	var p []string
	for i := 0; len(p) < n && i < 6*n; i++ {
		if t := g.c.Pick(g.Rng); len(t) <= 40 && !seen[t] {
			seen[t] = true
			p = append(p, t)
		}
	}
	if len(p) == 0 {
		p = append(p, "")
	}
	return p
}

// widePool makes the texts of wide texts of the run.
func (g *G) widePool() []int {
	var p []int
	for _, t := range g.wide() {
		p = append(p, g.t.add(t))
	}
	return p
}

// manyReqs has one or a few connections ask for many things.
func (g *G) manyReqs(pool []int) []plan.SConn {
	var cs []plan.SConn
	for i := g.Int(1, 1, 2, 3); i > 0; i-- {
		c := plan.SConn{MaxRead: g.Int(0, 0, 512), Pipeline: g.P(20)}
		k := len(pool) + g.Int(0, 10, 60)
		for j := 0; j < k; j++ {
			t := pool[j%len(pool)]
			if j >= len(pool) || g.P(20) {
				t = pool[g.Intn(len(pool))]
			}
			r := plan.SReq{Method: "POST", Path: "/", Text: t}
			if g.P(10) {
				r = g.post(pool, false)
				r.Expect = false
			}
			c.Reqs = append(c.Reqs, r)
		}
		cs = append(cs, c)
	}
	return cs
}

// pool is a small set of texts a run repeats, with near-duplicates.
func (g *G) pool(n int, kinds ...string) []int {
	var p []int
	for i := 0; i < n; i++ {
		p = append(p, g.text(kinds...))
	}
	return p
}

func (g *G) post(pool []int, last bool) plan.SReq {
	r := plan.SReq{Method: "POST", Path: g.Str("/", "/", "/", "/", "/", "/", "/index", "/?q=1", "/?text=jai", "/a/b", "/x;y"), Text: pool[g.Intn(len(pool))]}
	if g.P(30) {
		r.Chunked = g.sizes()
	} else if g.P(5) && last {
		r.HTTP10 = true
	}
	big := len(g.t.list[r.Text].Text) > 2000
	if g.P(60) {
		r.Wire = g.sizes()
		if big {
			r.Wire = []int{g.Int(512, 1000, 1460, 4096)}
		}
	}
	if big && r.Chunked != nil {
		r.Chunked = []int{g.Int(100, 1000, 4096)}
	}
	if g.P(8) && !r.HTTP10 {
		r.Expect = true
	}
	r.CType = g.Str("", "", "text/plain", "application/x-www-form-urlencoded", "application/json", "multipart/form-data; boundary=x", "text/plain; charset=iso-8859-1", "application/x-www-form-urlencoded; charset=utf-8", "a/b/;;c")
	r.Hdr = g.headers()
	if r.Chunked != nil && g.P(15) {
		r.Trailer = true
	}
	return r
}

// headers that ask for nothing the server offers.
var headerLines = []string{
	"Accept-Encoding: gzip, deflate", "Accept-Encoding: gzip", "Accept: text/html", "Accept: application/json", "Origin: http://example.org", "Referer: http://toaq/",
	"Cookie: session=1; x=y", "X-Requested-With: XMLHttpRequest", "X-HTTP-Method-Override: PUT", "X-HTTP-Method-Override: GET", "Cache-Control: no-cache", "Cache-Control: only-if-cached",
	"If-None-Match: *", "If-Modified-Since: Fri, 01 Jan 2100 00:00:00 GMT", "X-Forwarded-For: 10.0.0.1", "X-Forwarded-Proto: https", "User-Agent: curl/8.0", "Accept-Language: de", "Content-Language: tok", "Upgrade-Insecure-Requests: 1", "DNT: 1",
}

func (g *G) headers() []string {
	var hs []string
	for g.P(25) && len(hs) < 4 {
		hs = append(hs, headerLines[g.Intn(len(headerLines))])
	}
	return hs
}

// crowd is a number of misbehaving clients: now and then, many.
func (g *G) crowd(n int) int {
	if g.P(6) {
		return g.Int(8, 12, 20, 40, 70, 140, 8, 12, 20, 40, 70, 140, 300)
	}
	return g.Range(1, n)
}

func (g *G) get() plan.SReq {
	r := plan.SReq{Method: "GET", Path: g.Str("/", "/", "/", "/index.html", "/?a=b", "/server", "/template"), Text: -1}
	if g.P(40) {
		r.Wire = g.sizes()
	}
	r.Hdr = g.headers()
	return r
}

func (g *G) conns(n int, req func(last bool) plan.SReq) []plan.SConn {
	var cs []plan.SConn
	for i := 0; i < n; i++ {
		c := plan.SConn{MaxRead: g.Int(0, 0, 0, 1, 3, 64, 512), Pipeline: g.P(25)}
		k := g.Int(1, 1, 2, 2, 3, 4, 6)
		for j := 0; j < k; j++ {
			c.Reqs = append(c.Reqs, req(j == k-1))
		}
		if c.Pipeline {
			for j := range c.Reqs {
				c.Reqs[j].Expect = false
			}
		}
		for _, r := range c.Reqs {
			if r.Text >= 0 && len(g.t.list[r.Text].Text) > 2000 && c.MaxRead > 0 {
				c.MaxRead = 512
			}
		}
		if g.P(15) {
			c.After = g.Range(1, 3)
		}
		cs = append(cs, c)
	}
	// Somebody is there from the start.
	cs[0].After = 0
	clampAfter(cs)
	return cs
}

// clampAfter keeps a late connection's condition reachable.
func clampAfter(cs []plan.SConn) {
	n := 0
	for _, r := range cs[0].Reqs {
		if r.Fault == "" && r.Raw == "" {
			n++
		} else {
			break
		}
	}
	if cs[0].SlowRead > 0 {
		n = 0
	}
	for i := range cs {
		if cs[i].After > n {
			cs[i].After = n
		}
	}
}

const defaultPage = "<!DOCTYPE html>\n<html><head><title>Toaq</title></head>\n{{/* TEMPLATE-SOURCE */}}<body>mi toaq</body></html>\n"

func (g *G) srv() *plan.Srv {
	g.s.World = "srv"
	g.s.Srv = &plan.Srv{Templates: []string{defaultPage}, Port: g.Str("", "8080", "9090")}
	return g.s.Srv
}

// addPosts puts posts (and a few other requests) into the run.
func (g *G) mixed(pool []int, postP int) func(bool) plan.SReq {
	return func(last bool) plan.SReq {
		if g.P(postP) {
			return g.post(pool, last)
		}
		if g.P(75) {
			return g.get()
		}
		return plan.SReq{Method: g.Str("PUT", "DELETE", "PATCH"), Path: "/", Text: g.Int(-1, pool[0])}
	}
}

// cutReq makes the last request of a connection fail on the way.
func (g *G) cutReq(c *plan.SConn, pool []int) {
	r := g.post(pool, true)
	r.Expect = false
	r.HTTP10 = r.HTTP10 && r.Chunked == nil
	n := len(g.t.list[r.Text].Text)
	r.Fault = g.Str("eof", "eof", "reset")
	switch x := g.Intn(10); {
	case x < 1:
		r.Cut = -g.Range(1, 60)
	case x < 3:
		r.Cut = g.Range(0, 1)
	case x < 5:
		r.Cut = n - 1
	case x < 6:
		r.Cut = n + 1000 // everything but the last byte on the wire
	case x < 7 && r.Chunked != nil:
		r.Fault = "badchunk"
	default:
		r.Cut = g.Intn(n + 8)
		if n > 600 && g.P(50) {
			// Where a buffer ends.
			if k := g.Int(512, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536); k < n {
				r.Cut = k
			} else {
				r.Cut = n &^ 511
			}
		}
	}
	if r.Fault != "badchunk" && n == 0 && r.Chunked == nil {
		r.Cut = -1
	}
	if r.Chunked != nil && r.Fault != "badchunk" && g.P(40) && len(r.Chunked) > 0 {
		// At a chunk boundary: the arrived part looks complete.
		k := r.Chunked[0]
		if k > n {
			k = n
		}
		r.Cut = len(hex(k)) + 2 + k + g.Int(0, 1, 2)
		if g.P(50) {
			r.Chunked = []int{1 << 20} // one chunk holds everything
			r.Cut = len(hex(n)) + 2 + n + g.Int(0, 1, 2, 3, 4)
		}
	}
	c.Reqs = append(c.Reqs, r)
}

func hex(n int) string {
	const d = "0123456789abcdef"
	s := ""
	for {
		s = string(d[n%16]) + s
		n /= 16
		if n == 0 {
			return s
		}
	}
}

var rawBad = []string{
	"GET\r\n\r\n",
	"\x00\x01\x02\x03\r\n\r\n",
	"GET / HTTP/9.9\r\nHost: a\r\n\r\n",
	"POST / HTTP/1.1\r\nHost: a\r\nContent-Length: abc\r\n\r\nxx",
	"POST / HTTP/1.1\r\nHost: a\r\nContent-Length: -1\r\n\r\n",
	"GET / HTTP/1.1\r\n\r\n",
	"GET / HTTP/1.1\r\nHost: a\r\nbad header\r\n\r\n",
	"POST / HTTP/1.1\r\nHost: a\r\nContent-Length: 3\r\nContent-Length: 4\r\n\r\nabcd",
	"POST / HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: gzip\r\n\r\n",
	"G@T / HTTP/1.1\r\nHost: \r\n: \r\n\r\n",
	"GET %zz HTTP/1.1\r\nHost: a\r\n\r\n",
}

func (g *G) probes(pool []int, n int) []int {
	var p []int
	for ; n > 0; n-- {
		p = append(p, pool[g.Intn(len(pool))])
	}
	return p
}

// lighten keeps the analyses of a run from adding up to hours:
// past a limit, short texts take the place of long ones.
func (g *G) lighten() {
	// Every switch looks at everybody.
	n := 0
	if g.s.Srv != nil {
		n = len(g.s.Srv.Conns) / 3
	}
	if g.s.Bot != nil {
		n = len(g.s.Bot.Chans)
	}
	if c := &g.s.Sched; n > 12 && c.MeanRun > 0 {
		if c.MeanRun < 200 {
			c.MeanRun = 200
		}
		if n > 24 && c.MeanRun < 2000 {
			c.MeanRun = 2000
		}
	}
	rounds := func(n int) int {
		if n < 1 {
			return 1
		}
		return n
	}
	if v := g.s.Srv; v != nil {
		min := -1
		for i, t := range g.t.list {
			if t.Kind != "crash" && (min < 0 || t.Parse.N < g.t.list[min].Parse.N) {
				min = i
			}
		}
		left := 4_000_000 / rounds(v.Rounds)
		for i := range v.Conns {
			for k := range v.Conns[i].Reqs {
				r := &v.Conns[i].Reqs[k]
				if r.Text < 0 || r.Method != "POST" {
					continue
				}
				n := g.t.list[r.Text].Parse.N
				if left -= n; left < 0 && n > 40_000 {
					r.Text = min
				}
			}
		}
	}
	if b := g.s.Bot; b != nil {
		left := 30_000 / rounds(b.Rounds)
		for i := range b.Chans {
			for k := range b.Chans[i].Events {
				e := &b.Chans[i].Events[k]
				if left -= len(e.Text); left < 0 && len(e.Text) > 600 {
					e.Text = "hello"
				}
			}
		}
	}
}

func (g *G) bigs() []string {
	var b []string
	for _, s := range g.c.List {
		if len(s) > 1400 {
			b = append(b, s)
		}
	}
	return b
}

func genC01(g *G) {
	s := g.srv()
	pool := g.pool(g.Range(1, 6))
	if g.P(30) {
		pool = append(pool, g.text("panic"))
	}
	if b := g.bigs(); len(b) > 0 && g.P(6) {
		pool = append(pool, g.t.add(b[g.Intn(len(b))]))
	}
	if g.P(2) {
		s.Conns = g.manyReqs(g.widePool())
		return
	}
	s.Conns = g.conns(g.Int(1, 2, 2, 3, 4, 6), g.mixed(pool, 92))
	for n := g.crowd(4) - 3; n > 0; n-- {
		// Somebody else's upload fails, or somebody goes away.
		c := plan.SConn{MaxRead: g.Int(0, 3)}
		if g.P(50) {
			g.cutReq(&c, pool)
		} else {
			r := g.post(pool, true)
			r.Expect, r.Fault = false, "abort"
			c.Reqs = append(c.Reqs, r)
		}
		s.Conns = append(s.Conns, c)
	}
}

func genC02(g *G) {
	s := g.srv()
	pool := g.pool(g.Range(1, 5), "stmt", "fragment")
	pool = append(pool, g.text())
	if b := g.bigs(); len(b) > 0 && g.P(8) {
		pool = append(pool, g.t.add(b[g.Intn(len(b))]))
	}
	s.Conns = g.conns(g.Int(1, 2, 3), g.mixed(pool, 90))
	for n := g.crowd(4); n > 0; n-- {
		c := plan.SConn{MaxRead: g.Int(0, 0, 1, 16), Pipeline: g.P(20)}
		for k := g.Int(0, 0, 1, 2); k > 0; k-- {
			r := g.post(pool, false)
			r.HTTP10, r.Expect = false, false
			c.Reqs = append(c.Reqs, r)
		}
		g.cutReq(&c, pool)
		s.Conns = append(s.Conns, c)
	}
	if g.P(50) {
		s.ProbeTexts = g.probes(pool, 1)
	}
}

func genC03(g *G) {
	s := g.srv()
	pool := g.pool(g.Range(1, 5))
	pool = append(pool, g.text("panic", "fragment"), g.text("error"))
	if g.c.Crash > 0 && g.P(50) {
		pool = append(pool, g.text("crash"))
	}
	if b := g.bigs(); len(b) > 0 && g.P(5) {
		pool = append(pool, g.t.add(b[g.Intn(len(b))]))
	}
	s.Fonts = []plan.Font{{Name: "a.otf", Size: g.Int(0, 10, 700, 5000)}}
	req := func(last bool) plan.SReq {
		switch x := g.Intn(20); {
		case x < 11:
			return g.post(pool, last)
		case x < 14:
			return g.get()
		case x < 15:
			return plan.SReq{Method: "GET", Path: g.Str("/font/a.otf", "/font/none", "/font/"), Text: -1}
		case x < 16:
			return plan.SReq{Method: "HEAD", Path: g.Str("/font/a.otf", "/"), Text: -1}
		}
		r := plan.SReq{Method: g.Str("PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "BREW", "get"), Path: "/", Text: -1}
		if g.P(30) {
			r.Text = pool[0]
		}
		return r
	}
	s.Conns = g.conns(g.Int(1, 2, 3, 4), req)
	kind, one := g.Intn(3), g.P(50)
	for n := g.crowd(4) - 1; n > 0; n-- {
		c := plan.SConn{MaxRead: g.Int(0, 0, 1)}
		if !one {
			kind = g.Intn(3)
		}
		switch kind {
		case 0:
			c.Reqs = []plan.SReq{{Raw: rawBad[g.Intn(len(rawBad))], Method: "GET", Path: "/", Text: -1}}
		case 1:
			r := g.post(pool, true)
			r.Expect, r.Fault = false, "abort"
			c.Reqs = []plan.SReq{r}
		case 2:
			g.cutReq(&c, pool)
		}
		s.Conns = append(s.Conns, c)
	}
	if g.P(40) {
		for n := g.Range(1, 3); n > 0; n-- {
			s.Accept = append(s.Accept, plan.Accept{After: g.Intn(len(s.Conns)), Err: g.Str("EMFILE", "ENFILE")})
		}
	}
	if g.P(25) {
		g.panics(countPosts(s))
	}
	s.ProbeTexts = g.probes(pool, g.Range(1, 2))
}

func countPosts(s *plan.Srv) int {
	n := 0
	for _, c := range s.Conns {
		for _, r := range c.Reqs {
			if r.Method == "POST" {
				n++
			}
		}
	}
	return n
}

var panicKinds = []string{"string", "error", "struct", "int", "nilmap", "index", "nilptr", "assert"}

func (g *G) panics(entries int) {
	if entries < 1 {
		entries = 1
	}
	seen := map[int]bool{}
	for n := g.Int(1, 1, 2, 3); n > 0; n-- {
		k := g.Range(1, entries)
		if seen[k] {
			continue
		}
		seen[k] = true
		g.s.Sched.Panics = append(g.s.Sched.Panics, plan.PanicPlan{Scope: "interp", K: k, N: g.Log(3000), Kind: g.Str(panicKinds...)})
	}
}

func genC04srv(g *G) {
	s := g.srv()
	pool := g.pool(g.Range(1, 4), "stmt", "fragment")
	if g.P(70) {
		pool = append(pool, g.text("panic"), g.text("panic"))
	}
	if g.P(30) {
		pool = append(pool, g.text("error"))
	}
	s.Conns = g.conns(g.Int(1, 2, 3, 4), g.mixed(pool, 97))
	g.panics(countPosts(s))
	s.ProbeTexts = g.probes(pool, 1)
}

var pages = []string{
	defaultPage,
	"<html>second page, a little longer than the first {{/* TEMPLATE-SOURCE */}}" + strings.Repeat("<p>lorem</p>", 40) + "</html>",
	"short",
	"other",
	strings.Replace(defaultPage, "mi toaq", "mu toaq", 1),
	strings.Replace(defaultPage, "mi toaq", "mi koaq", 1),
	"<html>{{if true}}yes{{else}}no{{end}}{{/* TEMPLATE-SOURCE */}}</html>",
	"<html>" + strings.Repeat("0123456789abcdef", 700) + "</html>",
	"{{define \"x\"}}inner{{end}}<html>{{template \"x\"}}</html>",
	"",
	"<html>{{range $i, $e := .}}{{$e}}{{end}}done</html>",
	"<html>jảı súq – ꝡ</html>",
}

var badPages = []string{
	"<html>{{if}}</html>",                    // does not parse
	"<html>before{{template \"nope\"}}after", // fails while rendering
	"<html>" + strings.Repeat("x", 9000) + "{{template \"nope\"}}after",
	"<html>{{index 1 2}}</html>",
	"<html>{{",
	"<html>before{{len 3}}after",
	"<html><a href={{template \"zip\"}}>",
	"<script>var a = \"{{if true}}</script>{{end}}", // fails the escaper
}

func genC05(g *G) {
	s := g.srv()
	s.Templates = nil
	if g.P(85) {
		s.Templates = append(s.Templates, pages[g.Intn(len(pages))])
	} else {
		s.Templates = append(s.Templates, badPages[g.Intn(len(badPages))])
	}
	for n := g.Range(0, 4); n > 0; n-- {
		if g.P(60) {
			s.Templates = append(s.Templates, pages[g.Intn(len(pages))])
		} else {
			s.Templates = append(s.Templates, badPages[g.Intn(len(badPages))])
		}
	}
	names := []string{"a.otf", "toaq.woff2", "x", "long-name.ttf"}
	for _, n := range names[:g.Range(1, len(names))] {
		s.Fonts = append(s.Fonts, plan.Font{Name: n, Size: g.Int(0, 1, 100, 511, 512, 513, 5000, 40000)})
	}
	pool := g.pool(2)
	req := func(last bool) plan.SReq {
		switch x := g.Intn(20); {
		case x < 10:
			return g.get()
		case x < 15:
			r := plan.SReq{Method: "GET", Path: "/font/" + g.Str(names...), Text: -1}
			if g.P(40) {
				a := g.Range(0, 600)
				r.Range = g.Str("bytes=0-0", "bytes=-1", "bytes=-100", "bytes="+itoa(a)+"-", "bytes="+itoa(a)+"-"+itoa(a+g.Intn(300)))
			}
			return r
		case x < 18:
			return plan.SReq{Method: "GET", Text: -1, Path: g.Str(
				"/font/nope.otf", "/font/../secret.txt", "/font/../../secret.txt", "/font/%2e%2e/secret.txt", "/font/..%2fsecret.txt",
				"/font/%2e%2e%2f%2e%2e%2fsecret.txt", "/font//../secret.txt", "/font/..\\secret.txt", "/font/a.otf/../../secret.txt", "/font/./../template",
				"/font.txt", "/font/../template", "/font/..%2ftemplate", "/fontx.otf", "/font-secret.txt", "/secret.txt", "/server/secret.txt", "/server/secret.html", "/secret.html",
				"/font/%00secret.txt", "/font/..%5csecret.txt", "/font/.../secret.txt", "/font", "/font/", "/font/index.html", "/FONT/../secret.txt", "//secret.txt", "/./secret.txt", "/font/../font/../secret.txt")}
		}
		return g.post(pool, last)
	}
	s.Conns = g.conns(g.Int(1, 2, 3, 4), req)
	total := 0
	for _, c := range s.Conns {
		total += len(c.Reqs)
	}
	for n := g.Range(0, 5); n > 0; n-- {
		f := plan.FileOp{Op: g.Str("put", "put", "put", "put", "remove", "dir", "loop"), After: g.Intn(total), Keep: g.P(30)}
		if g.P(30) {
			f.Op, f.Name = g.Str("font", "font", "remove"), g.Str(names...)
			f.Arg = g.Int(0, 1, 100, 511, 512, 513, 5000, 40000)
			for _, x := range s.Fonts {
				if x.Name == f.Name && g.P(50) {
					f.Arg = x.Size
				}
			}
		}
		if len(s.Files) > 0 && f.After < s.Files[len(s.Files)-1].After {
			f.After = s.Files[len(s.Files)-1].After
		}
		if f.Op == "put" {
			f.Arg = g.Intn(len(s.Templates))
		}
		s.Files = append(s.Files, f)
	}
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

func genC08srv(g *G) {
	s := g.srv()
	pool := g.pool(2)
	if g.P(35) {
		s.ListenErr = g.Str("EADDRINUSE", "EACCES", "EINVAL", "EMFILE")
		return
	}
	s.Conns = g.conns(g.Int(1, 2), g.mixed(pool, 80))
	if g.P(40) {
		s.Accept = append(s.Accept, plan.Accept{After: 0, Err: g.Str("EMFILE", "ENFILE")})
	}
	if g.P(40) {
		c := plan.SConn{Reqs: []plan.SReq{g.post(pool, true)}}
		c.Reqs[0].Expect = false
		c.Reqs[0].Fault, c.Reqs[0].Cut = "stall", 0
		s.Conns = append(s.Conns, c)
	}
	s.Dead = g.Str("EBADF", "EINVAL", "EOF")
}

func genC18(g *G) {
	s := g.srv()
	pool := g.pool(g.Range(1, 4))
	s.Conns = g.conns(g.Int(1, 2, 3), g.mixed(pool, 80))
	n := g.Int(1, 1, 1, 2, 2, 3, 3, 8, 8, 20, 40, 70, 140)
	if g.P(1) {
		n = 300
	}
	for ; n > 0; n-- {
		c := plan.SConn{MaxRead: g.Int(0, 0, 1)}
		switch g.Intn(5) {
		case 0, 1: // stalls in the body
			r := g.post(pool, true)
			r.Expect = false
			r.Fault = "stall"
			r.Cut = g.Intn(len(g.t.list[r.Text].Text) + 1)
			c.Reqs = append(c.Reqs, r)
		case 2: // stalls in the header
			r := g.post(pool, true)
			if g.P(50) {
				r = g.get()
			}
			r.Expect = false
			r.Fault = "stall"
			r.Cut = -g.Range(1, 60)
			c.Reqs = append(c.Reqs, r)
		case 3: // never reads
			c.SlowRead = g.Range(1, 64)
			c.Reqs = append(c.Reqs, g.mixed(pool, 60)(true))
			c.Reqs[0].Expect = false
		case 4: // idle connection
			r := g.post(pool, false)
			r.HTTP10, r.Expect = false, false
			c.Reqs = append(c.Reqs, r)
			q := g.post(pool, true)
			q.Expect, q.Fault, q.Cut = false, "stall", -500
			c.Reqs = append(c.Reqs, q)
		}
		s.Conns = append(s.Conns, c)
	}
	// Half of the stalled ones come first.
	if g.P(50) {
		k := len(s.Conns) - 1
		s.Conns[0], s.Conns[k] = s.Conns[k], s.Conns[0]
	}
	clampAfter(s.Conns)
	s.ProbeTexts = g.probes(pool, 1)
	s.IdleMS = g.Int(0, 0, 100, 5000, 60000, 600000)
	s.Resume = g.P(75)
}
