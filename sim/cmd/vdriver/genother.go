package main

import (
	"strings"

	"verif/src/plan"
)

// ---- bot ----

var nicks = []string{"alice", "bob", "toaqbot", "ToaqBridgeBot", "Toaq Telegram", "toaqbridgebot", "ToaqBridgeBot2", ""}

func (g *G) bot() *plan.Bot {
	g.s.World = "bot"
	g.s.Bot = &plan.Bot{JoinErr: -1}
	return g.s.Bot
}

// event adds the texts it needs to the run.
func (g *G) event(pool []string, cmdP int) plan.BEvent {
	e := plan.BEvent{Kind: "msg", Nick: g.Str(nicks[:2]...)}
	text := pool[g.Intn(len(pool))]
	if g.P(cmdP) {
		switch x := g.Intn(20); {
		case x < 10:
			e.Text = ".miu " + text
		case x < 12:
			e.Text = ".miu" + text
		case x < 13:
			e.Text = ".miu"
		case x < 14:
			e.Text = ".miu" + g.Str("  \t", "\n", "\r\n", "\u00a0", "\u3000", " \u2003", "\v\f", "\u0085") + text + g.Str("\n ", "", "\u00a0", " \u3000\n", "\u2028")
		case x < 18:
			e.Nick = plan.BridgeNick
			e.Text = g.Str("carol", "Toaq Telegram", "a: b", "x y", "", "carol:") + ": .miu " + text
		case x < 19:
			e.Nick = plan.BridgeNick
			e.Text = ".miu " + text
		default:
			e.Text = ".miu " + text
			e.Kind = "reply"
		}
		if g.P(5) {
			e.NoFrom = true
		}
	} else {
		switch x := g.Intn(16); {
		case x < 4:
			e.Text = g.Str(text, "hello", "", " .miu "+text, "miu "+text, ".mi u", ".MIU "+text, "x.miu "+text, "\n.miu "+text, "> .miu "+text, "alice: hello", "．miu "+text)
			e.Nick = g.Str(nicks...)
		case x < 7: // a wrapped command, but not by the bridge
			e.Nick = g.Str("alice", "Toaq Telegram", "toaqbridgebot", "ToaqBridgeBot2", "")
			e.Text = "carol: .miu " + text
		case x < 9: // the bridge relays something else
			e.Nick = plan.BridgeNick
			e.Text = g.Str("carol: hello", "carol: a: .miu "+text, "carol:.miu "+text, "carol joined", "carol: x.miu "+text, ": ", "carol: ", "c: d: .miu "+text)
		case x < 10:
			e.Kind, e.Text = "echo", ""
		case x < 12:
			e.Kind, e.Text = "edit", ".miu "+text
		case x < 13:
			e.Kind = "delete"
		case x < 14:
			e.Kind = "join"
			e.Nick = g.Str("dave", ".miu "+text)
		case x < 15:
			e.Kind = "leave"
			e.Nick = g.Str("dave", ".miu "+text)
		default:
			e.Kind, e.Text = "rename", ".miu "+text
		}
	}
	if e.Kind == "msg" || e.Kind == "reply" {
		if t, is := plan.Command(e.Nick, e.NoFrom, e.Text); is {
			g.t.add(t)
		}
	}
	return e
}

// spool is a pool of texts for the bot.
func (g *G) spool(n int, kinds ...string) []string {
	var p []string
	for i := 0; i < n; i++ {
		p = append(p, g.pick(kinds...))
	}
	return p
}

func chanName(i int) string {
	if names := []string{"general", "toaq", "bots", "x-1", "y", "z"}; i < len(names) {
		return names[i]
	}
	return "c" + itoa(i)
}

// many is how many channels a crowded bot serves.
func (g *G) many() int { return g.Int(8, 10, 17, 20, 33, 40, 70) }

func (g *G) chans(n int, pool []string, cmdP int) {
	b := g.s.Bot
	for i := 0; i < n; i++ {
		c := plan.BChan{Name: chanName(i), Burst: g.P(50)}
		k := g.Int(1, 2, 3, 4, 6, 2, 3, 4, 6, 40)
		if n > 6 {
			k = g.Int(1, 2, 2, 3)
		}
		for ; k > 0; k-- {
			c.Events = append(c.Events, g.event(pool, cmdP))
		}
		if g.P(50) {
			for k := g.Range(1, 3); k > 0; k-- {
				c.Gap = append(c.Gap, g.Int(0, 1, 10, 500, 60000))
			}
		}
		b.Chans = append(b.Chans, c)
	}
}

// flood gives a channel more commands than any queue is likely to hold.
func (g *G) flood(k int) {
	short := ""
	for i := 0; i < 30; i++ {
		if t := g.c.Pick(g.Rng, "fragment", "stmt", "error"); short == "" || len(t) < len(short) {
			short = t
		}
	}
	g.t.add(strings.TrimSpace(short))
	c := &g.s.Bot.Chans[k]
	c.Burst, c.Gap = g.P(80), nil
	for n := g.Int(70, 140, 140, 300, 600); n > 0; n-- {
		if g.P(95) {
			c.Events = append(c.Events, plan.BEvent{Kind: "msg", Nick: "alice", Text: plan.Prefix + " " + short})
		} else {
			c.Events = append(c.Events, plan.BEvent{Kind: "msg", Nick: "alice", Text: "hello"})
		}
	}
}

func genC06(g *G) {
	g.bot()
	pool := g.spool(g.Range(1, 5))
	if g.P(20) {
		pool = append(pool, g.c.Pick(g.Rng, "panic"))
	}
	if g.c.Crash > 0 && g.P(50) {
		pool = append(pool, g.c.Pick(g.Rng, "crash"))
	}
	if g.P(10) {
		if b := g.bigs(); len(b) > 0 {
			pool = append(pool, b[g.Intn(len(b))])
		}
	}
	n := g.Int(1, 2, 2, 3, 4, 6)
	if g.P(4) {
		n = g.many()
	}
	g.chans(n, pool, g.Int(50, 80, 100))
	if g.P(2) {
		g.flood(g.Intn(len(g.s.Bot.Chans)))
	}
}

func genC07(g *G) {
	g.bot()
	pool := g.spool(g.Range(2, 6))
	if g.P(30) {
		pool = append(pool, g.c.Pick(g.Rng, "panic"))
	}
	if b := g.bigs(); len(b) > 0 && g.P(6) {
		pool = append(pool, b[g.Intn(len(b))])
	}
	switch x := g.Intn(100); {
	case x < 3:
		g.chans(g.many(), pool, 90)
		return
	case x < 5: // many different commands
		wide := g.wide()
		for i := range wide {
			wide[i] = strings.TrimSpace(wide[i])
		}
		g.chans(g.Int(1, 2, 3), wide, 95)
		c := &g.s.Bot.Chans[0]
		for _, t := range append(wide, wide[0], wide[len(wide)/2], wide[len(wide)-1]) {
			e := g.event([]string{t}, 100)
			c.Events = append(c.Events, e)
		}
		return
	}
	g.chans(g.Int(1, 2, 3, 4), pool, 90)
}

func genC09(g *G) {
	g.bot()
	pool := g.spool(g.Range(1, 4))
	g.chans(g.Int(1, 1, 2, 3), pool, g.Int(0, 30, 50))
	for i := range g.s.Bot.Chans {
		if g.P(60) {
			g.s.Bot.Chans[i].Events = append(g.s.Bot.Chans[i].Events, g.event(pool, 20), g.event(pool, 0), plan.BEvent{Kind: "echo", Nick: "toaqbot"})
		}
	}
}

func genC04bot(g *G) {
	g.bot()
	pool := g.spool(g.Range(1, 3), "stmt", "fragment")
	if g.P(70) {
		pool = append(pool, g.c.Pick(g.Rng, "panic"), g.c.Pick(g.Rng, "panic"))
	}
	g.chans(g.Int(1, 2, 3), pool, 95)
	n := 0
	for _, c := range g.s.Bot.Chans {
		n += len(c.Events)
	}
	g.panics(n)
}

func genC08bot(g *G) {
	b := g.bot()
	pool := g.spool(g.Range(1, 3), "stmt", "fragment", "error")
	g.chans(g.Int(1, 2, 2, 3, 4), pool, 90)
	b.EOF = g.P(40)
	switch x := g.Intn(10); {
	case x < 1:
		b.DialErr = true
	case x < 3:
		b.JoinErr = g.Intn(len(b.Chans))
	default:
		k := g.Intn(len(b.Chans))
		kind := g.Str("recv", "send")
		if kind == "send" {
			// There must be a command to answer after the fault.
			after := -1
			for i, e := range b.Chans[k].Events {
				if _, is := plan.Command(e.Nick, e.NoFrom, e.Text); is && (e.Kind == "msg" || e.Kind == "reply") {
					after = i
				}
			}
			if after < 0 {
				kind = "recv"
			} else {
				b.Faults = append(b.Faults, plan.BFault{Chan: k, After: g.Intn(after + 1), Kind: kind})
			}
		}
		if kind == "recv" {
			b.Faults = append(b.Faults, plan.BFault{Chan: k, After: g.Intn(len(b.Chans[k].Events) + 1), Kind: kind})
		}
		if len(b.Chans) > 1 && g.P(30) {
			// Another channel stalls meanwhile.
			o := (k + 1) % len(b.Chans)
			b.Faults = append(b.Faults, plan.BFault{Chan: o, After: 0, Kind: g.Str("stall-send", "stall-recv")})
		}
	}
}

func genC19(g *G) {
	b := g.bot()
	pool := g.spool(g.Range(1, 4))
	chans, stalled := g.Int(2, 2, 3, 4), g.Int(1, 1, 2)
	if g.P(6) {
		chans = g.many()
		stalled = chans - g.Int(1, 1, 2, chans/2)
	}
	g.chans(chans, pool, 90)
	k := g.Intn(len(b.Chans))
	for n := stalled; n > 0 && n < len(b.Chans); n-- {
		b.Faults = append(b.Faults, plan.BFault{Chan: (k + n) % len(b.Chans), After: g.Intn(len(b.Chans[(k+n)%len(b.Chans)].Events) + 1), Kind: g.Str("stall-send", "stall-send", "stall-recv")})
	}
	b.StallMS = g.Int(0, 1000, 60000, 3600000)
	if g.P(4) && len(b.Faults) > 0 {
		g.flood(b.Faults[g.Intn(len(b.Faults))].Chan)
	}
}

// ---- command line ----

func genC16(g *G) {
	g.s.World = "cli"
	c := &plan.Cli{OutAt: -1}
	g.s.Cli = c
	if b := g.bigs(); len(b) > 0 && g.P(4) {
		c.Text = g.t.add(b[g.Intn(len(b))])
	} else {
		c.Text = g.text()
	}
	n := len(g.t.list[c.Text].Text)
	if g.P(60) {
		c.Chunks = g.sizes()
	}
	if g.P(40) {
		c.File = g.Str("in.toaq", "a b", "-x", "dir.txt")
	}
	switch x := g.Intn(10); {
	case x < 2:
	case x < 5: // the input fails
		if c.File == "" {
			c.ReadErr = g.Str("EIO", "EISDIR", "EBADF", "EACCES")
			c.Cut = g.Intn(n + 1)
		} else {
			switch g.Intn(4) {
			case 0:
				c.Missing = true
			case 1:
				c.IsDir = true
			default:
				c.FS = []plan.FSFault{{At: g.Int(0, 1, 1, 2, 2, 3, 4), Kind: g.Str("EIO", "EACCES")}}
			}
		}
	default: // the output fails
		c.OutErr = g.Str("ENOSPC", "EPIPE", "EIO", "EDQUOT")
		c.OutAt = g.Int(0, 1, 999, 995, 999, g.Intn(1000), g.Intn(1000), g.Intn(1000))
		c.OutOnce = g.P(40)
	}
}

// ---- dictionary ----

type headKey struct{ head, key string }

// heads and their lower-case toneless spellings, written out by hand.
var heads = []headKey{
	{"toaq", "toaq"}, {"hoaq", "hoaq"}, {"Jai", "jai"}, {"kủqnaı", "kuqnai"}, {"jảı", "jai"}, {"tỏa pảı", "toa pai"}, {"súq", "suq"}, {"HIO", "hio"},
	{"deoq", "deoq"}, {"gi", "gi"}, {"mỉu", "miu"}, {"do", "do"}, {"chỏaq", "choaq"}, {"chôaq", "choaq"}, {"nỉe", "nie"}, {"Fả", "fa"}, {"dủa", "dua"}, {"bảq", "baq"}, {"rủ", "ru"}, {"muı", "mui"},
}

// toned are the spellings of each vowel with each tone, written out by hand.
var toned = map[rune]string{
	'a': "āáǎăảâàãAĀÁǍĂẢÂÀÃ",
	'e': "ēéěĕẻêèẽEĒÉĚĔẺÊÈẼ",
	'i': "īíǐĭỉîìĩıIĪÍǏĬỈÎÌĨ",
	'o': "ōóǒŏỏôòõOŌÓǑŎỎÔÒÕ",
	'u': "ūúǔŭủûùũUŪÚǓŬỦÛÙŨ",
}

// spell writes a lower-case toneless word with tones and capitals, at most
// one tone in a syllable.
func (g *G) spell(s string) string {
	var b strings.Builder
	done := false
	for _, r := range s {
		if toned[r] == "" && r != 'q' {
			done = false
		}
		if t := []rune(toned[r]); len(t) > 0 && !done && g.P(60) {
			r = t[g.Intn(len(t))]
			done = true
		}
		b.WriteRune(r)
	}
	return b.String()
}

func (g *G) entries(n int) []plan.Entry {
	var es []plan.Entry
	for ; n > 0; n-- {
		h := heads[g.Intn(len(heads))]
		if g.P(40) {
			s := h.key + g.Str("", "jai", "kui", "bo", "de", "to", "mu") + g.Str("", "na", "hio", "sa", "fe")
			h = headKey{s, s}
			switch g.Intn(4) {
			case 0:
				h.head = strings.ToUpper(s)
			case 1, 2:
				h.head = g.spell(s)
			}
		}
		e := plan.Entry{Head: h.head, Key: h.key, Score: g.Int(g.Range(-5, 40), g.Range(-5, 40), g.Range(-5, 40), 1<<53+1, -1<<62)}
		if g.P(25) {
			e.Omit = g.Int(1, 2, 4, 3, 6, 7, 9, 10, 12, 15)
		}
		e.Body = g.field()
		e.By = g.Str("uakci", "official", "dict.author", "", "x\"y", "%s", "solpahi")
		if g.P(30) {
			e.By = g.field()
		}
		es = append(es, e)
	}
	return es
}

var awkward = []string{
	"___ is good.", "▯ eats ▯", "dict.Word{}", "quote \" and \\ backslash", "new\nline\ttab", "`raw`", "*/ comment /*",
	"dict.dict.", "x: dict.Word{Word: \"y\"}", "‘unicode’ — 字", "%v %d %%", "%!s(MISSING)", "%[1]d",
	" ", "  ", "   ", "\t", "\t\t", "\n", "\n\n", "\r\n", "\r", "\x00", "\x01", "\x1b[0m", "\x7f", "\u0085", "\u00a0", "\u2028", "\u2029", "\ufeff", "\u200b", "\u200d", "\ufffd", "\U0001f600", "\U0010ffff", "e\u0301", "\u0301",
	"\"", "\"\"", "\", \"", "\"}, \"", "}, ", "}", "{", ", ", ",", ": ", ";", "'", "`", "``", "\\", "\\\\", "\\n", "\\\"", "\\u0041", "\\x41", "\\ud800", "/", "//", "/*", "*/", "<b>&amp;</b>", "&lt;", "<", ">", "&", "</script>",
	"Words", "Word:", "Score:", "Score:0x1", "0x10", "package dict", "map[string]Word{", "nil", "null", "true", "import \"os\"", "// +build ignore", "dict", ".", "dict", ".Word", "Dict.", "DICT.",
	"JAI", "jăi", "JẢI", "mỉ", "ı", "i", "İ", "ß", "ǅ", "Ⅷ", "a", "z", "A", "Z", "0", "9", "a", "b", "-", "_", "|", "*", "(", ")", "[", "]", "?", "!", "#", "$", "@", "~", "^", "+", "=",
}

// field makes the text of an entry's definition or author.
func (g *G) field() string {
	n := g.Int(0, 1, 1, 1, 2, 3, 5, 9)
	if g.P(1) {
		n = g.Int(50, 400, 3000)
	}
	var b strings.Builder
	for ; n > 0; n-- {
		b.WriteString(awkward[g.Intn(len(awkward))])
		if g.P(10) {
			b.WriteString(itoa(g.Intn(1000)))
		}
	}
	return b.String()
}

var badReplies = []string{"fail", "fail-data", "fail-nomsg", "fail-nullmsg", "nodata", "nulldata", "objdata", "strdata", "badscore", "badhead", "empty", "null", "array", "html", "garbage", "emptyobj", "number"}

func (g *G) reply(badP, cutP int) plan.Reply {
	r := plan.Reply{Kind: "ok", Status: 200, Chunked: g.P(40), Close: g.P(20), Shuffle: g.P(30), ErrMsg: g.Str("no such thing", "", "%d")}
	r.Entries = g.entries(g.Int(0, 1, 2, 3, 5, 8, 12, 40, 3, 8, 12, 40, 1, 2, 5, 1500))
	if g.P(70) {
		r.Wire = []int{g.Int(1, 5, 37, 200, 1000), g.Int(3, 50, 400, 2000)}
		if len(r.Entries) > 100 {
			r.Wire = []int{g.Int(1000, 5000, 20000), g.Int(1, 50, 40000)}
		}
	}
	if g.P(30) {
		r.DelayMS = g.Int(1, 50, 5000, 20000)
	}
	if g.P(20) {
		r.Extra = g.Str(`,"time":12`, `,"error":null`, `,"more":{"data":[]}`)
	}
	switch x := g.Intn(100); {
	case x < badP:
		r.Kind = g.Str(badReplies...)
		if r.Kind == "html" || r.Kind == "fail" {
			r.Status = g.Int(200, 500, 502, 404)
		}
	case x < badP+cutP:
		r.Fault = g.Str("eof", "eof", "reset", "refuse")
		r.Cut = g.Int(-1000, -500, 0, 1, 500, 999, 1000, g.Intn(1000), g.Intn(1000))
	}
	return r
}

func (g *G) dictRun(badP, cutP int) {
	g.s.World = "dict"
	d := &plan.Dict{}
	g.s.Dict = d
	tasks := g.Int(1, 1, 2, 3, 4)
	for k := g.Int(1, 2, 3, 4, 6, 2, 3, 4, 6, 40); k > 0; k-- {
		d.Loads = append(d.Loads, plan.Load{Task: g.Intn(tasks), Reply: g.reply(badP, cutP), Query: "query " + itoa(k) + g.Str("", " x", " {}"), Mutate: g.P(25)})
	}
	switch x := g.Intn(20); {
	case x < 6:
		// The same questions again and again; the answers change.
		for k := range d.Loads {
			l := &d.Loads[k]
			q := g.Intn(4)
			l.Query = []string{"*", "all"}[q&1]
			l.Host = []string{"", "other.sim"}[q>>1]
			l.Task = q % tasks
		}
	case x < 8:
		// Everybody asks the same and gets the same.
		r := g.reply(0, 0)
		r.Kind, r.Fault, r.Status = "ok", "", 200
		for k := range d.Loads {
			l := &d.Loads[k]
			l.Query, l.Reply, l.Mutate = "*", r, g.P(50)
			l.Reply.Entries = append([]plan.Entry(nil), r.Entries...)
		}
	}
}

func genC10(g *G) { g.dictRun(40, 40) }
func genC11(g *G) { g.dictRun(10, 10) }

// ---- generator ----

var oldFiles = []string{"-", "", "package dict\n\nvar Words = map[string]Word{\"old\": Word{Word: \"old\"}}\n", strings.Repeat("// previous output\n", 400)}

func genC12(g *G) {
	g.s.World = "gen"
	p := &plan.Gen{Old: g.Str(oldFiles...), Rel: g.P(30)}
	g.s.Gen = p
	p.Reply = g.reply(0, 0)
	p.Reply.Wire = []int{g.Int(50, 400, 4000)}
	switch x := g.Intn(20); {
	case x < 1:
		p.NoDir = true
		p.Old = "-"
	case x < 4: // the download fails
		p.Reply = g.reply(50, 50)
	case x < 6:
	case x < 9:
		p.KillAt = g.Range(1, g.Int(50, 300, 1000, 4000))
	default:
		for n := g.Int(1, 1, 1, 2); n > 0; n-- {
			p.FS = append(p.FS, plan.FSFault{At: g.Range(0, 9), Kind: g.Str("kill", "kill-after", "torn", "torn", "short", "short", "ENOSPC", "ENOSPC", "EIO", "EACCES", "EDQUOT", "EROFS"), Arg: g.Intn(1000)})
		}
	}
}

// ---- library ----

func (g *G) lib(tasks int) *plan.Lib {
	g.s.World = "lib"
	g.s.Lib = &plan.Lib{Tasks: make([][]plan.LibOp, tasks)}
	return g.s.Lib
}

func genC13(g *G) {
	l := g.lib(1)
	pool := g.pool(g.Range(1, 3))
	if g.P(60) {
		pool = append(pool, g.text("error"))
	}
	n := g.Range(2, 12)
	if g.P(1) {
		pool = g.widePool()
		n = 2 * len(pool)
	}
	for ; n > 0; n-- {
		t := pool[g.Intn(len(pool))]
		op := plan.LibOp{Op: g.Str("tree", "text", "word", "word"), Text: t, Parser: g.Int(1, 1, 1, 2, 0), Mutate: g.Str("", "", "scribble", "clear"), Arg: g.Intn(2)}
		if op.Op == "word" {
			w := g.t.list[t].Words
			if len(w) == 0 {
				op.Op = "text"
			} else {
				op.Off = g.Intn(len(w))
			}
		}
		if len(g.t.list[t].Text) > 2000 {
			op.Mutate = ""
		}
		l.Tasks[0] = append(l.Tasks[0], op)
	}
}

func genC14(g *G) {
	n := g.Int(2, 2, 3, 4)
	l := g.lib(n)
	pool := g.pool(g.Range(1, 6))
	for i := range l.Tasks {
		for k := g.Range(1, 5); k > 0; k-- {
			t := pool[g.Intn(len(pool))]
			op := plan.LibOp{Op: g.Str("tree", "text", "word", "interp", "interp", "interp", "braces", "tones", "dict", "compute"), Text: t, Parser: g.Int(0, 0, 1), Arg: g.Intn(2)}
			if op.Op == "word" {
				w := g.t.list[t].Words
				if len(w) == 0 {
					op.Op = "interp"
				} else {
					op.Off = g.Intn(len(w))
				}
			}
			if g.P(10) {
				op.Mutate = g.Str("scribble", "clear")
			}
			l.Tasks[i] = append(l.Tasks[i], op)
		}
	}
}

func genC15(g *G) {
	l := g.lib(g.Int(1, 1, 2))
	g.s.MapSeed = g.Str2(0, 1, g.Next()>>16+2, g.Next()>>16+2)
	pool := g.pool(g.Range(1, 8))
	if g.P(50) {
		g.s.Env = map[string]string{"LANG": g.Str("C", "de_DE.UTF-8", "tr_TR.UTF-8"), "TZ": g.Str("UTC", "Asia/Tokyo", "America/New_York"), "HOME": g.Str("/", "/nonexistent"), "USER": g.Str("a", "root"), "PORT": g.Str("", "1")}
	}
	wide := g.P(1)
	if wide {
		pool = g.widePool()
	}
	for i := range l.Tasks {
		k := g.Range(1, 8)
		if wide {
			k = len(pool) + 20
		}
		for ; k > 0; k-- {
			l.Tasks[i] = append(l.Tasks[i], plan.LibOp{Op: "compute", Text: pool[g.Intn(len(pool))]})
		}
	}
}

func (r *Rng) Str2(xs ...uint64) uint64 { return xs[r.Intn(len(xs))] }

func genC17(g *G) {
	n := g.Int(1, 2, 3, 4)
	l := g.lib(n)
	l.Shared = append(l.Shared, g.pool(g.Int(1, 1, 2), "stmt", "stmt", "fragment", "panic")...)
	if g.P(80) {
		l.Shared[0] = g.text("stmt")
	}
	for i := range l.Tasks {
		for k := g.Range(1, 6); k > 0; k-- {
			l.Tasks[i] = append(l.Tasks[i], plan.LibOp{Op: g.Str("s-braces", "s-pretty", "s-str", "s-visit", "s-equal", "s-interp", "s-interp", "s-own", "s-own", "s-lstr", "s-lpretty", "s-lpretty", "s-lvisit"), Text: l.Shared[0], Arg: g.Intn(4)})
		}
	}
}
