// The chat bot world: the real bot and library, a simulated chat service.
package w_bot

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/velour/chat"

	simmain "github.com/eaburns/toaq/bot"

	"toaqsim/plan"
	"toaqsim/simdiscord"
	"toaqsim/simos"
	"toaqsim/simrt"
	"toaqsim/world"
)

func TestWorld(t *testing.T) { world.Main(t, run) }

type want struct {
	text string
	ref  *plan.Ref
	at   time.Duration // when the command was pushed
}

type bch struct {
	i       int
	p       *plan.BChan
	ch      *simdiscord.Channel
	next    int
	nextAt  time.Duration
	wants   []want
	judged  int
	stallS  bool
	stallR  bool
	failed  bool // a transport failure is set on it
	fired   bool
	overlap bool
	nmsg    int
	pushed  int
}

type bot struct {
	*world.W
	p        *plan.Bot
	chs      []*bch
	refs     map[string]*plan.Ref
	fdone    []bool
	resumed  bool
	dying    string // why the process must exit
	dyingAt  time.Duration
	bugs     int
	maybe    int
	phase    string
	natural  bool
	recvErr  error
	sendErr  error
	injectOK bool
}

func (b *bot) channel(c *bch) *simdiscord.Channel {
	if c.ch == nil {
		for _, x := range simdiscord.Channels() {
			if x.Name() == c.p.Name {
				c.ch = x
			}
		}
	}
	return c.ch
}

func (b *bot) env() []simrt.Choice {
	b.judge()
	var cs []simrt.Choice
	now := simrt.SimTime()
	for _, c := range b.chs {
		c := c
		ch := b.channel(c)
		if ch == nil {
			continue
		}
		received, queued, _, _, _, log := ch.State()
		for k := range b.p.Faults {
			k := k
			f := &b.p.Faults[k]
			if b.fdone[k] || f.Chan != c.i || c.next < f.After {
				continue
			}
			if b.resumed && strings.HasPrefix(f.Kind, "stall") {
				continue
			}
			cs = append(cs, simrt.Choice{ID: "x" + strconv.Itoa(k), Do: func() {
				b.fdone[k] = true
				b.Fault(f.Kind)
				switch f.Kind {
				case "recv":
					ch.FailReceive(b.recvErr)
					if !c.stallR {
						b.die(fmt.Sprintf("receiving from channel %s fails", c.p.Name))
					}
				case "send":
					ch.FailSend(b.sendErr)
					c.failed = true
					if _, _, _, _, _, l := ch.State(); len(l) < len(c.wants) {
						b.die(fmt.Sprintf("sending to channel %s fails", c.p.Name))
					}
				case "stall-send":
					ch.StallSend(true)
					c.stallS = true
				case "stall-recv":
					ch.StallReceive(true)
					c.stallR = true
				}
			}})
		}
		if c.next >= len(c.p.Events) || now < c.nextAt {
			continue
		}
		if !c.p.Burst && (len(log) < len(c.wants) || queued > 0 || received < c.pushed) && !c.stallS && !c.stallR {
			continue
		}
		cs = append(cs, simrt.Choice{ID: "b" + strconv.Itoa(c.i) + ">", Do: func() { b.push(c, ch, log) }})
	}
	return cs
}

func (c *bch) push(ch *simdiscord.Channel, e chat.Event) {
	c.pushed++
	ch.Push(e)
}

// id is a message's identifier, never used again by a later life.
func (b *bot) id(n int) chat.MessageID {
	if b.Spec.Life > 0 {
		return chat.MessageID(fmt.Sprintf("m%d-%d", b.Spec.Life, n))
	}
	return chat.MessageID(fmt.Sprintf("m%d", n))
}

func (b *bot) die(why string) {
	if b.dying == "" {
		b.dying = why
		b.dyingAt = simrt.WorkTime()
	}
}

func (b *bot) push(c *bch, ch *simdiscord.Channel, log []simdiscord.Sent) {
	e := c.p.Events[c.next]
	c.next++
	if len(c.p.Gap) > 0 {
		c.nextAt = simrt.SimTime() + time.Duration(c.p.Gap[c.next%len(c.p.Gap)])*time.Millisecond
	}
	c.nmsg++
	user := chat.User{ID: chat.UserID("u" + e.Nick), Nick: e.Nick, DisplayName: e.Nick, Channel: ch}
	msg := chat.Message{ID: b.id(c.nmsg), From: &user, Text: e.Text}
	if e.NoFrom {
		msg.From = nil
	}
	switch e.Kind {
	case "msg":
		b.command(c, e.Nick, e.NoFrom, e.Text)
		c.push(ch, msg)
	case "reply":
		msg.ReplyTo = &chat.Message{ID: "m1", From: &user, Text: plan.Prefix + " jai?"}
		b.command(c, e.Nick, e.NoFrom, e.Text)
		c.push(ch, msg)
	case "echo":
		// The bot's own latest reply comes back.
		if len(log) > 0 {
			msg.Text = log[len(log)-1].Text
			msg.ID = log[len(log)-1].Msg.ID
			user.Nick, user.DisplayName, user.ID = "toaqbot", "toaqbot", "bot"
			if _, is := plan.Command(user.Nick, false, msg.Text); is {
				return
			}
			c.push(ch, msg)
			b.Probe("echo")
		}
	case "edit":
		c.push(ch, chat.Edit{OrigID: b.id(1 + c.nmsg/2), New: msg})
		b.Probe("edit")
	case "delete":
		c.push(ch, chat.Delete{ID: b.id(1 + c.nmsg/2), Channel: ch})
	case "join":
		c.push(ch, chat.Join{Who: user})
	case "leave":
		c.push(ch, chat.Leave{Who: user})
	case "rename":
		to := user
		to.Nick = e.Text
		c.push(ch, chat.Rename{From: user, To: to})
	}
}

func (b *bot) command(c *bch, nick string, noFrom bool, text string) {
	t, is := plan.Command(nick, noFrom, text)
	if !is {
		if b.Spec.Prop == "C09" {
			b.Res.Nontrivial++
		}
		return
	}
	r := b.refs[t]
	if r == nil {
		panic(fmt.Sprintf("world: no reference for %q", t))
	}
	if r.Kind == "panic" {
		b.natural = true
	}
	for _, o := range b.chs {
		if o != c && o.ch != nil {
			if _, _, _, _, _, l := o.ch.State(); len(l) < len(o.wants) {
				b.Res.Nontrivial++
				break
			}
		}
	}
	c.wants = append(c.wants, want{t, r, simrt.WorkTime()})
	if c.failed && !c.stallS && !c.stallR {
		b.die(fmt.Sprintf("sending to channel %s fails", c.p.Name))
	}
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "…"
	}
	return s
}

// ok tells whether a reply answers a command; injected counts separately.
func (b *bot) ok(w want, got string) (bool, string) {
	r := w.ref
	if r.Kind == "crash" {
		// The library panics on it: one reply, whatever it is.
		b.Probe("parser-panic")
		return true, ""
	}
	if r.Kind != "panic" && r.BotReply.Is(got) {
		return true, ""
	}
	if r.Kind == "error" {
		return false, "syntax error " + r.Err
	}
	pre := r.Braces
	if pre != "" {
		pre += "\n"
	}
	if r.Kind == "panic" {
		if !strings.HasPrefix(got, pre) {
			return false, pre + "(a notice of the failure " + r.PanicMsg + ")"
		}
		rest := got[len(pre):]
		if plan.NamesBug(rest, r.PanicMsg) || plan.NamesInjected(rest) {
			if r.PanicMsg == "" || !strings.Contains(rest, r.PanicMsg) {
				b.maybe++
			}
			return true, ""
		}
		return false, pre + "(a notice of the failure " + r.PanicMsg + ")"
	}
	if strings.HasPrefix(got, pre) && plan.NamesInjected(got[len(pre):]) && b.bugs < b.injected() {
		b.bugs++
		return true, ""
	}
	return false, r.BotReply.Pre
}

func (b *bot) injected() int {
	n := 0
	for k, v := range simrt.Injected {
		if strings.HasPrefix(k, "panic:") {
			n += v
		}
	}
	return n
}

// judge compares what each channel got with what it is due.
func (b *bot) judge() {
	for _, c := range b.chs {
		ch := b.channel(c)
		if ch == nil {
			continue
		}
		_, _, _, _, _, log := ch.State()
		for ; c.judged < len(log); c.judged++ {
			s := log[c.judged]
			b.Res.Checked++
			if s.Op != "send" {
				b.Violate("spurious", fmt.Sprintf("channel %s: the bot did %s %q", c.p.Name, s.Op, clip(s.Text)), "C09", "C06")
				continue
			}
			if c.judged >= len(c.wants) {
				b.Violate("spurious", fmt.Sprintf("channel %s: reply %d is %q but only %d commands were given there", c.p.Name, c.judged+1, clip(s.Text), len(c.wants)), "C06", "C09", "C07")
				continue
			}
			w := c.wants[c.judged]
			if ok, exp := b.ok(w, s.Text); !ok {
				props := []string{"C07"}
				if len(b.Spec.Sched.Panics) > 0 || w.ref.Kind == "panic" {
					props = append(props, "C04")
				}
				// Is it the answer to another command of this or another channel?
				for _, o := range b.chs {
					for k, v := range o.wants {
						if v.ref != w.ref && v.ref.BotReply.Is(s.Text) && (o != c || k != c.judged) {
							props = append(props, "C06")
							o = nil
							break
						}
					}
					if o == nil {
						break
					}
				}
				if ev := b.bridged(c, w); ev {
					props = append(props, "C09")
				}
				b.Violate("wrong-reply", fmt.Sprintf("channel %s: reply %d to command %q is %q, want %q", c.p.Name, c.judged+1, clip(w.text), clip(s.Text), clip(exp)), props...)
			}
			if d := simrt.WorkTime() - w.at; d > time.Second && !c.stallS && !c.stallR && !b.resumed && b.anyStalled() {
				b.Violate("delayed", fmt.Sprintf("channel %s: command %q was answered after %v, while another channel stalled", c.p.Name, clip(w.text), d), "C19")
			}
			if b.anyStalled() && !c.stallS && !c.stallR {
				b.Probe("answered-during-stall")
				b.Res.Nontrivial++
			}
		}
	}
}

func (b *bot) bridged(c *bch, w want) bool {
	for _, e := range c.p.Events {
		if e.Nick == plan.BridgeNick || strings.Contains(e.Text, ": ") {
			return true
		}
	}
	return false
}

func (b *bot) anyStalled() bool {
	for _, c := range b.chs {
		if c.stallS || c.stallR {
			return true
		}
	}
	return false
}

func (b *bot) pending() bool {
	for _, c := range b.chs {
		if c.ch == nil {
			return true
		}
		for k := range b.p.Faults {
			if f := &b.p.Faults[k]; !b.fdone[k] && f.Chan == c.i && f.After <= len(c.p.Events) && !(b.resumed && strings.HasPrefix(f.Kind, "stall")) {
				return true
			}
		}
		if c.next < len(c.p.Events) {
			return true
		}
		if (c.stallS || c.stallR) && !b.resumed {
			continue
		}
		received, queued, waiting, _, _, log := c.ch.State()
		_ = received
		if len(log) < len(c.wants) || queued > 0 || waiting == 0 {
			return true
		}
	}
	return false
}

func (b *bot) loop(phase string) {
	b.phase = phase
	var waited time.Duration
	last := -1
	simrt.Loop(b.env, func() bool { b.judge(); return b.dying != "" || !b.pending() }, func() time.Duration {
		n := 0
		now := simrt.SimTime()
		next := time.Duration(-1)
		for _, c := range b.chs {
			n += c.next + c.judged
			if c.next < len(c.p.Events) && c.nextAt > now && (next < 0 || c.nextAt-now < next) {
				next = c.nextAt - now
			}
		}
		if n != last {
			last, waited = n, 0
		}
		if waited > 30*time.Second {
			return next // an event is still due, or -1
		}
		d := 50 * time.Millisecond
		if waited > time.Second {
			d = time.Second
		}
		if next > 0 && next < d {
			d = next
		}
		waited += d
		return d
	})
	b.judge()
	if simrt.Exited && b.dying == "" {
		ps := []string{"C06"}
		if len(b.Spec.Sched.Panics) > 0 || b.natural {
			ps = append(ps, "C04")
		}
		if b.anyStalled() || b.resumed {
			ps = append(ps, "C19")
		}
		if b.Spec.Prop == "C07" || b.Spec.Prop == "C09" {
			ps = append(ps, b.Spec.Prop)
		}
		b.Violate("bot-exit", fmt.Sprintf("%s: the bot exited (status %d) although its transport is fine: %s", phase, simrt.ExitCode, clip(simrt.Crash+string(tail(simos.StdoutV.Buf)))), ps...)
		return
	}
	if b.dying == "" && b.pending() && !simrt.Exited {
		b.unanswered(phase)
	}
}

func tail(s []byte) []byte {
	if len(s) > 200 {
		return s[len(s)-200:]
	}
	return s
}

func (b *bot) unanswered(phase string) {
	for _, c := range b.chs {
		if c.ch == nil {
			b.Violate("unanswered", fmt.Sprintf("%s: channel %s was never joined", phase, c.p.Name), "C06")
			continue
		}
		if (c.stallS || c.stallR) && !b.resumed {
			continue
		}
		_, queued, _, insend, _, log := c.ch.State()
		if len(log) < len(c.wants) {
			ps := []string{"C06"}
			if len(b.Spec.Sched.Panics) > 0 || c.wants[len(log)].ref.Kind == "panic" {
				ps = append(ps, "C04")
			}
			if b.anyStalled() || b.resumed {
				ps = append(ps, "C19")
			}
			if b.bridged(c, c.wants[len(log)]) {
				ps = append(ps, "C09")
			}
			b.Violate("unanswered", fmt.Sprintf("%s: channel %s: %d commands, %d replies, %d events not received, %d sends in progress; next unanswered command %q", phase, c.p.Name, len(c.wants), len(log), queued, insend, clip(c.wants[len(log)].text)), ps...)
		} else if queued > 0 {
			ps := []string{"C06"}
			if b.anyStalled() || b.resumed {
				ps = append(ps, "C19")
			}
			b.Violate("unanswered", fmt.Sprintf("%s: channel %s: the bot no longer receives (%d events waiting)", phase, c.p.Name, queued), ps...)
		}
	}
}

func run(w *world.W) {
	b := &bot{W: w, p: w.Spec.Bot, refs: map[string]*plan.Ref{}}
	for i := range w.Spec.Texts {
		b.refs[w.Spec.Texts[i].Text] = &w.Spec.Texts[i]
	}
	b.fdone = make([]bool, len(b.p.Faults))
	b.recvErr = errors.New("websocket: close 1006 (abnormal closure)")
	b.sendErr = errors.New("500 Internal Server Error")
	if b.p.EOF {
		b.recvErr = io.EOF
	}
	var names []string
	for i := range b.p.Chans {
		b.chs = append(b.chs, &bch{i: i, p: &b.p.Chans[i]})
		names = append(names, b.p.Chans[i].Name)
	}
	os.Setenv("DISCORD_TOKEN", "token")
	os.Setenv("DISCORD_SERVER", "toaq")
	os.Setenv("DISCORD_CHANS", strings.Join(names, ","))
	os.Args = []string{"bot"}
	if b.p.DialErr {
		simdiscord.DialErr = errors.New("401 Unauthorized")
		w.Fault("dial")
	}
	if b.p.JoinErr >= 0 {
		simdiscord.JoinErr[names[b.p.JoinErr]] = errors.New("not found")
		w.Fault("join")
	}
	simrt.Spawn("main", func() { simmain.SimMain(); simos.Exit(0) })

	if b.p.DialErr || b.p.JoinErr >= 0 {
		why := "it cannot dial"
		if !b.p.DialErr {
			why = "it cannot join " + names[b.p.JoinErr]
		}
		b.die(why)
		b.phase = "start"
		world.Settle(30 * time.Second)
		b.mustHaveFailed(why)
		return
	}
	if b.p.Rounds > 0 {
		b.rounds()
		return
	}
	b.loop("main phase")
	if b.dying == "" && !simrt.Exited && b.anyStalled() {
		if b.p.StallMS > 0 {
			world.Settle(time.Duration(b.p.StallMS) * time.Millisecond)
			w.Fault("clock-advance")
		}
		b.resumed = true
		for _, c := range b.chs {
			if c.ch != nil {
				c.ch.StallSend(false)
				simrt.Rest()
				c.ch.StallReceive(false)
				simrt.Rest()
			}
		}
		b.loop("after the stalled channel resumed")
	}
	if b.dying != "" {
		world.Settle(30 * time.Second)
		b.judge()
		b.mustHaveFailed(b.dying)
		return
	}
	if simrt.Exited {
		return
	}
	world.Settle(2 * time.Second)
	b.judge()
	if simrt.Exited {
		b.Violate("bot-exit", "the bot exited after the last command", "C06")
		return
	}
	if n := b.injected(); b.bugs+b.maybe < n {
		b.Violate("swallowed", fmt.Sprintf("%d interpreter failures were injected but only %d replies name a bug", n, b.bugs+b.maybe), "C04")
	}
}

// rounds: the same things happen again and again.
func (b *bot) rounds() {
	world.Settle(time.Minute)
	us := []world.Usage{b.Held()}
	for n := 1; n <= b.p.Rounds && !simrt.Exited && b.dying == ""; n++ {
		b.resumed = false
		for _, c := range b.chs {
			c.next, c.nextAt = 0, 0
			c.stallS, c.stallR = false, false
		}
		for k := range b.fdone {
			b.fdone[k] = false
		}
		b.loop(fmt.Sprintf("round %d", n))
		if b.anyStalled() && !simrt.Exited {
			b.resumed = true
			for _, c := range b.chs {
				if c.ch != nil {
					c.ch.StallSend(false)
					simrt.Rest()
					c.ch.StallReceive(false)
					simrt.Rest()
				}
			}
			b.loop(fmt.Sprintf("round %d, stalled channels resumed", n))
		}
		world.Settle(10 * time.Minute)
		b.judge()
		us = append(us, b.Held())
	}
	if !simrt.Exited {
		b.Leaks(us, nil)
	}
}

func (b *bot) mustHaveFailed(why string) {
	b.Res.Checked++
	b.Res.Nontrivial++
	switch {
	case !simrt.Exited:
		b.Violate("deaf", "the bot is still running 30 simulated seconds after: "+why, "C08")
	case simrt.Crash != "":
	case simrt.ExitCode == 0:
		b.Violate("exit-status", "the bot exited with status 0 although "+why, "C08")
	case len(simos.StdoutV.Buf)+len(simos.StderrV.Buf) == 0:
		b.Violate("silent", "the bot exited without reporting that "+why, "C08")
	}
}
