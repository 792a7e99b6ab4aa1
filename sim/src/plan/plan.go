// Package plan holds the specification of one simulated run and its result.
// It is shared by the driver, which generates and minimises specifications,
// and the worlds, which execute them.
package plan

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"
	"unicode/utf8"
)

// Preempt is one forced switch: task T is preempted at its N-th yield.
type Preempt struct {
	T int `json:"t"`
	N int `json:"n"`
}

// Config says how to schedule one run.
type Config struct {
	Seed     uint64      `json:"seed"`
	MeanRun  int         `json:"mean_run"` // mean number of yields between preemptions; 0: never
	HotP     int         `json:"hot_p"`    // preempt at 1 in HotP of the yields that touch shared state; 0: never
	EnvBias  int         `json:"env_bias"` // out of 100: how often an environment action is preferred to a task
	MaxSteps uint64      `json:"max_steps,omitempty"`
	Replay   bool        `json:"replay,omitempty"`
	Preempts []Preempt   `json:"preempts,omitempty"`
	Picks    []string    `json:"picks,omitempty"`
	Panics   []PanicPlan `json:"panics,omitempty"`
	Pauses   []Pause     `json:"pauses,omitempty"`
}

// Pause stops the whole program at its first step from the At-th on, while the
// clock runs for MS milliseconds: a slow machine, a long collection, a laptop
// that sleeps. Pauses are in the order of At.
type Pause struct {
	At uint64 `json:"at"`
	MS int    `json:"ms"`
}

// PanicPlan injects a panic of the given kind at the N-th yield
// (counted from the scope's entry) of the K-th entry to the named scope.
type PanicPlan struct {
	Scope string `json:"scope"`
	K     int    `json:"k"`
	N     int    `json:"n"`
	Kind  string `json:"kind"`
}

// FSFault strikes the At-th file operation (from 0).
type FSFault struct {
	At   int    `json:"at"`
	Kind string `json:"kind"` // an errno name, kill, kill-after, torn (write a part, then kill), short (write a part, then fail)
	Arg  int    `json:"arg,omitempty"`
}

// FH is the fingerprint of a string.
type FH struct {
	H   string `json:"h"`
	N   int    `json:"n"`
	Pre string `json:"pre,omitempty"`
}

// Hash fingerprints a string.
func Hash(s string) FH {
	h := sha256.Sum256([]byte(s))
	p := s
	if len(p) > 160 {
		p = p[:160]
	}
	return FH{H: hex.EncodeToString(h[:12]), N: len(s), Pre: strings.ToValidUTF8(p, "?")}
}

// Is tells whether s has the fingerprint.
func (f FH) Is(s string) bool {
	if len(s) != f.N {
		return false
	}
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:12]) == f.H
}

// WordRef is the result of parsing a word at an offset.
type WordRef struct {
	Off  int    `json:"off"`
	Err  string `json:"err,omitempty"`
	EOff int    `json:"eoff,omitempty"`
	Fail FH     `json:"fail,omitempty"`
	N    int    `json:"n,omitempty"`
	Dump FH     `json:"dump,omitempty"`
}

// Ref is what the library computes for a text, alone in a fresh process.
type Ref struct {
	Text     string    `json:"text"`
	Err      string    `json:"err,omitempty"`
	HasErr   bool      `json:"has_err,omitempty"`
	ErrOff   int       `json:"err_off,omitempty"`
	Fail     FH        `json:"fail,omitempty"`
	Braces   string    `json:"braces_s,omitempty"`
	BracesH  FH        `json:"braces"`
	AST      FH        `json:"ast"`
	Str      FH        `json:"str"`
	Parse    FH        `json:"parse"`
	Kind     string    `json:"kind"` // error, fragment, stmt, panic
	Pretty   FH        `json:"pretty,omitempty"`
	PrettyS  string    `json:"pretty_s,omitempty"`
	LogicStr FH        `json:"logic_str,omitempty"`
	PanicMsg string    `json:"panic_msg,omitempty"`
	PanicStr bool      `json:"panic_str,omitempty"`
	TextDump FH        `json:"text_dump,omitempty"`
	TreeDump FH        `json:"tree_dump,omitempty"`
	StmtDump FH        `json:"stmt_dump,omitempty"`
	NillDump FH        `json:"nill_dump,omitempty"`
	LVisit   FH        `json:"lvisit,omitempty"`
	Dict     FH        `json:"dict"`
	Words    []WordRef `json:"words,omitempty"`
	BotReply FH        `json:"bot_reply"`
	CLIOut   FH        `json:"cli_out"`
	CLIErr   string    `json:"cli_err,omitempty"` // last line printed on a syntax error
	Tones    FH        `json:"tones"`
	Visit    FH        `json:"visit,omitempty"`
	Self     bool      `json:"self,omitempty"` // Equal(text, text)
}

const rawMark = "\x01base64:"

// JSON cannot carry strings that are not UTF-8.
func toJSON(s string) string {
	if utf8.ValidString(s) && !strings.HasPrefix(s, rawMark) {
		return s
	}
	return rawMark + base64.StdEncoding.EncodeToString([]byte(s))
}

func fromJSON(s string) string {
	if !strings.HasPrefix(s, rawMark) {
		return s
	}
	b, _ := base64.StdEncoding.DecodeString(s[len(rawMark):])
	return string(b)
}

type (
	refJSON  Ref
	wordJSON WordRef
)

func (r *Ref) strs() []*string {
	return []*string{&r.Text, &r.Err, &r.Braces, &r.PrettyS, &r.PanicMsg, &r.CLIErr}
}

func (r Ref) MarshalJSON() ([]byte, error) {
	for _, p := range r.strs() {
		*p = toJSON(*p)
	}
	return json.Marshal(refJSON(r))
}

func (r *Ref) UnmarshalJSON(b []byte) error {
	if err := json.Unmarshal(b, (*refJSON)(r)); err != nil {
		return err
	}
	for _, p := range r.strs() {
		*p = fromJSON(*p)
	}
	return nil
}

func (r WordRef) MarshalJSON() ([]byte, error) {
	r.Err = toJSON(r.Err)
	return json.Marshal(wordJSON(r))
}

func (r *WordRef) UnmarshalJSON(b []byte) error {
	if err := json.Unmarshal(b, (*wordJSON)(r)); err != nil {
		return err
	}
	r.Err = fromJSON(r.Err)
	return nil
}

// Spec is one simulated run, complete: nothing else decides what happens.
type Spec struct {
	World   string            `json:"world"`
	Prop    string            `json:"prop"`
	Seed    uint64            `json:"seed"`
	MapSeed uint64            `json:"map_seed"`
	Env     map[string]string `json:"env,omitempty"`
	Race    bool              `json:"race,omitempty"`
	Sched   Config            `json:"sched"`
	Texts   []Ref             `json:"texts"`
	KeepLog bool              `json:"keep_log,omitempty"`
	// Prior are earlier lives of the program in the same directory and
	// environment, each ended by being killed; this one comes last.
	Prior  []Spec    `json:"prior,omitempty"`
	Life   int       `json:"life,omitempty"`    // how many lives came before
	KillAt int       `json:"kill_at,omitempty"` // kill at this many program steps (0: at the end)
	FS     []FSFault `json:"fs,omitempty"`
	Srv    *Srv      `json:"srv,omitempty"`
	Bot    *Bot      `json:"bot,omitempty"`
	Cli    *Cli      `json:"cli,omitempty"`
	Dict   *Dict     `json:"dict,omitempty"`
	Gen    *Gen      `json:"gen,omitempty"`
	Lib    *Lib      `json:"lib,omitempty"`
	Mem    bool      `json:"mem,omitempty"` // count the objects in use (C21)
}

// Violation is a broken property.
type Violation struct {
	Props []string `json:"props"`
	Kind  string   `json:"kind"`
	Msg   string   `json:"msg"`
}

// Result is what one run reports.
type Result struct {
	OK         bool           `json:"ok"` // the world ran to its end
	Violations []Violation    `json:"violations,omitempty"`
	LogHash    string         `json:"log_hash"`
	SchedHash  string         `json:"sched_hash"`
	Steps      uint64         `json:"steps"`
	Switches   int            `json:"switches"`
	Hot        int            `json:"hot"`
	Sites      int            `json:"sites"`
	Tasks      int            `json:"tasks"`
	SimMS      int64          `json:"sim_ms"`
	Checked    int            `json:"checked"`    // oracle comparisons made
	Nontrivial int            `json:"nontrivial"` // comparisons whose outcome could have gone wrong: overlapped or faulted
	Faults     map[string]int `json:"faults,omitempty"`
	Probes     map[string]int `json:"probes,omitempty"`
	Preempts   []Preempt      `json:"preempts,omitempty"`
	Picks      []string       `json:"picks,omitempty"`
	Log        []string       `json:"log,omitempty"`
	FSOps      int            `json:"fs_ops,omitempty"`
}

// ---- web server ----

// Srv is a run of the web server.
type Srv struct {
	Conns     []SConn  `json:"conns"`
	Files     []FileOp `json:"files,omitempty"`
	Templates []string `json:"templates,omitempty"`
	Fonts     []Font   `json:"fonts,omitempty"`
	Port      string   `json:"port,omitempty"`
	ListenErr string   `json:"listen_err,omitempty"`
	Accept    []Accept `json:"accept,omitempty"`
	Dead      string   `json:"dead,omitempty"` // a permanent accept failure
	DeadAfter int      `json:"dead_after,omitempty"`
	Resume    bool     `json:"resume,omitempty"`  // stalled clients resume at the end
	IdleMS    int      `json:"idle_ms,omitempty"` // how long the clock runs before they do
	// Flood repeats the last phase: after everything, Probe requests check service.
	ProbeTexts []int `json:"probe_texts,omitempty"`
	// Rounds: the clients come this many times, and hang up in between.
	Rounds int  `json:"rounds,omitempty"`
	HangUp bool `json:"hang_up,omitempty"` // they reset their connections instead of ending them
}

// Font is a file to serve.
type Font struct {
	Name string `json:"name"`
	Size int    `json:"size"`
}

// Accept is a transient accept failure before the After-th connection.
type Accept struct {
	After int    `json:"after"`
	Err   string `json:"err"`
}

// FileOp changes the template.
type FileOp struct {
	Op  string `json:"op"` // put, remove, dir, loop; font, remove with a name
	Arg int    `json:"arg"`
	// Name is the font file it changes; empty for the template.
	Name string `json:"name,omitempty"`
	// Keep gives the file the modification time of the one before it.
	Keep bool `json:"keep,omitempty"`
	// After is the number of requests finished before it is enabled.
	After int `json:"after"`
}

// SConn is one client connection.
type SConn struct {
	Reqs     []SReq `json:"reqs"`
	MaxRead  int    `json:"max_read,omitempty"`
	Pipeline bool   `json:"pipeline,omitempty"`
	// SlowRead: the client does not read its replies (buffer of N bytes) until resumed.
	SlowRead int `json:"slow_read,omitempty"`
	// After is the number of requests finished before the client connects.
	After int `json:"after,omitempty"`
}

// SReq is one request.
type SReq struct {
	Method  string   `json:"method"`
	Path    string   `json:"path"`
	Text    int      `json:"text"` // index into Texts; -1: none
	Chunked []int    `json:"chunked,omitempty"`
	Wire    []int    `json:"wire,omitempty"`  // sizes of the pieces on the wire
	Fault   string   `json:"fault,omitempty"` // eof, reset, stall, badchunk, abort (after the whole request)
	Cut     int      `json:"cut,omitempty"`   // bytes of the request that arrive before the fault
	HTTP10  bool     `json:"http10,omitempty"`
	Expect  bool     `json:"expect,omitempty"`
	Range   string   `json:"range,omitempty"`
	CType   string   `json:"ctype,omitempty"`
	Hdr     []string `json:"hdr,omitempty"`     // further header lines
	Trailer bool     `json:"trailer,omitempty"` // chunk extensions and a trailer
	Raw     string   `json:"raw,omitempty"`     // a malformed request sent as is
}

// ---- bot ----

// Bot is a run of the chat bot.
type Bot struct {
	Chans   []BChan  `json:"chans"`
	DialErr bool     `json:"dial_err,omitempty"`
	JoinErr int      `json:"join_err"` // index of the channel that cannot be joined; -1: none
	Faults  []BFault `json:"faults,omitempty"`
	StallMS int      `json:"stall_ms,omitempty"` // how long the clock runs before stalled channels resume
	EOF     bool     `json:"eof,omitempty"`      // receiving fails with io.EOF
	Rounds  int      `json:"rounds,omitempty"`   // the events happen this many times
}

type BChan struct {
	Name   string   `json:"name"`
	Events []BEvent `json:"events"`
	// Gap: the simulated milliseconds before each event (cycled).
	Gap []int `json:"gap,omitempty"`
	// Burst: events are queued without waiting for replies.
	Burst bool `json:"burst,omitempty"`
}

// BEvent is something that happens on a channel.
type BEvent struct {
	Kind   string `json:"kind"` // msg, edit, delete, join, leave, rename, echo
	Nick   string `json:"nick,omitempty"`
	Text   string `json:"text,omitempty"`
	NoFrom bool   `json:"no_from,omitempty"`
}

// BFault strikes a channel once After events have been delivered to it.
type BFault struct {
	Chan  int    `json:"chan"`
	After int    `json:"after"`
	Kind  string `json:"kind"` // recv, send, stall-send, stall-recv
}

const (
	Prefix     = ".miu"
	BridgeNick = "ToaqBridgeBot"
)

// Command tells whether a message is a command, and the text it asks about.
func Command(nick string, noFrom bool, text string) (string, bool) {
	if !noFrom && nick == BridgeNick {
		if i := strings.Index(text, ": "); i >= 0 {
			text = text[i+2:]
		}
	}
	if !strings.HasPrefix(text, Prefix) {
		return "", false
	}
	return strings.TrimSpace(text[len(Prefix):]), true
}

// ---- command line ----

// Cli is a run of the command-line program.
type Cli struct {
	Text    int       `json:"text"`
	File    string    `json:"file,omitempty"` // "": standard input; otherwise the name of the argument
	Missing bool      `json:"missing,omitempty"`
	IsDir   bool      `json:"is_dir,omitempty"`
	Chunks  []int     `json:"chunks,omitempty"`
	ReadErr string    `json:"read_err,omitempty"` // instead of the end of the input, after Cut bytes
	Cut     int       `json:"cut,omitempty"`
	OutErr  string    `json:"out_err,omitempty"`
	OutAt   int       `json:"out_at"` // permille of the expected output after which writing fails; -1: never
	OutOnce bool      `json:"out_once,omitempty"`
	FS      []FSFault `json:"fs,omitempty"`
}

// ---- dictionary ----

// Entry is one dictionary entry as served.
type Entry struct {
	Head  string `json:"head"`
	Body  string `json:"body"`
	By    string `json:"by"`
	Score int    `json:"score"`
	Key   string `json:"key"` // the headword in lower case without tones
	// Omit: bit 0 the definition, 1 the author and 2 the score are left
	// out; with bit 3 they are null instead.
	Omit int `json:"omit,omitempty"`
}

// Fields are the definition, author and score the entry stands for.
func (e *Entry) Fields() (body, by string, score int) {
	body, by, score = e.Body, e.By, e.Score
	if e.Omit&1 != 0 {
		body = ""
	}
	if e.Omit&2 != 0 {
		by = ""
	}
	if e.Omit&4 != 0 {
		score = 0
	}
	return
}

// JSON renders the entry as the service does.
func (e *Entry) JSON(i int) string {
	var b strings.Builder
	fmt.Fprintf(&b, `{"id":"x%d","head":%s`, i, Quote(e.Head))
	put := func(bit int, name, v string) {
		if e.Omit&bit != 0 {
			if e.Omit&8 == 0 {
				return
			}
			v = "null"
		}
		fmt.Fprintf(&b, `,"%s":%s`, name, v)
	}
	put(1, "body", Quote(e.Body))
	put(2, "by", Quote(e.By))
	put(4, "score", fmt.Sprint(e.Score))
	b.WriteString(`,"notes":[]}`)
	return b.String()
}

// Reply is what the service answers to one request.
type Reply struct {
	Kind    string  `json:"kind"` // ok, or a malformation (see Body)
	Entries []Entry `json:"entries,omitempty"`
	Status  int     `json:"status"`
	Wire    []int   `json:"wire,omitempty"`
	Chunked bool    `json:"chunked,omitempty"`
	Fault   string  `json:"fault,omitempty"` // refuse, eof, reset, delay
	Cut     int     `json:"cut,omitempty"`   // permille of the reply's body delivered before the fault
	Close   bool    `json:"close,omitempty"`
	Extra   string  `json:"extra,omitempty"` // extra members of the reply object
	ErrMsg  string  `json:"err_msg,omitempty"`
	Shuffle bool    `json:"shuffle,omitempty"` // put data before success
	DelayMS int     `json:"delay_ms,omitempty"`
}

// Dict is a run of several loads.
type Dict struct {
	Loads []Load `json:"loads"`
	// Rounds: the loads are made this many times.
	Rounds int `json:"rounds,omitempty"`
}

// Load is one caller.
type Load struct {
	Task   int    `json:"task"`
	Reply  Reply  `json:"reply"`
	Host   string `json:"host,omitempty"` // svc.sim if empty
	Query  string `json:"query"`
	Mutate bool   `json:"mutate,omitempty"` // the caller changes its result afterwards
}

// Gen is a run of the dictionary generator.
type Gen struct {
	Reply  Reply     `json:"reply"`
	Old    string    `json:"old"` // contents of the previous output; "-": none; "=": what an earlier life left
	NoDir  bool      `json:"no_dir,omitempty"`
	FS     []FSFault `json:"fs,omitempty"`
	Rel    bool      `json:"rel,omitempty"`     // relative output path
	KillAt int       `json:"kill_at,omitempty"` // kill at this many program steps (0: never)
}

// ---- library ----

// Lib is a run of the library by concurrent callers.
type Lib struct {
	Tasks  [][]LibOp `json:"tasks"`
	Shared []int     `json:"shared,omitempty"` // texts whose ASTs and formulas are shared by all tasks
}

// LibOp is one call.
type LibOp struct {
	Op     string `json:"op"`
	Text   int    `json:"text"`
	Off    int    `json:"off,omitempty"`
	Parser int    `json:"parser,omitempty"` // reuse the task's parser of that number for the text
	Mutate string `json:"mutate,omitempty"` // what to do with the result
	Arg    int    `json:"arg,omitempty"`
}

// ReplyBody renders the body of a reply.
func ReplyBody(r *Reply) string {
	data := func() string {
		var b strings.Builder
		b.WriteByte('[')
		for i, e := range r.Entries {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(e.JSON(i))
		}
		b.WriteByte(']')
		return b.String()
	}
	switch r.Kind {
	case "ok":
		if r.Shuffle {
			return `{"data":` + data() + r.Extra + `,"success":true}`
		}
		return `{"success":true,"data":` + data() + r.Extra + `}`
	case "fail":
		return `{"success":false,"error":` + Quote(r.ErrMsg) + `}`
	case "fail-data": // an error reply that nevertheless carries data
		return `{"success":false,"error":` + Quote(r.ErrMsg) + `,"data":` + data() + `}`
	case "fail-nomsg":
		return `{"success":false}`
	case "fail-nullmsg":
		return `{"success":false,"error":null}`
	case "nodata":
		return `{"success":true}`
	case "nulldata":
		return `{"success":true,"data":null}`
	case "objdata":
		return `{"success":true,"data":{"head":"a"}}`
	case "strdata":
		return `{"success":true,"data":"abc"}`
	case "badscore":
		return `{"success":true,"data":[{"head":"a","body":"b","by":"c","score":"many"},` + strings.TrimPrefix(data(), "[") + `}`
	case "badhead":
		return `{"success":true,"data":[{"head":{},"body":"b","by":"c","score":1}]}`
	case "empty":
		return ``
	case "null":
		return `null`
	case "array":
		return data()
	case "html":
		return `<html><body>502 Bad Gateway</body></html>`
	case "garbage":
		return "\x00\x01\x02{{{"
	case "emptyobj":
		return `{}`
	case "number":
		return `12`
	}
	return r.Kind
}

// Quote is a JSON string literal.
func Quote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r < 0x20:
			fmt.Fprintf(&b, `\u%04x`, r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// InjectedTexts are the printed values of the injected panics.
var InjectedTexts = []string{"injected failure 7", "{7}", "nil map", "index out of range", "nil pointer dereference", "interface conversion"}

// NamesBug tells whether a notice names an interpreter failure.
func NamesBug(got, msg string) bool {
	if got == "" || got == "fragment" {
		return false
	}
	l := strings.ToLower(got)
	return strings.Contains(l, "bug") || strings.Contains(l, "panic") || (msg != "" && strings.Contains(got, msg))
}

// NamesInjected tells whether a notice names an injected failure.
func NamesInjected(got string) bool {
	if got == "" || got == "fragment" {
		return false
	}
	if NamesBug(got, "") {
		return true
	}
	for _, t := range InjectedTexts {
		if strings.Contains(got, t) {
			return true
		}
	}
	return false
}

// At is the host that the load asks.
func (l *Load) At() string {
	if l.Host == "" {
		return "svc.sim"
	}
	return l.Host
}
