package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"verif/src/plan"
)

// base texts: every construct of the grammar, fragments, syntax errors,
// texts on which the interpreter panics, and odd bytes.
var baseTexts = []string{
	"jai? suq/", "hio? ji/ maiV ru pai?", "to ru hio? na to jai?", "kui? jai^ ru pai? ji/",
	"sa do/ bi gi? do/", "mi? toaq? ga", "mo? hio? teo", "lu? hoa? ji/", "hio? ti\\ ni/ ru kui\\ ji/",
	"ni~chaq- bi fa? ji/", "kio hio? ki", "hu mi/ hoaq? ga", "ju hio? na", "go ji/ pa choaq?",
	"ji/ roi suq/ pa deoq?", "ma? cho? moq?", ".—(hio?    )!!ji/«]", "bei", "", " ", "  q", "jảı súq",
	"jai? suq/ ji/", "jai? sa do/", "deoq? ji/ suq/", "choaq? tu deo/", "gi? do/", "hoaq? ji/ ni/",
	"kuq? ji/ mo jai? suq/ teo", "dua? ji/ keo jai^ suq/", "mai? ji/ suq/ na", "Jai? suq/", "JAI? SUQ/",
	"jai?  suq/", "jai? suq/ ", "jai? suq", "jai? suq/ q", "jai? suq/\n", "jai?\tsuq/",
	"hio? ru jai? ji/", "hio? ra jai? ji/", "ji/ ru suq/", "sa do/", "ru", "na", "xx", "?", "jai", "~", "\x00", "\xff\xfe", "jai? \xc3\x28", "jai? suq/ \xff", "\xed\xa0\x80 jai?",
	"jai? súq/", "jảı? suq/", "ꝡaı", "da", "moq", "jai? suq/ da", "jai? suq/ moq", "jai? suq/ doa",
	"fa? ji/ na hio? suq/", "to ru jai? suq/ to hio? ji/", "bi", "ji/ bi jai? suq/", "sa do/ bi tu toaq/ bi gi? do/",
	"jai? suq/ hu ji/", "tu jai/ bi gi? jai/", "ke jai/ bi gi? jai/", "shi poq/ bi gi? poq/", "sia poq/ bi gi? poq/", "hi poq/ bi gi? poq/", "co poq/ bi gi? poq/",
	"jai^ suq/", "jaiV suq/", "jai\\ suq/", "jai~ suq/", "jai- suq/", "jai/ suq/", "jai? jai^ suq/", "kuaq^ jai? suq/",
	"jai? suq/ kio hio? ki", "kio hio? ki jai? suq/", "jai? ju hio? na suq/", "jai? mi? toaq? ga", "jai? mi/ toaq? ga",
	"la jai? suq/", "ma jai? suq/", "jai? lu/ hoa? ji/", "jai? luV hoa? ji/", "jai? lu^ hoa? ji/", "mo jai? teo", "mo/ jai? teo",
	"jai? ru hio? ra deoq? ji/", "jai? ji/ ru suq/ ra ni/", "jai? sa do/ ru sa deo/", "jai? roi hio? ji/",
	"to ru sa do/ to ji/ gi?", "jai? to ru ji/ to suq/", "to ra to ru jai? to hio? to deoq?",
	"jai?suq/", "jaisuq", "j", "a", "ai?", "suq/ jai?", "ji/ jai? suq/", "sa jai/ bi", "sa", "bi bi", "ga", "ki", "teo",
	"jai?\r\nsuq/\r\n", "jai?\rsuq/", "\ufeffjai? suq/", "jai?+suq/", "jai%3F%20suq/", "text=jai?+suq/&x=1", "{\"text\":\"jai? suq/\"}", "jai? <b>suq/</b>", "jai? &amp; suq/", "jai? suq/;", "# jai?", "jai?\u00a0suq/", "jai?\u2028suq/", "\"jai? suq/\"", "jai? suq/\x00", "jai? suq/\x1a", "jai? suq/\nhio? ji/\n", "jai? suq/\n\nhio? ji/", "--x\r\n\r\njai?\r\n--x--",
	"ti? ji/", "hio? ti\\ ni/", "hio? tiV ni/", "hio? ti^ ni/ ru kui^ ji/", "po jai?", "po/ jai?", "jei/ jai?", "jei jai? suq/",
}

// Text frames used to make longer texts.
var frames = []string{
	"to ru %s na to %s", "%s na %s", "to ru %s to %s", "%s da %s", "kio %s ki %s", "ju %s na %s", "%s ru %s", "%s ra %s", "to ra %s na to %s",
	"mo? %s teo %s", "%s %s", "sa do/ bi %s na %s", "%s kio %s ki",
}

var verbs = []string{"jai", "hio", "deoq", "choaq", "gi", "toaq", "pai", "fa", "hoaq", "mai", "kui", "dua", "kuq", "de", "nuo", "chuq", "suao", "tie", "buja"}
var pros = []string{"ji/", "suq/", "ni/", "jí", "súq", "ho/", "maq/", "umo/", "nha/"}
var quants = []string{"sa", "tu", "ke", "sia", "hi", "ja", "shi", "co"}

func (r *Rng) arg(d int) string {
	switch x := r.Intn(10); {
	case x < 4:
		return r.Str(pros...)
	case x < 6:
		return r.Str(quants...) + " " + r.Str(verbs...) + "/"
	case x < 7 && d > 0:
		return r.arg(d-1) + " " + r.Str("ru", "ra", "roi", "ro") + " " + r.arg(d-1)
	case x < 8 && d > 0:
		return r.Str(verbs...) + "^ " + r.arg(d-1)
	case x < 9 && d > 0:
		return "lu/ " + r.stmt(d-1)
	}
	return r.Str(verbs...) + "/"
}

func (r *Rng) pred(d int) string {
	switch x := r.Intn(8); {
	case x == 0 && d > 0:
		return r.Str(verbs...) + "? " + r.Str("ru", "ra") + " " + r.pred(d-1)
	case x == 1:
		return r.Str(verbs...) + "? " + r.Str(verbs...) + "?"
	case x == 2:
		return "mi? " + r.Str(verbs...) + "? ga"
	case x == 3 && d > 0:
		return "mo? " + r.stmt(d-1) + " teo"
	}
	return r.Str(verbs...) + "?"
}

func (r *Rng) stmt(d int) string {
	s := ""
	if r.P(20) {
		s = r.Str(quants...) + " " + r.Str(verbs...) + "/ bi "
	}
	if d > 0 && r.P(15) {
		return s + "to ru " + r.stmt(d-1) + " na to " + r.stmt(d-1)
	}
	s += r.pred(d)
	for n := r.Intn(3); n > 0; n-- {
		s += " " + r.arg(d)
	}
	if r.P(20) {
		s += " " + r.Str(verbs...) + r.Str("V", "^", "\\")
		if r.P(50) {
			s += " " + r.arg(0)
		}
	}
	if r.P(10) {
		s += " na"
	}
	if r.P(8) {
		s += " kio " + r.Str(verbs...) + "? ki"
	}
	if r.P(10) {
		s += " " + r.Str("da", "moq", "ka", "doa", "ba")
	}
	return s
}

// variant makes a near-duplicate, the kind of text a wrong key or a shared
// buffer confuses with the original.
func (r *Rng) variant(s string) string {
	b := []byte(s)
	switch r.Intn(12) {
	case 9:
		return s + "\r\n"
	case 10:
		return strings.ReplaceAll(s, " ", "\n")
	case 11:
		return norm(s)
	case 0:
		return s + " "
	case 1:
		return " " + s
	case 2:
		return strings.ToUpper(s)
	case 3:
		if len(b) > 1 {
			return string(b[:r.Range(1, len(b)-1)])
		}
	case 4:
		return strings.Replace(s, " ", "  ", 1)
	case 5:
		if len(b) > 0 {
			b[r.Intn(len(b))] = byte(r.Str("a", "i", "?", "/", "q", " ", "j")[0])
			return string(b)
		}
	case 6:
		return s + " " + s
	case 7:
		return strings.Replace(s, "/", "^", 1)
	case 8:
		if len(s) > 0 && s[0] < 0x80 {
			return strings.ToUpper(s[:1]) + s[1:]
		}
	}
	return s + "\n"
}

// norm spells the toned vowels the other way: composed or decomposed.
func norm(s string) string {
	const pairs = "á:a\u0301 é:e\u0301 í:i\u0301 ó:o\u0301 ú:u\u0301 ả:a\u0309 ẻ:e\u0309 ỉ:i\u0309 ỏ:o\u0309 ủ:u\u0309 â:a\u0302 ê:e\u0302 î:i\u0302 ô:o\u0302 û:u\u0302 ā:a\u0304 ē:e\u0304 ī:i\u0304 ō:o\u0304 ū:u\u0304 ã:a\u0303 õ:o\u0303 à:a\u0300 è:e\u0300 ì:i\u0300 ò:o\u0300 ù:u\u0300 ǎ:a\u030c ě:e\u030c ǒ:o\u030c"
	t := s
	for _, p := range strings.Fields(pairs) {
		a, b, _ := strings.Cut(p, ":")
		if strings.Contains(s, b) {
			t = strings.ReplaceAll(t, b, a)
		} else {
			t = strings.ReplaceAll(t, a, b)
		}
	}
	return t
}

// texts returns n distinct texts for a check; the same seed gives the same.
func texts(r *Rng, n int) []string {
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		if !seen[s] && len(s) < 100000 {
			seen[s] = true
			out = append(out, s)
		}
	}
	for _, s := range baseTexts {
		add(s)
	}
	for _, s := range alphabet() {
		add(s)
	}
	for len(out) < n {
		switch x := r.Intn(16); {
		case x < 4:
			add(r.stmt(r.Range(0, 3)))
		case x < 11:
			if s := r.gdiscourse(r.Range(0, 5)); len(s) < 400 {
				add(s)
			}
		case x < 14:
			add(r.variant(out[r.Intn(len(out))]))
		default:
			add(fmt.Sprintf(r.Str(frames...), out[r.Intn(len(out))], out[r.Intn(len(out))]))
		}
	}
	return out
}

// bigText has about n bytes.
func bigText(r *Rng, n int) string {
	var b strings.Builder
	for b.Len() < n {
		b.WriteString(r.stmt(1))
		b.WriteString(r.Str(" da ", " na ", " ", " da "))
	}
	return strings.TrimSpace(b.String())
}

// long adds texts of about the given sizes that have a long analysis:
// sentences that can be followed by another, joined.
func (c *Corpus) long(r *Rng, sizes []int) {
	var cands []string
	for i := 0; i < 60; i++ {
		if t := strings.TrimSpace(c.Pick(r, "stmt")); len(t) < 120 {
			cands = append(cands, t+" da "+t+" da")
		}
	}
	cands = dedup(cands)
	c.Add(cands)
	var good []string
	for _, t := range cands {
		if ref := c.Refs[t]; ref != nil && ref.Kind == "stmt" {
			good = append(good, t)
		}
	}
	for try := 0; try < 5 && len(sizes) > 0 && len(good) > 0; try++ {
		var ts []string
		for _, n := range sizes {
			var b strings.Builder
			k := r.Range(1, 3+r.Intn(len(good)))
			for b.Len() < n {
				b.WriteString(good[r.Intn(k)%len(good)])
				b.WriteString(" ")
			}
			ts = append(ts, strings.TrimSpace(b.String()))
		}
		c.Add(dedup(ts))
		var again []int
		for i, t := range ts {
			if ref := c.Refs[t]; ref == nil || ref.Kind != "stmt" {
				again = append(again, sizes[i])
			}
		}
		sizes = again
	}
}

// Corpus holds reference results.
type Corpus struct {
	mu   sync.Mutex
	Refs map[string]*plan.Ref
	List []string
	Bad  []string // texts whose computation crashed or timed out
	bin  string
	Runs int
	// Crash counts the texts on which the library panics outside the
	// interpreter.
	Crash int
	// Valid: only texts JSON carries, or (Strict is off) whose replies it carries.
	Valid, Strict bool
}

func newCorpus(bin string) *Corpus { return &Corpus{Refs: map[string]*plan.Ref{}, bin: bin} }

func (c *Corpus) compute(s string) (*plan.Ref, error) {
	cmd := exec.Command(c.bin)
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=/root"}
	cmd.Stdin = strings.NewReader(s)
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	tm := time.AfterFunc(20*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	tm.Stop()
	if err != nil {
		return nil, fmt.Errorf("%v: %s", err, clip(eb.String(), 500))
	}
	var r plan.Ref
	if err := json.Unmarshal(ob.Bytes(), &r); err != nil {
		return nil, err
	}
	if r.Text != s {
		return nil, fmt.Errorf("the reference is for another text")
	}
	return &r, nil
}

// Add computes the references of the texts, each in a fresh process.
func (c *Corpus) Add(ts []string) {
	sem := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	type res struct {
		r   *plan.Ref
		err error
	}
	out := make([]res, len(ts))
	for i, s := range ts {
		c.mu.Lock()
		_, have := c.Refs[s]
		c.mu.Unlock()
		if have {
			continue
		}
		i, s := i, s
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			r, err := c.compute(s)
			out[i] = res{r, err}
		}()
	}
	wg.Wait()
	for i, s := range ts {
		if c.Refs[s] != nil {
			continue
		}
		c.Runs++
		if out[i].err != nil || out[i].r == nil {
			c.Bad = append(c.Bad, fmt.Sprintf("%q: %v", clip(s, 60), out[i].err))
			continue
		}
		c.Refs[s] = out[i].r
		if out[i].r.Kind == "crash" {
			c.Crash++
		}
		c.List = append(c.List, s)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// Pick returns a text: biased to short and to repeated ones.
func (c *Corpus) Pick(r *Rng, kinds ...string) string {
	fits := func(s string, kinds []string) bool {
		if c.Refs[s].Kind == "crash" {
			return len(kinds) == 1 && kinds[0] == "crash"
		}
		if c.Valid && !utf8.ValidString(s) && (c.Strict || c.Refs[s].Kind != "error") {
			return false
		}
		for _, x := range kinds {
			if c.Refs[s].Kind == x {
				return true
			}
		}
		return len(kinds) == 0
	}
	for i := 0; i < 200; i++ {
		s := c.List[r.Intn(len(c.List))]
		if len(s) > 3000 && !r.P(2) {
			continue
		}
		if fits(s, kinds) {
			return s
		}
	}
	// Rare: take the next that fits, or any.
	o := r.Intn(len(c.List))
	for _, ks := range [][]string{kinds, nil} {
		for i := range c.List {
			if s := c.List[(o+i)%len(c.List)]; len(s) <= 3000 && fits(s, ks) {
				return s
			}
		}
	}
	return ""
}

// table collects the texts of one run.
type table struct {
	c    *Corpus
	idx  map[string]int
	list []plan.Ref
}

func newTable(c *Corpus) *table { return &table{c: c, idx: map[string]int{}} }

func (t *table) add(s string) int {
	if i, ok := t.idx[s]; ok {
		return i
	}
	r := t.c.Refs[s]
	if r == nil {
		t.c.Add([]string{s})
		r = t.c.Refs[s]
		if r == nil {
			panic("no reference for " + clip(s, 80))
		}
	}
	t.idx[s] = len(t.list)
	t.list = append(t.list, *r)
	return t.idx[s]
}
