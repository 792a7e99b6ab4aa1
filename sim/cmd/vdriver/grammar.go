package main

import "strings"

// Texts that follow the grammar of the language, all of its constructs, with
// tones written as markers, digits, accented letters and combining accents.

// tones in the order of the accents below.
const (
	tCompound = '-'
	tArg      = '/'
	tRel      = 'V'
	tVerb     = '?'
	tContent  = '^'
	tPrep     = '\\'
	tAdv      = '~'
)

var toneDigit = map[byte]string{'-': "1", '/': "2", 'V': "3", '?': "4", '^': "5", '\\': "6", '~': "7"}
var toneComb = map[byte][]string{'-': {"\u0304"}, '/': {"\u0301"}, 'V': {"\u030c", "\u0306"}, '?': {"\u0309"}, '^': {"\u0302"}, '\\': {"\u0300"}, '~': {"\u0303"}}

// accented spells the vowels aeiou AEIOU in each tone.
var accented = map[byte][]string{
	'-':  {"āēīōūĀĒĪŌŪ"},
	'/':  {"áéíóúÁÉÍÓÚ"},
	'V':  {"ǎěǐǒǔǍĚǏǑǓ", "ăĕĭŏŭĂĔĬŎŬ"},
	'?':  {"ảẻỉỏủẢẺỈỎỦ"},
	'^':  {"âêîôûÂÊÎÔÛ"},
	'\\': {"àèìòùÀÈÌÒÙ"},
	'~':  {"ãẽĩõũÃẼĨÕŨ"},
}

// toneWord writes a syllable with a tone in one of the spellings.
func (r *Rng) toneWord(w string, t byte) string {
	if r.P(6) {
		w = strings.ToUpper(w[:1]) + w[1:]
	}
	if r.P(2) {
		w = strings.ToUpper(w)
	}
	i := strings.IndexAny(w, "aeiouAEIOU")
	if i < 0 {
		return w + string(t)
	}
	switch x := r.Intn(20); {
	case x < 11:
		return w + string(t)
	case x < 12:
		return w + toneDigit[t]
	case x < 18:
		as := accented[t]
		a := []rune(as[r.Intn(len(as))])
		return w[:i] + string(a[strings.IndexByte("aeiouAEIOU", w[i])]) + w[i+1:]
	}
	cs := toneComb[t]
	return w[:i+1] + cs[r.Intn(len(cs))] + w[i+1:]
}

var roots = []string{
	"jai", "hio", "deoq", "choaq", "gi", "toaq", "pai", "fa", "hoaq", "mai", "kui", "dua", "kuq", "de", "nuo", "chuq", "suao", "tie", "suq", "ji", "ni", "ho", "maq", "nha", "do", "do", "hoa", "poq", "shi", "raq", "buo", "sho", "lea", "cue", "reu", "gaq", "hiu", "puao", "nui", "mie", "keoq", "tiai", "nioi", "duoq",
}

var anyTones = []byte("-/V?^\\~")

// pword is a predicate word, perhaps a compound.
func (r *Rng) pword(t byte) string {
	s := r.toneWord(r.Str(roots...), t)
	for r.P(12) {
		s += r.toneWord(r.Str(roots...), tCompound)
	}
	return s
}

func (r *Rng) sp() string {
	if r.P(6) {
		return r.Str("  ", " — ", "\n", ", ", ". ", "! ", "\t", " «", "» ", ": ")
	}
	return " "
}

// mod is a free modifier, rarely.
func (r *Rng) mod(d int) string {
	if d <= 0 || !r.P(4) {
		return r.sp()
	}
	switch r.Intn(5) {
	case 0:
		return " bei "
	case 1:
		return " kio " + r.gdiscourse(d-2) + " ki "
	case 2:
		return " ju " + r.gstmt(d-2) + " na "
	case 3:
		return " hu " + r.garg(d-2) + " "
	}
	return " m "
}

func (r *Rng) conn() string { return r.Str("ru", "ru", "ra", "ri", "ro", "re", "roi") }

// cop makes a connected phrase out of f, or f alone.
func (r *Rng) cop(d, p int, f func(d int) string) string {
	if d > 0 && r.P(p) {
		if r.P(65) {
			return f(d-1) + r.mod(d) + r.conn() + r.mod(d) + f(d-1)
		}
		return "to" + r.sp() + r.conn() + r.mod(d) + f(d-1) + r.mod(d) + "to" + r.mod(d) + f(d-1)
	}
	return f(d)
}

func (r *Rng) serial(d int, t byte, left func(d int) string) string {
	s := left(d)
	for r.P(14) {
		s += r.mod(d) + r.gpred1(d-1, tVerb)
	}
	return s
}

// gpred1 is a predicate in a tone.
func (r *Rng) gpred1(d int, t byte) string {
	if d > 0 && r.P(24) {
		end := ""
		switch r.Intn(4) {
		case 0:
			if r.P(60) {
				end = " ga"
			}
			c := r.Intn(4)
			if c == 0 {
				return r.toneWord(r.Str("mi", "shu"), t) + r.mod(d) + r.gpred(d-1, tVerb) + end
			} else if c == 1 {
				return r.toneWord(r.Str("mi", "shu"), t) + r.mod(d) + r.garg(d-1) + end
			} else if c == 2 {
				return r.toneWord(r.Str("mi", "shu"), t) + r.mod(d) + r.gadv(d-1) + end
			}
			return r.toneWord(r.Str("mi", "shu"), t) + r.mod(d) + r.gprep(d-1) + end
		case 1:
			if r.P(60) {
				end = " ga"
			}
			return r.toneWord(r.Str("po", "jei"), t) + r.mod(d) + r.garg(d-1) + end
		case 2:
			return r.toneWord("mo", t) + " " + r.gdiscourse(d-1) + " teo"
		default:
			return r.toneWord(r.Str("lu", "li", "lo", "ma", "tio"), t) + r.mod(d) + r.gstmt(d-1)
		}
	}
	return r.pword(t)
}

func (r *Rng) gpred(d int, t byte) string {
	return r.serial(d, t, func(d int) string {
		if d > 0 && r.P(12) {
			if r.P(60) {
				return r.gpred1(d-1, t) + r.mod(d) + r.conn() + r.mod(d) + r.gpred(d-1, tVerb)
			}
			return "to" + r.sp() + r.conn() + r.mod(d) + r.gpred(d-1, t) + " to " + r.gpred(d-1, tVerb)
		}
		return r.gpred1(d, t)
	})
}

func (r *Rng) garg(d int) string {
	return r.cop(d, 18, func(d int) string {
		s := ""
		if r.P(6) {
			s += r.Str("ku", "mao", "beo") + r.mod(d)
		}
		if r.P(30) {
			s += r.Str("ke", "tu", "sia", "sa", "hi", "ja", "tuq", "tushi") + r.mod(d)
		}
		if r.P(40) {
			s += r.Str("ji/", "suq/", "ni/", "jí", "súq", "ho/", "maq/", "do/", "dó", "do/", "hoa/", "hóa")
		} else if d > 0 && r.P(18) {
			s += r.gclause(d-1, tContent)
		} else {
			s += r.gpred(d, tArg)
		}
		if d > 0 && r.P(12) {
			s += r.mod(d) + r.grel(d-1)
		}
		return s
	})
}

func (r *Rng) gclause(d int, t byte) string {
	if d > 0 && r.P(20) {
		return r.toneWord(r.Str("lu", "li", "lo", "ma", "tio"), t) + r.mod(d) + r.gstmt(d-1)
	}
	s := r.gpred(d, t) + r.gterms(d, 35)
	if r.P(30) {
		s += r.mod(d) + "na"
	}
	return s
}

func (r *Rng) grel(d int) string {
	return r.cop(d, 14, func(d int) string { return r.gclause(d, tRel) })
}

func (r *Rng) gadv(d int) string {
	return r.cop(d, 10, func(d int) string { return r.gpred(d-1, tAdv) })
}

func (r *Rng) gprep(d int) string {
	return r.cop(d, 10, func(d int) string {
		return r.cop(d-1, 10, func(d int) string { return r.gpred(d, tPrep) }) + r.mod(d) + r.garg(d-1)
	})
}

func (r *Rng) gterm(d int) string {
	switch x := r.Intn(20); {
	case x < 12:
		s := ""
		if r.P(8) {
			s = r.Str("go", "fi", "cu", "ta") + r.mod(d)
		}
		return s + r.garg(d)
	case x < 15:
		return r.gadv(d)
	case x < 18:
		return r.gprep(d)
	}
	if d > 1 {
		n := r.Range(2, 3)
		ts := func() string {
			var x []string
			for i := 0; i < n; i++ {
				x = append(x, r.garg(d-2))
			}
			return strings.Join(x, " ")
		}
		return "to " + r.conn() + " " + ts() + " to " + ts()
	}
	return r.garg(d)
}

// gterms are terms, each further one with probability p.
func (r *Rng) gterms(d, p int) string {
	s := ""
	for n := 0; n < 4 && r.P(p); n++ {
		s += r.mod(d) + r.gterm(d-1)
	}
	return s
}

func (r *Rng) gstmt(d int) string {
	s := ""
	for d > 0 && r.P(18) {
		s += r.gterm(d-1) + r.gterms(d-1, 30) + r.mod(d) + r.Str("bi", "bi", "pa") + r.mod(d)
	}
	return s + r.cop(d, 8, func(d int) string {
		s := r.gpred(d, tVerb) + r.gterms(d, 62)
		if r.P(15) {
			s += r.mod(d) + "na"
		}
		return s
	})
}

func (r *Rng) gsentence(d int) string {
	return r.cop(d, 5, func(d int) string {
		s := ""
		if r.P(6) {
			s = r.Str("je", "keo") + r.mod(d)
		}
		s += r.gstmt(d)
		if r.P(20) {
			s += r.mod(d) + r.Str("da", "moq", "moq?", "ka", "ba", "so")
		}
		return s
	})
}

func (r *Rng) gdiscourse(d int) string {
	s := ""
	for {
		switch x := r.Intn(20); {
		case x < 17:
			s += r.gsentence(d)
		case x < 18:
			s += r.garg(d)
		case x < 19:
			s += r.grel(d)
		default:
			s += r.gadv(d)
		}
		if !r.P(22) {
			return s
		}
		s += r.mod(d)
	}
}

// alphabet has every vowel in every tone and spelling.
func alphabet() []string {
	var out []string
	for _, t := range anyTones {
		for _, as := range accented[t] {
			a := []rune(as)
			for k := 0; k < len(a); k += 5 {
				var ws []string
				for _, c := range a[k : k+5] {
					ws = append(ws, "s"+string(c)+"q")
				}
				out = append(out, strings.Join(ws, " "))
			}
		}
		for _, c := range toneComb[t] {
			out = append(out, "sa"+c+"q se"+c+"i sı"+c+" SI"+c+" so"+c+"a su"+c+" dO"+c)
		}
		out = append(out, "sa"+string(t)+" seq"+string(t)+" sıa"+string(t)+" si"+string(t)+" soaq"+string(t)+" su"+string(t)+" dO"+string(t))
		out = append(out, "sa"+toneDigit[t]+" seq"+toneDigit[t]+" sıa"+toneDigit[t]+" si"+toneDigit[t])
	}
	return out
}
