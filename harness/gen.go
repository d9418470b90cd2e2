package main

import (
	"math/rand"
	"unicode/utf8"

	nstr "github.com/nlpodyssey/gotokenizers/normalizedstring"
)

// Gen makes the cases of one property.
type Gen struct {
	r     *rand.Rand
	prop  string
	alpha []rune
	pats  []M     // patterns of the case so far
	texts [][]int // texts of the case so far
	long  bool    // a case with a long text
	often []int   // a character that a vast text has everywhere
	vast  int     // the length of the vast text of the case, or -1 after it was made
	slow  M       // the slow pattern of the case
}

// Characters by the role they play for some part of the code.
var charGroups = [][]rune{
	[]rune("abcAZxyz"),
	[]rune("'strevmld"),
	{'0', '7', 0x663, 0xB2, 0xBD, 0x2160, 0x1D7D8},
	{'.', '!', ',', '-', '_', 0x300C, 0x3002, 0xBF, '$', '+', 0xAB, 0x203F, '|', '~', 0x10100},
	{' ', '\t', '\n', '\r', 0xA0, 0x85, 0x2009, 0x3000, 0x2028, 0x0B, 0x1680},
	{0x200B, 0xFEFF, 0, 0xAD, 0xFFFD, 0xE000, 0x378, 0xE0001, 0x7F, 0x1F, 0x180E, 0x10FFFF, 0x200D},
	{0xE9, 0xDF, 0x130, 0x131, 0xF1, 0x17F, 0x212A, 0x1E9E, 0x23A, 0x2C65, 0x1C5, 0x3A3, 0x3C2, 0x10400, 0x10428, 0xC9, 0x10D0, 0x13A0, 0xAB70},
	{0x301, 0x327, 0x20DD, 0x903, 0x3099, 0x1D165, 0x5B0, 0xFE0F},
	{0x65E5, 0x672C, 0x2B820, 0x20000, 0xF900, 0x3400, 0x9FFF, 0x30CF, 0x3131, 0x4DBF, 0x4DC0, 0x2A6DF, 0x2A700, 0x2CEAF, 0x2CEB0, 0x2F800, 0x2FA1F, 0xFAFF, 0x4E00, 0xAC00},
	{0x1F600, 0x1F44D, 0x1F3FD, 0x2581, 0x120, 0x1D53E, 0x2603},
}

func (g *Gen) n(k int) int             { return g.r.Intn(k) }
func (g *Gen) p(percent int) bool      { return g.r.Intn(100) < percent }
func (g *Gen) pick(rs []rune) rune     { return rs[g.r.Intn(len(rs))] }
func (g *Gen) one(ss ...string) string { return ss[g.r.Intn(len(ss))] }
func (g *Gen) between(lo, hi int) int  { return lo + g.r.Intn(hi-lo+1) }
func (g *Gen) anyChar() rune           { return g.pick(charGroups[g.n(len(charGroups))]) }

// newAlpha chooses the characters of a case.
func (g *Gen) newAlpha(groups ...int) {
	g.alpha = nil
	if g.p(80) {
		g.alpha = append(g.alpha, 'a')
	}
	if g.p(70) {
		g.alpha = append(g.alpha, ' ')
	}
	if g.p(50) {
		g.alpha = append(g.alpha, 0xE9)
	}
	if g.p(30) {
		g.alpha = append(g.alpha, 0x65E5)
	}
	if g.p(25) {
		g.alpha = append(g.alpha, 0x1F600)
	}
	for _, k := range groups {
		for i := g.between(1, 3); i > 0; i-- {
			g.alpha = append(g.alpha, g.pick(charGroups[k]))
		}
	}
	for i := g.between(1, 3); i > 0; i-- {
		g.alpha = append(g.alpha, g.anyChar())
	}
}

func (g *Gen) char() rune {
	if g.p(3) {
		return g.anyChar()
	}
	return g.pick(g.alpha)
}

func (g *Gen) textLen(n int) []int {
	t := make([]int, n)
	for i := range t {
		if i > 0 && g.p(20) {
			t[i] = t[i-1]
		} else {
			t[i] = int(g.char())
		}
	}
	return t
}

// text makes a text, now and then the same as one before.
func (g *Gen) text() []int {
	if len(g.texts) > 0 && (g.p(12) || g.slow != nil && g.p(50)) {
		return g.texts[g.n(len(g.texts))]
	}
	t := g.newText()
	g.texts = append(g.texts, t)
	return t
}

// What belongs together for some reader of texts.
var phrases = []string{"\r\n", "\n\n", "  ", " \t ", "e\u0301", "A\u030a\u0323", "o\u0308\u0304", "\U0001F468\u200d\U0001F469\u200d\U0001F467", "\U0001F1EB\U0001F1F7",
	"\U0001F44D\U0001F3FD", "\u2764\ufe0f", "1\ufe0f\u20e3", "ß", "SS", "İ", "i\u0307", "ΑΣ", "ς", "ﬁ", "ŉ", "ǰ", "don't", "I'LL", "we've", "'s", "'S", "'d 're",
	"x'", "''t", "3.14", "1,000", "...", "?!", "--", "##", "##a", "</w>", "[UNK]", "[CLS]", "<s>", "\u00a0", "\ufeff", "שָׁלוֹם", "لا", "สวัสดี", "नमस्ते", "한국", "\u1112\u1161\u11ab",
	"日本語", "。、", "𠀀𠀁", "\u2581", "\u2581a", "Ġ", "Ċ", "\u0120\u0120", "a b", "Hello, world!", "can't", "\u2028", "\u0000", "\ufffd", "a\u00ad", "½²", "ⅷⅧ", "ǅ", "\U00010400\U00010428",
	"<b>", "http://a.b/c?d=e", "a@b.c", "$5", "#1", "a_b", "a-b", "C++", "'", "\"", "`", "“a”", "’s", "\t", "\u3000", "ﾊﾞ", "ば", "\u3099", "Ω", "\u2126", "Å", "K", "ſ", "ẞ"}

// withPhrases puts phrases into a text.
func (g *Gen) withPhrases(t []int) []int {
	for i := g.between(1, 3); i > 0; i-- {
		p := runeInts(phrases[g.n(len(phrases))])
		for _, c := range p {
			if g.p(30) && len(g.alpha) < 14 {
				g.alpha = append(g.alpha, rune(c))
			}
		}
		at := g.n(len(t) + 1)
		if g.p(40) {
			at = g.n(2) * len(t)
		}
		t = append(t[:at:at], append(p, t[at:]...)...)
	}
	return t
}

// One of so many cases is about something vast: thousands of characters, pieces,
// symbols, lines or terms.
const vastEvery = 625

func (g *Gen) vastLen() int {
	switch d := g.n(100); {
	case d < 55:
		return g.between(1030, 1100)
	case d < 75:
		return g.between(2050, 2110)
	default:
		return g.between(4100, 4250)
	}
}

func (g *Gen) newText() []int {
	if g.vast > 0 {
		n := g.vast
		g.vast = -1
		if g.p(40) {
			return g.dense(n)
		}
		return g.textLen(n)
	}
	if g.long {
		g.long = false // one is enough
		return g.textLen(g.between(255, 330))
	}
	if g.p(14) {
		return g.withPhrases(g.textLen(g.n(7)))
	}
	if g.p(3) {
		return g.textLen(g.between(17, 70))
	}
	switch d := g.n(100); {
	case d < 5:
		return g.textLen(0)
	case d < 35:
		return g.textLen(g.between(1, 3))
	case d < 85:
		return g.textLen(g.between(4, 8))
	default:
		return g.textLen(g.between(9, 16))
	}
}

// dense makes a vast text with one character nearly everywhere.
func (g *Gen) dense(n int) []int {
	t := g.repetitive([]rune{g.char(), g.char(), g.char()}, n)
	g.often = []int{t[g.n(n)]}
	return t
}

// densePatterns are patterns of every kind that match the character.
func (g *Gen) densePatterns() []M {
	return []M{
		{"k": "fn", "neg": 0, "set": g.often},
		{"k": "rune", "c": g.often[0]},
		{"k": "str", "t": g.often},
		{"k": "rx", "eng": "go", "q": "1", "neg": 0, "set": g.often},
		{"k": "rx", "eng": "re2", "q": "1", "neg": 0, "set": g.often},
	}
}

func (g *Gen) short() []int { return g.textLen(g.n(4)) }

func (g *Gen) set() []int {
	s := []int{}
	for i := g.n(4); i > 0; i-- {
		s = append(s, int(g.char()))
	}
	return s
}

// ----------------------------------------------------------------- patterns

var goSources = []string{`a|é+`, `\b`, `^`, `$`, `x*`, `\p{L}+`, `\s+`, `.`, `[^a]*`, `(?i)É`, `(a)(b)?`,
	`\w+\s?`, `(?s:.)`, `..`, `a*?`, `\s|$`, `(?:a|ab)c?`, `\pN`, ``, `日|\B`, `[[:punct:]]`}
var re2Sources = append(append([]string{}, goSources[:17]...), `(?=a)`, `(?<=a).`, `(?!\S)`, `\p{N}+`, `(a|é)\1`,
	`(?<!\s)\b`, `\s+(?!\S)|\s+`, `\G.`, `日?`)

var rtlSources = []string{`a|é+`, `\p{L}+`, `\s+`, `.`, `..`, `(a)(b)?`, `\w+\s?`, `(?<=a).`, `\p{N}+`, `[^a]`, `\w+|[^\w\s]+`}

// Literals that mean something to somebody else.
var oddLiterals = []string{`\E`, `\Q`, `a\E`, `\Ea`, `\Qa\E`, `.`, `.*`, `a.`, `a*`, `a+`, `(`, `)`, `(a)`, `[a`, `[a]`, `^a`, `a$`,
	`a|b`, `$1`, `${1}`, `$0`, `\\`, `\`, `\n`, `\d`, `a{2}`, `a?`, `(?i)a`, `{`, `}`, `%s`, `%`, `"`, "`", `\x61`, `&`, `\\E`, `#`, ` a`, `a `, `\b`, `\1`}

// quirky adds odd literals to a text, to be found there.
func (g *Gen) quirky(t []int, lit string) []int {
	out := append([]int{}, t...)
	for i := g.between(1, 3); i > 0; i-- {
		at := g.n(len(out) + 1)
		out = append(out[:at:at], append(runeInts(lit), out[at:]...)...)
	}
	return out
}

// pattern makes a pattern; ms allows those whose matches the engine provides.
// Now and then it is one from before.
func (g *Gen) pattern(ms bool) M {
	if g.often != nil && g.p(60) {
		p := g.densePatterns()[g.n(5)]
		if g.p(25) {
			return M{"k": "inv", "p": p}
		}
		return p
	}
	if g.slow != nil && ms && g.p(50) {
		return copyOf(g.slow)
	}
	if len(g.pats) > 0 && g.p(20) {
		p := g.pats[g.n(len(g.pats))]
		if ms || !hasMatches(p) {
			if g.p(35) {
				return M{"k": "inv", "p": copyOf(p)}
			}
			return copyOf(p)
		}
	}
	p := g.newPattern(ms)
	g.pats = append(g.pats, p)
	return p
}

func hasMatches(p M) bool {
	return p["k"] == "ms" || p["k"] == "inv" && hasMatches(obj(p["p"]))
}

func copyOf(p M) M {
	out := M{}
	for k, v := range p {
		if k == "p" {
			v = copyOf(obj(v))
		}
		out[k] = v
	}
	return out
}

// failing makes a pattern that fails, perhaps giving captures as well.
func (g *Gen) failing(text string) M {
	p := M{"k": "err", "e": g.one("E1", "E2", "E3"), "caps": [][]int{}}
	if g.p(65) {
		p["caps"] = g.capsFor(text)["caps"]
		if c := p["caps"].([][]int); g.p(50) {
			p["caps"] = c[:g.n(len(c)+1)]
		}
	}
	if g.p(30) {
		return M{"k": "inv", "p": p}
	}
	return p
}

// index is a positive number, now and then a large one.
func (g *Gen) index() int {
	if g.p(80) {
		return g.between(1, 5)
	}
	return []int{127, 128, 255, 256, 1000, 32767, 65535, 65536, 1 << 30, 1<<31 - 1}[g.n(10)]
}

// slowText adds a long run, and a pattern that runs out of time on it.
func (g *Gen) slowText(t []int) []int {
	src := slowSources[g.n(len(slowSources))]
	g.slow = M{"k": "ms", "eng": "re2", "src": src, "opts": 0, "slow": 1, "ms": [][]int{}}
	at := g.n(len(t) + 1)
	out := append([]int{}, t[:at]...)
	for i := g.between(slowLeast, slowLeast+3); i > 0; i-- {
		out = append(out, slowRune)
	}
	return append(out, t[at:]...)
}

func (g *Gen) newPattern(ms bool) M {
	d := g.n(100)
	if !ms && d >= 78 && d < 92 {
		d = g.n(78)
	}
	switch {
	case d < 15:
		return M{"k": "fn", "neg": b2i(g.p(30)), "set": g.set()}
	case d < 25:
		return M{"k": "cls", "name": g.one("ws", "pu", "mn", "ot"), "neg": 0}
	case d < 37:
		return M{"k": "rune", "c": int(g.char())}
	case d < 50:
		if g.p(20) {
			return M{"k": "str", "t": runeInts(oddLiterals[g.n(len(oddLiterals))])}
		}
		return M{"k": "str", "t": g.short()}
	case d < 70:
		return g.rx(g.one("go", "re2"))
	case d < 74:
		return M{"k": "wd"}
	case d < 78:
		return M{"k": "bl"}
	case d < 92:
		if g.p(50) {
			return M{"k": "ms", "eng": "go", "src": goSources[g.n(len(goSources))], "opts": 0, "ms": [][]int{}}
		}
		opts := 0
		src := re2Sources[g.n(len(re2Sources))]
		if g.p(25) { // right to left; the engine itself hangs on empty matches
			opts, src = 64, rtlSources[g.n(len(rtlSources))]
		}
		if g.p(20) {
			opts |= 1 // ignore case
		}
		return M{"k": "ms", "eng": "re2", "src": src, "opts": opts, "ms": [][]int{}}
	default:
		return M{"k": "inv", "p": g.pattern(ms)}
	}
}

// capsFor makes a custom pattern for a text: some cover of it.
func (g *Gen) capsFor(text string) M {
	caps := [][]int{}
	at := 0
	for at < len(text) {
		if g.p(10) {
			caps = append(caps, []int{at, at, b2i(g.p(60))})
		}
		to := at
		for i := g.between(1, 3); i > 0 && to < len(text); i-- {
			_, w := utf8.DecodeRuneInString(text[to:])
			to += w
		}
		caps = append(caps, []int{at, to, b2i(g.p(55))})
		at = to
	}
	if len(caps) == 0 || g.p(5) {
		caps = append(caps, []int{at, at, b2i(g.p(50))})
	}
	return M{"k": "caps", "caps": caps}
}

func (g *Gen) splitPattern(text string) M {
	switch d := g.n(100); {
	case d < 25:
		return g.capsFor(text)
	case d < 29:
		return g.failing(text)
	default:
		return g.pattern(true)
	}
}

// ----------------------------------------------------------------- texts

func boundaries(text string) []int {
	out := []int{}
	for i := range text {
		out = append(out, i)
	}
	return append(out, len(text))
}

func isBoundary(text string, i int) bool {
	return i == len(text) || utf8.RuneStart(text[i])
}

func (g *Gen) boundary(text string) int {
	b := boundaries(text)
	return b[g.n(len(b))]
}

// wildRange gives any range, in and out of a text.
func (g *Gen) wildRange(text string) (int, int) {
	switch d := g.n(100); {
	case d < 45:
		return g.goodRange(text)
	case d < 55:
		b := g.boundary(text)
		return b, b
	case d < 75:
		s, e := g.n(len(text)+1), g.n(len(text)+1)
		if s > e && g.p(80) {
			s, e = e, s
		}
		return s, e
	case d < 85:
		s, e := g.between(-2, len(text)+2), g.between(-2, len(text)+2)
		return s, e
	case d < 90:
		return 0, len(text)
	case d < 95:
		return g.n(len(text) + 1), len(text) + 1 + g.n(3)*g.n(400)
	case d < 97:
		far := []int{1 << 16, 1 << 24, 1<<30 - 1, maxInt, maxInt, -maxInt, -maxInt}
		s, e := g.boundary(text), far[g.n(len(far))]
		if g.p(25) {
			s = far[g.n(len(far))]
		}
		if g.p(15) {
			s, e = e, s
		}
		return s, e
	default:
		return -1 - g.n(500), g.n(len(text) + 1)
	}
}

func (g *Gen) goodRange(text string) (int, int) {
	s, e := g.boundary(text), g.boundary(text)
	if s > e {
		s, e = e, s
	}
	return s, e
}

func (g *Gen) mapPairs() [][]int {
	m := [][]int{}
	for i := g.between(1, 3); i > 0; i-- {
		to := g.char()
		if g.p(30) {
			to = g.anyChar()
		}
		m = append(m, []int{int(g.char()), int(to)})
	}
	return m
}

func (g *Gen) predicate() M {
	if g.p(70) {
		return M{"k": "fn", "neg": b2i(g.p(60)), "set": g.set()}
	}
	return M{"k": "cls", "name": g.one("ws", "pu", "mn", "ot"), "neg": b2i(g.p(60))}
}

// plainEdit makes an edit that does not depend on the text.
func (g *Gen) plainEdit() Ev {
	switch g.one("filter", "map", "lower", "upper", "trim", "prepend", "append", "replace") {
	case "filter":
		return Ev{"op": "filter", "p": g.predicate()}
	case "map":
		return Ev{"op": "map", "m": g.mapPairs()}
	case "lower":
		return Ev{"op": "lower"}
	case "upper":
		return Ev{"op": "upper"}
	case "trim":
		return g.trim()
	case "prepend":
		return Ev{"op": "prepend", "t": g.short()}
	case "append":
		return Ev{"op": "append", "t": g.short()}
	default:
		return Ev{"op": "replace", "p": g.pattern(false), "t": g.short()}
	}
}

func (g *Gen) trim() Ev {
	return Ev{"op": "trim", "l": b2i(g.p(65)), "r": b2i(g.p(65)), "via": g.one("plain", "lr")}
}

func (g *Gen) changes(budget int) [][]int {
	dest := [][]int{}
	stop, most := 12, budget
	if g.vast != 0 && g.p(60) {
		stop, most = 0, 4
	}
	for budget > 0 && !g.p(stop) {
		switch d := g.n(100); {
		case d < 30:
			dest = append(dest, []int{int(g.char()), 1})
		case d < 70:
			dest = append(dest, []int{int(g.char()), 0})
			budget--
		default:
			k := g.n(budget)
			if k > most {
				k = g.n(most)
			}
			dest = append(dest, []int{int(g.char()), -k})
			budget -= k + 1
		}
	}
	for g.p(25) {
		dest = append(dest, []int{int(g.char()), 1})
	}
	return dest
}

func (g *Gen) transform(n *nstr.NormalizedString) Ev {
	e := Ev{"op": "tr", "ref": "n", "via": "range"}
	text := n.Get()
	switch d := g.n(100); {
	case d < 25:
		e["s"], e["e"] = 0, len(text)
		if g.p(60) {
			e["via"] = "plain"
		}
	case d < 65:
		e["s"], e["e"] = g.goodRange(text)
	default:
		e["ref"] = "o"
		if g.p(75) {
			e["s"], e["e"] = g.goodRange(n.GetOriginal())
		} else {
			e["s"], e["e"] = g.wildRange(n.GetOriginal())
		}
	}
	// how many characters there are to consume; the converted range must be one
	// of whole characters
	chars := 0
	if r, ok := safeNormalized(n, mkRange(e)); ok {
		if r[0] < 0 || r[0] > r[1] || r[1] > len(text) || !isBoundary(text, r[0]) || !isBoundary(text, r[1]) {
			e["ref"], e["s"], e["e"] = "n", 0, len(text)
			r = []int{0, len(text)}
		}
		chars = utf8.RuneCountInString(text[r[0]:r[1]])
	}
	io := 0
	if chars > 0 && g.p(40) {
		io = g.n(chars + 1)
	}
	e["io"] = io
	if g.p(5) {
		e["dest"] = [][]int{}
	} else {
		e["dest"] = g.changes(chars - io)
	}
	return e
}

func safeNormalized(n *nstr.NormalizedString, r nstr.Range) (out []int, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	q, ok := n.CoerceRangeToNormalized(r)
	return []int{q.Start(), q.End()}, ok
}

func (g *Gen) nsOp(op string, n *nstr.NormalizedString) Ev {
	text, orig := n.Get(), n.GetOriginal()
	withRange := func(wild bool) Ev {
		e := Ev{"op": op, "ref": g.one("n", "o")}
		t := text
		if e["ref"] == "o" {
			t = orig
		}
		if wild {
			e["s"], e["e"] = g.wildRange(t)
		} else {
			e["s"], e["e"] = g.goodRange(t)
		}
		return e
	}
	switch op {
	case "filter":
		return Ev{"op": op, "p": g.predicate()}
	case "map":
		return Ev{"op": op, "m": g.mapPairs()}
	case "trim":
		return g.trim()
	case "prepend", "append":
		return Ev{"op": op, "t": g.short()}
	case "replace":
		e := Ev{"op": op, "p": g.splitPattern(text), "t": g.short()}
		if g.p(12) {
			e["t"] = runeInts(oddLiterals[g.n(len(oddLiterals))])
		}
		return e
	case "tr":
		return g.transform(n)
	case "nz":
		return Ev{"op": op, "z": g.normalizer(2)}
	case "cn", "co", "gn", "go":
		return withRange(true)
	case "slice":
		return withRange(g.p(30))
	case "split":
		return Ev{"op": op, "p": g.splitPattern(text), "beh": g.one("rm", "iso", "prev", "next", "cont")}
	}
	return Ev{"op": op}
}

var nsFocus = map[string][]string{
	"C01": {"filter", "map", "lower", "upper", "trim", "prepend", "append", "replace", "tr", "nz", "slice", "split"},
	"C02": {"filter", "map", "lower", "upper", "trim"},
	"C03": {"prepend", "append", "replace"},
	"C04": {"tr"},
	"C05": {"cn", "co", "gn", "go"},
	"C06": {"oa"},
	"C07": {"slice"},
	"C08": {"split"},
	"C19": {"nz"},
	"C20": {"nz"},
}
var nsSetup = []string{"filter", "filter", "map", "lower", "upper", "trim", "prepend", "append", "replace", "replace",
	"tr", "tr", "slice", "slice", "split", "nz"}

func (g *Gen) caseNS(c *Case) {
	if g.n(1000) < 10 && g.prop != "C06" && g.vast == 0 {
		g.caseWideNS(c)
		return
	}
	groups := []int{}
	switch g.prop {
	case "C19":
		groups = append(groups, g.one2(4, 5), g.one2(7, 8))
	case "C20", "C02":
		groups = append(groups, g.one2(4, 6))
	}
	g.newAlpha(groups...)
	g.long = g.n(1000) < 8
	t := g.text()
	if g.p(4) {
		lit := oddLiterals[g.n(len(oddLiterals))]
		t = g.quirky(t, lit)
		g.pats = append(g.pats, M{"k": "str", "t": runeInts(lit)})
	}
	if g.n(1000) < 15 && (g.prop == "C08" || g.prop == "C03") {
		t = g.slowText(t)
	}
	c.do(Ev{"op": "new", "t": t})
	n := g.between(2, 7)
	if g.p(5) {
		n = g.between(8, 14)
	}
	if g.vast != 0 {
		n = g.between(1, 3)
	}
	for ops := n; ops > 0; ops-- {
		pool := c.x.pool
		if len(pool) == 0 {
			break
		}
		x := g.n(len(pool))
		if g.p(50) {
			x = len(pool) - 1
		}
		if g.p(40) {
			x = 0
		}
		var op string
		if f := nsFocus[g.prop]; g.p(60) || ops == 1 {
			op = f[g.n(len(f))]
		} else {
			op = nsSetup[g.n(len(nsSetup))]
		}
		if (op == "split" || op == "slice") && len(pool) > 9 && !(ops == 1 && len(pool) < 100) {
			continue
		}
		e := g.nsOp(op, pool[x])
		e["x"] = x + 1
		if !c.do(e) {
			return
		}
	}
}

func (g *Gen) one2(a, b int) int {
	if g.p(50) {
		return a
	}
	return b
}

// ----------------------------------------------------------------- normalizers

func (g *Gen) normalizer(depth int) M {
	if g.prop == "C19" && g.p(75) {
		return g.bert()
	}
	lim := 100
	if depth == 0 {
		lim = 62
	} else if g.prop == "C20" {
		lim = 160
	}
	switch d := g.n(lim); {
	case d < 15:
		return g.bert()
	case d < 25:
		return M{"k": "lower"}
	case d < 40:
		return M{"k": "strip", "l": b2i(g.p(60)), "r": b2i(g.p(60))}
	case d < 48:
		return M{"k": "mark", "t": g.short()}
	case d < 53:
		return M{"k": "mapz", "m": g.mapPairs()}
	case d < 57:
		return M{"k": "fail", "e": g.one("E1", "E2", "E3", "E4")}
	case d < 62:
		return M{"k": "markfail", "t": g.short(), "e": g.one("E1", "E2", "E3", "E4")}
	default:
		zs := []M{}
		for i := g.n(4); i > 0; i-- {
			zs = append(zs, g.normalizer(depth-1))
		}
		return M{"k": "seq", "zs": zs}
	}
}

func (g *Gen) bert() M {
	switch d := g.n(100); {
	case d < 10:
		return M{"k": "bert", "cl": 1, "cj": 1, "ac": 1, "lo": 1, "def": 1}
	case d < 30:
		return M{"k": "bert", "cl": 1, "cj": 1, "ac": 1, "lo": 1}
	case d < 50:
		z := M{"k": "bert", "cl": 0, "cj": 0, "ac": 0, "lo": 0}
		z[g.one("cl", "cj", "ac", "lo")] = 1
		return z
	default:
		return M{"k": "bert", "cl": g.n(2), "cj": g.n(2), "ac": g.n(2), "lo": g.n(2)}
	}
}

// ----------------------------------------------------------------- pre-tokenized texts

func (g *Gen) preTokenizer(kinds ...string) M {
	if len(kinds) == 0 {
		kinds = []string{"wsplit", "delim", "bert", "word", "bytes", "meta"}
	}
	switch k := g.one(kinds...); k {
	case "wsplit", "bert":
		return M{"k": k}
	case "delim":
		return M{"k": k, "c": int(g.char())}
	case "word":
		if g.p(60) {
			return M{"k": k, "p": M{"k": "wd"}, "def": 1}
		}
		return M{"k": k, "p": g.re2Pattern()}
	case "bytes":
		if g.p(50) {
			return M{"k": k, "p": M{"k": "bl"}, "pre": 1, "trim": 1, "def": 1}
		}
		return M{"k": k, "p": g.re2Pattern(), "pre": g.n(2), "trim": g.n(2)}
	default:
		if g.p(40) {
			return M{"k": k, "c": 0x2581, "pre": 1, "def": 1}
		}
		c := rune(0x2581)
		if g.p(50) {
			c = g.char()
		}
		return M{"k": k, "c": int(c), "pre": g.n(2)}
	}
}

func (g *Gen) re2Pattern() M {
	switch d := g.n(100); {
	case d < 25:
		return M{"k": "wd"}
	case d < 60:
		return M{"k": "bl"}
	}
	return g.rx("re2")
}

// rx makes an expression over a set of characters.  The regexp2 engine itself
// mishandles negated sets with characters beyond U+FFFF.
func (g *Gen) rx(eng string) M {
	set := g.set()
	if len(set) == 0 {
		set = []int{int(g.char())}
	}
	neg := b2i(g.p(35))
	for _, c := range set {
		if c > 0xFFFF && eng == "re2" {
			neg = 0
		}
	}
	return M{"k": "rx", "eng": eng, "q": g.one("1", "+", "*"), "neg": neg, "set": set}
}

func (g *Gen) edits(max int) []M {
	out := []M{}
	for i := g.n(max + 1); i > 0; i-- {
		out = append(out, M(g.plainEdit()))
	}
	return out
}

func (g *Gen) splitCB() M {
	acts := []string{"pat", "pat", "pat", "pat", "same", "none"}
	if g.prop == "C10" {
		acts = append(acts, "empty", "parts")
	}
	cb := M{"act": acts[g.n(len(acts))], "p": g.pattern(false), "beh": g.one("rm", "iso", "prev", "next", "cont"),
		"ed": []M{}, "tk": g.n(2) * g.n(3), "fail": 0}
	if g.p(25) {
		cb["ed"] = g.edits(2)
	}
	if g.prop == "C10" && g.p(30) {
		cb["fail"] = g.between(1, 3)
	} else if g.p(5) {
		cb["fail"] = g.between(1, 3)
	}
	return cb
}

func (g *Gen) tokenRule() M {
	switch d := g.n(100); {
	case d < 30:
		return M{"k": "chars"}
	case d < 45:
		return M{"k": "whole"}
	case d < 55:
		return M{"k": "none", "nil": g.n(2)}
	case d < 65:
		return M{"k": "odd"}
	case d < 72 && g.vast == 0:
		return M{"k": g.one("ends", "heads")}
	case d < 78:
		return M{"k": g.one("back", "bytes", "past")}
	default:
		return M{"k": "model", "mo": g.model()}
	}
}

var ptFocus = map[string][]string{
	"C10": {"ptsplit", "ptsplit", "ptnorm", "pttok"},
	"C11": {"ptsplit", "ptnorm", "ptnz", "ptpre", "ptpre"},
	"C12": {"ptenc"},
	"C20": {"ptnz"},
	"C21": {"ptpre"},
	"C22": {"ptpre"},
	"C23": {"ptpre"},
}
var preKinds = map[string][]string{
	"C21": {"bytes"},
	"C22": {"wsplit", "delim", "bert", "word"},
	"C23": {"meta"},
}

// slowPattern is an expression that runs out of time on texts with a long run,
// and otherwise finds some characters.
func (g *Gen) slowPattern() M {
	return M{"k": "slow", "c": longRune, "set": append(g.set(), int(g.char()))}
}

// longRun makes a text, with a run that is too long for a slow pattern, or one
// that is not.
func (g *Gen) longRun() []int {
	t := g.textLen(g.n(5))
	n := g.n(7)
	if g.p(55) {
		n = g.between(40, 44)
	}
	for ; n > 0; n-- {
		t = append(t, longRune)
	}
	return append(t, g.textLen(g.n(5))...)
}

// caseSlowPT has pre-tokenizers whose expression fails on some piece.
func (g *Gen) caseSlowPT(c *Case) {
	g.newAlpha()
	t := g.longRun()
	for i := g.n(3); i > 0; i-- {
		t = append(append(t, 32), g.longRun()...)
	}
	if !c.do(Ev{"op": "ptnew", "t": t, "ed": L{}}) || g.p(60) && !c.do(Ev{"op": "ptpre", "z": M{"k": "wsplit"}}) {
		return
	}
	for i := g.between(1, 3); i > 0; i-- {
		k := "word"
		if g.prop == "C21" || g.prop != "C22" && g.p(50) {
			k = "bytes"
		}
		e := Ev{"op": "ptpre", "z": M{"k": k, "p": g.slowPattern(), "pre": 0, "trim": 0}}
		if g.p(30) {
			e = Ev{"op": "pttok", "fail": 0, "tk": M{"k": "chars"}}
		}
		if !c.do(e) {
			return
		}
	}
}

func (g *Gen) casePT(c *Case) {
	if g.n(1000) < 12 && g.vast == 0 && (g.prop == "C10" || g.prop == "C11" || g.prop == "C21" || g.prop == "C22") {
		g.caseSlowPT(c)
		return
	}
	if g.n(1000) < 10 && g.prop != "C21" && g.vast == 0 {
		g.caseWidePT(c)
		return
	}
	groups := []int{}
	switch g.prop {
	case "C21":
		groups = append(groups, g.n(5), g.n(len(charGroups)))
		if g.p(40) {
			groups = append(groups, 1)
		}
	case "C22":
		groups = append(groups, g.one2(3, 4), g.n(len(charGroups)))
	}
	g.newAlpha(groups...)
	if g.prop == "C23" {
		g.alpha = append(g.alpha, ' ')
		if g.p(50) {
			g.alpha = append(g.alpha, 0x2581)
		}
	}
	g.long = g.n(1000) < 8
	ed := []M{}
	if g.p(30) {
		ed = g.edits(2)
	}
	if !c.do(Ev{"op": "ptnew", "t": g.text(), "ed": ed}) {
		return
	}
	setup := []string{"ptsplit", "ptnorm", "ptnz", "ptpre"}
	if g.p(20) {
		setup = append(setup, "pttok")
	}
	n := g.between(1, 5)
	if g.p(5) {
		n = g.between(6, 10)
	}
	if g.vast != 0 {
		n = g.between(1, 3)
	}
	for ops := n; ops > 0; ops-- {
		var op string
		if f := ptFocus[g.prop]; g.p(55) || ops == 1 {
			op = f[g.n(len(f))]
		} else {
			op = setup[g.n(len(setup))]
		}
		if len(c.x.pts.Splits()) > 12 && (op == "ptsplit" || op == "ptpre") && g.prop != "C21" && g.vast == 0 {
			continue
		}
		var e Ev
		switch op {
		case "ptsplit":
			e = Ev{"op": op, "cb": g.splitCB()}
		case "ptnorm":
			e = Ev{"op": op, "ed": g.edits(2), "fail": 0}
			if g.prop == "C10" && g.p(25) {
				e["fail"] = g.between(1, 3)
			}
		case "pttok":
			e = Ev{"op": op, "tk": g.tokenRule(), "fail": 0}
			if g.prop == "C10" && g.p(25) {
				e["fail"] = g.between(1, 3)
			}
		case "ptnz":
			e = Ev{"op": op, "z": g.normalizer(2)}
		case "ptpre":
			var kinds []string
			if g.p(60) {
				kinds = preKinds[g.prop]
			}
			e = Ev{"op": op, "z": g.preTokenizer(kinds...)}
		case "ptenc":
			if !g.p(12) && !allTokens(c) {
				if !c.do(Ev{"op": "pttok", "tk": g.tokenRule(), "fail": 0}) {
					return
				}
			}
			e = Ev{"op": op, "wi": g.between(-1, 1) * g.index(), "ti": g.n(3)}
			if g.p(20) {
				e["ti"] = g.between(-1, 1) * g.index()
			}
		}
		if !c.do(e) {
			return
		}
	}
}

// caseEnc makes encodings directly, of any tokens and of any fields.
func (g *Gen) caseEnc(c *Case) {
	g.newAlpha()
	num := func() int { return g.between(-1, 1) * g.index() }
	for i := g.between(1, 4); i > 0; i-- {
		n := g.n(6)
		if g.p(3) {
			n = g.between(127, 300)
		}
		if g.p(50) {
			toks := L{}
			for ; n > 0; n-- {
				toks = append(toks, M{"id": num(), "tk": g.short(), "wd": num(), "ty": num(), "off": []int{g.index(), g.index()}})
			}
			if !c.do(Ev{"op": "enctok", "toks": toks}) {
				return
			}
			continue
		}
		nums := func(n int) []int {
			l := []int{}
			for ; n > 0; n-- {
				l = append(l, num())
			}
			return l
		}
		e := Ev{"op": "encnew", "via": 0, "f": M{"err": "", "ids": []int{}, "tys": []int{}, "tks": L{}, "wds": []int{}, "off": L{},
			"sp": []int{}, "at": []int{}, "ov": 0}}
		if g.p(20) {
			e["via"] = g.between(1, 2) // an empty one
		} else {
			f := obj(e["f"])
			for _, k := range []string{"ids", "tys", "wds", "sp", "at"} {
				f[k] = nums(n)
				if g.p(20) {
					f[k] = nums(g.n(6))
				}
			}
			tks, off := L{}, L{}
			for j := 0; j < n; j++ {
				tks, off = append(tks, g.short()), append(off, []int{g.index(), g.index()})
			}
			f["tks"], f["off"], f["ov"] = tks, off, g.n(3)
		}
		if !c.do(e) {
			return
		}
	}
}

func allTokens(c *Case) bool {
	for _, s := range c.x.pts.Splits() {
		if s.Tokens == nil {
			return false
		}
	}
	return true
}
