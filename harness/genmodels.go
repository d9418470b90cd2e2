package main

import "strings"

// ----------------------------------------------------------------- models

type vocab struct {
	pairs L
	ids   map[string]int
	next  int
}

func newVocab() *vocab { return &vocab{pairs: L{}, ids: map[string]int{}} }

func (v *vocab) has(t string) bool { _, ok := v.ids[t]; return ok }

func (v *vocab) add(g *Gen, t string, sparse bool) int {
	if id, ok := v.ids[t]; ok {
		return id
	}
	if sparse && g.p(40) {
		v.next += g.between(1, 3)
	}
	v.ids[t] = v.next
	v.pairs = append(v.pairs, L{cps(t), v.next})
	v.next++
	return v.ids[t]
}

// bpe makes a byte-pair model and the characters its words are made of.
// covered: every character of a word is in the vocabulary or there is an
// unknown token.
func (g *Gen) bpe() (M, []rune) {
	chars := []rune{'a', 'b'}
	for i := g.n(3); i > 0; i-- {
		chars = append(chars, g.anyChar())
	}
	if g.p(50) {
		chars = append(chars, []rune{0xE9, 0x65E5, 0x1F600}[g.n(3)])
	}
	pre, suf, unk := "", "", ""
	if g.p(40) {
		pre = g.one("##", "é", "_")
	}
	if g.p(30) {
		suf = g.one("</w>", "。", "$")
	}
	if g.p(60) {
		unk = g.one("[U]", "?", "é?")
	}
	if g.p(12) { // the unknown token is an ordinary character
		unk = string(chars[g.n(len(chars))])
	}
	for _, s := range []string{pre, suf, unk} { // their characters occur in words
		if s != "" && g.p(12) {
			chars = append(chars, []rune(s)...)
		}
	}
	v := newVocab()
	sparse := g.p(30)
	for _, s := range []string{pre, suf} {
		if s != "" && g.p(15) {
			v.add(g, s, sparse)
		}
	}
	if g.p(50) && unk != "" && g.p(85) {
		v.add(g, unk, sparse)
	}
	var bases []string
	for _, c := range chars {
		missing := unk != "" && g.p(25)
		for pos := 0; pos < 4; pos++ { // first, middle, last, only
			s := string(c)
			if pos == 1 || pos == 2 {
				s = pre + s
			}
			if pos >= 2 {
				s += suf
			}
			if missing && g.p(70) || unk != "" && g.p(8) {
				continue
			}
			v.add(g, s, sparse)
			bases = append(bases, s)
		}
	}
	if unk != "" && g.p(90) {
		v.add(g, unk, sparse)
	}
	if unk != "" {
		if v.has(unk) && g.p(10) { // the unknown token can take part in merges
			bases = append(bases, unk)
		}
		chars = append(chars, 'x')
	}
	merges := map[[2]int][2]int{}
	var order [][2]int
	if len(bases) > 0 {
		for i := g.n(9); i > 0; i-- {
			l, r := bases[g.n(len(bases))], bases[g.n(len(bases))]
			joined := l
			if len(r) >= len(pre) && pre != "" && r[:len(pre)] == pre {
				joined += r[len(pre):]
			} else {
				joined += r
			}
			if g.p(10) {
				joined = bases[g.n(len(bases))]
			}
			id := v.add(g, joined, sparse)
			bases = append(bases, joined)
			key := [2]int{v.ids[l], v.ids[r]}
			if _, ok := merges[key]; !ok {
				order = append(order, key)
			}
			merges[key] = [2]int{len(merges), id}
		}
	}
	ranks := g.r.Perm(len(order))
	shuffled, equal := g.p(60), g.p(25)
	m := L{}
	for i, k := range order {
		rank := merges[k][0]
		if shuffled {
			rank = ranks[i]
		}
		if equal {
			rank /= 2
		}
		m = append(m, L{k[0], k[1], rank, merges[k][1]})
	}
	mo := M{"k": "bpe", "v": v.pairs, "m": m, "unk": runeInts(unk), "fuse": g.n(2), "pre": runeInts(pre),
		"suf": runeInts(suf), "cap": []int{0, 1, 2, 100, 10000}[g.n(5)]}
	if g.p(15) {
		mo["over"] = 1
	}
	g.scaled(M(mo), true)
	return mo, chars
}

// scaled chooses a scale for the ids and ranks of a case.
func (g *Gen) scaled(m M, ranks bool) {
	if g.p(25) {
		m["idx"] = []int{1, 8, 16, 31, 32}[g.n(5)]
	}
	if ranks && g.p(15) {
		m["rkx"] = []int{1, 8, 16, 31, 32}[g.n(5)]
	}
}

func runeInts(s string) []int {
	out := []int{}
	for _, r := range s {
		out = append(out, int(r))
	}
	return out
}

func (g *Gen) wordOf(chars []rune, max int) []int {
	w := []int{}
	for i := g.n(max + 1); i > 0; i-- {
		if len(w) > 0 && g.p(35) {
			w = append(w, w[len(w)-1])
		} else {
			w = append(w, int(g.pick(chars)))
		}
	}
	return w
}

func (g *Gen) wordpiece() (M, []rune) {
	chars := []rune{'a', 'b'}
	for i := g.n(3); i > 0; i-- {
		chars = append(chars, g.anyChar())
	}
	if g.p(50) {
		chars = append(chars, []rune{0xE9, 0x65E5, 0x1F600}[g.n(3)])
	}
	pre := g.one("##", "##", "é", "", "_")
	unk := g.one("[UNK]", "é?")
	if g.p(10) {
		unk = string(chars[g.n(len(chars))])
	}
	for _, s := range []string{pre, unk} { // their characters occur in words
		if s != "" && g.p(12) {
			chars = append(chars, []rune(s)...)
		}
	}
	v := newVocab()
	sparse := g.p(30)
	if pre != "" && g.p(15) {
		v.add(g, pre, sparse)
	}
	if g.p(5) { // the empty term is never a piece
		v.add(g, "", sparse)
	}
	if g.p(85) {
		v.add(g, unk, sparse)
	}
	complete := g.p(70)
	for _, c := range chars {
		if complete || g.p(60) {
			v.add(g, string(c), sparse)
		}
		if complete || g.p(60) {
			v.add(g, pre+string(c), sparse)
		}
	}
	for i := g.n(10); i > 0; i-- {
		s := ""
		for j := g.between(2, 4); j > 0; j-- {
			s += string(g.pick(chars))
		}
		if g.p(50) {
			s = pre + s
		}
		v.add(g, s, sparse)
	}
	if !complete {
		chars = append(chars, 'x')
	}
	max := 100
	if g.p(35) {
		max = g.between(0, 8)
	}
	mo := M{"k": "wp", "v": v.pairs, "unk": runeInts(unk), "pre": runeInts(pre), "max": max}
	g.scaled(mo, false)
	return mo, chars
}

// model makes a model that knows the characters of the alphabet, more or less.
func (g *Gen) model() M {
	v := newVocab()
	v.add(g, "[U]", false)
	var ts []string
	for _, c := range g.alpha {
		if g.p(80) {
			v.add(g, string(c), false)
			ts = append(ts, string(c))
		}
	}
	if g.p(50) {
		for i := g.n(6); i > 0; i-- {
			s := string(g.pick(g.alpha)) + string(g.pick(g.alpha))
			v.add(g, s, false)
			v.add(g, "#"+s, false)
			v.add(g, "#"+string(g.pick(g.alpha)), false)
		}
		return M{"k": "wp", "v": v.pairs, "unk": runeInts("[U]"), "pre": runeInts(g.one("#", "")), "max": 100}
	}
	m := L{}
	used := map[[2]int]bool{}
	for i := g.n(5); i > 0 && len(ts) > 0; i-- {
		l, r := ts[g.n(len(ts))], ts[g.n(len(ts))]
		id := v.add(g, l+r, false)
		ts = append(ts, l+r)
		if k := [2]int{v.ids[l], v.ids[r]}; !used[k] {
			used[k] = true
			m = append(m, L{k[0], k[1], len(m), id})
		}
	}
	return M{"k": "bpe", "v": v.pairs, "m": m, "unk": runeInts("[U]"), "fuse": g.n(2), "pre": []int{}, "suf": []int{}}
}

// The default models have empty vocabularies.
func defaultBpe() M {
	return M{"k": "bpe", "v": L{}, "m": L{}, "unk": []int{}, "fuse": 0, "pre": []int{}, "suf": []int{}, "def": 1}
}

func defaultWp() M {
	return M{"k": "wp", "v": L{}, "unk": runeInts("[UNK]"), "pre": runeInts("##"), "max": 100, "def": 1}
}

func (g *Gen) caseTok(c *Case) {
	var mo M
	var chars []rune
	if g.prop == "C16" {
		mo, chars = g.wordpiece()
	} else {
		mo, chars = g.bpe()
	}
	op := "tok"
	if g.prop == "C14" {
		op = "tile"
	}
	if g.prop != "C16" && g.n(1000) < 5 && g.vast == 0 {
		g.caseWideTok(c, op)
		return
	}
	if g.prop != "C16" && g.n(1000) < 6 {
		c.do(Ev{"op": op, "mo": defaultBpe(), "t": []int{}})
		return
	}
	if g.prop == "C16" && g.p(1) {
		mo = defaultWp()
	}
	if m, _ := mo["m"].(L); len(m) > 0 && g.p(4) { // a merge into an id without term
		list(m[g.n(len(m))])[3] = 5000 + g.n(3)
	}
	max := 9
	if g.p(15) {
		max = 18
	}
	var words [][]int
	long := g.n(1000) < 12
	if g.vast != 0 {
		if g.prop != "C16" {
			g.vast = g.between(1030, 1100) // merging takes long in the specification
		} else {
			if g.vast > 2200 {
				g.vast = g.between(2050, 2110) // looking for pieces takes long in the code
			}
			if g.p(80) {
				mo["max"] = g.vast + g.between(-1, 100)
			}
		}
		if !c.do(Ev{"op": op, "mo": mo, "t": g.repetitive(chars, g.vast)}) {
			return
		}
	}
	for i := g.between(2, 6); i > 0; i-- {
		w := g.wordOf(chars, max)
		if len(words) > 0 && g.p(12) {
			w = words[g.n(len(words))]
		}
		if long && i == 1 {
			w = g.longWord(chars, mo)
		}
		words = append(words, w)
		if !c.do(Ev{"op": op, "mo": mo, "t": w}) {
			return
		}
	}
}

// longWord makes a word around the limit of WordPiece models, or one of some
// hundred characters, with repetitions.
func (g *Gen) longWord(chars []rune, mo M) []int {
	n := g.between(255, 300)
	if max, ok := mo["max"]; ok && g.p(85) {
		n = toInt(max) + g.between(-1, 2)
		if n < 0 {
			n = 0
		}
	}
	return g.repetitive(chars, n)
}

func (g *Gen) repetitive(chars []rune, n int) []int {
	w := []int{}
	unit := g.wordOf(chars, 3)
	for len(w) < n {
		if g.p(70) && len(unit) > 0 {
			w = append(w, unit...)
		} else {
			w = append(w, int(g.pick(chars)))
		}
	}
	return w[:n]
}

func (g *Gen) caseMall(c *Case) {
	for i := g.between(1, 4); i > 0; i-- {
		ids := g.between(1, 4)
		m := L{}
		used := map[[2]int]bool{}
		span := g.between(1, 8)
		for j := g.between(1, 8); j > 0; j-- {
			k := [2]int{g.n(ids + 2), g.n(ids + 2)}
			if used[k] {
				continue
			}
			used[k] = true
			m = append(m, L{k[0], k[1], g.n(span), g.n(ids + 3)})
		}
		w := L{}
		for j := g.n(11); j > 0; j-- {
			w = append(w, L{g.n(ids), g.between(1, 4)})
		}
		if g.n(1000) < 6 || g.vast > 0 {
			j := g.between(255, 300)
			if g.vast > 0 {
				j = g.between(1030, 1100)
				g.vast = -1
			}
			for len(w) < j {
				w = append(w, L{g.n(ids), g.between(1, 4)})
			}
		}
		if g.p(4) && len(w) > 0 { // whose sum stays a number of the specification
			for j := g.between(1, 3); j > 0; j-- {
				list(w[g.n(len(w))])[1] = []int{127, 255, 256, 32767, 65535, 65536, 1 << 24, 1 << 26}[g.n(8)]
			}
		}
		e := Ev{"op": "mall", "w": w, "m": m}
		g.scaled(M(e), true)
		if g.p(6) {
			e["w"] = g.widenWord(w)
		}
		if !c.do(e) {
			return
		}
	}
}

func (g *Gen) caseDrop(c *Case) {
	mo, chars := g.bpe()
	for {
		if u := mo["unk"].([]int); len(u) == 0 || hasTerm(mo, u) {
			break
		}
		mo, chars = g.bpe()
	}
	if g.vast > 0 {
		e := Ev{"op": "drop", "mo": mo, "t": g.repetitive(chars, g.between(1030, 1100)), "seed": g.n(1 << 30), "many": 0}
		e["dp"], e["runs"] = 100*g.n(2), 2
		c.do(e)
		return
	}
	if g.p(4) {
		c.do(g.odds())
		return
	}
	for i := g.between(1, 3); i > 0; i-- {
		e := Ev{"op": "drop", "mo": mo, "t": g.wordOf(chars, 6), "seed": g.n(1 << 30), "many": 0}
		switch d := g.n(100); {
		case d < 20:
			e["dp"], e["runs"] = 0, 4
		case d < 40:
			e["dp"], e["runs"] = 100, 8
		case d < 70:
			e["dp"], e["runs"], e["many"] = g.between(30, 70), 100, 1
		default:
			e["dp"], e["runs"] = g.between(1, 99), 25
		}
		if !c.do(e) {
			return
		}
	}
}

// odds counts how often dropout gives which tokens, for a word made of pairs
// that merge and of pairs of such pairs.
func (g *Gen) odds() Ev {
	cs := []int{'a', 'b', 'c', 'd', 'x'}
	for i := range cs {
		if g.p(30) {
			cs[i] = int(g.anyChar())
		}
	}
	for i := range cs { // all different
		for j := 0; j < i; j++ {
			if cs[j] == cs[i] {
				cs[i] = 0x4E10 + i
			}
		}
	}
	v, m := L{}, L{}
	for i, ch := range cs {
		v = append(v, L{[]int{ch}, i})
	}
	v = append(v, L{[]int{cs[0], cs[1]}, 5}, L{[]int{cs[2], cs[3]}, 6}, L{cs[:4:4], 7})
	rank := func() int { return g.n(3) }
	m = append(m, L{0, 1, rank(), 5})
	if g.p(80) {
		m = append(m, L{2, 3, rank(), 6})
	}
	if g.p(70) {
		m = append(m, L{5, 6, rank(), 7})
	}
	var w []int
	for len(w) < 8 && (len(w) == 0 || g.p(65)) {
		switch g.n(4) {
		case 0:
			w = append(w, cs[0], cs[1])
		case 1:
			w = append(w, cs[2], cs[3])
		case 2:
			w = append(w, cs[:4]...)
		default:
			w = append(w, cs[4], cs[0], cs[1])
		}
	}
	mo := M{"k": "bpe", "v": v, "m": m, "unk": []int{}, "fuse": 0, "pre": []int{}, "suf": []int{}}
	return Ev{"op": "odds", "mo": mo, "t": w, "q": g.between(1, 3), "seed": g.n(1 << 30)}
}

func hasTerm(mo M, t []int) bool {
	for _, p := range list(mo["v"]) {
		if encode(list(p)[0]) == encode(t) {
			return true
		}
	}
	return false
}

// ----------------------------------------------------------------- merge files

func (g *Gen) caseMload(c *Case) {
	chars := []rune{'a', 'b', '#', g.anyChar(), 0xE9}
	nice := []rune{}
	for _, r := range chars {
		if r != ' ' && r != '\n' && r != '\r' && (r < '0' || r > '9') {
			nice = append(nice, r)
		}
	}
	k := 0
	pre := ""
	if g.p(50) {
		pre = g.one("##", "é", "#", "日")
		k = len(pre)
	}
	if g.p(10) {
		k = g.n(6)
	}
	v := newVocab()
	sparse := g.p(30)
	var ts []string
	for _, r := range nice {
		v.add(g, string(r), sparse)
		ts = append(ts, string(r))
		if pre != "" {
			v.add(g, pre+string(r), sparse)
			ts = append(ts, pre+string(r))
		}
	}
	if g.p(10) {
		v.add(g, "", sparse)
		ts = append(ts, "")
	}
	if g.p(10) { // the version mark is an ordinary text elsewhere in a line
		v.add(g, "#version", sparse)
		ts = append(ts, "#version")
	}
	file := ""
	faulty := g.p(55)
	lines := g.n(7)
	if g.n(1000) < 8 {
		lines = g.between(255, 300)
		faulty = g.p(15)
	}
	if g.vast > 0 {
		lines = g.vast
		faulty = g.p(15)
	}
	for i := 0; i < lines; i++ {
		l, r := ts[g.n(len(ts))], ts[g.n(len(ts))]
		line := l + " " + r
		if faulty && g.p(20) {
			line = g.one("", l, l+"  "+r, l+" "+r+" "+l, l+"\t"+r, " "+l, l+" ", line+" ", "nope "+r, l+" nope", " ", l+"\u00a0"+r, line,
				line+"\r", "\r"+line, l+"\r"+r, line+"\r"+line, l+"\v"+r, line+"\u2028"+line, line+"\u0085"+line, line+"\f", "\ufeff"+line, l+"\u2003"+r, l+" \t"+r,
				line+" #", "# "+l, "#", "#versio n", " #version", line+" "+line, l+r, strings.ToUpper(line), "\r", "\x00", line+"\x00")
		} else if g.p(12) {
			line = g.one("#version: 0.2", "#version", "#versionless "+l+" "+r)
		} else if len(r) >= k && !(faulty && g.p(10)) {
			v.add(g, l+r[k:], sparse)
			if g.p(50) && (g.vast == 0 || len(l+r) < 12) {
				ts = append(ts, l+r[k:])
			}
		}
		end := "\n"
		if g.p(10) {
			end = "\r\n"
		}
		if i == lines-1 && g.p(40) {
			end = ""
		}
		file += line + end
	}
	pairs := L{} // terms that are texts
	for _, p := range v.pairs {
		ok := true
		for _, x := range list(list(p)[0]) {
			ok = ok && toInt(x) >= 0
		}
		if ok {
			pairs = append(pairs, p)
		}
	}
	e := Ev{"op": "mload", "v": pairs, "k": k, "t": runeInts(file), "bad": 0, "how": ""}
	g.scaled(M(e), false)
	if g.p(8) {
		e["bad"], e["how"] = 1, g.one("missing", "dir", "long")
	}
	c.do(e)
}

// ----------------------------------------------------------------- vocabularies

var badVocabs = []string{"", "{", "null", "[]", "[1]", `"a"`, `{"a":"b"}`, `{"a":1.5}`, `{"a":1}x`, `{"a":[]}`, `{"a":1,}`,
	" ", "\n", "\ufeff{\"a\":0}", `{"a":0}{"b":1}`, `{"a" 0}`, `{"a":01}`, `{'a':0}`, `[{"a":0}]`, `{"a":0,"b"}`, `{"a":0 "b":1}`, `{"a":"0"}`,
	`{"a":0,"b":[1]}`, `{"a":+1}`, `{"a":0}}`, `{"a":0} # x`, `{"a":0`, `{"a":0,"b":"1"}`, `{"a":-}`, `{"a":0x1}`, "{\"a\u0000\":0,}", `{"\q":0}`, `{"a":0.5}`, `tru`, `0`, `""`, `{"a":false}`,
	"3", `{"a":99999999999999999999}`, `{"a":{}}`, `{"a":true}`, `{a:1}`}

func (g *Gen) caseVoc(c *Case) {
	g.newAlpha()
	terms := [][]int{{}}
	for i := g.between(2, 6); i > 0; i-- {
		terms = append(terms, g.textLen(g.between(1, 3)))
	}
	for g.p(25) { // related terms: of other case, with other spaces, quoted
		s := toStr(terms[g.n(len(terms))])
		s = []string{strings.ToUpper(s), strings.ToLower(s), " " + s, s + " ", strings.Title(s), "\"" + s, s + "\\", "##" + s, s + "</w>"}[g.n(9)]
		terms = append(terms, runeInts(s))
	}
	term := func() []int { return terms[g.n(len(terms))] }
	first := Ev{"op": "vnew"}
	switch d := g.n(100); {
	case d < 45:
	case d < 55:
		first = Ev{"op": "vload", "bad": 1, "v": L{}, "raw": badVocabs[g.n(len(badVocabs))]}
	default:
		v := L{}
		usedT, usedI := map[string]bool{}, map[int]bool{}
		for i := g.n(6); i > 0; i-- {
			t, id := term(), g.n(8)
			if g.p(10) {
				id = g.between(-3, 40)
			} else if g.p(3) {
				id = hugeFrom + g.n(3)
			} else if g.p(5) {
				id = []int{127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537, 1 << 24, 2147483000, -129, -70000}[g.n(13)]
			}
			if k := encode(t); !usedT[k] && !usedI[id] {
				usedT[k], usedI[id] = true, true
				v = append(v, L{t, id})
			}
		}
		if g.n(1000) < 8 || g.vast > 0 { // a big one
			size := g.between(1001, 1100)
			if g.vast > 0 {
				size = g.vast
			}
			for i := size; i > 0; i-- {
				t := []int{97 + i%26, 97 + i/26%26, 97 + i/676}
				id := 100 + i
				if usedI[id] || usedT[encode(t)] {
					continue
				}
				usedT[encode(t)], usedI[id] = true, true
				v = append(v, L{t, id})
			}
			terms = append(terms, []int{98, 97, 97})
		}
		first = Ev{"op": "vload", "bad": 0, "v": v, "raw": "", "style": g.n(4)}
	}
	probe := L{}
	for _, t := range terms {
		probe = append(probe, t)
	}
	first["probe"] = probe
	// ids of new terms are determined while the ids have no gap
	dense := map[int]bool{}
	if first["op"] == "vload" {
		for _, p := range list(first["v"]) {
			dense[toInt(list(p)[1])] = true
		}
	}
	whole := true
	for i := 0; i < len(dense); i++ {
		whole = whole && dense[i]
	}
	quiet := g.p(40) && first["bad"] != 1
	if quiet {
		first["q"] = 1
	}
	if !c.do(first) {
		return
	}
	if first["bad"] == 1 {
		return
	}
	steps := g.n(9)
	if g.p(3) {
		steps = g.between(20, 60)
		for len(terms) < 30 {
			terms = append(terms, g.textLen(g.between(1, 4)))
		}
	}
	if g.vast > 0 && whole {
		quiet = true
		for i := g.between(1030, 1100); i > 0; i-- {
			if !c.do(Ev{"op": "vadd", "t": []int{65 + i%7, 0x4E00 + i}, "probe": L{}, "q": 1}) {
				return
			}
		}
	}
	for i := steps; i >= 0; i-- {
		var e Ev
		switch d := g.n(100); {
		case quiet && d < 15:
			e = Ev{"op": "vid", "t": term()}
		case quiet && d < 35:
			e = Ev{"op": "vstr", "i": g.between(-1, 9)}
			if g.p(30) {
				e["i"] = g.between(90, 1200)
			} else if g.p(10) {
				e["i"] = hugeFrom + g.n(3)
			}
		case quiet && d < 40:
			e = Ev{"op": "vsize"}
		default:
			e = Ev{"op": "vadd", "t": term(), "probe": L{}}
			if quiet && whole && g.p(70) {
				e["q"] = 1
			}
		}
		if i == 0 {
			e = Ev{"op": "vadd", "t": term(), "probe": L{}}
		}
		if !c.do(e) {
			return
		}
	}
}

// ----------------------------------------------------------------- patterns and offsets

func (g *Gen) caseFM(c *Case) {
	if g.n(1000) < 6 && g.vast == 0 {
		g.caseWideFM(c)
		return
	}
	g.newAlpha(g.n(len(charGroups)))
	g.long = g.n(1000) < 8
	if g.p(6) {
		lit := oddLiterals[g.n(len(oddLiterals))]
		g.pats = append(g.pats, M{"k": "str", "t": runeInts(lit)})
		g.texts = append(g.texts, g.quirky(g.short(), lit))
	}
	if g.n(1000) < 15 {
		g.texts = append(g.texts, g.slowText(g.short()))
	}
	var last Ev
	n := g.between(2, 6)
	if g.vast != 0 {
		if g.p(60) { // something of every kind that matches nearly everywhere
			t := g.dense(g.vast)
			for _, p := range g.densePatterns() {
				if g.p(25) {
					p = M{"k": "inv", "p": p}
				}
				if !c.do(Ev{"op": "fm", "p": p, "t": t}) {
					return
				}
			}
			return
		}
		g.text()
		n = g.between(1, 3)
	}
	for i := n; i > 0; i-- {
		e := Ev{"op": "fm", "p": g.pattern(true), "t": g.text()}
		if g.vast != 0 {
			e["t"] = g.texts[len(g.texts)-1]
		}
		if g.p(5) {
			e["p"] = g.failing(toStr(e["t"]))
		}
		if last != nil && g.p(15) { // the same once more
			e["p"], e["t"] = copyOf(obj(last["p"])), last["t"]
		}
		last = e
		if !c.do(e) {
			return
		}
	}
}

// caseRuns asks for offsets in a very long text.
func (g *Gen) caseRuns(c *Case) {
	g.newAlpha()
	runs := [][]int{}
	for i := g.between(1, 4); i > 0; i-- {
		n := g.between(1, 6)
		if g.p(60) {
			n = g.between(20000, 90000)
		}
		runs = append(runs, []int{int(g.char()), n})
	}
	total, at := 0, [][]int{}
	for _, r := range runs {
		at = append(at, []int{total, len(string(rune(r[0]))), r[1]})
		total += at[len(at)-1][1] * r[1]
	}
	pick := func() int { // a boundary
		a := at[g.n(len(at))]
		k := g.n(a[2] + 1)
		if g.p(30) {
			k = a[2] - g.n(2)
		}
		return a[0] + a[1]*k
	}
	for i := g.between(2, 5); i > 0; i-- {
		s, e := pick(), pick()
		if s > e {
			s, e = e, s
		}
		if !c.do(Ev{"op": "cvr", "t": runs, "s": s, "e": e}) || !c.do(Ev{"op": "isbr", "t": runs, "i": pick() + g.between(-2, 2)}) {
			return
		}
	}
}

func (g *Gen) caseOffsets(c *Case) {
	if g.n(1000) < 15 {
		g.caseRuns(c)
		return
	}
	g.newAlpha()
	if g.vast > 0 {
		t := g.newText()
		s := toStr(t)
		for i := 0; i < 12; i++ {
			from, to := g.goodRange(s)
			if i == 0 {
				from, to = 0, len(s)
			}
			if !c.do(Ev{"op": "cv", "t": t, "s": from, "e": to}) || !c.do(Ev{"op": "isb", "t": t, "i": from + g.between(-2, 2)}) {
				return
			}
		}
		return
	}
	g.long = g.n(1000) < 5
	t := g.text()
	s := toStr(t)
	bs := boundaries(s)
	for i := range bs {
		for j := i; j < len(bs); j++ {
			if len(bs) > 8 && g.p(70) || len(bs) > 100 && g.n(1000) > 5 {
				continue
			}
			if !c.do(Ev{"op": "cv", "t": t, "s": bs[i], "e": bs[j]}) {
				return
			}
		}
	}
	for i := -2; i <= len(s)+2; i++ {
		if len(s) > 200 && g.p(90) {
			continue
		}
		if !c.do(Ev{"op": "isb", "t": t, "i": i}) {
			return
		}
	}
	c.do(Ev{"op": "isb", "t": t, "i": g.between(-1000, 1000)})
}
