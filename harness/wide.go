package main

import (
	"strings"
	"unicode/utf8"

	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	nstr "github.com/nlpodyssey/gotokenizers/normalizedstring"
)

// Very long texts. A run of the symbol wideRune, a character that nothing here
// looks at in particular, stands in the specification for one character as wide
// as the run: wideBase plus its bytes. Positions after the run are large then.
// The cases keep to operations that treat the run like one character.
const (
	wideRune  = 0x2604
	wideBase  = utf8.MaxRune + 1
	wideLeast = 300 // characters of the shortest run that is taken as one
)

func isWide(c int) bool { return c >= wideBase }

func wideRun(c int) string { return strings.Repeat(string(rune(wideRune)), (c-wideBase)/3) }

// wideAt gives the number of bytes of a run that starts at i, or 0.
func wideAt(s string, i int) int {
	const w = string(rune(wideRune))
	j := i
	for strings.HasPrefix(s[j:], w) {
		j += len(w)
	}
	if (j-i)/len(w) < wideLeast {
		return 0
	}
	return j - i
}

// wideSpan is the span of a run's normalized bytes, if they have one like a
// character: each the same, or each that of its own character.
func wideSpan(n *nstr.NormalizedString, at, w int) ([]int, bool) {
	first := spanAt(n, at)
	same, own := true, true
	for b := 0; b < w; b++ {
		s := spanAt(n, at+b)
		same = same && s[0] == first[0] && s[1] == first[1]
		own = own && s[0] == first[0]+b/3*3 && s[1] == s[0]+3
	}
	if own {
		return []int{first[0], first[0] + w}, true
	}
	return first, same
}

// cut is a position between two characters of the specification.
type cutPoint struct{ at, wideBefore, wideAfter int }

func cutPoints(s string) []cutPoint {
	out := []cutPoint{{}}
	for i := 0; i < len(s); {
		w := wideAt(s, i)
		big := b2i(w > 0)
		if w == 0 {
			_, w = utf8.DecodeRuneInString(s[i:])
		}
		out[len(out)-1].wideAfter = big
		i += w
		out = append(out, cutPoint{at: i, wideBefore: big})
	}
	return out
}

func (g *Gen) wideChar() int {
	n := []int{320, 342, 683, 1366, 2731, 10923, 21846, 21900, 30000, 43700}[g.n(10)] + g.n(3)
	return wideBase + 3*n
}

// wideText has a run inside.
func (g *Gen) wideText() []int {
	t := append(g.textLen(g.between(1, 5)), g.wideChar())
	return append(t, g.textLen(g.between(1, 6))...)
}

// widePattern treats a run like a character.
func (g *Gen) widePattern() M {
	switch d := g.n(100); {
	case d < 25:
		return M{"k": "fn", "neg": 0, "set": g.set()}
	case d < 35:
		return M{"k": "cls", "name": g.one("ws", "pu", "mn", "ot"), "neg": 0}
	case d < 50:
		return M{"k": "rune", "c": int(g.char())}
	case d < 65:
		return M{"k": "str", "t": g.textLen(g.between(1, 2))}
	case d < 82:
		p := g.rx(g.one("go", "re2"))
		p["q"] = "+"
		return p
	case d < 88:
		return M{"k": "wd"}
	case d < 94:
		return M{"k": "bl"}
	default:
		return M{"k": "inv", "p": g.widePattern()}
	}
}

// wideLiteral matches no run.
func (g *Gen) wideLiteral() M {
	for {
		switch p := g.widePattern(); p["k"] {
		case "fn", "cls", "rune", "str":
			return p
		}
	}
}

// widePlain is an edit that treats a run like a character.
func (g *Gen) widePlain(text string) Ev {
	cuts := cutPoints(text)
	ops := []string{"filter", "map", "lower", "upper", "trim", "replace"}
	if cuts[0].wideAfter == 0 && cuts[len(cuts)-1].wideBefore == 0 {
		ops = append(ops, "prepend", "append")
	}
	switch op := g.one(ops...); op {
	case "filter":
		return Ev{"op": op, "p": g.predicate()}
	case "map":
		return Ev{"op": op, "m": g.mapPairs()}
	case "trim":
		return g.trim()
	case "prepend", "append":
		return Ev{"op": op, "t": g.short()}
	case "replace":
		return Ev{"op": op, "p": g.wideLiteral(), "t": g.short()}
	default:
		return Ev{"op": op}
	}
}

func (g *Gen) wideNormalizer() M {
	for {
		z := g.normalizer(1)
		if k := z["k"]; k == "bert" || k == "lower" || k == "strip" || k == "mapz" || k == "fail" {
			return z
		}
	}
}

func (g *Gen) caseWideNS(c *Case) {
	g.newAlpha()
	if !c.do(Ev{"op": "new", "t": g.wideText()}) {
		return
	}
	focus := []string{}
	for _, op := range nsFocus[g.prop] {
		if op != "oa" {
			focus = append(focus, op)
		}
	}
	for ops := g.between(2, 6); ops > 0; ops-- {
		x := g.n(len(c.x.pool))
		if g.p(50) {
			x = 0
		}
		n := c.x.pool[x]
		op := g.one("filter", "map", "lower", "upper", "trim", "prepend", "append", "replace", "slice", "split", "nz", "tr", "cn")
		if len(focus) > 0 && (g.p(60) || ops == 1) {
			op = focus[g.n(len(focus))]
		}
		var e Ev
		switch op {
		case "slice", "cn", "co", "gn", "go":
			e = Ev{"op": op, "ref": g.one("n", "o")}
			text := n.Get()
			if e["ref"] == "o" {
				text = n.GetOriginal()
			}
			cuts := cutPoints(text)
			i, j := g.n(len(cuts)), g.n(len(cuts))
			if i > j {
				i, j = j, i
			}
			if op == "gn" || op == "go" { // nothing to write out
				for k := i; k < j; k++ {
					if cuts[k].wideAfter == 1 {
						i = k + 1
					}
				}
			}
			e["s"], e["e"] = cuts[i].at, cuts[j].at
			if g.p(4) && op != "slice" {
				e["e"] = len(text) + g.between(1, 4)
				if i == j && i == len(cuts)-1 {
					e["s"] = len(text) + 1
				}
			}
		case "split":
			e = Ev{"op": op, "p": g.widePattern(), "beh": g.one("rm", "iso", "prev", "next", "cont")}
		case "nz":
			e = Ev{"op": op, "z": g.wideNormalizer()}
		case "tr":
			cuts := cutPoints(n.Get())
			i := g.n(len(cuts))
			j := i
			for j+1 < len(cuts) && g.p(70) && cuts[j].wideAfter == 0 {
				j++
			}
			if cuts[i].wideBefore == 1 {
				continue
			}
			io := 0
			if j > i && g.p(40) {
				io = g.n(j - i + 1)
			}
			e = Ev{"op": op, "ref": "n", "via": "range", "s": cuts[i].at, "e": cuts[j].at, "io": io, "dest": g.changes(j - i - io)}
		default:
			for {
				if e = g.widePlain(n.Get()); e.s("op") == op || op == "prepend" || op == "append" {
					break
				}
			}
		}
		e["x"] = x + 1
		if len(c.x.pool) > 7 && (e.s("op") == "slice" || e.s("op") == "split") {
			continue
		}
		if !c.do(e) {
			return
		}
	}
}

func (g *Gen) wideModel() M {
	mo := g.model()
	for mo["k"] != "bpe" {
		mo = g.model()
	}
	mo["fuse"] = 1
	return mo
}

func (g *Gen) caseWidePT(c *Case) {
	g.newAlpha()
	if g.prop == "C23" {
		g.alpha = append(g.alpha, ' ')
	}
	t := g.wideText()
	if !c.do(Ev{"op": "ptnew", "t": t, "ed": []M{}}) {
		return
	}
	kinds := []string{"wsplit", "delim", "bert", "word", "meta"}
	for ops := g.between(1, 4); ops > 0; ops-- {
		op := g.one("ptsplit", "ptnorm", "ptnz", "ptpre")
		if f := ptFocus[g.prop]; g.p(60) || ops == 1 {
			op = f[g.n(len(f))]
		}
		var e Ev
		switch op {
		case "ptsplit":
			e = Ev{"op": op, "cb": M{"act": "pat", "p": g.widePattern(), "beh": g.one("rm", "iso", "prev", "next", "cont"),
				"ed": []M{}, "tk": 0, "fail": 0}}
		case "ptnorm":
			ed := []M{}
			for i := g.n(3); i > 0; i-- {
				ed = append(ed, M(g.widePlain(string(rune(wideRune))+strings.Repeat(string(rune(wideRune)), wideLeast))))
			}
			e = Ev{"op": op, "ed": ed, "fail": 0}
		case "ptnz":
			e = Ev{"op": op, "z": g.wideNormalizer()}
		case "ptpre":
			ks := kinds
			if g.p(60) && preKinds[g.prop] != nil && g.prop != "C21" {
				ks = preKinds[g.prop]
			}
			z := g.preTokenizer(ks...)
			switch z["k"] {
			case "word":
				z = M{"k": "word", "p": M{"k": "wd"}, "def": 1}
			case "meta":
				for _, s := range c.x.pts.Splits() {
					if cutPoints(s.NormalizedString.Get())[0].wideAfter == 1 {
						z["pre"] = 0
						delete(z, "def")
					}
				}
			}
			e = Ev{"op": op, "z": z}
		case "pttok":
			tk := M{"k": "none", "nil": 0}
			if !g.p(15) {
				tk = M{"k": "model", "mo": g.wideModel()}
			}
			e = Ev{"op": op, "tk": tk, "fail": 0}
		case "ptenc":
			if !allTokens(c) {
				if !c.do(Ev{"op": "pttok", "tk": M{"k": "model", "mo": g.wideModel()}, "fail": 0}) {
					return
				}
			}
			e = Ev{"op": op, "wi": g.between(-1, 1), "ti": g.n(2)}
		}
		if !c.do(e) {
			return
		}
	}
}

// In a word to merge, a run of inertSymbol, which no merge mentions, stands for
// one symbol: wideSymbols plus their number.
const (
	inertSymbol = 999999937
	wideSymbols = 100000000
)

func isWideSymbol(id int) bool { return id > wideSymbols }

// inertRun is the length of a run that starts at i, or 0.
func inertRun(w bpemodel.Word, i int) int {
	n := 0
	for i+n < len(w) && w[i+n].ID == inertSymbol && w[i+n].Length == w[i].Length {
		n++
	}
	if n < wideLeast {
		return 0
	}
	return n
}

// widenWord puts a run into a word.
func (g *Gen) widenWord(w L) L {
	n := []int{320, 1000, 32760, 33000, 65530, 65536, 66000}[g.n(7)] + g.n(8)
	at := g.n(len(w) + 1)
	out := append(L{}, w[:at]...)
	out = append(out, L{wideSymbols + n, n * g.between(1, 3)})
	return append(out, w[at:]...)
}

// caseWideTok tokenizes long unknown words.
func (g *Gen) caseWideTok(c *Case, op string) {
	g.newAlpha()
	mo := g.wideModel()
	for i := g.between(1, 3); i > 0; i-- {
		if !c.do(Ev{"op": op, "mo": mo, "t": g.wideText()}) {
			return
		}
	}
}

func (g *Gen) caseWideFM(c *Case) {
	g.newAlpha()
	for i := g.between(1, 4); i > 0; i-- {
		if !c.do(Ev{"op": "fm", "p": g.widePattern(), "t": g.wideText()}) {
			return
		}
	}
}
