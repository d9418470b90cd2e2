package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// The sweep runs short histories with every character there is. Characters of
// the same classes for which the code shows the same, up to the character
// itself, make a group; one of each group becomes a case of the trace, so a
// character that is treated in its own way is always among them. The first
// characters and those around the borders of the CJK blocks are all cases.

type program struct {
	kind  string
	bytes bool // the outcome depends on the bytes of the character
	ev    func(c int) []Ev
}

const (
	chA, chB, chZ = 97, 98, 48
	maxChar       = 0x10FFFF
)

func ns(t []int, more ...Ev) []Ev { return append([]Ev{{"op": "new", "t": t}}, more...) }
func pt(t []int, more ...Ev) []Ev {
	return append([]Ev{{"op": "ptnew", "t": t, "ed": L{}}}, more...)
}
func pre(z M) Ev { return Ev{"op": "ptpre", "z": z} }
func nz(z M) Ev  { return Ev{"op": "nz", "x": 1, "z": z} }
func cls(name string) M {
	return M{"k": "cls", "name": name, "neg": 0}
}
func bert(cl, cj, ac, lo int) M {
	return M{"k": "bert", "cl": cl, "cj": cj, "ac": ac, "lo": lo}
}

func nsProgs(ev ...func(c int) []Ev) []program { return progs("ns", ev...) }
func progs(kind string, ev ...func(c int) []Ev) []program {
	var out []program
	for _, e := range ev {
		out = append(out, program{kind: kind, ev: e})
	}
	return out
}

// sweepPrograms gives the histories a property runs with every character.
func sweepPrograms(prop string) []program {
	mid := func(c int) []int { return []int{chA, c, chA} }
	around := func(c int) []int { return []int{c, chA, c} }
	vocab := func(c int) L {
		if c == chA || c == 35 || c == 63 { // terms are different
			c = chB
		}
		return L{L{[]int{c}, 0}, L{[]int{chA}, 1}, L{[]int{chA, c}, 2}, L{[]int{35, c}, 3}, L{[]int{35, c, chA}, 4}, L{[]int{63}, 5}}
	}
	bpe := func(c int, pre []int) M {
		return M{"k": "bpe", "v": vocab(c), "m": L{L{1, 0, 0, 2}, L{1, 3, 1, 2}}, "unk": []int{63}, "fuse": 0, "pre": pre, "suf": []int{}, "cap": 10}
	}
	unkBpe := func(fuse int) M {
		return M{"k": "bpe", "v": L{L{[]int{chA}, 0}, L{[]int{63}, 1}}, "m": L{}, "unk": []int{63}, "fuse": fuse, "pre": []int{}, "suf": []int{}, "cap": 10}
	}
	switch prop {
	case "C01":
		return nsProgs(
			func(c int) []Ev { return ns(mid(c), Ev{"op": "lower", "x": 1}, Ev{"op": "upper", "x": 1}) },
			func(c int) []Ev {
				return ns([]int{c}, Ev{"op": "append", "x": 1, "t": []int{c}}, Ev{"op": "trim", "x": 1, "l": 1, "r": 0})
			})
	case "C02":
		return nsProgs(
			func(c int) []Ev { return ns(mid(c), Ev{"op": "lower", "x": 1}) },
			func(c int) []Ev { return ns(mid(c), Ev{"op": "upper", "x": 1}) },
			func(c int) []Ev { return ns(around(c), Ev{"op": "trim", "x": 1, "l": 1, "r": 1}) },
			func(c int) []Ev {
				return ns([]int{c, chA, c, c}, Ev{"op": "trim", "x": 1, "l": 0, "r": 1}, Ev{"op": "trim", "x": 1, "l": 1, "r": 0})
			},
			func(c int) []Ev {
				return ns(mid(c), Ev{"op": "filter", "x": 1, "p": M{"k": "fn", "neg": 1, "set": []int{c}}},
					Ev{"op": "map", "x": 1, "m": L{L{chA, c}}})
			})
	case "C03":
		return nsProgs(func(c int) []Ev {
			return ns([]int{chA}, Ev{"op": "append", "x": 1, "t": []int{c, chB}}, Ev{"op": "prepend", "x": 1, "t": []int{chB, c}},
				Ev{"op": "replace", "x": 1, "p": M{"k": "rune", "c": c}, "t": []int{chZ}},
				Ev{"op": "replace", "x": 1, "p": M{"k": "str", "t": []int{chA}}, "t": []int{c}})
		})
	case "C04":
		return nsProgs(func(c int) []Ev {
			w := len(string(rune(c)))
			return ns(mid(c), Ev{"op": "tr", "x": 1, "ref": "o", "s": 1, "e": 1 + w, "dest": L{L{c, 0}, L{chB, 1}}, "io": 0})
		})
	case "C05":
		return nsProgs(func(c int) []Ev {
			w := len(string(rune(c)))
			return ns(mid(c), Ev{"op": "upper", "x": 1}, Ev{"op": "cn", "x": 1, "ref": "o", "s": 1, "e": 1 + w},
				Ev{"op": "go", "x": 1, "ref": "o", "s": 0, "e": 1 + w}, Ev{"op": "gn", "x": 1, "ref": "o", "s": 1, "e": 1 + w})
		})
	case "C06":
		return nsProgs(func(c int) []Ev { return ns(mid(c), Ev{"op": "lower", "x": 1}, Ev{"op": "oa", "x": 1}) })
	case "C07":
		return nsProgs(func(c int) []Ev {
			w := len(string(rune(c)))
			return ns(mid(c), Ev{"op": "slice", "x": 1, "ref": "o", "s": 1, "e": 1 + w}, Ev{"op": "slice", "x": 1, "ref": "n", "s": 1, "e": 2 + w})
		})
	case "C08":
		return nsProgs(
			func(c int) []Ev { return ns(mid(c), Ev{"op": "split", "x": 1, "p": cls("ws"), "beh": "iso"}) },
			func(c int) []Ev {
				return ns(mid(c), Ev{"op": "split", "x": 1, "p": M{"k": "rune", "c": c}, "beh": "prev"})
			},
			func(c int) []Ev {
				return ns([]int{c, c}, Ev{"op": "split", "x": 1, "p": M{"k": "str", "t": []int{c}}, "beh": "cont"})
			})
	case "C09":
		fm := func(p M) func(c int) []Ev {
			return func(c int) []Ev { return []Ev{{"op": "fm", "p": p, "t": []int{c, chA, c, 32, c, chZ, c}}} }
		}
		return progs("fn", fm(cls("ws")), fm(M{"k": "wd"}), fm(M{"k": "bl"}),
			func(c int) []Ev { return []Ev{{"op": "fm", "p": M{"k": "rune", "c": c}, "t": []int{chA, c, c, chA}}} },
			func(c int) []Ev { return []Ev{{"op": "fm", "p": M{"k": "rune", "c": c}, "t": []int{c}}} },
			func(c int) []Ev { return []Ev{{"op": "fm", "p": M{"k": "str", "t": []int{c}}, "t": []int{c, c}}} },
			func(c int) []Ev {
				return []Ev{{"op": "fm", "p": M{"k": "str", "t": []int{c, chA}}, "t": []int{chA, c, chA, c, c, chA}}}
			},
			func(c int) []Ev {
				return []Ev{{"op": "fm", "p": M{"k": "inv", "p": M{"k": "fn", "neg": 0, "set": []int{c}}}, "t": []int{c, chA, c, c}}}
			})
	case "C10":
		return progs("pt", func(c int) []Ev {
			return pt(mid(c), Ev{"op": "ptsplit", "cb": M{"fail": 0, "ed": L{}, "tk": 0, "act": "pat", "p": M{"k": "rune", "c": c}, "beh": "next"}})
		})
	case "C11":
		return progs("pt", func(c int) []Ev { return pt(mid(c), pre(M{"k": "bert"})) },
			func(c int) []Ev { return pt(mid(c), Ev{"op": "ptnz", "z": bert(1, 1, 1, 1)}, pre(M{"k": "wsplit"})) })
	case "C12":
		return progs("pt", func(c int) []Ev {
			return pt([]int{c, chA, c, chB}, pre(M{"k": "delim", "c": chA}), Ev{"op": "ptnz", "z": M{"k": "lower"}},
				Ev{"op": "pttok", "fail": 0, "tk": M{"k": "chars"}}, Ev{"op": "ptenc", "wi": 3, "ti": 1})
		})
	case "C13":
		return progs("fn", func(c int) []Ev { return []Ev{{"op": "tok", "mo": bpe(c, []int{}), "t": []int{c, chA, c}}} })
	case "C14":
		return progs("fn", func(c int) []Ev { return []Ev{{"op": "tok", "mo": bpe(c, []int{35}), "t": []int{c, chA, c, c}}} },
			func(c int) []Ev { return []Ev{{"op": "tok", "mo": unkBpe(0), "t": []int{c, chA, c, c}}} },
			func(c int) []Ev { return []Ev{{"op": "tok", "mo": unkBpe(1), "t": []int{c, c, chA, c}}} })
	case "C15":
		return progs("fn", func(c int) []Ev {
			return []Ev{{"op": "drop", "mo": bpe(c, []int{}), "t": []int{c, chA, c}, "dp": 100, "runs": 1, "many": 0, "seed": 1}}
		})
	case "C16":
		wp := func(c int) M {
			return M{"k": "wp", "v": vocab(c), "unk": []int{63}, "pre": []int{35}, "max": 100}
		}
		return progs("fn", func(c int) []Ev {
			return []Ev{{"op": "tok", "mo": wp(c), "t": []int{c, c, chA}}, {"op": "tok", "mo": wp(c), "t": []int{chA, c, chA, chB}},
				{"op": "tok", "mo": M{"k": "wp", "v": vocab(c), "unk": []int{63}, "pre": []int{35}, "max": 2}, "t": []int{chA, c}},
				{"op": "tok", "mo": M{"k": "wp", "v": vocab(c), "unk": []int{63}, "pre": []int{35}, "max": 1}, "t": []int{chA, c}}}
		})
	case "C17":
		return progs("voc", func(c int) []Ev {
			return []Ev{{"op": "vload", "bad": 0, "v": L{L{[]int{c}, 1}, L{[]int{chA, c}, 0}}}, {"op": "vadd", "t": []int{c}}, {"op": "vadd", "t": []int{c, c}}}
		})
	case "C18":
		return progs("fn", func(c int) []Ev {
			if c == 32 || c == 10 || c == 13 { // not in a term of a merge file
				c = chB
			}
			if c == chA {
				c = chB
			}
			v := L{L{[]int{c}, 0}, L{[]int{chA}, 1}, L{[]int{chA, c}, 2}, L{[]int{c, chA}, 3}}
			return []Ev{{"op": "mload", "bad": 0, "v": v, "k": 0, "t": []int{chA, 32, c, 10, c, 32, chA, 10}}}
		})
	case "C19":
		var out []program
		out = append(out, nsProgs(func(c int) []Ev { return ns([]int{c}, nz(bert(1, 1, 1, 1))) })...)
		for _, z := range []M{bert(1, 0, 0, 0), bert(0, 1, 0, 0), bert(0, 0, 1, 0), bert(0, 0, 0, 1), bert(1, 1, 1, 1)} {
			z := z
			out = append(out, nsProgs(func(c int) []Ev { return ns(mid(c), nz(z)) })...)
		}
		return out
	case "C20":
		return append(nsProgs(
			func(c int) []Ev { return ns(mid(c), nz(M{"k": "lower"})) },
			func(c int) []Ev { return ns(around(c), nz(M{"k": "strip", "l": 1, "r": 0})) },
			func(c int) []Ev { return ns(around(c), nz(M{"k": "strip", "l": 0, "r": 1})) },
			func(c int) []Ev { return ns([]int{c, c}, nz(M{"k": "strip", "l": 1, "r": 1})) }),
			progs("pt", func(c int) []Ev {
				return pt(around(c), Ev{"op": "ptnz", "z": M{"k": "seq", "zs": L{M{"k": "strip", "l": 1, "r": 1}, M{"k": "lower"}}}})
			})...)
	case "C21":
		bl := M{"k": "bytes", "p": M{"k": "bl"}, "pre": 1, "trim": 0, "def": 1}
		return []program{{"pt", true, func(c int) []Ev { return pt([]int{c, chA, c, 32, c, chZ}, pre(bl)) }},
			{"pt", true, func(c int) []Ev { return pt([]int{c}, pre(bl)) }},
			{"pt", true, func(c int) []Ev { return pt([]int{39, c, c, 32}, pre(bl)) }}}
	case "C22":
		return progs("pt", func(c int) []Ev { return pt([]int{c, chA, c, c, chA}, pre(M{"k": "wsplit"})) },
			func(c int) []Ev { return pt([]int{c, chA, c, c, chA}, pre(M{"k": "bert"})) },
			func(c int) []Ev { return pt([]int{c, chA, c, 46, c}, pre(M{"k": "word", "p": M{"k": "wd"}, "def": 1})) },
			func(c int) []Ev { return pt([]int{c, c, 32, chA, 32, c}, pre(M{"k": "bert"})) },
			func(c int) []Ev { return pt([]int{c, c}, pre(M{"k": "bert"})) },
			func(c int) []Ev { return pt([]int{c, c, 32, c, 46}, pre(M{"k": "word", "p": M{"k": "wd"}, "def": 1})) },
			func(c int) []Ev { return pt([]int{c, c}, pre(M{"k": "wsplit"})) },
			func(c int) []Ev { return pt([]int{chA, c, chA, c, c}, pre(M{"k": "delim", "c": c})) })
	case "C23":
		return progs("pt", func(c int) []Ev { return pt([]int{c, 32, c, chA}, pre(M{"k": "meta", "c": 9601, "pre": 1, "def": 1})) },
			func(c int) []Ev { return pt([]int{c, c}, pre(M{"k": "meta", "c": 9601, "pre": 1, "def": 1})) },
			func(c int) []Ev { return pt([]int{c}, pre(M{"k": "meta", "c": 9601, "pre": 0, "def": 0})) },
			func(c int) []Ev { return pt([]int{chA, c, 32, chA}, pre(M{"k": "meta", "c": c, "pre": 1, "def": 0})) })
	case "C25":
		return progs("fn", func(c int) []Ev {
			w := len(string(rune(c)))
			t := []int{chA, c, chA}
			ev := []Ev{{"op": "cv", "t": t, "s": 1, "e": 1 + w}, {"op": "cv", "t": t, "s": 0, "e": 2 + w}}
			for i := 0; i <= w+2; i++ {
				ev = append(ev, Ev{"op": "isb", "t": t, "i": i})
			}
			return ev
		})
	}
	return nil
}

var cjkBorders = []int{13312, 19904, 19968, 40960, 63744, 64256, 131072, 173792, 173824, 183984, 194560, 195104}

func cjkSegment(c int) int { return sort.SearchInts(cjkBorders, c+1) }

// alwaysCase says which characters are cases in any case.
func alwaysCase(c int) bool {
	if c < 0x250 || c == 0x2581 || c >= 0xFFF0 && c <= 0x10002 || c >= maxChar-2 {
		return true
	}
	for _, b := range cjkBorders {
		if c >= b-2 && c <= b+1 {
			return true
		}
	}
	for b := 0x3000; b <= maxChar; b += 0x1000 { // ends of blocks
		if c == b-1 || c == b {
			return true
		}
	}
	return false
}

// standIns of byte values under the byte-level pre-tokenizer, only used to
// tell outcomes apart.
var standIns = func() (t [256]int) {
	next := 256
	for b := range t {
		if b >= 33 && b <= 126 || b >= 161 && b <= 172 || b >= 174 {
			t[b] = b
		} else {
			t[b] = next
			next++
		}
	}
	return
}()

type signer struct {
	sb          strings.Builder
	c, low, up  int
	standIn     []int
	useStandIns bool
}

func (s *signer) put(v interface{}) {
	switch x := v.(type) {
	case int:
		switch {
		case x == s.c:
			s.sb.WriteByte('C')
		case x == s.low:
			s.sb.WriteByte('L')
		case x == s.up:
			s.sb.WriteByte('U')
		default:
			if s.useStandIns {
				for i, b := range s.standIn {
					if b == x && x > 126 {
						s.sb.WriteByte('B')
						x = i
						break
					}
				}
			}
			s.sb.WriteString(strconv.Itoa(x))
		}
	case string:
		s.sb.WriteString(strconv.Quote(x))
	case bool:
		s.sb.WriteString(strconv.FormatBool(x))
	case []int:
		s.sb.WriteByte('[')
		for _, y := range x {
			s.put(y)
			s.sb.WriteByte(' ')
		}
		s.sb.WriteByte(']')
	case [][]int:
		s.sb.WriteByte('[')
		for _, y := range x {
			s.put(y)
		}
		s.sb.WriteByte(']')
	case L:
		s.sb.WriteByte('[')
		for _, y := range x {
			s.put(y)
			s.sb.WriteByte(' ')
		}
		s.sb.WriteByte(']')
	case M:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		s.sb.WriteByte('{')
		for _, k := range keys {
			s.sb.WriteString(k)
			if b, ok := x[k].([]int); ok && k == "b" {
				s.put(textOf(b))
				continue
			}
			s.put(x[k])
		}
		s.sb.WriteByte('}')
	default:
		s.put(plainInts(encode(v)))
	}
}

// textOf gives the characters of bytes that are a text.
func textOf(b []int) []int {
	raw := make([]byte, len(b))
	for i, x := range b {
		raw[i] = byte(x)
	}
	if !utf8.Valid(raw) {
		return b
	}
	var out []int
	for _, r := range string(raw) {
		out = append(out, int(r))
	}
	return out
}

// plainInts keeps anything else as its text.
func plainInts(j string) string { return j }

// group is the group of a character, apart from the outcome.
func classKey(r M) string {
	c, low, up := r["c"].(int), r["low"].(int), r["up"].(int)
	return fmt.Sprint(len(string(rune(c))), low == c, up == c, low == up, len(string(rune(low))), len(string(rune(up))),
		r["ws"], r["pu"], r["mn"], r["ot"], r["rs"], r["rw"], r["rl"], r["rn"], r["rf"], cjkSegment(c))
}

// sweep runs every character (part of parts of them) and gives the cases. With
// stride, only every stride-th one of those that are not assigned.
func sweep(prop string, part, parts, stride int) ([]*Case, int, int) {
	ps := sweepPrograms(prop)
	groups := map[string]bool{}
	var reps []*Case
	tried := 0
	noSeen = true
	for c := part; c <= maxChar; c += parts {
		if c >= 0xD800 && c <= 0xDFFF {
			continue
		}
		if stride > 1 && (c/parts)%stride != 0 && !alwaysCase(c) && !assigned(rune(c)) {
			continue
		}
		tried++
		key := classKey(classes(rune(c)))
		for n, p := range ps {
			evs := p.ev(c)
			cs := newCase(p.kind, c)
			s := &signer{c: c, low: int(unicode.ToLower(rune(c))), up: int(unicode.ToUpper(rune(c))), useStandIns: p.bytes}
			fmt.Fprintf(&s.sb, "%d %s", n, key)
			if p.bytes {
				for _, b := range []byte(string(rune(c))) {
					s.standIn = append(s.standIn, standIns[b])
				}
				fmt.Fprintf(&s.sb, " %d", string(rune(c))[0])
			}
			for _, e := range evs {
				ok := cs.do(e)
				s.put(e["obs"])
				if !ok {
					break
				}
			}
			k := s.sb.String()
			if !groups[k] || alwaysCase(c) {
				if len(groups) > 20000 {
					continue // something is broken for very many of them
				}
				groups[k] = true
				reps = append(reps, cs)
			}
		}
	}
	noSeen = false
	out := make([]*Case, 0, len(reps))
	for _, c := range reps {
		for _, e := range c.Ev {
			delete(e, "obs")
		}
		out = append(out, rerun(c))
	}
	return out, tried, len(groups)
}

func assigned(c rune) bool {
	return unicode.In(c, unicode.L, unicode.M, unicode.N, unicode.P, unicode.S, unicode.Z, unicode.Cc, unicode.Cf)
}
