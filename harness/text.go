package main

import (
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/dlclark/regexp2"
)

// M is a JSON object, L a JSON array.
type M = map[string]interface{}
type L = []interface{}

// seen collects every character that occurs in a trace, for the class table.
var seen = map[rune]bool{' ': true}

// noSeen: characters are not to be collected.
var noSeen bool

func see(c rune) {
	if !noSeen {
		seen[c] = true
	}
}

// cps gives the characters of a text; a byte that is not valid UTF-8 is -1.
func cps(s string) []int {
	out := make([]int, 0, len(s))
	for i := 0; i < len(s); {
		if w := wideAt(s, i); w > 0 {
			see(rune(wideBase + w))
			out = append(out, wideBase+w)
			i += w
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n <= 1 {
			out = append(out, -1)
			i++
			continue
		}
		see(r)
		out = append(out, int(r))
		i += n
	}
	return out
}

func runesOf(v interface{}) []rune {
	switch a := v.(type) {
	case []int:
		out := make([]rune, len(a))
		for i, c := range a {
			out[i] = rune(c)
		}
		return out
	case L:
		out := make([]rune, len(a))
		for i, c := range a {
			out[i] = rune(toInt(c))
		}
		return out
	case nil:
		return nil
	}
	panic("not a text")
}

func toStr(v interface{}) string {
	rs := runesOf(v)
	wide := false
	for _, r := range rs {
		see(r)
		wide = wide || isWide(int(r))
	}
	if wide {
		var sb strings.Builder
		for _, r := range rs {
			if isWide(int(r)) {
				sb.WriteString(wideRun(int(r)))
			} else {
				sb.WriteRune(r)
			}
		}
		return sb.String()
	}
	return string(rs)
}

func toInt(v interface{}) int {
	switch n := v.(type) {
	case int:
		return n
	case float64:
		return int(n)
	}
	panic("not a number")
}

func list(v interface{}) L {
	switch a := v.(type) {
	case L:
		return a
	case []int:
		out := make(L, len(a))
		for i, x := range a {
			out[i] = x
		}
		return out
	case [][]int:
		out := make(L, len(a))
		for i, x := range a {
			out[i] = x
		}
		return out
	case []M:
		out := make(L, len(a))
		for i, x := range a {
			out[i] = x
		}
		return out
	case nil:
		return nil
	}
	panic("not a list")
}

func obj(v interface{}) M { return v.(M) }

func (e Ev) i(k string) int    { return toInt(e[k]) }
func (e Ev) s(k string) string { return e[k].(string) }
func (e Ev) t(k string) string { return toStr(e[k]) }

// Ev is an event.
type Ev M

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Single-character classes of the regular expression engine.
var (
	reSpace  = regexp2.MustCompile(`^\s$`, regexp2.IgnoreCase)
	reWord   = regexp2.MustCompile(`^\w$`, regexp2.IgnoreCase)
	reLetter = regexp2.MustCompile(`^\p{L}$`, regexp2.IgnoreCase)
	reNumber = regexp2.MustCompile(`^\p{N}$`, regexp2.IgnoreCase)
	reFold   = map[rune]*regexp2.Regexp{}
)

func init() {
	for _, c := range "strevmld" {
		reFold[c] = regexp2.MustCompile("^"+string(c)+"$", regexp2.IgnoreCase)
	}
}

func reIs(re *regexp2.Regexp, c rune) bool {
	ok, err := re.MatchRunes([]rune{c})
	return err == nil && ok
}

func foldOf(c rune) int {
	for _, k := range "strevmld" {
		if reIs(reFold[k], c) {
			return int(k)
		}
	}
	return 0
}

// classes is the entry of the class table for a character.
func classes(c rune) M {
	return M{
		"c": int(c), "ws": unicode.Is(unicode.White_Space, c),
		"low": int(unicode.ToLower(c)), "up": int(unicode.ToUpper(c)),
		"pu": unicode.Is(unicode.Punct, c), "mn": unicode.Is(unicode.Mn, c),
		"ot": unicode.Is(unicode.Other, c),
		"rs": reIs(reSpace, c), "rw": reIs(reWord, c), "rl": reIs(reLetter, c),
		"rn": reIs(reNumber, c), "rf": foldOf(c),
	}
}

// classTable is the class table of all characters seen so far and their cases.
func classTable() []M {
	for round := 0; round < 3; round++ {
		for c := range seen {
			seen[unicode.ToLower(c)] = true
			seen[unicode.ToUpper(c)] = true
		}
	}
	all := make([]int, 0, len(seen))
	for c := range seen {
		all = append(all, int(c))
	}
	sort.Ints(all)
	out := make([]M, len(all))
	for i, c := range all {
		out[i] = classes(rune(c))
	}
	return out
}
