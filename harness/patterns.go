package main

import (
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"time"
	"unicode"

	"github.com/dlclark/regexp2"
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/models/wordpiecemodel"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bytelevelpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacepretokenizer"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"
)

var testErrors = map[string]error{}

func testError(tag string) error {
	if testErrors[tag] == nil {
		testErrors[tag] = errors.New(tag)
	}
	return testErrors[tag]
}

func init() {
	for _, t := range []string{"E1", "E2", "E3", "E4", "E5"} {
		testError(t)
	}
}

// errTag names an error.
func errTag(err error) string {
	if err == nil {
		return ""
	}
	for t, e := range testErrors {
		if errors.Is(err, e) {
			return t
		}
	}
	if errors.Is(err, bpemodel.ErrUnknownTokenOutOfVocabulary) || errors.Is(err, wordpiecemodel.ErrUnknownTokenOutOfVocabulary) {
		return "unk-oov"
	}
	return "other"
}

// failingPattern fails, and may give captures nevertheless.
type failingPattern struct {
	caps []splitpattern.Capture
	err  error
}

func (p failingPattern) FindMatches(string) ([]splitpattern.Capture, error) {
	return append([]splitpattern.Capture(nil), p.caps...), p.err
}

// Pattern instances, by what they are: within a case, a pattern that occurs
// again is the same instance, on its own and inside of others.
var patCache = map[string]splitpattern.SplitPattern{}

func capsOf(v interface{}) []splitpattern.Capture {
	caps := make([]splitpattern.Capture, 0)
	for _, c := range list(v) {
		x := list(c)
		caps = append(caps, splitpattern.Capture{
			Offsets: strutils.ByteOffsets{Start: toInt(x[0]), End: toInt(x[1])},
			IsMatch: toInt(x[2]) == 1,
		})
	}
	return caps
}

// sharedPattern is the instance of a pattern.
func sharedPattern(p M) splitpattern.SplitPattern {
	key := encode(withoutMatches(p))
	if patCache[key] == nil {
		patCache[key] = makePattern(p, sharedPattern)
	}
	return patCache[key]
}

func withoutMatches(p M) M {
	out := M{}
	for k, v := range p {
		if k == "p" {
			v = withoutMatches(obj(v))
		}
		if k != "ms" {
			out[k] = v
		}
	}
	return out
}

// buildPattern makes a new instance.
func buildPattern(p M) splitpattern.SplitPattern { return makePattern(p, buildPattern) }

// capsPattern is a custom pattern which gives fixed captures.
type capsPattern struct{ caps []splitpattern.Capture }

func (p capsPattern) FindMatches(string) ([]splitpattern.Capture, error) {
	out := make([]splitpattern.Capture, len(p.caps))
	copy(out, p.caps)
	return out, nil
}

// charClass writes a bracket expression for a set of characters.
func charClass(set []rune, neg bool) string {
	var b strings.Builder
	b.WriteString("[")
	if neg {
		b.WriteString("^")
	}
	for _, r := range set {
		if strings.ContainsRune(`[]\^-&`, r) {
			b.WriteRune('\\')
		}
		b.WriteRune(r)
	}
	b.WriteString("]")
	return b.String()
}

func inSet(p M) func(rune) bool {
	set := map[rune]bool{}
	for _, r := range runesOf(p["set"]) {
		set[r] = true
	}
	neg := toInt(p["neg"]) == 1
	return func(r rune) bool { giveWay(); return set[r] != neg }
}

var classFuncs = map[string]func(rune) bool{
	"ws": func(r rune) bool { return unicode.Is(unicode.White_Space, r) },
	"pu": func(r rune) bool { return unicode.Is(unicode.Punct, r) },
	"mn": func(r rune) bool { return unicode.Is(unicode.Mn, r) },
	"ot": func(r rune) bool { return unicode.Is(unicode.Other, r) },
}

// charTest builds a character predicate.
func charTest(p M) func(rune) bool {
	if p["k"].(string) == "fn" {
		return inSet(p)
	}
	f, neg := classFuncs[p["name"].(string)], toInt(p["neg"]) == 1
	return func(r rune) bool { return f(r) != neg }
}

// Compiled expressions, shared between events like a user would share them.
var (
	goCache  = map[string]*regexp.Regexp{}
	re2Cache = map[string]*regexp2.Regexp{}
)

func goRe(src string) *regexp.Regexp {
	if goCache[src] == nil {
		goCache[src] = regexp.MustCompile(src)
	}
	return goCache[src]
}

// Slow expressions run out of time on long runs of slowRune, and on nothing
// shorter than slowLeast.
const (
	slowRune  = 'a'
	slowLeast = 34
	slowTime  = 12 * time.Millisecond
)

var slowSources = []string{`(?:a|aa)+[.]`, `c|(?:a|aa)+[.]`, `[b-z]|(?:a|aa)+[.]`, `\w\b[.]|(?:aa|a)+[.]`}

// What takes too long in expressions of kind slow, and what ends it.
const (
	longRune  = 0xE0FE
	neverRune = 0xE0FD
)

func isSlow(p M) bool { return p["slow"] != nil && toInt(p["slow"]) == 1 }

func longestRun(text string, c rune) int {
	best, n := 0, 0
	for _, r := range text {
		if n++; r != c {
			n = 0
		}
		if n > best {
			best = n
		}
	}
	return best
}

func compileRe2(p M) *regexp2.Regexp {
	re := regexp2.MustCompile(p["src"].(string), regexp2.RegexOptions(toInt(p["opts"])))
	if isSlow(p) && toInt(p["to"]) == 1 {
		re.MatchTimeout = slowTime
	}
	return re
}

func re2(src string, opts int) *regexp2.Regexp {
	key := fmt.Sprintf("%d:%s", opts, src)
	if re2Cache[key] == nil {
		re2Cache[key] = regexp2.MustCompile(src, regexp2.RegexOptions(opts))
	}
	return re2Cache[key]
}

// rxSource writes the expression of a simple pattern [set]q.
func rxSource(p M) string {
	src := charClass(runesOf(p["set"]), toInt(p["neg"]) == 1)
	if q := p["q"].(string); q != "1" {
		src += q
	}
	return src
}

// regexp2Of is the regexp2 expression of a pattern.
func regexp2Of(p M) *regexp2.Regexp {
	switch p["k"].(string) {
	case "rx":
		return re2(rxSource(p), 0)
	case "ms":
		if isSlow(p) {
			return compileRe2(p)
		}
		return re2(p["src"].(string), toInt(p["opts"]))
	case "slow":
		re := regexp2.MustCompile(fmt.Sprintf("%s|(?:%c|%c%c)+%c", charClass(runesOf(p["set"]), false), longRune, longRune, longRune, neverRune), 0)
		re.MatchTimeout = slowTime
		return re
	case "wd":
		return whitespacepretokenizer.DefaultWordRegexp
	case "bl":
		return bytelevelpretokenizer.DefaultSplittingRegexp
	}
	panic("no expression")
}

func makePattern(p M, inner func(M) splitpattern.SplitPattern) splitpattern.SplitPattern {
	switch p["k"].(string) {
	case "fn", "cls":
		return splitpattern.FromFunc(charTest(p))
	case "rune":
		return splitpattern.FromRune(rune(toInt(p["c"])))
	case "str":
		return splitpattern.FromString(toStr(p["t"]))
	case "rx":
		if p["eng"].(string) == "go" {
			return splitpattern.FromRegexp(goRe(rxSource(p)))
		}
		return splitpattern.FromRegexp2(re2(rxSource(p), 0))
	case "ms":
		if p["eng"].(string) == "go" {
			return splitpattern.FromRegexp(goRe(p["src"].(string)))
		}
		return splitpattern.FromRegexp2(regexp2Of(p))
	case "wd", "bl", "slow":
		return splitpattern.FromRegexp2(regexp2Of(p))
	case "inv":
		return splitpattern.Invert(inner(obj(p["p"])))
	case "caps":
		return capsPattern{capsOf(p["caps"])}
	case "err":
		return failingPattern{capsOf(p["caps"]), testError(p["e"].(string))}
	}
	panic("unknown pattern")
}

// re2Matches are the matches that the engine finds in a text, within a time
// (or no limit at 0).
func re2Matches(p M, text string, limit time.Duration) ([][]int, error) {
	ms := [][]int{}
	runes := []rune(text)
	re := regexp2.MustCompile(p["src"].(string), regexp2.RegexOptions(toInt(p["opts"])))
	if limit > 0 {
		re.MatchTimeout = limit
	}
	m, err := re.FindRunesMatch(runes)
	for m != nil && err == nil {
		ms = append(ms, []int{len(string(runes[:m.Index])), len(string(runes[:m.Index+m.Length]))})
		m, err = re.FindNextMatch(m)
	}
	return ms, err
}

// fillMatches asks the expression engine itself for the matches in a text, for
// the patterns whose matches the specification does not define.
func fillMatches(p M, text string) {
	switch p["k"].(string) {
	case "inv":
		fillMatches(obj(p["p"]), text)
	case "ms":
		ms := [][]int{}
		p["to"] = 0
		if isSlow(p) {
			if n := longestRun(text, slowRune); n > 8 && n < slowLeast {
				p["src"], p["slow"] = "c", 0
			}
		}
		if len(text) > 0 {
			if p["eng"].(string) == "go" {
				ms = append(ms, goRe(p["src"].(string)).FindAllStringIndex(text, -1)...)
			} else {
				var err error
				if !isSlow(p) || longestRun(text, slowRune) < slowLeast {
					ms, err = re2Matches(p, text, 0)
				} else {
					// Out of time, and not because the machine was busy.
					for _, limit := range []time.Duration{slowTime, 4 * slowTime, 12 * slowTime} {
						if ms, err = re2Matches(p, text, limit); err == nil {
							break
						}
					}
					if err != nil {
						ms, p["to"], err = [][]int{}, 1, nil
					}
				}
				if err != nil {
					panic(err)
				}
				sort.SliceStable(ms, func(i, j int) bool {
					return ms[i][0] < ms[j][0] || ms[i][0] == ms[j][0] && ms[i][1] < ms[j][1]
				})
			}
		}
		p["ms"] = ms
	}
}
