package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"

	"github.com/nlpodyssey/gotokenizers/encodings"
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/models/wordpiecemodel"
	nstr "github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/normalizers"
	"github.com/nlpodyssey/gotokenizers/normalizers/bertnormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/lowercasenormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/sequencenormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/stripnormalizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizers"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bertpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bytelevelpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/metaspacepretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/runedelimiterpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacepretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacesplitpretokenizer"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"
	"github.com/nlpodyssey/gotokenizers/vocabulary"
)

// scratch is a directory of its own for files that the code under test reads.
var scratch string

// logCallbacks makes pre-tokenized events carry what their callbacks saw and
// returned.
var logCallbacks bool

// Exec runs the events of one case against the real code.
type Exec struct {
	kind   string
	pool   []*nstr.NormalizedString
	last   []string
	pts    *pretokenizedstring.PreTokenizedString
	voc    *vocabulary.Vocabulary
	terms  map[string]bool
	maxID  int
	models map[string]models.Model
	convs  map[string]*strutils.BytesToRuneOffsetConverter
}

func newExec(kind string) *Exec {
	patCache = map[string]splitpattern.SplitPattern{}
	return &Exec{kind: kind, terms: map[string]bool{}, models: map[string]models.Model{},
		convs: map[string]*strutils.BytesToRuneOffsetConverter{}}
}

// converter gives the case's converter of a text.
func (x *Exec) converter(text string) *strutils.BytesToRuneOffsetConverter {
	if x.convs[text] == nil {
		x.convs[text] = strutils.NewBytesToRuneOffsetConverter(text)
	}
	return x.convs[text]
}

// step runs one event and adds what was observed to it.
func (x *Exec) step(e Ev) M {
	obs := M{"pan": 0}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if h, ok := p.(harnessError); ok {
					panic(h)
				}
				obs = M{"pan": 1, "msg": fmt.Sprint(p)}
			}
		}()
		switch x.kind {
		case "ns":
			x.stepNS(e, obs)
		case "pt":
			x.stepPT(e, obs)
		case "voc":
			x.stepVoc(e, obs)
		case "fn":
			x.stepFn(e, obs)
		default:
			panic(harnessError{"unknown kind " + x.kind})
		}
	}()
	e["obs"] = obs
	return obs
}

// harnessError is a mistake of the harness, as opposed to a panic of the code.
type harnessError struct{ msg string }

func must(err error) {
	if err != nil {
		panic(harnessError{err.Error()})
	}
}

// ----------------------------------------------------------------- texts

func spanAt(n *nstr.NormalizedString, i int) (span []int) {
	defer func() {
		if recover() != nil {
			span = []int{-1, -1}
		}
	}()
	r, ok := n.CoerceRangeToOriginal(nstr.NewNormalizedRange(i, i+1))
	if !ok {
		return []int{-1, -1}
	}
	return []int{r.Start(), r.End()}
}

// project is what the public interface shows of a text.
func project(n *nstr.NormalizedString) M {
	text := n.Get()
	chars := cps(text)
	al := make([][]int, 0, len(chars))
	rag := 0
	at := 0
	for _, c := range chars {
		w := 1
		if isWide(c) {
			w = c - wideBase
			s, ok := wideSpan(n, at, w)
			rag |= b2i(!ok)
			al = append(al, s)
			at += w
			continue
		}
		if c >= 0 {
			w = len(string(rune(c)))
		}
		first := spanAt(n, at)
		for b := 1; b < w; b++ {
			if o := spanAt(n, at+b); o[0] != first[0] || o[1] != first[1] {
				rag = 1
			}
		}
		al = append(al, first)
		at += w
	}
	off := n.OriginalOffsets()
	return M{
		"o": cps(n.GetOriginal()), "n": chars, "al": al, "rag": rag, "sh": off.Start,
		"len": []int{n.Len(), n.OriginalLen(), b2i(n.IsEmpty()), off.End - off.Start},
	}
}

func encode(v interface{}) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}

// Ids from hugeFrom on stand for ids that do not fit in 32 bits.
const hugeFrom = 2000000000

func realID(i int) int {
	if i >= hugeFrom && i < hugeFrom+100 {
		return i + 1<<42 - hugeFrom
	}
	return i
}

func specID(i int) int {
	if i >= 1<<42 && i < 1<<42+100 {
		return i - 1<<42 + hugeFrom
	}
	return i
}

// The specification's numbers have 32 bits: its largest and smallest one stand
// for the largest and smallest one of the code.
const maxInt = 1<<31 - 1

func far(i int) int {
	switch i {
	case maxInt:
		return 1<<63 - 1
	case -maxInt:
		return -1 << 63
	}
	return i
}

func near(i int) int {
	switch i {
	case 1<<63 - 1:
		return maxInt
	case -1 << 63:
		return -maxInt
	}
	return i
}

func mkRange(e Ev) nstr.Range {
	if e.s("ref") == "o" {
		return nstr.NewOriginalRange(far(e.i("s")), far(e.i("e")))
	}
	return nstr.NewNormalizedRange(far(e.i("s")), far(e.i("e")))
}

func behaviour(s string) nstr.SplitDelimiterBehavior {
	switch s {
	case "rm":
		return nstr.SplitDelimiterRemoved
	case "iso":
		return nstr.SplitDelimiterIsolated
	case "prev":
		return nstr.SplitDelimiterMergedWithPrevious
	case "next":
		return nstr.SplitDelimiterMergedWithNext
	case "cont":
		return nstr.SplitDelimiterContiguous
	}
	panic(harnessError{"behaviour"})
}

func mapping(m interface{}) func(rune) rune {
	tab := map[rune]rune{}
	for _, p := range list(m) {
		x := list(p)
		from, to := rune(toInt(x[0])), rune(toInt(x[1]))
		if _, ok := tab[from]; !ok {
			tab[from] = to
		}
		see(from)
		see(to)
	}
	return func(r rune) rune {
		giveWay()
		if to, ok := tab[r]; ok {
			return to
		}
		return r
	}
}

// edit applies an edit in place.
func edit(n *nstr.NormalizedString, e Ev) error {
	switch e.s("op") {
	case "filter":
		n.Filter(charTest(obj(e["p"])))
	case "map":
		n.Map(mapping(e["m"]))
	case "lower":
		n.ToLower()
	case "upper":
		n.ToUpper()
	case "trim":
		l, r := e.i("l") == 1, e.i("r") == 1
		switch via, _ := e["via"].(string); {
		case via == "plain" && l && r:
			n.Trim()
		case via == "plain" && l:
			n.TrimLeft()
		case via == "plain" && r:
			n.TrimRight()
		default:
			n.TrimLeftRight(l, r)
		}
	case "prepend":
		n.Prepend(e.t("t"))
	case "append":
		n.Append(e.t("t"))
	case "replace":
		fillMatches(obj(e["p"]), n.Get())
		return n.Replace(sharedPattern(obj(e["p"])), e.t("t"))
	case "tr":
		dest := make([]nstr.RuneChange, 0)
		for _, d := range list(e["dest"]) {
			c := list(d)
			see(rune(toInt(c[0])))
			dest = append(dest, nstr.RuneChange{Rune: rune(toInt(c[0])), Change: toInt(c[1])})
		}
		if via, _ := e["via"].(string); via == "plain" {
			n.Transform(dest, e.i("io"))
		} else {
			n.TransformRange(mkRange(e), dest, e.i("io"))
		}
		for i := range dest { // the caller's own
			dest[i] = nstr.RuneChange{Rune: 'Q', Change: -3}
		}
	case "nz":
		return buildNormalizer(obj(e["z"])).Normalize(n)
	default:
		panic(harnessError{"edit " + e.s("op")})
	}
	return nil
}

func isEdit(op string) bool {
	switch op {
	case "filter", "map", "lower", "upper", "trim", "prepend", "append", "replace", "tr", "nz":
		return true
	}
	return false
}

func rangeResult(s, e int, ok bool) M {
	if !ok {
		return M{"ok": 0, "s": 0, "e": 0}
	}
	return M{"ok": 1, "s": near(s), "e": near(e)}
}

func lookupResult(s string, ok bool) M {
	b := []int{}
	if ok {
		for i := 0; i < len(s); i++ {
			b = append(b, int(s[i]))
		}
	}
	return M{"ok": b2i(ok), "b": b}
}

func (x *Exec) stepNS(e Ev, obs M) {
	var n *nstr.NormalizedString
	op := e.s("op")
	if op != "new" {
		n = x.pool[e.i("x")-1]
	}
	switch {
	case op == "new":
		x.pool = append(x.pool, nstr.FromString(e.t("t")))
		obs["r"] = M{"ok": 1}
	case isEdit(op):
		obs["r"] = M{"err": errTag(edit(n, e))}
	case op == "slice":
		q, ok := n.Slice(mkRange(e))
		if ok {
			x.pool = append(x.pool, q)
		}
		obs["r"] = M{"ok": b2i(ok)}
	case op == "split":
		fillMatches(obj(e["p"]), n.Get())
		q, err := n.Split(sharedPattern(obj(e["p"])), behaviour(e.s("beh")))
		obs["r"] = M{"err": errTag(err), "k": len(q)}
		x.pool = append(x.pool, q...)
	case op == "cn":
		r, ok := n.CoerceRangeToNormalized(mkRange(e))
		obs["r"] = rangeResult(r.Start(), r.End(), ok)
	case op == "co":
		r, ok := n.CoerceRangeToOriginal(mkRange(e))
		obs["r"] = rangeResult(r.Start(), r.End(), ok)
	case op == "gn":
		obs["r"] = lookupResult(n.GetRange(mkRange(e)))
	case op == "go":
		obs["r"] = lookupResult(n.GetOriginalRange(mkRange(e)))
	case op == "oa":
		// The entries' fields are not exported: read them by reflection.
		a := make([][]int, 0)
		oa := n.OriginalAlignments()
		v := reflect.ValueOf(oa)
		for i := 0; i < v.Len(); i++ {
			a = append(a, []int{int(v.Index(i).Field(0).Int()), int(v.Index(i).Field(1).Int())})
		}
		for i := range oa { // the caller's own
			oa[i] = nstr.AlignmentRange{}
		}
		obs["r"] = M{"a": a}
	default:
		panic(harnessError{"operation " + op})
	}
	ch := make(L, 0)
	for i, n := range x.pool {
		p := project(n)
		s := encode(p)
		if i >= len(x.last) {
			x.last = append(x.last, "")
		}
		if s != x.last[i] {
			ch = append(ch, L{i + 1, p})
			x.last[i] = s
		}
	}
	obs["ch"] = ch
	obs["n"] = len(x.pool)
}

// ----------------------------------------------------------------- normalizers

type failNormalizer struct{ err error }

func (f failNormalizer) Normalize(*nstr.NormalizedString) error { return f.err }

type funcNormalizer func(*nstr.NormalizedString) error

func (f funcNormalizer) Normalize(n *nstr.NormalizedString) error { return f(n) }

func buildNormalizer(z M) normalizers.Normalizer {
	e := Ev(z)
	switch z["k"].(string) {
	case "bert":
		if d, ok := z["def"]; ok && toInt(d) == 1 {
			return bertnormalizer.DefaultBertNormalizer()
		}
		return bertnormalizer.NewBertNormalizer(e.i("cl") == 1, e.i("cj") == 1, e.i("ac") == 1, e.i("lo") == 1)
	case "lower":
		return lowercasenormalizer.NewLowerCaseNormalizer()
	case "strip":
		return stripnormalizer.NewStripNormalizer(e.i("l") == 1, e.i("r") == 1)
	case "seq":
		var zs []normalizers.Normalizer
		for _, y := range list(z["zs"]) {
			zs = append(zs, buildNormalizer(obj(y)))
		}
		return sequencenormalizer.NewSequenceNormalizer(zs)
	case "fail":
		return failNormalizer{testError(e.s("e"))}
	case "mark":
		t := e.t("t")
		return funcNormalizer(func(n *nstr.NormalizedString) error { n.Append(t); return nil })
	case "markfail":
		t, err := e.t("t"), testError(e.s("e"))
		return funcNormalizer(func(n *nstr.NormalizedString) error { n.Append(t); return err })
	case "mapz":
		f := mapping(z["m"])
		return funcNormalizer(func(n *nstr.NormalizedString) error { n.Map(f); return nil })
	}
	panic(harnessError{"normalizer"})
}

// ----------------------------------------------------------------- pre-tokenizers

func buildPreTokenizer(z M) pretokenizers.PreTokenizer {
	e := Ev(z)
	def := false
	if d, ok := z["def"]; ok {
		def = toInt(d) == 1
	}
	switch z["k"].(string) {
	case "wsplit":
		return whitespacesplitpretokenizer.New()
	case "delim":
		return runedelimiterpretokenizer.New(rune(e.i("c")))
	case "bert":
		return bertpretokenizer.New()
	case "word":
		if def {
			return whitespacepretokenizer.NewDefault()
		}
		return whitespacepretokenizer.New(regexp2Of(obj(z["p"])))
	case "bytes":
		if def {
			return bytelevelpretokenizer.NewDefault()
		}
		for b := 33; b < 324; b++ {
			see(rune(b))
		}
		return bytelevelpretokenizer.New(regexp2Of(obj(z["p"])), e.i("pre") == 1, e.i("trim") == 1)
	case "meta":
		see(rune(e.i("c")))
		if def {
			return metaspacepretokenizer.NewDefault()
		}
		return metaspacepretokenizer.New(rune(e.i("c")), e.i("pre") == 1)
	}
	panic(harnessError{"pre-tokenizer"})
}

func (s scale) tokens(ts []models.Token) L {
	out := make([]models.Token, len(ts))
	copy(out, ts)
	for i := range out {
		out[i].ID = s.back(out[i].ID)
	}
	return tokensJSON(out)
}

func tokensJSON(ts []models.Token) L {
	out := make(L, 0, len(ts))
	for _, t := range ts {
		out = append(out, L{t.ID, cps(t.Value), t.Offsets.Start, t.Offsets.End})
	}
	return out
}

func tokensPtrJSON(ts *[]models.Token) (int, L) {
	if ts == nil {
		return 0, L{}
	}
	return 1, tokensJSON(*ts)
}

func pieceJSON(s pretokenizedstring.Split) M {
	h, ts := tokensPtrJSON(s.Tokens)
	return M{"ns": project(s.NormalizedString), "h": h, "ts": ts}
}

// tokenRule gives the tokens of the harness' tokenization callbacks.
func (x *Exec) tokenRule(tk M, n *nstr.NormalizedString) ([]models.Token, error) {
	text := n.Get()
	rs := []rune(text)
	off := []int{0}
	for _, r := range rs {
		off = append(off, off[len(off)-1]+len(string(r)))
	}
	one := func(i, j int) models.Token { // 1-based, as in the specification
		return models.Token{ID: i + 100*j, Value: string(rs[i-1 : j-1]),
			Offsets: strutils.ByteOffsets{Start: off[i-1], End: off[j-1]}}
	}
	ts := make([]models.Token, 0)
	switch tk["k"].(string) {
	case "chars":
		for i := 1; i <= len(rs); i++ {
			ts = append(ts, one(i, i+1))
		}
	case "whole":
		ts = append(ts, one(1, len(rs)+1))
	case "none":
		if nilList, ok := tk["nil"]; ok && toInt(nilList) == 1 {
			return nil, nil
		}
	case "odd":
		for i := 1; i <= len(rs); i += 2 {
			ts = append(ts, one(i, i+1))
		}
	case "ends":
		for i := 1; i <= len(rs); i++ {
			ts = append(ts, one(i, len(rs)+1))
		}
	case "back":
		for i := len(rs); i >= 1; i-- {
			ts = append(ts, one(i, i+1))
		}
	case "heads":
		for i := 1; i <= len(rs); i++ {
			ts = append(ts, one(1, i+1))
		}
	case "bytes":
		for i, r := range rs {
			for b := off[i]; b < off[i+1]; b++ {
				ts = append(ts, models.Token{ID: b + 1, Value: string(r), Offsets: strutils.ByteOffsets{Start: b, End: b + 1}})
			}
		}
	case "past":
		for i, r := range rs {
			ts = append(ts, models.Token{ID: i + 1, Value: string(r),
				Offsets: strutils.ByteOffsets{Start: off[i], End: len(text) + i}})
		}
	case "model":
		return x.model(obj(tk["mo"])).Tokenize(text)
	default:
		panic(harnessError{"token rule"})
	}
	return ts, nil
}

func (x *Exec) stepPT(e Ev, obs M) {
	op := e.s("op")
	calls := make(L, 0)
	cbs := make(L, 0)
	// the log of a callback is completed when it returns
	enter := func(ix int, n *nstr.NormalizedString) M {
		t := cps(n.Get())
		calls = append(calls, L{ix, t})
		c := M{"ix": ix, "t": t, "err": "", "items": L{}, "ts": L{}, "ns": M{}}
		cbs = append(cbs, c)
		return c
	}
	// indexOf finds the position of a text in the list, for callbacks that
	// are not told.
	indexOf := func(n *nstr.NormalizedString) int {
		for i, s := range x.pts.Splits() {
			if s.NormalizedString == n {
				return i
			}
		}
		return -1
	}
	edits := func(n *nstr.NormalizedString, ed interface{}) error {
		for _, d := range list(ed) {
			if err := edit(n, Ev(obj(d))); err != nil {
				return err
			}
		}
		return nil
	}
	errText := ""
	switch op {
	case "ptnew":
		ed := list(e["ed"])
		if len(ed) == 0 {
			x.pts = pretokenizedstring.FromString(e.t("t"))
		} else {
			n := nstr.FromString(e.t("t"))
			if err := edits(n, ed); err != nil {
				panic(harnessError{"edit failed"})
			}
			x.pts = pretokenizedstring.FromNormalizedString(n)
		}
	case "ptsplit":
		cb := Ev(obj(e["cb"]))
		call := 0
		err := x.pts.Split(func(ix int, n *nstr.NormalizedString) ([]pretokenizedstring.Split, error) {
			call++
			c := enter(ix, n)
			items, err := x.splitCallback(cb, call, n)
			c["err"] = errTag(err)
			c["ns"] = project(n)
			its := make(L, 0)
			for _, it := range items {
				its = append(its, pieceJSON(it))
			}
			if err == nil {
				c["items"] = its
			}
			return items, err
		})
		errText = errTag(err)
	case "ptnorm":
		call := 0
		err := x.pts.Normalize(func(n *nstr.NormalizedString) error {
			call++
			c := enter(indexOf(n), n)
			var err error
			if e.i("fail") == call {
				err = testError("E2")
			} else {
				err = edits(n, e["ed"])
			}
			c["err"] = errTag(err)
			c["ns"] = project(n)
			return err
		})
		errText = errTag(err)
	case "pttok":
		call := 0
		err := x.pts.Tokenize(func(n *nstr.NormalizedString) ([]models.Token, error) {
			call++
			c := enter(indexOf(n), n)
			c["ns"] = project(n)
			if e.i("fail") == call {
				c["err"] = "E3"
				return []models.Token{{ID: 7, Value: "x"}}, testError("E3")
			}
			ts, err := x.tokenRule(obj(e["tk"]), n)
			c["err"] = errTag(err)
			c["ts"] = tokensJSON(ts)
			return ts, err
		})
		errText = errTag(err)
	case "ptnz":
		z := buildNormalizer(obj(e["z"]))
		errText = errTag(x.pts.Normalize(z.Normalize))
	case "ptpre":
		errText = errTag(buildPreTokenizer(obj(e["z"])).PreTokenize(x.pts))
	case "ptenc":
		enc, err := x.pts.IntoEncoding(e.i("wi"), e.i("ti"))
		obs["r"] = encodingJSON(enc, err)
	default:
		panic(harnessError{"operation " + op})
	}
	if op != "ptenc" {
		obs["r"] = M{"err": errText, "calls": calls}
	}
	if logCallbacks {
		obs["cbs"] = cbs
	}
	ps := make(L, 0)
	for _, s := range x.pts.Splits() {
		ps = append(ps, pieceJSON(s))
	}
	obs["p"] = ps
	same := func(i int, ts *[]models.Token) int {
		h, l := tokensPtrJSON(ts)
		p := M{}
		if i < len(ps) {
			p = ps[i].(M)
		}
		if encode(p["ts"]) != encode(l) {
			return 2
		}
		return h
	}
	ob := make(L, 0)
	for i, s := range x.pts.GetOriginalByteSplits() {
		ob = append(ob, L{cps(s.String), s.Offsets.Start, s.Offsets.End, same(i, s.Tokens)})
	}
	nb := make(L, 0)
	for i, s := range x.pts.GetNormalizedByteSplits() {
		nb = append(nb, L{cps(s.String), s.Offsets.Start, s.Offsets.End, same(i, s.Tokens)})
	}
	obs["ob"], obs["nb"] = ob, nb
}

func (x *Exec) splitCallback(cb Ev, call int, n *nstr.NormalizedString) ([]pretokenizedstring.Split, error) {
	if cb.i("fail") == call { // what comes with an error counts for nothing
		return []pretokenizedstring.Split{{NormalizedString: nstr.FromString("x")}}, testError("E1")
	}
	for _, d := range list(cb["ed"]) {
		if err := edit(n, Ev(obj(d))); err != nil {
			return nil, err
		}
	}
	mk := func(q *nstr.NormalizedString, k int) pretokenizedstring.Split {
		s := pretokenizedstring.Split{NormalizedString: q}
		if cb.i("tk") != 0 && k%2 == 1 {
			ts, err := x.tokenRule(M{"k": []string{"whole", "none"}[cb.i("tk")-1]}, q)
			must(err)
			s.Tokens = &ts
		}
		return s
	}
	fresh := func(k int) pretokenizedstring.Split { return mk(nstr.FromString(""), k) }
	switch cb.s("act") {
	case "pat":
		fillMatches(obj(cb["p"]), n.Get())
		nss, err := n.Split(sharedPattern(obj(cb["p"])), behaviour(cb.s("beh")))
		if err != nil {
			return nil, err
		}
		out := make([]pretokenizedstring.Split, 0)
		for i, q := range nss {
			out = append(out, mk(q, i+1))
		}
		return out, nil
	case "same":
		return []pretokenizedstring.Split{mk(n, 1)}, nil
	case "none":
		return nil, nil
	case "empty":
		return []pretokenizedstring.Split{fresh(1), mk(n, 2), fresh(3)}, nil
	case "parts":
		out := make([]pretokenizedstring.Split, 0)
		for i, r := range []rune(n.Get()) {
			out = append(out, mk(nstr.FromString(string(r)), i+1))
		}
		return out, nil
	}
	panic(harnessError{"callback"})
}

func ints(v []int) []int { return append([]int{}, v...) }

func encodingJSON(enc *encodings.Encoding, err error) M {
	out := M{"err": "", "ids": []int{}, "tys": []int{}, "tks": L{}, "wds": []int{}, "off": L{},
		"sp": []int{}, "at": []int{}, "ov": 0}
	if err != nil {
		out["err"] = "not-tokenized"
		return out
	}
	tks := make(L, 0)
	for _, t := range enc.Tokens {
		tks = append(tks, cps(t))
	}
	off := make(L, 0)
	for _, o := range enc.Offsets {
		off = append(off, []int{o.Start, o.End})
	}
	out["ids"], out["tys"], out["tks"], out["wds"] = ints(enc.IDs), ints(enc.TypeIDs), tks, ints(enc.Words)
	out["off"], out["sp"], out["at"], out["ov"] = off, ints(enc.SpecialTokensMask), ints(enc.AttentionMask), len(enc.Overflowing)
	if enc.Len() != len(enc.IDs) || enc.IsEmpty() != (len(enc.IDs) == 0) {
		out["ov"] = -1
	}
	for i := range enc.IDs { // the caller's own
		enc.IDs[i] = -5
	}
	for i := range enc.Tokens {
		enc.Tokens[i] = "spoilt"
	}
	for i := range enc.Offsets {
		enc.Offsets[i] = strutils.ByteOffsets{Start: 9, End: 1}
	}
	for i := range enc.TypeIDs {
		enc.TypeIDs[i] = -5
	}
	for i := range enc.Words {
		enc.Words[i] = -5
	}
	return out
}

// ----------------------------------------------------------------- models

// vocabJSON writes a vocabulary file in one of several ways.
func vocabJSON(v interface{}, k, style int) string {
	sep, colon, before, after := ",", ":", "{", "}"
	switch style {
	case 1:
		sep, colon, before, after = ",\n  ", ": ", "{\n  ", "\n}\n"
	case 2: // like Python
		sep, colon = ", ", ": "
	case 3:
		sep, colon, before, after = "\t,\r\n", "\t:\n", " \n{ ", " } \n"
	}
	var sb strings.Builder
	sb.WriteString(before)
	for i, p := range list(v) {
		x := list(p)
		if i > 0 {
			sb.WriteString(sep)
		}
		sb.WriteString(jsonString(toStr(x[0]), style))
		sb.WriteString(colon)
		sb.WriteString(strconv.Itoa(realID(toInt(x[1])) * k))
	}
	sb.WriteString(after)
	return sb.String()
}

func jsonString(s string, style int) string {
	if style == 0 {
		return encode(s)
	}
	var sb strings.Builder
	sb.WriteByte('"')
	for i, r := range []rune(s) {
		switch {
		case style == 3 && i%2 == 0 && r < 0x10000, style != 1 && r >= 0x7F && r < 0x10000, r < 32, r == 0xFFFD:
			fmt.Fprintf(&sb, "\\u%04x", r)
		case style != 1 && r >= 0x10000:
			hi, lo := utf16.EncodeRune(r)
			fmt.Fprintf(&sb, "\\u%04x\\u%04X", hi, lo)
		case r == '"' || r == '\\':
			sb.WriteString("\\" + string(r))
		case r == '/' && style == 3:
			sb.WriteString("\\/")
		default:
			sb.WriteRune(r)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

// The ids and ranks of the code are those of the specification times a scale
// of the case, as nothing depends on their values.
type scale struct{ id, rank int }

func scaleOf(m M) scale {
	s := scale{1, 1}
	if v, ok := m["idx"]; ok {
		s.id = 1 << uint(toInt(v))
	}
	if v, ok := m["rkx"]; ok {
		s.rank = 1 << uint(toInt(v))
	}
	return s
}

// back gives the id of the specification, and a wrong one for an id that is
// none of the case's.
func (s scale) back(id int) int {
	if id%s.id != 0 {
		return -7777
	}
	return id / s.id
}

// loadVocab goes through a JSON file, the only way to choose ids.
func loadVocab(v interface{}, k int) *vocabulary.Vocabulary {
	dense := k == 1
	for i, p := range list(v) {
		dense = dense && toInt(list(p)[1]) == i
	}
	if dense {
		voc := vocabulary.NewVocabulary()
		for _, p := range list(v) {
			voc.AddTerm(toStr(list(p)[0]))
		}
		return voc
	}
	f := filepath.Join(scratch, "vocab.json")
	must(ioutil.WriteFile(f, []byte(vocabJSON(v, k, 0)), 0o600))
	voc, err := vocabulary.FromJSONFile(f)
	must(err)
	return voc
}

// shared are the parts of models that are shared in a case of shared use.
var shared map[string]interface{}

func sharedAs(share bool, key string, build func() interface{}) interface{} {
	if !share || shared == nil {
		return build()
	}
	if shared[key] == nil {
		shared[key] = build()
	}
	return shared[key]
}

func buildMerges(mo M, k scale) *bpemodel.MergeMap {
	m := bpemodel.NewMergeMap()
	if _, ok := mo["over"]; ok { // merges that are overwritten
		for i, p := range list(mo["m"]) {
			x := list(p)
			m.Set(toInt(x[0])*k.id, toInt(x[1])*k.id, bpemodel.MergeValue{Rank: (7 - i) * k.rank, ID: toInt(x[0]) * k.id})
		}
	}
	for _, p := range list(mo["m"]) {
		x := list(p)
		m.Set(toInt(x[0])*k.id, toInt(x[1])*k.id, bpemodel.MergeValue{Rank: toInt(x[2]) * k.rank, ID: toInt(x[3]) * k.id})
	}
	return m
}

func buildModel(mo M, dropout float64) models.Model {
	e := Ev(mo)
	if _, ok := mo["def"]; ok {
		if mo["k"] == "wp" {
			return wordpiecemodel.NewDefault()
		}
		return bpemodel.NewDefault()
	}
	k := scaleOf(mo)
	_, share := mo["sh"]
	voc := sharedAs(share, encode(L{"v", mo["v"], k.id}), func() interface{} { return loadVocab(mo["v"], k.id) }).(*vocabulary.Vocabulary)
	switch mo["k"].(string) {
	case "wp":
		return wordpiecemodel.New(voc, e.t("unk"), e.t("pre"), e.i("max"))
	case "bpe":
		m := sharedAs(share, encode(L{"m", mo["m"], k.id, k.rank, mo["over"]}), func() interface{} { return buildMerges(mo, k) }).(*bpemodel.MergeMap)
		capacity := 100
		if c, ok := mo["cap"]; ok {
			capacity = toInt(c)
		}
		return bpemodel.New(voc, m, capacity, dropout, e.t("unk"), e.t("pre"), e.t("suf"), e.i("fuse") == 1)
	}
	panic(harnessError{"model"})
}

// model builds a model, or takes the one built for the same configuration in
// this case: callers share models.
func (x *Exec) model(mo M) models.Model {
	key := encode(mo)
	if x.models[key] == nil {
		x.models[key] = buildModel(mo, 0)
	}
	return x.models[key]
}

// runsText is a text given by runs of characters.
func runsText(v interface{}) string {
	var sb strings.Builder
	for _, r := range list(v) {
		x := list(r)
		see(rune(toInt(x[0])))
		sb.WriteString(strings.Repeat(string(rune(toInt(x[0]))), toInt(x[1])))
	}
	return sb.String()
}

var digits = regexp.MustCompile(`\d+`)

func (x *Exec) stepFn(e Ev, obs M) {
	switch e.s("op") {
	case "fm":
		p := obj(e["p"])
		text := e.t("t")
		fillMatches(p, text)
		caps, err := sharedPattern(p).FindMatches(text)
		l := make(L, 0)
		if err == nil {
			for _, c := range caps {
				l = append(l, []int{c.Offsets.Start, c.Offsets.End, b2i(c.IsMatch)})
			}
		}
		for i := range caps { // the caller's own
			caps[i] = splitpattern.Capture{Offsets: strutils.ByteOffsets{Start: 5, End: 2}, IsMatch: !caps[i].IsMatch}
		}
		obs["r"] = M{"err": errTag(err), "caps": l}
	case "cv":
		r := x.converter(e.t("t")).Convert(strutils.ByteOffsets{Start: e.i("s"), End: e.i("e")})
		obs["r"] = M{"a": []int{r.Start, r.End}}
	case "cvr":
		r := x.converter(runsText(e["t"])).Convert(strutils.ByteOffsets{Start: e.i("s"), End: e.i("e")})
		obs["r"] = M{"a": []int{r.Start, r.End}}
	case "isbr":
		obs["r"] = M{"b": b2i(strutils.IsRuneBoundary(runsText(e["t"]), e.i("i")))}
	case "isb":
		obs["r"] = M{"b": b2i(strutils.IsRuneBoundary(e.t("t"), e.i("i")))}
	case "tok", "tile":
		ts, err := x.model(obj(e["mo"])).Tokenize(e.t("t"))
		r := M{"err": errTag(err), "ts": L{}}
		if err == nil {
			r["ts"] = scaleOf(obj(e["mo"])).tokens(ts)
		}
		for i := range ts { // the caller's own
			ts[i] = models.Token{ID: -7, Value: "spoilt", Offsets: strutils.ByteOffsets{Start: 1, End: 99}}
		}
		obs["r"] = r
	case "drop":
		outs := map[string]L{}
		keys := []string{}
		tag := ""
		m := buildModel(obj(e["mo"]), float64(e.i("dp"))/100)
		for i := 0; i < e.i("runs"); i++ {
			ts, err := m.Tokenize(e.t("t"))
			if err != nil {
				tag = errTag(err)
			}
			j := scaleOf(obj(e["mo"])).tokens(ts)
			k := encode(j)
			if _, ok := outs[k]; !ok {
				outs[k] = j
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		l := make(L, 0)
		for _, k := range keys {
			l = append(l, outs[k])
		}
		obs["r"] = M{"err": tag, "outs": l}
	case "odds":
		counts := map[string]int{}
		tag := ""
		m := buildModel(obj(e["mo"]), float64(e.i("q"))/4)
		for i := 0; i < 10000; i++ {
			ts, err := m.Tokenize(e.t("t"))
			if err != nil {
				tag = errTag(err)
				break
			}
			counts[encode(scaleOf(obj(e["mo"])).tokens(ts))]++
		}
		keys := make([]string, 0, len(counts))
		for k := range counts {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		l := make(L, 0)
		for _, k := range keys {
			l = append(l, L{json.RawMessage(k), counts[k]})
		}
		obs["r"] = M{"err": tag, "outs": l}
	case "mall":
		k := scaleOf(M(e))
		w := bpemodel.NewWord()
		for _, s := range list(e["w"]) {
			y := list(s)
			if id := toInt(y[0]); isWideSymbol(id) {
				for n := id - wideSymbols; n > 0; n-- {
					w.Add(inertSymbol, toInt(y[1])/(id-wideSymbols))
				}
			} else {
				w.Add(id*k.id, toInt(y[1]))
			}
		}
		m := bpemodel.NewMergeMap()
		for _, p := range list(e["m"]) {
			y := list(p)
			m.Set(toInt(y[0])*k.id, toInt(y[1])*k.id, bpemodel.MergeValue{Rank: toInt(y[2]) * k.rank, ID: toInt(y[3]) * k.id})
		}
		w.MergeAll(m, 0)
		l := make(L, 0)
		for i := 0; i < len(*w); i++ {
			s := (*w)[i]
			if n := inertRun(*w, i); n > 0 {
				l = append(l, M{"id": wideSymbols + n, "len": n * s.Length})
				i += n - 1
				continue
			}
			l = append(l, M{"id": k.back(s.ID), "len": s.Length})
		}
		obs["r"] = M{"w": l}
	case "enctok":
		var toks []encodings.EncodableToken
		for _, t := range list(e["toks"]) {
			o := obj(t)
			off := list(o["off"])
			toks = append(toks, encodings.EncodableToken{ID: toInt(o["id"]), Token: toStr(o["tk"]), WordIndex: toInt(o["wd"]),
				TypeID: toInt(o["ty"]), Offsets: strutils.ByteOffsets{Start: toInt(off[0]), End: toInt(off[1])}})
		}
		obs["r"] = encodingJSON(encodings.EncodingFromEncodableTokens(toks), nil)
	case "encnew":
		f := obj(e["f"])
		nums := func(k string) []int {
			out := []int{}
			for _, x := range list(f[k]) {
				out = append(out, toInt(x))
			}
			return out
		}
		tks, off := []string{}, []strutils.ByteOffsets{}
		for _, t := range list(f["tks"]) {
			tks = append(tks, toStr(t))
		}
		for _, o := range list(f["off"]) {
			off = append(off, strutils.ByteOffsets{Start: toInt(list(o)[0]), End: toInt(list(o)[1])})
		}
		enc := encodings.NewDefaultEncoding()
		switch e.i("via") {
		case 0:
			enc = encodings.NewEncoding(nums("ids"), nums("tys"), tks, nums("wds"), off, nums("sp"), nums("at"),
				make([]*encodings.Encoding, toInt(f["ov"])))
		case 2:
			enc = encodings.NewEncodingWithCapacity(len(f))
		}
		obs["r"] = encodingJSON(enc, nil)
	case "mload":
		k := scaleOf(M(e)).id
		voc := loadVocab(e["v"], k)
		f := filepath.Join(scratch, "merges.txt")
		_ = os.RemoveAll(f)
		switch e.i("bad") {
		case 0:
			must(ioutil.WriteFile(f, []byte(e.t("t")), 0o600))
		case 1: // unreadable: missing, a directory, or a line too long to scan
			switch e.s("how") {
			case "dir":
				must(os.Mkdir(f, 0o700))
			case "long":
				long := make([]byte, 1<<20)
				for i := range long {
					long[i] = 'a'
				}
				must(ioutil.WriteFile(f, append([]byte(e.t("t")), long...), 0o600))
			}
		}
		m, err := bpemodel.MergeMapFromFile(f, voc, e.i("k"))
		nums := []int{}
		l := make(L, 0)
		if err != nil {
			for _, d := range digits.FindAllString(err.Error(), -1) {
				n, _ := strconv.Atoi(d)
				nums = append(nums, n)
			}
		} else {
			ids := []int{}
			for _, p := range list(e["v"]) {
				ids = append(ids, toInt(list(p)[1]))
			}
			for _, a := range ids {
				for _, b := range ids {
					if v, ok := m.Get(a*k, b*k); ok {
						l = append(l, []int{a, b, v.Rank, scale{k, 1}.back(v.ID)})
					}
				}
			}
			if len(*m) != len(l) { // merges of ids that are not in the vocabulary
				l = append(l, []int{-1, -1, -1, -1})
			}
		}
		_ = os.RemoveAll(f)
		obs["r"] = M{"err": b2i(err != nil), "nums": nums, "m": l}
	default:
		panic(harnessError{"operation " + e.s("op")})
	}
}

// ----------------------------------------------------------------- vocabularies

const noID = -1000000

func (x *Exec) stepVoc(e Ev, obs M) {
	failed := false
	switch e.s("op") {
	case "vnew":
		x.voc = vocabulary.NewVocabulary()
	case "vload":
		f := filepath.Join(scratch, "voc.json")
		_ = os.RemoveAll(f)
		if e.i("bad") == 1 {
			if raw, ok := e["raw"].(string); ok && raw != "" {
				must(ioutil.WriteFile(f, []byte(raw), 0o600))
			}
		} else {
			for _, p := range list(e["v"]) {
				y := list(p)
				x.probe(toStr(y[0]), toInt(y[1]))
			}
			style := 0
			if v, ok := e["style"]; ok {
				style = toInt(v)
			}
			must(ioutil.WriteFile(f, []byte(vocabJSON(e["v"], 1, style)), 0o600))
		}
		v, err := vocabulary.FromJSONFile(f)
		failed = err != nil
		_ = os.RemoveAll(f)
		x.voc = v
		if failed {
			x.voc = vocabulary.NewVocabulary()
		}
	case "vadd":
		x.probe(e.t("t"), 0)
		x.voc.AddTerm(e.t("t"))
	case "vid":
		id, ok := x.voc.GetID(e.t("t"))
		if !ok {
			id = noID
		}
		obs["r"] = M{"id": specID(id)}
		return
	case "vstr":
		s, ok := x.voc.GetString(realID(e.i("i")))
		obs["r"] = M{"ok": b2i(ok), "t": cps(s)}
		return
	case "vsize":
		obs["r"] = M{"size": x.voc.Size()}
		return
	}
	if q, ok := e["q"]; ok && toInt(q) == 1 { // nobody looks now
		for _, t := range list(e["probe"]) {
			x.terms[toStr(t)] = true
		}
		obs["r"] = M{"err": b2i(failed)}
		return
	}
	for _, t := range list(e["probe"]) {
		x.probe(toStr(t), 0)
	}
	terms := []string{}
	for t := range x.terms {
		terms = append(terms, t)
	}
	sort.Strings(terms)
	ids := make(L, 0)
	hi := x.maxID
	for _, t := range terms {
		id, ok := x.voc.GetID(t)
		if !ok {
			id = noID
		} else if id = specID(id); id > hi {
			hi = id
		}
		ids = append(ids, L{cps(t), id})
	}
	probed := map[int]bool{}
	back := make(L, 0)
	probeID := func(i int) {
		if probed[i] {
			return
		}
		probed[i] = true
		s, ok := x.voc.GetString(realID(i))
		back = append(back, L{i, b2i(ok), cps(s)})
	}
	for i := -1; i <= x.voc.Size()+3; i++ {
		probeID(i)
	}
	for _, p := range ids {
		if id := p.(L)[1].(int); id != noID {
			for d := -1; d <= 1; d++ {
				probeID(id + d)
			}
		}
	}
	obs["r"] = M{"err": b2i(failed), "size": x.voc.Size(), "ids": ids, "terms": back}
}

func (x *Exec) probe(t string, id int) {
	x.terms[t] = true
	if id > x.maxID {
		x.maxID = id
	}
}
