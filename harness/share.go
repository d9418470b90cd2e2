package main

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/nlpodyssey/gotokenizers/models"
	nstr "github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/normalizers"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizers"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"
)

// Shared use: callers 1..n call shared instances, one after the other or
// concurrently. Events are the start (sstart) and the end (send) of calls.

// instance is a component under shared use.
type instance struct {
	model models.Model
	pat   splitpattern.SplitPattern
	nz    normalizers.Normalizer
	pre   pretokenizers.PreTokenizer
	k     scale
}

func newInstance(cfg M) *instance {
	switch cfg["what"].(string) {
	case "model":
		dropout := 0.0
		if d, ok := cfg["dp"]; ok {
			dropout = float64(toInt(d)) / 100
		}
		return &instance{model: buildModel(obj(cfg["mo"]), dropout), k: scaleOf(obj(cfg["mo"]))}
	case "pat":
		return &instance{pat: buildPattern(obj(cfg["p"]))}
	case "nz":
		return &instance{nz: buildNormalizer(obj(cfg["z"]))}
	case "pre":
		return &instance{pre: buildPreTokenizer(obj(cfg["z"]))}
	}
	panic(harnessError{"instance"})
}

// outcome is what a call gave, copied, to be written out after all calls.
type outcome struct {
	pan   string
	err   error
	toks  []models.Token
	caps  []splitpattern.Capture
	text  string
	spans [][]int
	offs  []pretokenizedstring.OriginalByteSplit
	kind  string
	k     scale
	norm  *nstr.NormalizedString
	pts   *pretokenizedstring.PreTokenizedString
}

// call makes one call and keeps its result, to be read after all calls, or
// copies it and then spoils the original.
func (in *instance) call(t string, keep bool) (o outcome) {
	defer func() {
		if p := recover(); p != nil {
			o.pan = fmt.Sprint("panic: ", p)
		}
	}()
	switch {
	case in.model != nil:
		ts, err := in.model.Tokenize(t)
		o.kind, o.err, o.k = "model", err, in.k
		if keep {
			o.toks = ts
			return o
		}
		if err == nil {
			o.toks = append([]models.Token{}, ts...)
		}
		for i := range ts {
			ts[i] = models.Token{ID: -7, Value: "spoilt", Offsets: strutils.ByteOffsets{Start: 1, End: 99}}
		}
		if len(ts) < cap(ts) {
			_ = append(ts, models.Token{ID: -9})
		}
	case in.pat != nil:
		cs, err := in.pat.FindMatches(t)
		o.kind, o.err = "pat", err
		if keep {
			o.caps = cs
			return o
		}
		if err == nil {
			o.caps = append([]splitpattern.Capture{}, cs...)
		}
		for i := range cs {
			cs[i] = splitpattern.Capture{Offsets: strutils.ByteOffsets{Start: 7, End: 3}, IsMatch: !cs[i].IsMatch}
		}
	case in.nz != nil:
		n := nstr.FromString(t)
		o.kind, o.err = "nz", in.nz.Normalize(n)
		o.norm = n
		if keep {
			return o
		}
		o.read()
		n.Append("zz")
		n.Filter(func(r rune) bool { return r == 'z' })
	case in.pre != nil:
		p := pretokenizedstring.FromString(t)
		o.kind, o.err = "pre", in.pre.PreTokenize(p)
		o.pts = p
		if keep {
			return o
		}
		o.read()
		_ = p.Normalize(func(n *nstr.NormalizedString) error { n.Prepend("q"); return nil })
		for i, s := range p.Splits() {
			s.NormalizedString.Filter(func(rune) bool { return i%2 == 0 })
		}
	}
	return o
}

// read looks at what was normalized or pre-tokenized.
func (o *outcome) read() {
	if n := o.norm; n != nil {
		o.norm = nil
		o.text = n.Get()
		at := 0
		for _, r := range o.text {
			o.spans = append(o.spans, spanAt(n, at))
			at += len(string(r))
		}
	}
	if p := o.pts; p != nil {
		o.pts = nil
		for _, s := range p.GetOriginalByteSplits() {
			o.offs = append(o.offs, pretokenizedstring.OriginalByteSplit{String: s.String, Offsets: s.Offsets})
		}
	}
}

// obs writes an outcome in the form of the trace.
func (o outcome) obs() M {
	if o.pan != "" {
		return M{"pan": 1, "msg": o.pan}
	}
	o.read()
	ts := L{}
	switch o.kind {
	case "model":
		if o.err == nil {
			ts = o.k.tokens(o.toks)
		}
	case "pat":
		for _, c := range o.caps {
			if o.err != nil {
				break
			}
			ts = append(ts, []int{c.Offsets.Start, c.Offsets.End, b2i(c.IsMatch)})
		}
	case "nz":
		sp := make(L, 0)
		for _, s := range o.spans {
			sp = append(sp, s)
		}
		ts = L{cps(o.text), sp}
	case "pre":
		for _, s := range o.offs {
			ts = append(ts, L{cps(s.String), s.Offsets.Start, s.Offsets.End, 0})
		}
	}
	return M{"pan": 0, "r": M{"err": errTag(o.err), "ts": ts}}
}

// yielding makes predicates and custom normalizers give way to other callers.
var yielding bool

func giveWay() {
	if yielding {
		runtime.Gosched()
	}
}

// runShared executes the calls of a case, given by its sstart events.
func runShared(c *Case) {
	watchMu.Lock()
	watchCase, watchFrom, watchOn = c, time.Now(), true
	watchMu.Unlock()
	if verbose {
		saveProgress(c)
	}
	shared = map[string]interface{}{}
	insts := make([]*instance, len(c.Cfgs))
	for i, cfg := range c.Cfgs {
		insts[i] = newInstance(cfg)
	}
	shared = nil
	type task struct {
		in   *instance
		text string
		warm int
		keep bool
	}
	var starts []Ev
	callers := 0
	for _, e := range c.Ev {
		if op := e.s("op"); op == "sstart" || op == "swarm" {
			delete(e, "obs")
			starts = append(starts, e)
			if e.i("who") > callers {
				callers = e.i("who")
			}
		}
	}
	progs := make([][]task, callers+1)
	outs := make([][]outcome, callers+1)
	do := func(t task) outcome {
		for i := 0; i < t.warm; i++ {
			t.in.call(warmWord(t.text, i), false)
		}
		if t.warm > 0 {
			return outcome{}
		}
		return t.in.call(t.text, t.keep)
	}
	for _, e := range starts {
		t := task{in: insts[e.i("at")-1], text: e.t("t")}
		if e.s("op") == "swarm" {
			t.warm = e.i("n")
		}
		if k, ok := e["keep"]; ok {
			t.keep = toInt(k) == 1
		}
		w := e.i("who")
		progs[w] = append(progs[w], t)
		if !c.conc() {
			outs[w] = append(outs[w], do(t))
		}
	}
	if c.conc() {
		yielding = true
		gate := make(chan struct{})
		var wg sync.WaitGroup
		for w := range progs {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				<-gate
				local := make([]outcome, 0, len(progs[w]))
				for _, t := range progs[w] {
					local = append(local, do(t))
				}
				outs[w] = local
			}(w)
		}
		close(gate)
		wg.Wait()
		yielding = false
	}
	// one possible order of the events: every call between those of its caller
	c.Ev = nil
	next := make([]int, callers+1)
	pending := 0
	flush := func() {
		for w := range next {
			if next[w] < 0 {
				next[w] = -next[w]
				c.Ev = append(c.Ev, Ev{"op": "send", "who": w, "obs": outs[w][next[w]-1].obs()})
			}
		}
		pending = 0
	}
	for _, e := range starts {
		w := e.i("who")
		if next[w] < 0 || !c.conc() && pending > 0 {
			flush()
		}
		if e.s("op") == "swarm" {
			e["obs"] = M{"pan": 0}
			c.Ev = append(c.Ev, e)
			next[w]++
			continue
		}
		e["obs"] = M{"pan": 0}
		c.Ev = append(c.Ev, e)
		next[w] = -(next[w] + 1)
		pending++
	}
	flush()
	watchMu.Lock()
	watchOn = false
	watchMu.Unlock()
}

func (c *Case) conc() bool { return c.Conc == 1 }

// warmWord is the i-th of many distinct words over the characters of t.
func warmWord(t string, i int) string {
	rs := []rune(t)
	w := []rune{}
	for k := i + len(rs); k > 0; k /= len(rs) {
		w = append(w, rs[k%len(rs)])
	}
	return string(w)
}

// shareCase makes a case of shared use.
func (g *Gen) shareCase(c *Case, conc bool) {
	c.Conc = b2i(conc)
	g.newAlpha()
	var chars [][]rune
	k := 1
	if g.p(45) {
		k = g.between(2, 3)
	}
	kind := g.one("model", "model", "model", "model", "pat", "nz", "pre", "pre")
	for i := 0; i < k; i++ {
		what := kind
		if g.p(15) {
			what = g.one("model", "pat", "nz", "pre")
		}
		cfg := M{"what": what}
		cs := g.alpha
		switch what {
		case "model":
			var mo M
			if i > 0 && g.p(60) && c.Cfgs[i-1]["what"] == "model" { // a variant of the model before
				mo = variant(g, obj(c.Cfgs[i-1]["mo"]))
				cs = chars[i-1]
				if d, ok := c.Cfgs[i-1]["dp"]; ok && g.p(70) {
					cfg["dp"] = d
				}
			} else if g.p(60) {
				mo, cs = g.bpe()
			} else {
				mo, cs = g.wordpiece()
			}
			if mo["k"] == "bpe" && g.p(12) {
				cfg["dp"] = g.between(1, 99)
			}
			if g.p(70) {
				mo["sh"] = 1 // one vocabulary and one merge table for equal ones
			}
			cfg["mo"] = mo
		case "pat":
			cfg["p"] = g.pattern(false)
			if g.p(5) {
				cfg["p"] = M{"k": "err", "e": "E1"}
			} else if g.p(6) {
				cfg["p"] = g.slowPattern()
				if g.p(40) {
					cfg["p"] = M{"k": "inv", "p": cfg["p"]}
				}
			}
		case "nz":
			cfg["z"] = g.normalizer(2)
		case "pre":
			cfg["z"] = g.preTokenizer()
			if g.p(6) {
				cfg["z"] = M{"k": g.one("word", "bytes"), "p": g.slowPattern(), "pre": 0, "trim": 0}
			}
		}
		chars = append(chars, cs)
		c.Cfgs = append(c.Cfgs, cfg)
	}
	inputs := make([][][]int, k)
	for i := range inputs {
		for j := g.between(2, 7); j > 0; j-- {
			if c.Cfgs[i]["what"] == "model" {
				max := 8
				if _, ok := c.Cfgs[i]["dp"]; ok {
					max = 6
				} else if g.n(1000) < 12 {
					inputs[i] = append(inputs[i], g.longWord(chars[i], obj(c.Cfgs[i]["mo"])))
				}
				inputs[i] = append(inputs[i], g.wordOf(chars[i], max))
			} else if strings.Contains(encode(c.Cfgs[i]), `"slow"`) && g.p(60) {
				inputs[i] = append(inputs[i], g.longRun())
			} else {
				inputs[i] = append(inputs[i], g.text())
			}
		}
		if _, ok := c.Cfgs[i]["dp"]; i > 0 && g.p(60) && !ok {
			inputs[i] = inputs[i-1]
		}
	}
	callers := 1
	calls := g.between(4, 14)
	if conc {
		callers = g.between(2, 5)
		calls = callers * g.between(2, 6)
	}
	for i := 0; i < calls; i++ {
		at := g.n(k)
		who := 1
		if conc {
			who = 1 + i%callers
		}
		if c.Cfgs[at]["what"] == "model" && g.prop == "C24" && g.p(3) && len(chars[at]) > 1 {
			n := []int{3, 40, 150}[g.n(3)]
			if !conc && g.n(1000) < 15 {
				n = 10100 // more words than the default capacity of the cache
			}
			c.Ev = append(c.Ev, Ev{"op": "swarm", "who": who, "at": at + 1, "n": n, "t": runeInts(string(chars[at]))})
			continue
		}
		c.Ev = append(c.Ev, Ev{"op": "sstart", "who": who, "at": at + 1, "t": inputs[at][g.n(len(inputs[at]))], "keep": b2i(g.p(40))})
	}
	runShared(c)
}

// variant is a model that differs from another one in one setting.
func variant(g *Gen, mo M) M {
	out := M{}
	for k, v := range mo {
		out[k] = v
	}
	if mo["k"] == "bpe" {
		switch g.n(3) {
		case 0:
			out["m"] = L{}
		case 1:
			if u := mo["unk"].([]int); len(u) > 0 {
				out["fuse"] = 1 - toInt(mo["fuse"])
			}
		default:
			m := list(mo["m"])
			if len(m) > 0 {
				out["m"] = m[:len(m)-1]
			}
		}
	} else {
		out["max"] = g.n(6)
	}
	return out
}

func rerunShared(in *Case) *Case {
	c := &Case{Kind: "sh", Idx: in.Idx, Ev: in.Ev, Cfgs: in.Cfgs, Conc: in.Conc}
	runShared(c)
	return c
}
