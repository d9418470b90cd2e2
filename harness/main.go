// Command verifharness drives the code under test and records what it shows.
//
//	verifharness gen   -prop P -seed S -from I -n N -out FILE   seeded cases
//	verifharness run   -prop P -in FILE -out FILE               given cases (-part, -parts, -from)
//	verifharness cut   -prop P -in FILE -out FILE               the last event did not return
//	verifharness cmp   -in FILE -out FILE                       cases with expected results (same)
//	verifharness sweep -prop P -out FILE                        every character
//
// Exit status 3: a call did not come back (the case is in the progress file).
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Case is a sequence of events on one object or pool of objects.
type Case struct {
	Kind string `json:"kind"`
	Idx  int    `json:"idx"`
	Ev   []Ev   `json:"ev"`
	Cfgs []M    `json:"cfgs,omitempty"` // shared use: the instances' configurations
	Conc int    `json:"conc,omitempty"` // shared use: callers run concurrently
	x    *Exec
}

// The event under way, for the watchdog and the progress file.
var (
	watchMu   sync.Mutex
	watchCase *Case
	watchFrom time.Time
	watchOn   bool
	progress  string
	verbose   bool

	concurrent bool
	comparing  bool
	outFile    string
	cases      []*Case // finished so far
)

const hangAfter = 20 * time.Second

func newCase(kind string, idx int) *Case {
	return &Case{Kind: kind, Idx: idx, Ev: []Ev{}, x: newExec(kind)}
}

// do runs an event and reports whether the case can go on.
func (c *Case) do(e Ev) bool {
	c.Ev = append(c.Ev, e)
	if verbose {
		saveProgress(c)
	}
	watchMu.Lock()
	watchCase, watchFrom, watchOn = c, time.Now(), true
	watchMu.Unlock()
	if s, ok := e["seed"]; ok {
		rand.Seed(int64(toInt(s)))
	}
	obs := c.x.step(e)
	watchMu.Lock()
	watchOn = false
	watchMu.Unlock()
	return toInt(obs["pan"]) == 0
}

// saveProgress records the case under way, its last event being unfinished.
func saveProgress(c *Case) {
	if progress == "" {
		return
	}
	must(ioutil.WriteFile(progress, []byte(encode(c)), 0o600))
}

func watchdog() {
	for {
		time.Sleep(time.Second)
		watchMu.Lock()
		if watchOn && time.Since(watchFrom) > hangAfter {
			saveProgress(watchCase)
			if !comparing {
				writeTrace(outFile, cases) // the main goroutine is stuck
			}
			fmt.Fprintln(os.Stderr, "HANG")
			os.Exit(3)
		}
		watchMu.Unlock()
	}
}

// generate makes case number idx of a property.
func generate(prop string, seed int64, idx int) *Case {
	g := &Gen{r: rand.New(rand.NewSource(seed*1000003 + int64(idx))), prop: prop}
	if idx%vastEvery == vastEvery/2 {
		g.vast = g.vastLen()
	}
	var c *Case
	switch prop {
	case "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C19":
		c = newCase("ns", idx)
		g.caseNS(c)
	case "C20":
		if g.p(60) {
			c = newCase("ns", idx)
			g.caseNS(c)
		} else {
			c = newCase("pt", idx)
			g.casePT(c)
		}
	case "C10", "C11", "C12", "C21", "C22", "C23":
		if prop == "C12" && idx%32 == 8 {
			c = newCase("fn", idx)
			g.caseEnc(c)
			break
		}
		c = newCase("pt", idx)
		g.casePT(c)
	case "C17":
		c = newCase("voc", idx)
		g.caseVoc(c)
	case "C09":
		c = newCase("fn", idx)
		g.caseFM(c)
	case "C13":
		c = newCase("fn", idx)
		if g.p(40) {
			g.caseMall(c)
		} else {
			g.caseTok(c)
		}
	case "C14", "C16":
		c = newCase("fn", idx)
		g.caseTok(c)
	case "C15":
		c = newCase("fn", idx)
		g.caseDrop(c)
	case "C18":
		c = newCase("fn", idx)
		g.caseMload(c)
	case "C24":
		c = newCase("sh", idx)
		g.shareCase(c, concurrent)
	case "C25":
		c = newCase("fn", idx)
		g.caseOffsets(c)
	default:
		panic("no generator for " + prop)
	}
	return c
}

// readCases gives the cases of a file, one per line: cases, or strings of them
// as TLC prints them. Other lines are left out. Of n cases it gives those whose
// number is part modulo parts, from number from on.
func readCases(file string, part, parts, from int) []*Case {
	var out []*Case
	eachLine(file, part, parts, from, func(n int, line []byte, quoted bool) {
		c := &Case{}
		must(json.Unmarshal(line, c))
		if c.Kind == "" { // header
			return
		}
		if quoted {
			c.Idx = n
		}
		out = append(out, c)
	})
	return out
}

func eachLine(file string, part, parts, from int, do func(n int, line []byte, quoted bool)) {
	f, err := os.Open(file)
	must(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	n := 0
	for sc.Scan() {
		line := sc.Bytes()
		if len(line) == 0 || line[0] != '"' && line[0] != '{' {
			continue
		}
		n++
		if n%parts != part || n < from {
			continue
		}
		quoted := line[0] == '"'
		if quoted {
			var text string
			must(json.Unmarshal(line, &text))
			line = []byte(text)
		}
		do(n, line, quoted)
	}
	must(sc.Err())
}

// rerun executes the events of a case again.
func rerun(in *Case) *Case {
	if in.Kind == "sh" {
		return rerunShared(in)
	}
	c := newCase(in.Kind, in.Idx)
	for _, e := range in.Ev {
		delete(e, "obs")
		if !c.do(e) {
			break
		}
	}
	return c
}

// cut executes the events of a case but the last, which did not come back.
func cut(in *Case) *Case {
	if in.Kind == "sh" {
		c := &Case{Kind: in.Kind, Idx: in.Idx, Cfgs: in.Cfgs, Conc: in.Conc}
		for _, e := range in.Ev {
			if e.s("op") == "sstart" {
				delete(e, "obs")
				c.Ev = append(c.Ev, e, Ev{"op": "send", "who": e["who"], "obs": M{"pan": 1, "msg": "did not return"}})
				break
			}
		}
		return c
	}
	last := in.Ev[len(in.Ev)-1]
	c := rerun(&Case{Kind: in.Kind, Idx: in.Idx, Ev: in.Ev[:len(in.Ev)-1]})
	last["obs"] = M{"pan": 1, "msg": "did not return"}
	encode(last)
	c.Ev = append(c.Ev, last)
	return c
}

const mostBytes = 8 << 20

func writeTrace(file string, cases []*Case) {
	f, err := os.Create(file)
	must(err)
	w := bufio.NewWriterSize(f, 1<<20)
	lines := make([]string, len(cases))
	for i, c := range cases {
		lines[i] = encode(c)
		// What is too much for TLC to read ends earlier.
		for len(lines[i]) > mostBytes && len(c.Ev) > 1 {
			c.Ev = c.Ev[:len(c.Ev)-1]
			lines[i] = encode(c)
		}
	}
	fmt.Fprintln(w, encode(M{"ct": classTable()}))
	for _, l := range lines {
		fmt.Fprintln(w, l)
	}
	must(w.Flush())
	must(f.Close())
}

func printRow(r M) {
	cols := []string{fmt.Sprintf("%6d", r["c"])}
	for _, k := range []string{"ws", "low", "up", "pu", "mn", "ot", "rs", "rw", "rl", "rn", "rf"} {
		switch v := r[k].(type) {
		case bool:
			cols = append(cols, map[bool]string{true: "TRUE ", false: "FALSE"}[v])
		default:
			w := map[string]int{"low": 6, "up": 6, "rf": 3}[k]
			cols = append(cols, fmt.Sprintf("%*d", w, v))
		}
	}
	fmt.Printf("  @@ Row(%s)\n", strings.Join(cols, ", "))
}

func main() {
	cmd := "help"
	if len(os.Args) > 1 {
		cmd = os.Args[1]
	}
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	seed := fs.Int64("seed", 1, "seed")
	from := fs.Int("from", 0, "first case")
	n := fs.Int("n", 100, "cases")
	part := fs.Int("part", 0, "which part of the input")
	parts := fs.Int("parts", 1, "into how many parts the input is cut")
	stride := fs.Int("stride", 1, "sweep: how many unassigned characters to leave out")
	in := fs.String("in", "", "input")
	fs.StringVar(&outFile, "out", "", "output")
	fs.StringVar(&progress, "progress", "", "progress file")
	fs.BoolVar(&verbose, "verbose", false, "write the progress file before every event")
	fs.BoolVar(&concurrent, "conc", false, "concurrent callers")
	fs.StringVar(&scratch, "scratch", "", "scratch directory")
	if len(os.Args) > 2 {
		must(fs.Parse(os.Args[2:]))
	}
	logCallbacks = *prop == "C10"
	predicting = *prop == "C05" || *prop == "C06" || *prop == "C12"
	if scratch == "" {
		d, err := ioutil.TempDir("", "verif")
		must(err)
		defer os.RemoveAll(d)
		scratch = d
	}
	go watchdog()
	switch cmd {
	case "gen":
		for i := *from; i < *from+*n; i++ {
			cases = append(cases, generate(*prop, *seed, i))
		}
	case "run":
		for _, c := range readCases(*in, *part, *parts, *from) {
			cases = append(cases, rerun(c))
		}
	case "cut":
		for _, c := range readCases(*in, 0, 1, 0) {
			cases = append(cases, cut(c))
		}
	case "cmp":
		comparing = true
		compareAll(*in, outFile, *part, *parts, *from)
		return
	case "table": // rows for MCText.tla
		for _, a := range fs.Args() {
			c, err := strconv.Atoi(a)
			must(err)
			printRow(classes(rune(c)))
		}
		return
	case "sweep":
		var tried, groups int
		cases, tried, groups = sweep(*prop, *part, *parts, *stride)
		fmt.Printf("swept %d groups %d\n", tried, groups)
	default:
		fmt.Fprintln(os.Stderr, "usage: verifharness gen|run|cut|cmp|sweep")
		os.Exit(2)
	}
	writeTrace(outFile, cases)
}
