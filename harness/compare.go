package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
)

// compareAll runs cases printed by the specification's state machines: a
// history, the state before its last event (pre), and the result and the state
// after it (exp). It takes a part of them (see readCases), skips those
// whose state before the last event already deviates (another case's concern),
// and writes the deviations to out, one per line.
func compareAll(in, out string, part, parts, from int) {
	o, err := os.Create(out)
	must(err)
	w := bufio.NewWriter(o)
	total, bad, skipped := 0, 0, 0
	eachLine(in, part, parts, from, func(n int, line []byte, _ bool) {
		var c modelCase
		must(json.Unmarshal(line, &c))
		total++
		why, ok := c.run(n)
		if !ok {
			skipped++
		} else if why != "" {
			bad++
			if bad <= 50 {
				c.Why = why
				fmt.Fprintln(w, encode(c))
				must(w.Flush()) // in case a later one does not return
			}
		}
	})
	must(w.Flush())
	must(o.Close())
	fmt.Printf("compared %d different %d skipped %d\n", total, bad, skipped)
}

// modelCase is a case of the specification.
type modelCase struct {
	Kind string `json:"kind"`
	Ev   []Ev   `json:"ev"`
	Pre  M      `json:"pre"`
	Exp  M      `json:"exp"`
	Why  string `json:"why,omitempty"`
}

// run executes a case; ok is false if its last event was not reached as expected.
func (m *modelCase) run(idx int) (why string, ok bool) {
	c := newCase(m.Kind, idx)
	for _, e := range m.Ev[:len(m.Ev)-1] {
		delete(e, "obs")
		if !c.do(e) {
			return "", false
		}
	}
	if len(m.Ev) > 1 {
		obs := M(obj(plain(c.Ev[len(c.Ev)-1]["obs"])))
		if differs(c, obs, m.Pre, predicting) != "" {
			return "", false
		}
	}
	e := m.Ev[len(m.Ev)-1]
	delete(e, "obs")
	c.do(e)
	return differs(c, obj(plain(e["obs"])), m.Exp, predicting), true
}

// plain gives the generic JSON form of a value.
func plain(v interface{}) interface{} {
	var x interface{}
	must(json.Unmarshal([]byte(encode(v)), &x))
	return x
}

// predicting: only texts are compared, not their alignments, which the results
// are about.
var predicting bool

func differs(c *Case, obs, exp M, textOnly bool) string {
	if toInt(obs["pan"]) == 1 {
		return "panic"
	}
	if r, ok := exp["r"]; ok && !reflect.DeepEqual(r, obs["r"]) {
		return "result " + encode(obs["r"])
	}
	if objs, ok := exp["objs"]; ok {
		if len(c.x.pool) != len(list(objs)) {
			return fmt.Sprintf("%d texts", len(c.x.pool))
		}
		for i, p := range list(objs) {
			if got := plain(project(c.x.pool[i])); !sameProj(obj(p), obj(got), textOnly) {
				return fmt.Sprintf("text %d is %s", i+1, encode(got))
			}
		}
	}
	if ps, ok := exp["p"]; ok {
		got := list(obs["p"])
		if len(got) != len(list(ps)) {
			return fmt.Sprintf("%d pieces", len(got))
		}
		for i, p := range list(ps) {
			a, b := obj(p), obj(got[i])
			if !sameProj(obj(a["ns"]), obj(b["ns"]), textOnly) || !reflect.DeepEqual(a["h"], b["h"]) || !reflect.DeepEqual(a["ts"], b["ts"]) {
				return fmt.Sprintf("piece %d is %s", i, encode(b))
			}
		}
		for _, k := range []string{"ob", "nb"} {
			if x, ok := exp[k]; ok && !reflect.DeepEqual(x, obs[k]) {
				return k + " " + encode(obs[k])
			}
		}
	}
	return ""
}

func sameProj(exp, got M, textOnly bool) bool {
	if textOnly {
		return reflect.DeepEqual(exp["o"], got["o"]) && reflect.DeepEqual(exp["n"], got["n"])
	}
	for k, v := range exp {
		if k == "sh" && toInt(v) == -1 {
			continue
		}
		if !reflect.DeepEqual(v, got[k]) {
			return false
		}
	}
	return len(exp) == len(got)
}
