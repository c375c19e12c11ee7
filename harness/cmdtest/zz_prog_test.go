package main

// Replays programs generated from any of the sequential specifications: each
// step is an action with the observation the specification expects.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"testing"
	"time"
)

// zzProg is one run of a program on a fresh system.
type zzProg interface {
	Do(op zzM) zzM // performs an action, reports what was observed
	Close()
}

// zzProgs maps a specification to its interpreter.
var zzProgs = map[string]func(cfg zzM) zzProg{}

type zzPStep struct {
	Op   zzM   `json:"op"`
	Exp  zzM   `json:"exp"`
	Alts []zzM `json:"alts"` // any of these is right
}

func init() { zzModes["prog"] = zzModeProg }

// zzNorm brings values to a comparable form.
func zzNorm(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var x interface{}
	if err := d.Decode(&x); err != nil {
		panic(err)
	}
	return x
}

func zzJS(v interface{}) string {
	b, _ := json.Marshal(zzNorm(v))
	return string(b)
}

// zzSame tells whether got agrees with everything want says.
func zzSame(want, got interface{}) bool {
	switch w := want.(type) {
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		if !ok {
			return len(w) == 0 && fmt.Sprint(got) == "[]"
		}
		for k, x := range w {
			if !zzSame(x, g[k]) {
				return false
			}
		}
		return true
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			// TLC writes the empty function as an empty sequence
			m, mok := got.(map[string]interface{})
			return len(w) == 0 && (got == nil || mok && len(m) == 0)
		}
		for i := range w {
			if !zzSame(w[i], g[i]) {
				return false
			}
		}
		return true
	}
	return zzJS(want) == zzJS(got)
}

func zzRunProg(name string, cfg zzM, steps []zzPStep) (int, string, zzM, zzM) {
	p := zzProgs[name](cfg)
	defer p.Close()
	for i, s := range steps {
		obs := zzNorm(p.Do(s.Op)).(map[string]interface{})
		if obs["zz_skip"] == true { // too slow to tell
			return -i - 1, "", nil, nil
		}
		if len(s.Alts) > 0 {
			ok := false
			for _, a := range s.Alts {
				ok = ok || zzSame(zzNorm(a), obs)
			}
			if !ok {
				return i + 1, "alternatives", zzM{"one of": s.Alts}, obs
			}
		}
		var bad []string
		for k, w := range s.Exp {
			if !zzSame(zzNorm(w), obs[k]) {
				bad = append(bad, k)
			}
		}
		if len(bad) > 0 {
			sort.Strings(bad)
			w, g := zzM{}, zzM{}
			for _, k := range bad {
				w[k], g[k] = s.Exp[k], obs[k]
			}
			return i + 1, strings.Join(bad, ","), w, g
		}
	}
	return 0, "", nil, nil
}

func zzModeProg(t *testing.T) {
	o := zzOpenOut()
	defer o.Close()
	name := os.Getenv("ZZ_PROG")
	cfg := zzM{}
	if c := os.Getenv("ZZ_CFG"); c != "" {
		if err := json.Unmarshal([]byte(c), &cfg); err != nil {
			panic(err)
		}
	}
	zzLines(func(i int, line []byte) {
		var steps []zzPStep
		d := json.NewDecoder(bytes.NewReader(line))
		d.UseNumber()
		if err := d.Decode(&steps); err != nil {
			panic(err)
		}
		at, what, want, got := zzRunProg(name, cfg, steps)
		if at > 0 {
			zzQuiesceFor = zzQuiesceLong
			at, what, want, got = zzRunProg(name, cfg, steps)
			zzQuiesceFor = 6 * time.Millisecond
		}
		if at > 0 {
			o.Write(zzM{"id": fmt.Sprintf("prog%d", i), "step": at, "k": steps[at-1].Op["k"], "what": what, "want": zzJS(want), "got": zzJS(got), "diff": true, "prog": steps[:at]})
		} else {
			o.Write(zzM{"id": fmt.Sprintf("prog%d", i), "steps": len(steps), "cut": at < 0})
		}
	})
}

func (op zzP) s(k string) string { v, _ := op[k].(string); return v }
func (op zzP) b(k string) bool   { v, _ := op[k].(bool); return v }
func (op zzP) i(k string) int64 {
	switch v := op[k].(type) {
	case json.Number:
		n, _ := v.Int64()
		return n
	case float64:
		return int64(v)
	}
	return 0
}
func (op zzP) l(k string) []interface{} { v, _ := op[k].([]interface{}); return v }
func (op zzP) ss(k string) []string {
	out := []string{}
	for _, x := range op.l(k) {
		out = append(out, fmt.Sprint(x))
	}
	return out
}
func (op zzP) m(k string) zzM { v, _ := op[k].(map[string]interface{}); return v }

type zzP zzM

// zzBoth runs a to its k-th statement, then b to its end (or until it waits
// for a), then a to its end.
func zzBoth(na, nb *zzNode, a, b func(), k int64) {
	st := na.stopAt(k)
	da := zzGo(a)
	select {
	case <-st.hit:
	case <-da:
	}
	db := zzGo(b)
	zzWaitIdle(nb, db)
	st.go_()
	zzWaitDone(da, "a")
	zzWaitDone(db, "b")
	na.inst.Gate = nil
}
