package main

// Replays programs generated by TLC from spec/LedgerSeq.tla on the real code
// and compares what every request answered and did with what the
// specification expects.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"testing"
	"time"
)

type zzSix struct{ B, C, D, Ib, Ic, Id int64 }

type zzStep struct {
	Op   zzOp             `json:"op"`
	OK   bool             `json:"ok"`
	Cls  string           `json:"cls"`
	Bals map[string]zzSix `json:"bals"`
	Q    int              `json:"q"`
	// what is queued against and for each balance
	Queued map[string]struct{ D, C int64 } `json:"queued"`
	// more than one result is right
	Alts []map[string]zzSix `json:"alts"`
}

func init() { zzModes["seq"] = zzModeSeq }

// zzLines calls f for each line of the program file that is this shard's.
func zzLines(f func(i int, line []byte)) {
	fh, err := os.Open(os.Getenv("ZZ_IN"))
	if err != nil {
		panic(err)
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	i := 0
	for sc.Scan() {
		i++
		if zzShard(i) {
			f(i, sc.Bytes())
		}
	}
}

func (r *zzRun) six(name string) (zzSix, bool) {
	for _, x := range r.w.db.Rows("balances") {
		id := zzStr(x["balance_id"])
		n := r.w.names[id]
		if n == "" && zzStr(x["indicator"]) != "" {
			n = zzStr(x["indicator"])
		}
		if n == name || strings.HasPrefix(n, name+"/") {
			b := r.t.balState(x)
			return zzSix{b["b"].(int64), b["c"].(int64), b["d"].(int64), b["ib"].(int64), b["ic"].(int64), b["id"].(int64)}, true
		}
	}
	return zzSix{}, false
}

// queued is what the API reports as queued against and for a balance.
func (r *zzRun) queued(n *zzNode, name string) (struct{ D, C int64 }, bool) {
	var z struct{ D, C int64 }
	for id, nm := range r.w.names {
		if (nm == name || strings.HasPrefix(nm, name+"/")) && strings.HasPrefix(id, "bln_") {
			resp := n.Do("GET", "/balances/"+id+"?with_queued=true", nil)
			var x struct {
				D json.Number `json:"queued_debit_balance"`
				C json.Number `json:"queued_credit_balance"`
			}
			if !resp.OK() || json.Unmarshal(resp.Body, &x) != nil || x.D == "" || x.C == "" {
				return struct{ D, C int64 }{-1, -1}, true
			}
			z.D, z.C = r.t.num(string(x.D)), r.t.num(string(x.C))
			return z, true
		}
	}
	return z, false
}

func zzRunSeq(id string, steps []zzStep, scale int64) (*zzRun, []zzM) {
	r := zzNewRun("", nil, scale)
	r.w.cfg.Transaction.EnableCoalescing = os.Getenv("ZZ_NOCOAL") == ""
	r.w.cfg.Transaction.EnableQueuedChecks = os.Getenv("ZZ_QCHECK") != ""
	n := r.w.Node("n0")
	for b := range steps[0].Bals {
		if !strings.HasPrefix(b, "@") {
			r.Bal(n, b, "USD", nil)
		}
	}
	var diffs []zzM
	diff := func(i int, s zzStep, what, want, got string) {
		diffs = append(diffs, zzM{"id": id, "step": i + 1, "k": s.Op.K, "what": what, "want": want, "got": got, "infl": s.Op.Infl})
	}
	for i, s := range steps {
		if os.Getenv("ZZ_DRY") != "" {
			r.dryCheck(n, s, func(what, want, got string) { diff(i, s, what, want, got) })
			if len(diffs) > 0 {
				break
			}
		}
		res := r.Exec(n, s.Op)
		if s.Op.K == "bulk" && !s.OK {
			n.Work(false)
		}
		if ok := res["ok"].(bool); ok != s.OK {
			diff(i, s, "answer", fmt.Sprint(s.OK, " ", s.Cls), fmt.Sprint(ok, " ", res["cls"]))
		} else if s.Cls != "any" && s.Cls != "ok" && res["cls"] != s.Cls {
			diff(i, s, "class", s.Cls, fmt.Sprint(res["cls"]))
		}
		for b, want := range s.Bals {
			got, ok := r.six(b)
			if (ok || want != zzSix{}) && got != want {
				diff(i, s, "balance "+b, fmt.Sprint(want), fmt.Sprint(got))
			}
		}
		if len(s.Alts) > 0 {
			match, state := false, map[string]zzSix{}
			for _, alt := range s.Alts {
				m := true
				for b, want := range alt {
					got, ok := r.six(b)
					state[b] = got
					if (ok || want != zzSix{}) && got != want {
						m = false
					}
				}
				match = match || m
			}
			if !match {
				diff(i, s, "balances", fmt.Sprint("one of ", s.Alts), fmt.Sprint(state))
			}
		}
		if os.Getenv("ZZ_QUEUED") != "" {
			for b, want := range s.Queued {
				if got, ok := r.queued(n, b); ok && got != want {
					diff(i, s, "queued "+b, fmt.Sprint(want), fmt.Sprint(got))
				}
			}
		}
		if len(diffs) > 0 {
			break
		}
	}
	if len(diffs) == 0 {
		n.Work(false)
		r.t.Final(zzM{"drained": true})
	}
	return r, diffs
}

func zzModeSeq(t *testing.T) {
	o := zzOpenOut()
	defer o.Close()
	scale := int64(zzEnvInt("ZZ_SCALE", 1))
	zzLines(func(i int, line []byte) {
		var steps []zzStep
		if err := json.Unmarshal(line, &steps); err != nil {
			panic(err)
		}
		id := fmt.Sprintf("prog%d", i)
		r, diffs := zzRunSeq(id, steps, scale)
		if len(diffs) > 0 {
			r.w.Close()
			zzQuiesceFor = zzQuiesceLong
			r, diffs = zzRunSeq(id, steps, scale)
			zzQuiesceFor = 6 * time.Millisecond
		}
		for _, d := range diffs {
			d["diff"] = true
			d["prog"] = steps[:d["step"].(int)]
			o.Write(d)
		}
		if len(diffs) == 0 {
			o.Trace(id, "seq", r.t)
		}
		r.w.Close()
	})
}
