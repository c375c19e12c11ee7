package main

import (
	"fmt"
	"os"
	"strings"
	"testing"
)

// Concurrency scenarios over the ledger core.

type zzScnDef struct {
	name string
	cfg  func(*zzRunCfg)
	pre  []zzOp // executed sequentially beforehand
	ops  []zzOp // raced, one node each
	post []zzOp // executed afterwards
}

type zzRunCfg struct{}

func zzFund(bal string, amt int64) zzOp {
	return zzOp{L: "fund" + bal, K: "txn", Ref: "fund" + bal, Src: "@W", Dst: bal, Amt: amt, OD: "unl", Skip: true}
}

func zzMkDef(d zzScnDef) zzMk {
	return func() *zzScn {
		r := zzNewRun("", nil, 1)
		n0 := r.w.Node("n0")
		for _, b := range []string{"A", "B", "C"} {
			r.Bal(n0, b, "USD", nil)
		}
		for _, o := range d.pre {
			r.Exec(n0, o)
		}
		s := &zzScn{r: r}
		for i, o := range d.ops {
			n := r.w.Node(fmt.Sprintf("n%d", i+1))
			o := o
			s.ns = append(s.ns, n)
			s.ops = append(s.ops, func() { r.Exec(n, o) })
		}
		s.fin = func() {
			for _, o := range d.post {
				r.Exec(n0, o)
			}
		}
		return s
	}
}

func t_(l, ref, src, dst string, amt int64) zzOp {
	return zzOp{L: l, K: "txn", Ref: ref, Src: src, Dst: dst, Amt: amt, Skip: true}
}

func zzConcDefs() []zzScnDef {
	hold := zzOp{L: "h", K: "txn", Ref: "h", Src: "A", Dst: "B", Amt: 10, Infl: true, Skip: true}
	cm := func(l string, a int64) zzOp { return zzOp{L: l, K: "commit", Tgt: "h", Amt: a, Skip: true} }
	vd := func(l string) zzOp { return zzOp{L: l, K: "void", Tgt: "h", Skip: true} }
	lim := func(o zzOp, l int64) zzOp { o.OD = "lim"; o.Lim = l; return o }
	inf := func(o zzOp) zzOp { o.Infl = true; return o }
	rf := func(l string) zzOp { return zzOp{L: l, K: "refund", Tgt: "p", Skip: true} }
	return []zzScnDef{
		{name: "spend-spend", pre: []zzOp{zzFund("A", 10)}, ops: []zzOp{t_("a", "ra", "A", "B", 7), t_("b", "rb", "A", "C", 6)}},
		{name: "spend-credit", pre: []zzOp{zzFund("A", 10), zzFund("B", 5)}, ops: []zzOp{t_("a", "ra", "A", "B", 7), t_("b", "rb", "B", "A", 6)}},
		{name: "limit-limit", pre: []zzOp{zzFund("A", 5)}, ops: []zzOp{lim(t_("a", "ra", "A", "B", 8), 6), lim(t_("b", "rb", "A", "C", 5), 6)}},
		{name: "hold-spend", pre: []zzOp{zzFund("A", 10)}, ops: []zzOp{inf(t_("a", "ra", "A", "B", 7)), t_("b", "rb", "A", "C", 6)}},
		{name: "same-ref", pre: []zzOp{zzFund("A", 20)}, ops: []zzOp{t_("a", "r", "A", "B", 7), t_("b", "r", "A", "B", 7)}},
		{name: "same-ref-other-balances", pre: []zzOp{zzFund("A", 20), zzFund("C", 20)}, ops: []zzOp{t_("a", "r", "A", "B", 7), t_("b", "r", "C", "@X", 7)}},
		{name: "commit-commit", pre: []zzOp{zzFund("A", 20), hold}, ops: []zzOp{cm("a", 0), cm("b", 0)}},
		{name: "commit-partial", pre: []zzOp{zzFund("A", 20), hold}, ops: []zzOp{cm("a", 6), cm("b", 7)}},
		{name: "commit-void", pre: []zzOp{zzFund("A", 20), hold}, ops: []zzOp{cm("a", 6), vd("b")}},
		{name: "commit-commit-other", pre: []zzOp{zzFund("A", 40), hold, inf(t_("h2", "h2", "A", "B", 15))}, ops: []zzOp{cm("a", 6), cm("b", 7)}},
		{name: "commit-void-other", pre: []zzOp{zzFund("A", 40), hold, inf(t_("h2", "h2", "A", "B", 15))}, ops: []zzOp{cm("a", 0), vd("b")}},
		{name: "void-void", pre: []zzOp{zzFund("A", 20), hold}, ops: []zzOp{vd("a"), vd("b")}},
		{name: "commit-spend", pre: []zzOp{zzFund("A", 20), hold}, ops: []zzOp{cm("a", 10), t_("b", "rb", "A", "B", 9)}},
		{name: "two-holds-commit", pre: []zzOp{zzFund("A", 30), hold, inf(t_("h2", "h2", "A", "B", 5))}, ops: []zzOp{cm("a", 0), {L: "b", K: "commit", Tgt: "h2", Skip: true}}},
		{name: "refund-refund", pre: []zzOp{zzFund("A", 20), t_("p", "p", "A", "B", 9)}, ops: []zzOp{rf("a"), rf("b")}},
		{name: "refund-spend", pre: []zzOp{zzFund("A", 20), t_("p", "p", "A", "B", 9)}, ops: []zzOp{rf("a"), t_("b", "rb", "B", "C", 9)}},
		{name: "first-use-indicator", ops: []zzOp{{L: "a", K: "txn", Ref: "ra", Src: "@N", Dst: "A", Amt: 3, OD: "unl", Skip: true}, {L: "b", K: "txn", Ref: "rb", Src: "@N", Dst: "B", Amt: 4, OD: "unl", Skip: true}}},
	}
}

func init() { zzModes["conc"] = zzModeConc }

func zzModeConc(t *testing.T) {
	o := zzOpenOut()
	defer o.Close()
	tier := zzEnvInt("ZZ_DEPTH", 1)
	i := 0
	only := os.Getenv("ZZ_ONLY")
	for _, d := range zzConcDefs() {
		if only != "" && !strings.Contains(","+only+",", ","+d.name+",") {
			continue
		}
		mk := zzMkDef(d)
		na, nb := zzCount(mk, 0), zzCount(mk, 1)
		emit := func(id string, s *zzScn) {
			o.Trace(id, d.name, s.r.t)
			s.r.w.Close()
		}
		for _, ex := range []bool{false, true} {
			for k := int64(1); k <= na; k++ {
				if i++; zzShard(i) {
					emit(fmt.Sprintf("%s/a%d/x%v", d.name, k, ex), zzSched1(mk, 0, 1, k, ex))
				}
			}
			for k := int64(1); k <= nb; k++ {
				if i++; zzShard(i) {
					emit(fmt.Sprintf("%s/b%d/x%v", d.name, k, ex), zzSched1(mk, 1, 0, k, ex))
				}
			}
			if tier >= 2 || ex {
				for k := int64(1); k <= na; k++ {
					for j := int64(1); j <= nb; j++ {
						if i++; zzShard(i) {
							emit(fmt.Sprintf("%s/a%db%d/x%v", d.name, k, j, ex), zzSched2(mk, 0, 1, k, j, ex))
						}
					}
				}
			}
		}
	}
}
