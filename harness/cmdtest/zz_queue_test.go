package main

// Crash, fault and redelivery scenarios.

import (
	"fmt"
	"os"
	"strings"
	"testing"
)

// zzFaultDef is a scenario whose operation ops[0] is interrupted at every
// statement; post then puts things right the way a client, the queue or the
// recovery would.
type zzFaultDef struct {
	zzScnDef
	coal   bool
	qcheck bool
	page   int // configured batch size
	exp    func(r *zzRun) zzM // facts for the final state
}

func zzExpBals(v ...interface{}) []zzM {
	var l []zzM
	for i := 0; i+2 < len(v); i += 3 {
		l = append(l, zzM{"bal": v[i], "b": v[i+1], "ib": v[i+2]})
	}
	return l
}

func zzExp(posted []zzM, bals []zzM) func(*zzRun) zzM {
	if posted == nil {
		posted = []zzM{}
	}
	if bals == nil {
		bals = []zzM{}
	}
	return func(*zzRun) zzM { return zzM{"drained": true, "expect": zzM{"posted": posted, "bals": bals}} }
}

func zzPosted(v ...interface{}) []zzM {
	var l []zzM
	for i := 0; i+1 < len(v); i += 2 {
		l = append(l, zzM{"ref": v[i], "n": v[i+1]})
	}
	return l
}

func zzMkFault(d zzFaultDef) zzMk {
	return func() *zzScn {
		r := zzNewRun("", nil, 1)
		r.w.cfg.Transaction.EnableCoalescing = d.coal
		r.w.cfg.Transaction.EnableQueuedChecks = d.qcheck
		r.w.cfg.Transaction.BatchSize = 100
		if d.page > 0 {
			r.w.cfg.Transaction.BatchSize = d.page
		}
		n0 := r.w.Node("n0")
		for _, b := range []string{"A", "B", "C"} {
			r.Bal(n0, b, "USD", nil)
		}
		for _, o := range d.pre {
			r.Exec(n0, o)
		}
		s := &zzScn{r: r}
		for i, o := range d.ops {
			n := r.w.Node(fmt.Sprintf("n%d", i+1))
			o := o
			s.ns = append(s.ns, n)
			s.ops = append(s.ops, func() { r.Exec(n, o) })
		}
		s.ext = zzM{}
		s.fin = func() {
			for _, o := range d.post {
				r.Exec(n0, o)
			}
			if d.exp != nil {
				for k, v := range d.exp(r) {
					s.ext[k] = v
				}
			}
		}
		return s
	}
}

func q_(l, src, dst string, amt int64) zzOp {
	return zzOp{L: l, K: "txn", Ref: l, Src: src, Dst: dst, Amt: amt}
}
func k_(l, k string) zzOp { return zzOp{L: l, K: k} }

// what the queue still has is worked off; in zzRedrain everything that was
// there at the beginning comes once more, acknowledged or not
var zzRedrain = append([]zzOp{k_("re", "deliver")}, zzDrain...)
var zzDrain = []zzOp{k_("w1", "work"), k_("iw1", "inflwork"), k_("w2", "work"), k_("w3", "work")}

// zzAgain adds each drained scenario once more with a redelivery.
func zzAgain(in []zzFaultDef) []zzFaultDef {
	var out []zzFaultDef
	for _, d := range in {
		out = append(out, d)
		if len(d.post) > 0 && &d.post[0] == &zzDrain[0] {
			d.name, d.post = d.name+"+re", zzRedrain
			out = append(out, d)
		}
	}
	return out
}

func zzFaultDefs() []zzFaultDef {
	hold := zzOp{L: "h", K: "txn", Ref: "h", Src: "A", Dst: "B", Amt: 10, Infl: true, Skip: true}
	cm := func(l string, a int64) zzOp { return zzOp{L: l, K: "commit", Tgt: "h", Amt: a, Skip: true} }
	vd := func(l string) zzOp { return zzOp{L: l, K: "void", Tgt: "h", Skip: true} }
	inf := func(o zzOp) zzOp { o.Infl = true; return o }
	od := func(o zzOp, k string, lim int64) zzOp { o.OD = k; o.Lim = lim; return o }
	tx := t_("a", "r", "A", "B", 7)
	again := t_("b", "r", "A", "B", 7)
	rf := func(l string, skip bool) zzOp { return zzOp{L: l, K: "refund", Tgt: "p", Skip: skip} }
	bulk := func(l string, atom, infl, skip bool, sub ...zzOp) zzOp {
		for i := range sub {
			sub[i].Skip = skip
			sub[i].Infl = infl
		}
		return zzOp{L: l, K: "bulk", Atom: atom, Infl: infl, Skip: skip, Sub: sub}
	}
	snap := k_("s", "snap")
	deliver := k_("a", "deliver")
	cat := func(a []zzOp, b ...zzOp) []zzOp { return append(append([]zzOp{}, a...), b...) }
	three := []zzOp{zzFund("A", 20), q_("q1", "A", "B", 7), q_("q2", "A", "C", 6), q_("q3", "A", "B", 5)}
	mixed := []zzOp{zzFund("A", 20), q_("q1", "A", "B", 7), inf(q_("q2", "A", "C", 6)), q_("q3", "A", "B", 50), od(q_("q4", "B", "C", 3), "lim", 4), od(q_("q5", "@X", "A", 2), "unl", 0)}
	all3 := zzExp(zzPosted("q1", 1, "q2", 1, "q3", 1), zzExpBals("A", 2, 0, "B", 12, 0, "C", 6, 0))
	mix := zzExp(zzPosted("q1", 1, "q2", 1, "q3", 0, "q5", 1), nil)
	D := func(name string, pre []zzOp, op zzOp, post []zzOp, exp func(*zzRun) zzM) zzFaultDef {
		return zzFaultDef{zzScnDef: zzScnDef{name: name, pre: pre, ops: []zzOp{op}, post: post}, exp: exp}
	}
	C := func(d zzFaultDef) zzFaultDef { d.coal = true; d.name += "+coal"; return d }
	recover := []zzOp{k_("l", "lose"), {L: "age", K: "age", Amt: 600}, {L: "rec", K: "recover", Ref: "2m"}, {L: "rec2", K: "recover", Ref: "2m"}, k_("w", "work")}
	return []zzFaultDef{
		D("direct", []zzOp{zzFund("A", 20)}, tx, []zzOp{again}, zzExp(zzPosted("r", 1), zzExpBals("A", 13, 0, "B", 7, 0))),
		D("direct-first-use", nil, zzOp{L: "a", K: "txn", Ref: "r", Src: "@N", Dst: "@M", Amt: 7, OD: "unl", Skip: true},
			[]zzOp{{L: "b", K: "txn", Ref: "r", Src: "@N", Dst: "@M", Amt: 7, OD: "unl", Skip: true}}, zzExp(zzPosted("r", 1), nil)),
		D("hold", []zzOp{zzFund("A", 20)}, inf(tx), []zzOp{inf(again)}, zzExp(zzPosted("r", 1), zzExpBals("A", 20, -7, "B", 0, 7))),
		D("commit", []zzOp{zzFund("A", 20), hold}, cm("a", 0), []zzOp{cm("b", 0)}, zzExp(nil, zzExpBals("A", 10, 0, "B", 10, 0))),
		D("void", []zzOp{zzFund("A", 20), hold}, vd("a"), []zzOp{vd("b")}, zzExp(nil, zzExpBals("A", 20, 0, "B", 0, 0))),
		D("void-rest", []zzOp{zzFund("A", 20), hold, cm("c", 4)}, vd("a"), []zzOp{vd("b")}, zzExp(nil, zzExpBals("A", 16, 0, "B", 4, 0))),
		D("refund", []zzOp{zzFund("A", 20), t_("p", "p", "A", "B", 9)}, rf("a", true), []zzOp{rf("b", true)}, zzExp(nil, zzExpBals("A", 20, 0, "B", 0, 0))),
		D("commit-queued", []zzOp{zzFund("A", 20), hold, {L: "c", K: "commit", Tgt: "h", Amt: 4}, snap}, deliver, zzDrain, zzExp(nil, zzExpBals("A", 16, -6, "B", 4, 6))),
		D("void-queued", []zzOp{zzFund("A", 20), hold, {L: "c", K: "void", Tgt: "h"}, snap}, deliver, zzDrain, zzExp(nil, zzExpBals("A", 20, 0, "B", 0, 0))),
		D("worker", cat(three, snap), deliver, zzDrain, all3),
		C(D("worker", cat(three, snap), deliver, zzDrain, all3)),
		D("worker-mixed", cat(mixed, snap), deliver, zzDrain, mix),
		C(D("worker-mixed", cat(mixed, snap), deliver, zzDrain, mix)),
		D("worker-recover", cat(three, snap), deliver, recover, all3),
		C(D("worker-recover", cat(three, snap), deliver, recover, all3)),
		D("recover-recover", cat(mixed, recover[0], recover[1]), recover[2], cat(cat(cat(recover[1:], recover[1:]...), recover[1:]...), recover[1:]...), mix),
		D("refund-queued", []zzOp{zzFund("A", 20), t_("p", "p", "A", "B", 9), rf("q", false), snap}, deliver, zzDrain, zzExp(nil, zzExpBals("A", 20, 0, "B", 0, 0))),
		D("bulk-atomic", []zzOp{zzFund("A", 20)}, bulk("a", true, false, true, t_("m1", "m1", "A", "B", 4), t_("m2", "m2", "B", "C", 3), t_("m3", "m3", "A", "C", 2)), []zzOp{k_("w", "work")}, nil),
		D("bulk-atomic-inflight", []zzOp{zzFund("A", 20)}, bulk("a", true, true, true, t_("m1", "m1", "A", "B", 4), t_("m2", "m2", "A", "C", 3), t_("m3", "m3", "A", "C", 2)), []zzOp{k_("w", "work")}, nil),
		D("bulk-queued", []zzOp{zzFund("A", 20), bulk("k", true, false, false, q_("m1", "A", "B", 4), q_("m2", "A", "C", 3), q_("m3", "A", "C", 2)), snap}, deliver, zzDrain,
			zzExp(zzPosted("m1", 1, "m2", 1, "m3", 1), nil)),
	}
}

// zzPlain runs a scenario without interference; exp says what must be left.
type zzPlain struct {
	name string
	page int
	coal bool
	ops  []zzOp
	exp  func(*zzRun) zzM
}

func zzBulkDefs() []zzPlain {
	inf := func(o zzOp) zzOp { o.Infl = true; return o }
	bulk := func(l string, atom, infl, skip bool, sub ...zzOp) zzOp {
		sub = append([]zzOp{}, sub...)
		for i := range sub {
			sub[i].Skip = skip
			if infl {
				sub[i] = inf(sub[i])
			}
		}
		return zzOp{L: l, K: "bulk", Atom: atom, Infl: infl, Skip: skip, Sub: sub}
	}
	m := []zzOp{q_("m1", "A", "B", 4), q_("m2", "A", "C", 50), q_("m3", "A", "B", 3)}
	none := zzExp(nil, zzExpBals("A", 20, 0, "B", 0, 0, "C", 0, 0))
	var out []zzPlain
	for _, coal := range []bool{false, true} {
		for _, infl := range []bool{false, true} {
			for _, skip := range []bool{false, true} {
				for p, perm := range [][]int{{0, 1, 2}, {1, 0, 2}, {0, 2, 1}} {
					sub := []zzOp{m[perm[0]], m[perm[1]], m[perm[2]]}
					out = append(out, zzPlain{fmt.Sprintf("bulk-fail/c%v/i%v/s%v/p%d", coal, infl, skip, p), 0, coal,
						[]zzOp{zzFund("A", 20), bulk("k", true, infl, skip, sub...), k_("w1", "work"), k_("w2", "work"), k_("w3", "work")}, none})
				}
			}
		}
	}
	// batches longer than the page that a rollback reads at a time
	for _, page := range []int{1, 2, 3} {
		for _, infl := range []bool{false, true} {
			for size := 2; size <= 6; size++ {
				var sub []zzOp
				for i := 1; i < size; i++ {
					sub = append(sub, q_(fmt.Sprintf("m%d", i), "A", []string{"B", "C"}[i%2], int64(1+i%3)))
				}
				sub = append(sub, q_("mx", "A", "C", 50))
				out = append(out, zzPlain{fmt.Sprintf("bulk-page/n%d/i%v/z%d", page, infl, size), page, false,
					[]zzOp{zzFund("A", 20), bulk("k", true, infl, true, sub...), k_("w1", "work"), k_("w2", "work"), k_("w3", "work")}, none})
			}
		}
	}
	return out
}

// zzRecoverDefs: what recovery must do and must leave alone.
func zzRecoverDefs() []zzPlain {
	lose := k_("l", "lose")
	n := 0
	rec := func(th string) zzOp { n++; return zzOp{L: fmt.Sprintf("rec%d", n), K: "recover", Ref: th} }
	age := func(s int64) zzOp { n++; return zzOp{L: fmt.Sprintf("age%d", n), K: "age", Amt: s} }
	work := func() zzOp { n++; return k_(fmt.Sprintf("w%d", n), "work") }
	eff := func(o zzOp, e int64) zzOp { o.Eff = e; return o }
	od := func(o zzOp, k string, lim int64) zzOp { o.OD = k; o.Lim = lim; return o }
	inf := func(o zzOp) zzOp { o.Infl = true; return o }
	fund := zzFund("A", 20)
	q1, q2 := q_("q1", "A", "B", 7), q_("q2", "A", "C", 6)
	nd := func(p []zzM, b []zzM) func(*zzRun) zzM { // not drained
		return func(r *zzRun) zzM { m := zzExp(p, b)(r); m["drained"] = false; return m }
	}
	sched := q_("s1", "A", "B", 7)
	sched.Sched = 7200
	P := func(name string, exp func(*zzRun) zzM, ops ...zzOp) zzPlain { return zzPlain{"recover/" + name, 0, false, ops, exp} }
	out := []zzPlain{
		P("young", nd(zzPosted("q1", 1, "q2", 0), zzExpBals("A", 13, 0)), fund, q1, age(600), q2, lose, rec("2m"), work()),
		P("young-later", zzExp(zzPosted("q1", 1, "q2", 1), zzExpBals("A", 7, 0)), fund, q1, age(600), q2, lose, rec("2m"), work(), age(600), rec("2m"), work()),
		P("threshold", nd(zzPosted("q1", 0), zzExpBals("A", 20, 0)), fund, q1, age(150), lose, rec("5m"), work()),
		P("threshold-due", zzExp(zzPosted("q1", 1), zzExpBals("A", 13, 0)), fund, q1, age(310), lose, rec("5m"), work()),
		P("applied", zzExp(zzPosted("q1", 1), zzExpBals("A", 13, 0)), fund, q1, work(), age(600), rec("2m"), work(), age(600), rec("2m"), work()),
		P("rejected", zzExp(zzPosted("q1", 0), zzExpBals("A", 20, 0)), fund, q_("q1", "A", "B", 70), work(), zzFund("C", 5), age(600), rec("2m"), work()),
		P("rejected-then-funded", zzExp(zzPosted("q1", 0), zzExpBals("A", 119, 0)), zzFund("A", 19), q_("q1", "A", "B", 70), work(),
			zzOp{L: "f2", K: "txn", Ref: "f2", Src: "@W", Dst: "A", Amt: 100, OD: "unl", Skip: true}, age(600), rec("2m"), work(), age(600), rec("2m"), work()),
		P("task-runs-late", zzExp(zzPosted("q1", 1, "q2", 1), zzExpBals("A", 7, 0)), fund, q1, q2, k_("s", "snap"), age(600), rec("2m"), work(), k_("d", "deliver"), work()),
		P("scheduled", nd(zzPosted("s1", 0), zzExpBals("A", 20, 0)), fund, sched, age(600), rec("2m"), work()),
		P("scheduled-lost", nd(zzPosted("s1", 0), zzExpBals("A", 20, 0)), fund, sched, lose, age(600), rec("2m"), work(), rec("2m"), work()),
		P("hold", zzExp(zzPosted("q1", 1), zzExpBals("A", 20, -7, "B", 0, 7)), fund, inf(q1), lose, age(600), rec("2m"), work()),
		P("limit", zzExp(zzPosted("q1", 0), zzExpBals("A", 20, 0)), fund, od(q_("q1", "A", "B", 25), "lim", 4), lose, age(600), rec("2m"), work(), rec("2m"), rec("2m"), rec("2m"), rec("2m"), work()),
		P("limit-ok", zzExp(zzPosted("q1", 1), zzExpBals("A", -4, 0)), fund, od(q_("q1", "A", "B", 24), "lim", 4), lose, age(600), rec("2m"), work()),
		P("unlimited", zzExp(zzPosted("q1", 1), zzExpBals("A", -10, 0)), fund, od(q_("q1", "A", "B", 30), "unl", 0), lose, age(600), rec("2m"), work()),
		P("effective-date", zzExp(zzPosted("q1", 1), zzExpBals("A", 13, 0)), fund, eff(q1, -7200), lose, age(600), rec("2m"), work()),
		P("gives-up", zzExp(zzPosted("q1", 0), zzExpBals("A", 20, 0)), fund, q_("q1", "A", "B", 50), lose, age(600),
			rec("2m"), work(), rec("2m"), work(), rec("2m"), work(), rec("2m"), work(), rec("2m"), work(), rec("2m"), work()),
		P("refund", zzExp(nil, zzExpBals("A", 20, 0, "B", 0, 0)), fund, t_("p", "p", "A", "B", 9), zzOp{L: "r", K: "refund", Tgt: "p"}, lose, age(600), rec("2m"), work()),
	}
	out = append(out,
		P("retry-bound", zzExp(zzPosted("q1", 1), zzExpBals("A", 50, 0)), fund, q_("q1", "A", "B", 70), lose, age(600),
			rec("2m"), zzOp{L: "f2", K: "txn", Ref: "f2", Src: "@W", Dst: "A", Amt: 100, OD: "unl", Skip: true}, rec("2m"), work()))
	for _, coal := range []bool{false, true} {
		c := fmt.Sprintf("/c%v", coal)
		out = append(out,
			zzPlain{"qcheck/self" + c, 0, coal, []zzOp{fund, q_("q1", "A", "B", 15), work()}, zzExp(zzPosted("q1", 1), zzExpBals("A", 5, 0))},
			zzPlain{"qcheck/two" + c, 0, coal, []zzOp{fund, q_("q1", "A", "B", 15), q_("q2", "A", "B", 4), work()}, zzExp(zzPosted("q1", 1, "q2", 1), zzExpBals("A", 1, 0))},
			zzPlain{"qcheck/direct-reserved" + c, 0, coal, []zzOp{fund, q_("q1", "A", "B", 15), t_("d", "d", "A", "C", 6), work()}, zzExp(zzPosted("d", 0), nil)},
			zzPlain{"qcheck/direct-free" + c, 0, coal, []zzOp{fund, q_("q1", "A", "B", 15), t_("d", "d", "A", "C", 5), work()}, zzExp(zzPosted("d", 1), nil)},
		)
	}
	// the same through a worker, one by one and coalesced
	for _, coal := range []bool{false, true} {
		c := fmt.Sprintf("/c%v", coal)
		out = append(out,
			zzPlain{"work/effective-date" + c, 0, coal, []zzOp{fund, eff(q1, -7200), eff(q2, -9000), eff(q_("q3", "A", "B", 2), -5400), q_("q4", "A", "B", 1), work()}, zzExp(zzPosted("q1", 1, "q2", 1, "q3", 1, "q4", 1), zzExpBals("A", 4, 0))},
			zzPlain{"work/kinds" + c, 0, coal, []zzOp{fund, q1, inf(q2), od(q_("q3", "A", "C", 10), "lim", 4), od(q_("q4", "A", "C", 10), "unl", 0), q_("q5", "A", "B", 1), work()},
				zzExp(nil, nil)},
		)
	}
	return out
}

func zzModePlain(t *testing.T) {
	o := zzOpenOut()
	defer o.Close()
	for i, d := range append(zzBulkDefs(), zzRecoverDefs()...) {
		if !zzShard(i) || !zzOnly(strings.SplitN(d.name, "/", 2)[0]) {
			continue
		}
		mk := zzMkFault(zzFaultDef{zzScnDef: zzScnDef{name: d.name, post: d.ops}, coal: d.coal, page: d.page, qcheck: strings.HasPrefix(d.name, "qcheck"), exp: d.exp})
		s := mk()
		s.finish()
		o.Trace(d.name, strings.SplitN(d.name, "/", 2)[0], s.r.t)
		s.r.w.Close()
	}
}

// races between workers, recovery and late deliveries
func zzRaceDefs() []zzFaultDef {
	inf := func(o zzOp) zzOp { o.Infl = true; return o }
	snap := k_("s", "snap")
	da, db := k_("a", "deliver"), k_("b", "deliver")
	three := []zzOp{zzFund("A", 20), q_("q1", "A", "B", 7), q_("q2", "A", "C", 6), q_("q3", "A", "B", 5)}
	short := []zzOp{zzFund("A", 10), q_("q1", "A", "B", 7), inf(q_("q2", "A", "C", 6))}
	rec := zzOp{L: "b", K: "recover", Ref: "2m"}
	age := zzOp{L: "age", K: "age", Amt: 600}
	cat := func(a []zzOp, b ...zzOp) []zzOp { return append(append([]zzOp{}, a...), b...) }
	D := func(name string, pre []zzOp, a, b zzOp, exp func(*zzRun) zzM) zzFaultDef {
		return zzFaultDef{zzScnDef: zzScnDef{name: name, pre: pre, ops: []zzOp{a, b}, post: zzDrain}, exp: exp}
	}
	C := func(d zzFaultDef) zzFaultDef { d.coal = true; d.name += "+coal"; return d }
	all3 := zzExp(zzPosted("q1", 1, "q2", 1, "q3", 1), zzExpBals("A", 2, 0, "B", 12, 0, "C", 6, 0))
	one := zzExp(nil, nil)
	part := func(l, which string) zzOp { return zzOp{L: l, K: "deliver", Tgt: which} }
	hold := zzOp{L: "h", K: "txn", Ref: "h", Src: "A", Dst: "B", Amt: 10, Infl: true, Skip: true}
	return []zzFaultDef{
		D("deliver-deliver", cat(three, snap), da, db, all3),
		C(D("deliver-deliver", cat(three, snap), da, db, all3)),
		D("deliver-deliver-short", cat(short, snap), da, db, one),
		C(D("deliver-deliver-short", cat(short, snap), da, db, one)),
		D("deliver-recover", cat(three, age, snap), da, rec, all3),
		C(D("deliver-recover", cat(three, age, snap), da, rec, all3)),
		D("deliver-recover-short", cat(short, age, snap), da, rec, one),
		D("deliver-spend", cat(short, snap), da, t_("b", "rb", "A", "C", 5), one),
		C(D("deliver-spend", cat(short, snap), da, t_("b", "rb", "A", "C", 5), one)),
		C(D("deliver-spend2", cat(three, snap), da, t_("b", "rb", "A", "C", 2), one)),
		C(D("deliver-spend3", cat(three, snap), da, t_("b", "rb", "A", "C", 9), one)),
		D("deliver-part", cat(three, snap), part("a", "q1"), part("b", "q2"), all3),
		C(D("deliver-part", cat(three, snap), part("a", "q1"), part("b", "q2"), all3)),
		C(D("deliver-part2", cat(three, snap), part("a", "q1"), part("b", "q3"), all3)),
		C(D("deliver-part3", cat(three, snap), part("a", "q2"), part("b", "q1"), all3)),
		C(D("deliver-part-short", cat(short, snap), part("a", "q1"), part("b", "q2"), one)),
		D("deliver-commitq", []zzOp{zzFund("A", 20), hold, {L: "c", K: "commit", Tgt: "h", Amt: 4}, snap}, da, db, zzExp(nil, zzExpBals("A", 16, -6, "B", 4, 6))),
		D("commitq-void", []zzOp{zzFund("A", 20), hold, {L: "c", K: "commit", Tgt: "h"}, snap}, da, zzOp{L: "b", K: "void", Tgt: "h", Skip: true}, one),
		D("recover-recover2", cat(three, k_("l", "lose"), age), zzOp{L: "a", K: "recover", Ref: "2m"}, rec, all3),
	}
}

func init() {
	zzModes["crash"] = zzModeCrash
	zzModes["race"] = zzModeRace
	zzModes["plain"] = zzModePlain
}

func zzOnly(name string) bool {
	only := os.Getenv("ZZ_ONLY")
	name = strings.TrimSuffix(name, "+re")
	return only == "" || strings.Contains(","+only+",", ","+name+",")
}

// zzModeCrash interrupts each scenario's operation at every statement.
func zzModeCrash(t *testing.T) {
	o := zzOpenOut()
	defer o.Close()
	kinds := os.Getenv("ZZ_KINDS")
	i := 0
	for _, d := range zzAgain(zzFaultDefs()) {
		if !zzOnly(d.name) {
			continue
		}
		mk := zzMkFault(d)
		n := zzCount(mk, 0)
		bulk := strings.HasPrefix(d.name, "bulk-atomic")
		for k := int64(1); k <= n; k++ {
			for _, kind := range []string{"crash-before", "crash-after", "fault-before", "fault-after", "sticky"} {
				if kk := os.Getenv("ZZ_K"); kk != "" && kk != fmt.Sprintf("%s/%d", kind, k) {
					continue
				}
				if kinds != "" && !strings.Contains(kinds, strings.SplitN(kind, "-", 2)[0]) {
					continue
				}
				if bulk && kind != "fault-before" {
					continue
				}
				if i++; !zzShard(i) {
					continue
				}
				var s *zzScn
				var did bool
				switch kind {
				case "crash-before":
					s, did = zzCrash(mk, 0, k, false)
				case "crash-after":
					s, did = zzCrash(mk, 0, k, true)
				case "fault-before":
					s, did = zzFault(mk, 0, k, false, false)
				case "fault-after":
					s, did = zzFault(mk, 0, k, true, false)
				case "sticky":
					s, did = zzFault(mk, 0, k, false, true)
				}
				if did {
					o.Trace(fmt.Sprintf("%s/%s/%d", d.name, kind, k), d.name, s.r.t)
				}
				s.r.w.Close()
			}
		}
	}
}

// zzModeRace interleaves two operations at statement granularity.
func zzModeRace(t *testing.T) {
	o := zzOpenOut()
	defer o.Close()
	deep := zzEnvInt("ZZ_DEPTH", 1) >= 2
	i := 0
	for _, d := range zzAgain(zzRaceDefs()) {
		if !zzOnly(d.name) {
			continue
		}
		mk := zzMkFault(d)
		na, nb := zzCount(mk, 0), zzCount(mk, 1)
		emit := func(id string, s *zzScn) {
			o.Trace(id, d.name, s.r.t)
			s.r.w.Close()
		}
		for _, ex := range []bool{false, true} {
			for k := int64(1); k <= na; k++ {
				if i++; zzShard(i) {
					emit(fmt.Sprintf("%s/a%d/x%v", d.name, k, ex), zzSched1(mk, 0, 1, k, ex))
				}
			}
			for k := int64(1); k <= nb; k++ {
				if i++; zzShard(i) {
					emit(fmt.Sprintf("%s/b%d/x%v", d.name, k, ex), zzSched1(mk, 1, 0, k, ex))
				}
			}
		}
		step := int64(3)
		if deep {
			step = 1
		}
		for k := int64(1); k <= na; k += step {
			for j := int64(1); j <= nb; j += step {
				if i++; zzShard(i) {
					emit(fmt.Sprintf("%s/a%db%d/xtrue", d.name, k, j), zzSched2(mk, 0, 1, k, j, true))
				}
			}
		}
	}
}
