package main

// Interpreter of spec/Dates.tla.

import (
	"fmt"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/blnkfinance/blnk/internal/zzverif/pgsim"
)

func init() { zzProgs["dates"] = zzNewDates }

const zzUnit = 40 * time.Second

type zzDatesProg struct {
	w    *zzWorld
	n    *zzNode
	cnt  int
	base time.Time
	ids  map[int64]string // transaction -> id a client would use
	refs map[int64]string
}

func zzNewDates(cfg zzM) zzProg {
	w := zzNewWorld("", nil)
	w.cfg.Transaction.EnableCoalescing = zzP(cfg).b("coal")
	return &zzDatesProg{w: w, n: w.Node("n0"), base: time.Now().Truncate(time.Second).Add(time.Hour), ids: map[int64]string{}, refs: map[int64]string{}}
}
func (p *zzDatesProg) Close() { p.w.Close() }

func (p *zzDatesProg) at(u int64) time.Time {
	if u == 0 {
		return p.base.Add(-2 * time.Hour)
	}
	return p.base.Add(time.Duration(u) * zzUnit)
}

var zzZones = []*time.Location{time.UTC, time.FixedZone("", 19800), time.FixedZone("", -28800), time.FixedZone("", 45900), time.FixedZone("", -3600)}

func (p *zzDatesProg) Do(m zzM) zzM {
	op := zzP(m)
	out := zzM{}
	p.cnt++
	switch k := op.s("k"); k {
	case "post":
		ref := fmt.Sprint("r", p.cnt)
		p.refs[op.i("i")] = ref
		legs := op.l("legs")
		l := zzP(legs[0].(map[string]interface{}))
		n := l.i("n") * int64(len(legs))
		b := zzM{"precise_amount": n, "precision": 100, "currency": "USD", "reference": ref, "description": "d", "source": "@" + l.s("s"), "destination": "@" + l.s("d"), "allow_overdraft": op.b("od")}
		if len(legs) > 1 {
			delete(b, "destination")
			var ds []zzM
			for _, x := range legs {
				ds = append(ds, zzM{"identifier": "@" + zzP(x.(map[string]interface{})).s("d"), "distribution": "50%"})
			}
			b["destinations"] = ds
		}
		for f, key := range map[string]string{"sched": "scheduled_for", "exp": "inflight_expiry_date", "com": "inflight_commit_date"} {
			if u := op.i(f); u != 9999 {
				b[key] = p.at(u).In(zzZones[op.i("zone")]).Format(time.RFC3339)
			}
		}
		path := op.s("p")
		skip := path == "skip" || path == "split" || path == "bulk"
		var r zzResp
		if path == "bulk" || path == "bulkqueue" {
			r = p.n.Do("POST", "/transactions/bulk", zzM{"transactions": []zzM{b}, "inflight": op.b("hold"), "skip_queue": skip})
		} else {
			b["inflight"], b["skip_queue"] = op.b("hold"), skip
			r = p.n.Do("POST", "/transactions", b)
			p.ids[op.i("i")] = r.S("transaction_id")
		}
		out["ok"], out["resp"] = r.OK(), string(r.Body)
		p.w.quiesceQueue()
		if p.ids[op.i("i")] == "" {
			for _, row := range p.w.db.Rows("transactions") {
				if zzStr(row["reference"]) == ref {
					p.ids[op.i("i")] = zzStr(row["transaction_id"])
				}
			}
		}
	case "commit", "void", "part":
		b := zzM{"status": k, "skip_queue": true}
		if k == "part" {
			b["status"], b["precise_amount"] = "commit", op.i("n")
		}
		r := p.n.Do("PUT", "/transactions/inflight/"+p.ids[op.i("i")], b)
		out["ok"], out["resp"] = r.OK(), string(r.Body)
		p.w.quiesceQueue()
	case "recover":
		for _, x := range p.w.db.Rows("transactions") {
			id := zzStr(x["transaction_id"])
			if ts, ok := x["created_at"].(pgsim.TS); ok {
				ts.T = ts.T.Add(-48 * time.Hour)
				p.w.db.Poke("transactions", func(m map[string]pgsim.Value) bool { return m["transaction_id"] == id }, map[string]pgsim.Value{"created_at": ts})
			}
		}
		r := p.n.Do("POST", "/transactions/recover?threshold=1h", nil)
		out["resp"] = string(r.Body)
		p.w.quiesceQueue()
	case "tick":
		out["log"] = p.tick(p.at(op.i("to")).Add(zzUnit/4), op.b("serve"), op.s("how"), op.i("at"))
	}
	bal := zzM{}
	for _, row := range p.w.db.Rows("balances") {
		v := zzM{}
		any := false
		for f, c := range map[string]string{"cr": "credit_balance", "dr": "debit_balance", "icr": "inflight_credit_balance", "idr": "inflight_debit_balance"} {
			x := zzBig(row[c])
			v[f] = x.Int64()
			any = any || x.Sign() != 0
		}
		if name := zzStr(row["indicator"]); any && len(name) == 2 {
			bal[name[1:]] = v
		}
	}
	out["bal"] = bal
	return out
}

// due lists what is to be delivered, undated work first.
func (p *zzDatesProg) due(lim time.Time, serve bool, seen map[string]bool) []zzTask {
	var now, dated []zzTask
	qs := []string{p.w.cfg.Queue.InflightExpiryQueue, p.w.cfg.Queue.InflightCommitQueue}
	if serve {
		qs = append(p.w.TxQueues(), qs...)
	}
	for _, q := range qs {
		for _, t := range p.w.Tasks(q) {
			if seen[q+t.ID] {
				continue
			} else if t.State == "pending" {
				now = append(now, t)
			} else if !t.NextAt.After(lim) {
				dated = append(dated, t)
			}
		}
	}
	sort.SliceStable(dated, func(i, j int) bool { return dated[i].NextAt.Before(dated[j].NextAt) })
	return append(now, dated...)
}

func (p *zzDatesProg) tick(lim time.Time, serve bool, how string, at int64) []string {
	var log []string
	seen := map[string]bool{}
	for i := 0; i < 60; i++ {
		ts := p.due(lim, serve, seen)
		if len(ts) == 0 {
			break
		}
		t := ts[0]
		seen[t.Queue+t.ID] = true
		var err error
		switch how {
		case "die":
			p.dying(t, at)
		case "fault":
			var c int64
			p.n.inst.Gate = func(*pgsim.StmtInfo) error {
				if atomic.AddInt64(&c, 1) == at {
					return errZZFault
				}
				return nil
			}
			err = p.n.Deliver(t)
			p.w.quiesceQueue()
			p.n.inst.Gate = nil
		case "twice":
			err = p.n.Deliver(t)
			p.w.quiesceQueue()
			t.Retried++
			if err == nil {
				_ = p.n.Deliver(t)
				p.w.Ack(t)
				continue
			}
		}
		err = p.n.Deliver(t)
		for j := 0; err != nil && j < 6 && t.Queue != p.w.cfg.Queue.InflightExpiryQueue && t.Queue != p.w.cfg.Queue.InflightCommitQueue; j++ {
			t.Retried++
			err = p.n.Deliver(t)
		}
		log = append(log, fmt.Sprint(t.Queue, " ", err))
		if err == nil {
			p.w.Ack(t)
		}
		p.w.quiesceQueue()
	}
	return log
}

// dying delivers the task to a worker that dies at its at-th statement.
func (p *zzDatesProg) dying(t zzTask, at int64) {
	p.cnt++
	n := p.w.Node(fmt.Sprint("d", p.cnt))
	hit := make(chan struct{})
	var c int64
	var once sync.Once
	n.inst.Gate = func(*pgsim.StmtInfo) error {
		if atomic.AddInt64(&c, 1) == at {
			once.Do(func() { n.inst.Kill(); close(hit) })
		}
		return nil
	}
	d := zzGo(func() { _ = n.Deliver(t) })
	select {
	case <-hit:
	case <-d:
	}
	zzSettle(p.w)
	p.w.mr.FastForward(10 * time.Minute)
}
