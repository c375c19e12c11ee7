package main

// Interpreter of spec/Lineage.tla.

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	blnk "github.com/blnkfinance/blnk"
	"github.com/blnkfinance/blnk/internal/zzverif/pgsim"
)

func init() { zzProgs["lineage"] = zzNewLineage }

type zzLineageProg struct {
	w     *zzWorld
	n     *zzNode
	cnt   int
	strat map[string]string
	bal   map[string]string // tracked balance -> id
	ids   map[int64]string
}

func zzNewLineage(cfg zzM) zzProg {
	w := zzNewWorld("", nil)
	w.cfg.Transaction.EnableCoalescing = zzP(cfg).b("coal")
	return &zzLineageProg{w: w, n: w.Node("n0"), strat: map[string]string{}, bal: map[string]string{}, ids: map[int64]string{}}
}
func (p *zzLineageProg) Close() { p.w.Close() }

func (p *zzLineageProg) open() {
	r := zzMust(p.n.Do("POST", "/ledgers", zzM{"name": "l"}))
	for _, x := range []string{"a", "b", "c"} {
		i := zzM{"identity_type": "individual", "first_name": "F" + x, "last_name": "L" + x}
		if x == "b" {
			i = zzM{"identity_type": "organization", "organization_name": "Org " + x}
		}
		id := zzMust(p.n.Do("POST", "/identities", i)).S("identity_id")
		p.bal[x] = zzMust(p.n.Do("POST", "/balances", zzM{"ledger_id": r.S("ledger_id"), "identity_id": id, "currency": "USD", "track_fund_lineage": true, "allocation_strategy": p.strat[x]})).S("balance_id")
	}
}

func (p *zzLineageProg) node() *zzNode { p.cnt++; return p.w.Node(fmt.Sprint("d", p.cnt)) }

// trip makes the at-th statement of n fail, or n die there.
func (p *zzLineageProg) trip(n *zzNode, how string, at int64) chan struct{} {
	var c int64
	hit := make(chan struct{})
	n.inst.Gate = func(s *pgsim.StmtInfo) error {
		if k := atomic.AddInt64(&c, 1); k == at {
			if how == "die" {
				n.inst.Kill()
				close(hit)
				return nil
			}
			return errZZFault
		}
		return nil
	}
	return hit
}

func (p *zzLineageProg) Do(m zzM) zzM {
	op := zzP(m)
	out := zzM{}
	var stuck []string
	if len(p.bal) == 0 {
		for k, v := range op.m("strat") {
			p.strat[k] = zzStr(v)
		}
		p.open()
	}
	switch k := op.s("k"); k {
	case "post":
		ref := fmt.Sprint("r", op.i("i"))
		b := zzM{"precise_amount": op.i("n"), "precision": 100, "currency": "USD", "reference": ref, "description": "d", "inflight": op.b("hold"), "allow_overdraft": op.s("s") == "x"}
		for f, v := range map[string]string{"source": op.s("s"), "destination": op.s("d")} {
			if id := p.bal[v]; id != "" {
				b[f] = id
			} else {
				b[f] = "@ext"
			}
		}
		if op.s("p") != "" {
			b["meta_data"] = zzM{"BLNK_LINEAGE_PROVIDER": op.s("p")}
		}
		n, path := p.n, op.s("path")
		if op.s("how") == "die" {
			n = p.node()
		}
		send := func(n *zzNode) zzResp {
			b := b
			switch {
			case path == "split" && !op.b("hold"):
				b["destinations"] = []zzM{{"identifier": b["destination"], "distribution": "100%"}}
				if b["destination"] == nil {
					b["destinations"] = b["dests"]
				}
				b["dests"] = b["destinations"]
				delete(b, "destination")
				b["skip_queue"] = true
			case path == "bulk":
				return n.Do("POST", "/transactions/bulk", zzM{"transactions": []zzM{b}, "inflight": op.b("hold"), "skip_queue": true})
			default:
				b["skip_queue"] = path != "queue"
			}
			return n.Do("POST", "/transactions", b)
		}
		hit := make(chan struct{})
		if op.s("how") != "" {
			hit = p.trip(n, op.s("how"), op.i("at"))
		}
		var r zzResp
		got := make(chan zzResp, 1)
		go func() { got <- send(n) }()
		select {
		case r = <-got:
		case <-hit:
		}
		zzSettle(p.w)
		out["ok"] = r.OK()
		if op.s("how") != "" {
			if op.s("how") == "die" {
				p.w.mr.FastForward(10 * time.Minute)
			} else {
				n.inst.Gate = nil
			}
			// the client asks again until it is answered
			for i := 0; i < 4 && !out["ok"].(bool); i++ {
				q := send(p.n)
				zzSettle(p.w)
				r = q
				out["ok"] = q.OK() || strings.Contains(strings.ToLower(string(q.Body)), "already been used") || strings.Contains(strings.ToLower(string(q.Body)), "already exist")
			}
		}
		out["resp"] = string(r.Body)
		if path == "queue" {
			p.n.Work(true)
			p.w.quiesceQueue()
		}
		found := false
		for _, row := range p.w.db.Rows("transactions") {
			rf, st := zzStr(row["reference"]), zzStr(row["status"])
			if rf == ref || rf == ref+"_q" || rf == ref+"-0" || rf == ref+"-1" {
				if st == "APPLIED" || st == "INFLIGHT" {
					p.ids[op.i("i")], found = zzStr(row["transaction_id"]), true
				}
			}
		}
		if path == "queue" || op.s("how") != "" {
			out["ok"] = found
		}
	case "commit", "void":
		r := p.n.Do("PUT", "/transactions/inflight/"+p.ids[op.i("i")], zzM{"status": k, "skip_queue": true})
		out["ok"], out["resp"] = r.OK(), string(r.Body)
		zzSettle(p.w)
	case "part":
		r := p.n.Do("PUT", "/transactions/inflight/"+p.ids[op.i("i")], zzM{"status": "commit", "precise_amount": op.i("n"), "skip_queue": true})
		out["ok"], out["resp"] = r.OK(), string(r.Body)
		zzSettle(p.w)
	case "drain":
		p.drain(op.s("how"), op.i("at"))
		drawn := zzM{}
		for _, x := range op.l("spends") {
			i := zzP{"x": x}.i("x")
			r := p.n.Do("GET", "/transactions/"+p.ids[i]+"/lineage", nil)
			ds := []zzM{}
			l, _ := r.J["fund_allocation"].([]interface{})
			for _, y := range l {
				e := zzP(y.(map[string]interface{}))
				ds = append(ds, zzM{"p": e.s("provider"), "n": e.i("amount")})
			}
			drawn[fmt.Sprint(i)] = ds
		}
		out["drawn"] = drawn
		var st []string
		for _, e := range p.w.db.Rows("lineage_outbox") {
			st = append(st, fmt.Sprint(e["lineage_type"], " ", e["status"], " ", e["attempts"], " ", e["last_error"]))
		}
		if p.pending() > 0 {
			out["drawn"] = st
		}
		stuck = st
	}
	at := zzM{}
	for x, id := range p.bal {
		r := p.n.Do("GET", "/balances/"+id+"/lineage", nil)
		ps := zzM{}
		l, _ := r.J["providers"].([]interface{})
		for _, y := range l {
			e := zzP(y.(map[string]interface{}))
			if e.i("amount") != 0 || e.i("spent") != 0 || e.i("available") != 0 {
				v := zzM{"in": e.i("amount"), "out": e.i("spent")}
				if e.i("available") != e.i("amount")-e.i("spent") {
					v["available"] = e.i("available")
				}
				ps[e.s("provider")] = v
			}
		}
		if len(ps) > 0 {
			at[x] = ps
		}
	}
	if p.pending() > 0 && stuck != nil {
		at["left"] = stuck
	}
	out["at"] = at
	return out
}

func (p *zzLineageProg) pending() int {
	c := 0
	for _, e := range p.w.db.Rows("lineage_outbox") {
		if s := zzStr(e["status"]); s == "pending" || s == "processing" {
			c++
		}
	}
	return c
}

func (p *zzLineageProg) moved() string {
	s := fmt.Sprint(len(p.w.db.Rows("transactions")), len(p.w.db.Rows("balances")), len(p.w.db.Rows("lineage_mappings")))
	for _, e := range p.w.db.Rows("lineage_outbox") {
		s += fmt.Sprint(" ", e["status"], e["attempts"])
	}
	return s
}

// unlock lets the time pass after which what a worker claimed is claimed again.
func (p *zzLineageProg) unlock() {
	p.w.mr.FastForward(10 * time.Minute)
	p.w.db.Poke("lineage_outbox", func(m map[string]pgsim.Value) bool { return zzStr(m["status"]) == "processing" }, map[string]pgsim.Value{"locked_until": nil})
}

func (p *zzLineageProg) drain(how string, at int64) {
	n := p.n
	if how == "die" {
		n = p.node()
	}
	nodes := []*zzNode{n}
	if how == "two" {
		nodes = append(nodes, p.node())
	}
	dead := make(chan struct{})
	if how == "fault" || how == "die" {
		dead = p.trip(n, how, at)
	}
	for round := 0; round < 5 && p.pending() > 0; round++ {
		var ps []*blnk.LineageOutboxProcessor
		var wg sync.WaitGroup
		for _, n := range nodes {
			pr := blnk.NewLineageOutboxProcessor(n.B()).WithPollInterval(time.Millisecond)
			pr.Start(context.Background())
			ps = append(ps, pr)
		}
		// until nothing is left or nothing has moved for a while
		last, still := "", 0
		for i := 0; i < 2500 && p.pending() > 0 && still < 50 && !zzClosed(dead); i++ {
			time.Sleep(2 * time.Millisecond)
			s := p.moved()
			if s == last {
				still++
			} else {
				last, still = s, 0
			}
		}
		for _, pr := range ps {
			wg.Add(1)
			go func() { defer wg.Done(); pr.Stop() }()
		}
		stopped := make(chan struct{})
		go func() { wg.Wait(); close(stopped) }()
		select {
		case <-stopped:
			for _, n := range nodes {
				n.inst.Gate = nil
			}
		case <-dead:
		}
		zzSettle(p.w)
		nodes, dead = []*zzNode{p.n}, make(chan struct{})
		p.unlock()
	}
}

func zzClosed(c chan struct{}) bool {
	select {
	case <-c:
		return true
	default:
		return false
	}
}
