package main

// Interpreter of spec/Chain.tla.

import (
	"context"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/blnkfinance/blnk"
	"github.com/blnkfinance/blnk/config"
	"github.com/blnkfinance/blnk/internal/zzverif/pgsim"
	"github.com/blnkfinance/blnk/model"
)

func init() { zzProgs["chain"] = zzNewChain }

type zzChainProg struct {
	w      *zzWorld
	n1, n2 *zzNode
	cnt    int
	scale  int64 // rows per row of the specification
}

func zzNewChain(cfg zzM) zzProg {
	scale := zzP(cfg).i("scale")
	w := zzNewWorld("", func(c *config.Configuration) {
		c.Transaction.HashChain = config.HashChainConfig{PollInterval: time.Millisecond, BatchSize: int(zzP(cfg).i("batch")), TrailingDelay: time.Nanosecond}
	})
	return &zzChainProg{w: w, n1: w.Node("n1"), n2: w.Node("n2"), scale: scale}
}
func (p *zzChainProg) Close() { p.w.Close() }

func (p *zzChainProg) rows() []map[string]pgsim.Value {
	rs := p.w.db.Rows("transactions")
	sort.Slice(rs, func(i, j int) bool { return zzBig(rs[i]["id"]).Cmp(zzBig(rs[j]["id"])) < 0 })
	return rs
}

func zzSeq(r map[string]pgsim.Value) int64 {
	if r["chain_seq"] == nil {
		return 0
	}
	return zzBig(r["chain_seq"]).Int64()
}

func (p *zzChainProg) left() int {
	n := 0
	for _, r := range p.w.db.Rows("transactions") {
		if zzSeq(r) == 0 {
			n++
		}
	}
	return n
}

// work runs a chain worker until nothing is left to link, or in vain.
func (p *zzChainProg) work(n *zzNode) func() {
	return func() {
		c := blnk.NewChainProcessor(n.B())
		c.Start(context.Background())
		for i := 0; i < 1500 && p.left() > 0 && !n.inst.Dead(); i++ {
			time.Sleep(time.Millisecond)
			if p.scale > 1 {
				time.Sleep(10 * time.Millisecond)
			}
		}
		time.Sleep(3 * time.Millisecond)
		if !n.inst.Dead() {
			c.Stop()
		}
	}
}

func (p *zzChainProg) verify(n *zzNode, out zzM) func() {
	return func() {
		r, err := n.B().VerifyChain(context.Background(), nil)
		if err != nil {
			out["ok"], out["err"] = "error", err.Error()
			return
		}
		out["ok"], out["n"], out["why"] = r.Verified, r.LastSeq/p.scale, r.Reason
	}
}

func (p *zzChainProg) post(n *zzNode, w string) {
	p.cnt++
	ref := fmt.Sprintf("ref|%d", p.cnt)
	b := zzM{"precise_amount": 100 + p.cnt, "precision": 100, "currency": "USD", "reference": ref, "description": "d", "source": "@a", "destination": "@b", "allow_overdraft": true, "skip_queue": w != "queue"}
	have := len(p.rows())
	switch w {
	case "bulk":
		c := zzM{}
		for k, v := range b {
			c[k] = v
		}
		delete(b, "skip_queue")
		delete(c, "skip_queue")
		c["reference"] = ref + "b"
		zzMust(n.Do("POST", "/transactions/bulk", zzM{"transactions": []zzM{b, c}, "skip_queue": true}))
	case "hold":
		b["inflight"] = true
		r := zzMust(n.Do("POST", "/transactions", b))
		zzMust(n.Do("PUT", "/transactions/inflight/"+r.S("transaction_id"), zzM{"status": "commit", "skip_queue": true}))
	default:
		zzMust(n.Do("POST", "/transactions", b))
	}
	p.w.quiesceQueue()
	if w == "queue" {
		n.Work(true)
	}
	if p.scale > 1 {
		for _, r := range p.rows()[have:] {
			for i := int64(1); i < p.scale; i++ {
				c := map[string]pgsim.Value{}
				for k, v := range r {
					if k != "id" && !strings.HasPrefix(k, "chain_") {
						c[k] = v
					}
				}
				c["transaction_id"], c["reference"] = fmt.Sprint(zzStr(r["transaction_id"]), "_", i), fmt.Sprint(zzStr(r["reference"]), "_", i)
				p.w.db.Put("transactions", c)
			}
		}
	}
}

func zzMust(r zzResp) zzResp {
	if !r.OK() {
		panic("ZZ-HARNESS " + string(r.Body))
	}
	return r
}

func (p *zzChainProg) set(seq int64, set map[string]pgsim.Value) {
	p.w.db.Poke("transactions", func(m map[string]pgsim.Value) bool { return zzSeq(m) == seq }, set)
}

func (p *zzChainProg) bySeq() []map[string]pgsim.Value {
	var out []map[string]pgsim.Value
	for _, r := range p.w.db.Rows("transactions") {
		if zzSeq(r) > 0 {
			out = append(out, r)
		}
	}
	sort.Slice(out, func(i, j int) bool { return zzSeq(out[i]) < zzSeq(out[j]) })
	return out
}

// refit links all rows anew, in the order they are in, from position at on.
func (p *zzChainProg) refit(at int64) {
	for k, r := range p.bySeq() {
		id := r["id"]
		p.w.db.Poke("transactions", func(m map[string]pgsim.Value) bool { return m["id"] == id }, map[string]pgsim.Value{"chain_seq": int64(k + 1)})
	}
	cts, err := p.n1.ds.GetChainedTransactionsAfter(context.Background(), 0, 1000000)
	if err != nil {
		panic("ZZ-HARNESS " + err.Error())
	}
	prev := model.ChainGenesisHash
	for _, ct := range cts {
		h := ct.ChainHash
		if ct.ChainSeq >= at {
			h = model.ComputeChainHash(prev, ct.Row)
			p.set(ct.ChainSeq, map[string]pgsim.Value{"chain_prev_hash": prev, "chain_hash": h})
		}
		prev = h
	}
}

func (p *zzChainProg) Do(m zzM) zzM {
	op := zzP(m)
	out := zzM{}
	seq := op.i("seq") * p.scale
	switch op.s("k") {
	case "post":
		p.post(p.n1, op.s("w"))
	case "verify":
		p.verify(p.n1, out)()
	case "link":
		p.link(op.s("how"), op.i("at"), out)
		seqs := map[int64]bool{}
		top := int64(0)
		for _, r := range p.rows() {
			if s := zzSeq(r); s > 0 {
				seqs[s] = true
				top = max(top, s)
			}
		}
		if s, err := p.n1.ds.GetChainState(context.Background()); err == nil {
			out["links"] = s.LastSeq / p.scale
		}
		out["left"], out["distinct"], out["top"] = p.left(), len(seqs), top
	case "alter":
		var r map[string]pgsim.Value
		for _, x := range p.bySeq() {
			if zzSeq(x) == seq {
				r = x
			}
		}
		if r == nil {
			return zzM{"zz_skip": true}
		}
		f := op.s("f")
		v := r[f]
		p.cnt++
		switch x := v.(type) {
		case string:
			if f == "source" || f == "destination" {
				v = zzMust(p.n1.Do("POST", "/balances", zzM{"ledger_id": "general_ledger_id", "currency": "USD"})).S("balance_id")
			} else if strings.HasPrefix(f, "chain_") {
				v = strings.Repeat(fmt.Sprintf("%x", p.cnt%16), 63) + "z"
			} else {
				v = x + fmt.Sprint("x", p.cnt)
			}
		case pgsim.Num:
			v = pgsim.Num{I: new(big.Int).Add(x.I, big.NewInt(int64(p.cnt))), S: x.S}
		case pgsim.TS:
			x.T = x.T.Add(-time.Duration(p.cnt) * time.Millisecond)
			v = x
		default:
			panic(fmt.Sprintf("ZZ-HARNESS %T of %s", v, f))
		}
		p.set(seq, map[string]pgsim.Value{f: v})
		if op.b("fit") {
			p.refit(seq)
		}
	case "drop":
		p.w.db.Remove("transactions", func(m map[string]pgsim.Value) bool { return zzSeq(m) == seq })
		if op.b("fit") {
			p.refit(seq)
		}
	case "cut":
		gone := op.b("gone")
		match := func(m map[string]pgsim.Value) bool { return zzSeq(m) > seq-p.scale }
		if gone {
			p.w.db.Remove("transactions", func(m map[string]pgsim.Value) bool { return match(m) })
			return out
		}
		p.w.db.Poke("transactions", match, map[string]pgsim.Value{"chain_seq": nil, "chain_prev_hash": nil, "chain_hash": nil})
	case "forge":
		seq -= p.scale - 1
		rs := p.bySeq()
		for i := len(rs) - 1; i >= 0; i-- {
			if s := zzSeq(rs[i]); s >= seq {
				p.set(s, map[string]pgsim.Value{"chain_seq": s + 1})
			}
		}
		c := map[string]pgsim.Value{}
		for k, v := range rs[0] {
			if k != "id" {
				c[k] = v
			}
		}
		p.cnt++
		c["transaction_id"], c["reference"], c["chain_seq"] = fmt.Sprint("txn_forged", p.cnt), fmt.Sprint("forged", p.cnt), seq
		p.w.db.Put("transactions", c)
		p.refit(seq)
	case "swap":
		a, b := op.i("a")*p.scale, op.i("b")*p.scale
		var ra, rb map[string]pgsim.Value
		for _, r := range p.bySeq() {
			if zzSeq(r) == a {
				ra = r
			} else if zzSeq(r) == b {
				rb = r
			}
		}
		if ra == nil || rb == nil {
			return zzM{"zz_skip": true}
		}
		cols := []string{"chain_seq", "chain_prev_hash", "chain_hash"}
		if op.s("what") == "content" {
			cols = []string{"transaction_id", "source", "destination", "amount", "precise_amount", "currency", "status", "reference", "created_at"}
		}
		put := func(at, from map[string]pgsim.Value) {
			s := map[string]pgsim.Value{}
			for _, c := range cols {
				s[c] = from[c]
			}
			p.w.db.Poke("transactions", func(m map[string]pgsim.Value) bool { return m["id"] == at["id"] }, s)
		}
		put(ra, rb)
		put(rb, ra)
		if op.s("what") == "fit" {
			p.refit(min(a, b))
		}
	case "shift":
		for _, r := range p.bySeq() {
			if zzSeq(r) != seq {
				continue
			}
			i := strings.Index(zzStr(r["reference"]), "|")
			if i < 0 {
				return zzM{"zz_skip": true}
			}
			p.set(seq, map[string]pgsim.Value{"status": zzStr(r["status"]) + "|" + zzStr(r["reference"])[:i], "reference": zzStr(r["reference"])[i+1:]})
		}
		p.verify(p.n1, out)()
	}
	return out
}

func (p *zzChainProg) link(how string, at int64, out zzM) {
	switch how {
	case "one":
		p.work(p.n1)()
	case "both":
		zzBoth(p.n1, p.n2, p.work(p.n1), p.work(p.n2), at)
	case "post":
		zzBoth(p.n1, p.n2, p.work(p.n1), func() { p.post(p.n2, "skip") }, at)
		p.work(p.n1)()
	case "verify":
		zzBoth(p.n1, p.n2, p.verify(p.n1, out), p.work(p.n2), at%4+1)
	case "reverify":
		zzBoth(p.n1, p.n2, p.work(p.n1), func() {
			r, err := p.n2.B().VerifyChain(context.Background(), nil)
			out["ok"] = err == nil && r.Verified
			out["why"] = r.Reason
		}, at)
	case "fault":
		var c int64
		p.n1.inst.Gate = func(*pgsim.StmtInfo) error {
			if atomic.AddInt64(&c, 1) == at {
				return errZZFault
			}
			return nil
		}
		p.work(p.n1)()
		p.n1.inst.Gate = nil
	case "die":
		p.cnt++
		n := p.w.Node(fmt.Sprint("d", p.cnt))
		var c int64
		var once sync.Once
		hit := make(chan struct{})
		n.inst.Gate = func(*pgsim.StmtInfo) error {
			if atomic.AddInt64(&c, 1) == at {
				once.Do(func() { n.inst.Kill(); close(hit) })
			}
			return nil
		}
		d := zzGo(p.work(n))
		select {
		case <-hit:
		case <-d:
		}
		zzSettle(p.w)
		p.work(p.n2)()
	}
}
