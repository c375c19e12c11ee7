package main

// Interpreter of spec/Amounts.tla.

import (
	"encoding/json"
	"fmt"
	"math/big"

)

func init() { zzProgs["amounts"] = zzNewAmounts }

type zzAmtProg struct {
	r    *zzRun
	w    *zzWorld
	n    *zzNode
	a, b string
	id   map[string]string // label -> transaction that carries its outcome
	cur  string
}

func zzNewAmounts(cfg zzM) zzProg {
	r := zzNewRun("", nil, 1)
	r.w.cfg.Transaction.EnableCoalescing = zzP(cfg).b("coal")
	p := &zzAmtProg{r: r, w: r.w, n: r.w.Node("n0"), id: map[string]string{}}
	p.a, p.b = r.Bal(p.n, "A", "USD", nil), r.Bal(p.n, "B", "USD", nil)
	return p
}
func (p *zzAmtProg) Close() { p.w.Close() }

// precise is what the answer, the record, the stored row and the task say.
func (p *zzAmtProg) precise(ref string, resp *zzResp) interface{} {
	vals := map[string]string{}
	if resp != nil {
		vals["answer"] = zzNum(resp.Body, "precise_amount")
	}
	id := ""
	for _, r := range p.w.db.Rows("transactions") {
		if zzStr(r["reference"]) == ref {
			id = zzStr(r["transaction_id"])
			vals["row"] = zzBig(r["precise_amount"]).String()
		}
	}
	if id == "" {
		return "no row " + ref
	}
	g := p.n.Do("GET", "/transactions/"+id, nil)
	vals["record"] = zzNum(g.Body, "precise_amount")
	for _, q := range p.w.TxQueues() {
		for _, t := range p.w.Tasks(q) {
			if zzTaskField(t, "parent_transaction") == id {
				vals["task"] = zzNum(t.Payload, "precise_amount")
			}
		}
	}
	one := ""
	for _, v := range vals {
		if one == "" {
			one = v
		} else if one != v {
			return fmt.Sprint(vals)
		}
	}
	return one
}

func zzTaskField(t zzTask, k string) string {
	var x zzM
	_ = json.Unmarshal(t.Payload, &x)
	s, _ := x[k].(string)
	return s
}

// zzNum is a number of a JSON object as it is written there.
func zzNum(body []byte, k string) string {
	var x map[string]json.RawMessage
	if json.Unmarshal(body, &x) != nil {
		return "unreadable"
	}
	return string(x[k])
}

func (p *zzAmtProg) see(obs zzM) zzM {
	var inA, inB string
	for _, r := range p.w.db.Rows("balances") {
		if zzStr(r["balance_id"]) == p.b {
			obs["bal"], obs["infl"] = zzBig(r["balance"]).String(), zzBig(r["inflight_balance"]).String()
		}
		if zzStr(r["balance_id"]) == p.a {
			inA, inB = new(big.Int).Neg(zzBig(r["balance"])).String(), new(big.Int).Neg(zzBig(r["inflight_balance"])).String()
		}
	}
	if inA != obs["bal"] || inB != obs["infl"] {
		obs["bal"] = fmt.Sprint("A ", inA, " ", inB, " B ", obs["bal"], " ", obs["infl"])
	}
	g := p.n.Do("GET", "/balances/"+p.b, nil)
	if v := zzNum(g.Body, "balance"); v != obs["bal"] {
		obs["bal"] = fmt.Sprint("row ", obs["bal"], " answer ", v)
	}
	if v := zzNum(g.Body, "inflight_balance"); v != obs["infl"] {
		obs["infl"] = fmt.Sprint("row ", obs["infl"], " answer ", v)
	}
	return obs
}

func (p *zzAmtProg) serve() {
	p.w.quiesceQueue()
	p.n.Work(false)
	p.n.WorkQueue(p.w.cfg.Queue.InflightCommitQueue, true)
	p.w.quiesceQueue()
}

func (p *zzAmtProg) rows() map[string]bool {
	out := map[string]bool{}
	for _, r := range p.w.db.Rows("transactions") {
		out[zzStr(r["transaction_id"])] = true
	}
	return out
}

// fresh is the precise amount of the one transaction that was not there before.
func (p *zzAmtProg) fresh(old map[string]bool) (string, interface{}) {
	n, ref, id := 0, "", ""
	for _, r := range p.w.db.Rows("transactions") {
		if i := zzStr(r["transaction_id"]); !old[i] {
			n, ref, id = n+1, zzStr(r["reference"]), i
		}
	}
	if n != 1 {
		return "", fmt.Sprint(n, " new transactions")
	}
	return id, p.precise(ref, nil)
}

func (p *zzAmtProg) Do(m zzM) zzM {
	op := zzP(m)
	obs := zzM{}
	switch op.s("k") {
	case "post":
		l := op.s("l")
		in := zzP(op.m("in"))
		b := zzM{"precision": json.RawMessage(in.s("prec")), "reference": l, "currency": "USD", "description": "d", "source": p.a, "destination": p.b,
			"allow_overdraft": true, "skip_queue": op.s("ch") != "queue", "inflight": op.b("infl")}
		if in.s("amount") != "-" {
			b["amount"] = json.RawMessage(in.s("amount"))
		} else {
			b["precise_amount"] = json.RawMessage(in.s("precise"))
		}
		var resp zzResp
		if op.s("ch") == "bulk" {
			delete(b, "skip_queue")
			resp = p.n.Do("POST", "/transactions/bulk", zzM{"transactions": []zzM{b}, "inflight": op.b("infl"), "skip_queue": true})
		} else {
			resp = p.n.Do("POST", "/transactions", b)
		}
		p.w.quiesceQueue()
		obs["ok"], obs["resp"] = resp.OK(), string(resp.Body)
		if !resp.OK() {
			obs["precise"] = "-"
			break
		}
		ra := &resp
		if op.s("ch") == "bulk" {
			ra = nil
		}
		obs["precise"] = p.precise(l, ra)
		for _, r := range p.w.db.Rows("transactions") {
			if zzStr(r["reference"]) == l {
				p.id[l] = zzStr(r["transaction_id"])
			}
		}
		obs["value"] = resp.S("amount_string")
	case "work":
		p.serve()
		out := zzM{}
		for _, r := range p.w.db.Rows("transactions") {
			ref := zzStr(r["reference"])
			if len(ref) > 2 && ref[len(ref)-2:] == "_q" {
				l := ref[:len(ref)-2]
				out[l] = p.precise(ref, nil)
				p.id[l] = zzStr(r["transaction_id"])
			}
		}
		obs["precise"] = out
	case "commit", "void":
		b := zzM{"status": op.s("k"), "skip_queue": op.b("skip")}
		if a := op.s("amount"); a != "" && a != "-" {
			b["amount"] = json.RawMessage(a)
		}
		if a := op.s("precise"); a != "" && a != "-" {
			b["precise_amount"] = json.RawMessage(a)
		}
		old := p.rows()
		resp := p.n.Do("PUT", "/transactions/inflight/"+p.id[op.s("tgt")], b)
		p.serve()
		obs["ok"], obs["resp"] = resp.OK(), string(resp.Body)
		_, obs["precise"] = p.fresh(old)
	case "refund":
		old := p.rows()
		resp := p.n.Do("POST", "/refund-transaction/"+p.id[op.s("tgt")], zzM{"skip_queue": true})
		p.serve()
		obs["ok"], obs["resp"] = resp.OK(), string(resp.Body)
		_, obs["precise"] = p.fresh(old)
	default:
		panic("amounts: " + op.s("k"))
	}
	return p.see(obs)
}
