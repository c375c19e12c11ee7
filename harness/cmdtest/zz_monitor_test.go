package main

// Interpreter of spec/Monitors.tla.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/blnkfinance/blnk/config"
	"github.com/blnkfinance/blnk/internal/zzverif/pgsim"
)

func init() { zzProgs["monitors"] = zzNewMonitors }

type zzMonitorProg struct {
	w    *zzWorld
	ns   []*zzNode
	bal  map[string]string
	name map[string]string // balance id -> name
	ids  []string          // monitor ids in the order they were made
	tx   map[int64]string
	seen map[string]bool
	req  int
}

func zzNewMonitors(cfg zzM) zzProg {
	coal := zzP(cfg).b("coal")
	w := zzNewWorld("", func(c *config.Configuration) {
		c.Notification.Webhook.Url = "http://127.0.0.1:9/hook"
	})
	w.cfg.Transaction.EnableCoalescing = coal // the defaults would turn false into true
	p := &zzMonitorProg{w: w, ns: []*zzNode{w.Node("n0"), w.Node("n1")}, bal: map[string]string{}, name: map[string]string{}, tx: map[int64]string{}, seen: map[string]bool{}}
	r := zzMust(p.ns[0].Do("POST", "/ledgers", zzM{"name": "l"}))
	for _, x := range []string{"W", "A", "B"} {
		p.bal[x] = zzMust(p.ns[0].Do("POST", "/balances", zzM{"ledger_id": r.S("ledger_id"), "currency": "USD"})).S("balance_id")
		p.name[p.bal[x]] = x
	}
	return p
}
func (p *zzMonitorProg) Close() { p.w.Close() }

func (p *zzMonitorProg) find(ref string) string {
	for _, r := range p.w.db.Rows("transactions") {
		if zzStr(r["reference"]) == ref {
			return zzStr(r["transaction_id"])
		}
	}
	return ""
}

// fired counts the notifications sent since the last call, per monitor.
func (p *zzMonitorProg) fired() []interface{} {
	p.w.quiesceQueue()
	at := map[string]int{}
	for i, id := range p.ids {
		at[id] = i
	}
	out := make([]interface{}, len(p.ids))
	cnt := make([]int, len(p.ids))
	for _, t := range p.w.Tasks(p.w.cfg.Queue.WebhookQueue) {
		if p.seen[t.ID] {
			continue
		}
		p.seen[t.ID] = true
		var v struct {
			Event string                 `json:"event"`
			Data  map[string]interface{} `json:"data"`
		}
		_ = json.Unmarshal(t.Payload, &v)
		if v.Event != "balance.monitor" {
			continue
		}
		if i, ok := at[zzStr(v.Data["monitor_id"])]; ok {
			cnt[i]++
		} else {
			out = append(out, fmt.Sprint("unknown monitor: ", string(t.Payload)))
		}
	}
	for i := range cnt {
		out[i] = cnt[i]
	}
	return out
}

// value: the decimal of t units of 1/prec.
func zzDecimal(t, prec int64) json.Number {
	r := new(big.Rat).SetFrac64(t, prec)
	return json.Number(r.FloatString(3))
}

func (p *zzMonitorProg) cond(op zzP, keep bool) zzM {
	c := zzM{"field": op.s("f"), "operator": op.s("op"), "value": zzDecimal(op.i("t"), op.i("p"))}
	if !keep {
		c["precision"] = op.i("p")
	}
	return c
}

func (p *zzMonitorProg) Do(m zzM) zzM {
	op := zzP(m)
	out := zzM{}
	n, other := p.ns[op.i("n")], p.ns[1-op.i("n")]
	at := func() string {
		if i := int(op.i("i")); i <= len(p.ids) {
			return p.ids[i-1]
		}
		return "mon_gone"
	}
	p.req++
	switch op.s("k") {
	case "create":
		b := p.bal[op.s("b")]
		if b == "" {
			b = "bln_none"
		}
		r := n.Do("POST", "/balance-monitors", zzM{"balance_id": b, "condition": p.cond(op, false), "call_back_url": "http://127.0.0.1:9/x"})
		out["ok"], out["resp"] = r.OK(), string(r.Body)
		if r.OK() {
			p.ids = append(p.ids, r.S("monitor_id"))
		}
	case "change":
		r := n.Do("PUT", "/balance-monitors/"+at(), zzM{"balance_id": p.bal[op.s("b")], "condition": p.cond(op, op.b("keep"))})
		out["ok"], out["resp"] = r.OK(), string(r.Body)
	case "delete":
		r := n.Do("DELETE", "/balance-monitors/"+at(), nil)
		out["ok"], out["resp"] = r.OK(), string(r.Body)
	case "read":
		r := n.Do("GET", "/balance-monitors/"+at(), nil)
		out["ok"], out["resp"] = r.OK(), string(r.Body)
		if r.OK() {
			c, _ := r.J["condition"].(map[string]interface{})
			out["b"], out["f"], out["op"], out["t"] = p.name[r.S("balance_id")], c["field"], c["operator"], c["precise_value"]
			l := n.Do("GET", "/balance-monitors/balances/"+r.S("balance_id"), nil)
			var ms []map[string]interface{}
			_ = json.Unmarshal(l.Body, &ms)
			of := []int{}
			for _, x := range ms {
				for i, id := range p.ids {
					if id == zzStr(x["monitor_id"]) {
						of = append(of, i+1)
					}
				}
			}
			sort.Ints(of)
			out["of"] = of
		}
	case "post":
		ref := fmt.Sprint("r", op.i("i"))
		b := zzM{"precise_amount": op.i("v"), "precision": 100, "currency": "USD", "reference": ref, "description": "d", "inflight": op.b("hold"), "allow_overdraft": op.b("od"), "source": p.bal[op.s("s")], "destination": p.bal[op.s("d")]}
		var r zzResp
		if op.s("path") == "bulk" {
			r = n.Do("POST", "/transactions/bulk", zzM{"transactions": []zzM{b}, "inflight": op.b("hold"), "skip_queue": true})
		} else {
			b["skip_queue"] = op.s("path") == "skip"
			r = n.Do("POST", "/transactions", b)
		}
		out["resp"] = string(r.Body)
		id := p.find(ref)
		if op.s("path") == "queue" {
			p.w.quiesceQueue()
			other.Work(true)
			id = p.find(ref + "_q")
		}
		p.tx[op.i("i")] = id
		out["fire"] = p.fired()
		st := ""
		for _, x := range p.w.db.Rows("transactions") {
			if zzStr(x["transaction_id"]) == id {
				st = zzStr(x["status"])
			}
		}
		out["done"] = st == "APPLIED" || st == "INFLIGHT"
	case "race":
		go_, hit := make(chan struct{}), make(chan struct{}, 16)
		n.inst.After = func(s *pgsim.StmtInfo, err error) error {
			if strings.Contains(s.SQL, "balance_monitors") {
				hit <- struct{}{}
				<-go_
			}
			return nil
		}
		r := n.Do("POST", "/transactions", zzM{"precise_amount": op.i("v"), "precision": 100, "currency": "USD", "reference": fmt.Sprint("r", op.i("i")), "description": "d", "allow_overdraft": true, "skip_queue": true, "source": p.bal["W"], "destination": p.bal[op.s("d")]})
		out["done"], out["resp"] = r.OK(), string(r.Body)
		p.tx[op.i("i")] = p.find(fmt.Sprint("r", op.i("i")))
		for i := 0; i < 2; i++ { // the lookups that are not answered from the cache
			select {
			case <-hit:
			case <-time.After(15 * time.Millisecond):
			}
		}
		if op.s("what") == "create" {
			q := other.Do("POST", "/balance-monitors", zzM{"balance_id": p.bal[op.s("d")], "condition": p.cond(op, false)})
			out["ok"], out["resp"] = q.OK(), string(q.Body)
			if q.OK() {
				p.ids = append(p.ids, q.S("monitor_id"))
			}
		} else {
			q := other.Do("DELETE", "/balance-monitors/"+p.ids[op.i("mon")-1], nil)
			out["ok"], out["resp"] = q.OK(), string(q.Body)
		}
		close(go_)
		p.fired()
		n.inst.After = nil
	case "settle":
		b := zzM{"status": map[string]string{"commit": "commit", "part": "commit", "void": "void"}[op.s("how")], "skip_queue": !op.b("q")}
		if op.s("how") == "part" {
			b["precise_amount"] = op.i("v")
		}
		r := n.Do("PUT", "/transactions/inflight/"+p.tx[op.i("i")], b)
		p.w.quiesceQueue()
		other.WorkQueue(p.w.cfg.Queue.InflightCommitQueue, true)
		out["done"], out["resp"], out["fire"] = r.OK(), string(r.Body), p.fired()
	case "refund":
		r := n.Do("POST", "/refund-transaction/"+p.tx[op.i("i")], zzM{"skip_queue": true})
		out["done"], out["resp"], out["fire"] = r.OK(), string(r.Body), p.fired()
	}
	p.w.quiesceQueue()
	return out
}
