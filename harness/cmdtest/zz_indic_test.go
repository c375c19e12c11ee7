package main

// Interpreter of spec/Indicators.tla.

import (
	"fmt"
	"net/url"
	"strings"

	"github.com/blnkfinance/blnk/config"
)

func init() { zzProgs["indicators"] = zzNewIndic }

type zzIndicProg struct {
	w      *zzWorld
	n1, n2 *zzNode
	cnt    int
	ids    map[string]string // name/currency -> the balance it named first
}

func zzNewIndic(cfg zzM) zzProg {
	w := zzNewWorld("", func(c *config.Configuration) {
		c.Transaction.EnableQueuedChecks = zzP(cfg).b("qcheck")
	})
	w.cfg.Transaction.EnableCoalescing = zzP(cfg).b("coal") // the defaults would turn false into true
	return &zzIndicProg{w: w, n1: w.Node("n1"), n2: w.Node("n2"), ids: map[string]string{}}
}
func (p *zzIndicProg) Close() { p.w.Close() }

func (p *zzIndicProg) body(m zzM, ref string) zzM {
	x := zzP(m)
	return zzM{"precise_amount": x.i("n"), "precision": 100, "currency": x.s("c"), "reference": ref, "description": "d", "source": x.s("s"), "destination": x.s("d"), "allow_overdraft": true, "skip_queue": true}
}

func (p *zzIndicProg) get(n *zzNode, name, cur string) zzResp {
	return n.Do("GET", "/balances/indicator/"+url.PathEscape(name)+"/currency/"+cur, nil)
}

// send makes the request; what is left to do when it was refused for a reason
// that passes (another one had the lock), do it again.
func (p *zzIndicProg) send(n *zzNode, ch string, m zzM, ref string) func() (bool, string) {
	x := zzP(m)
	switch ch {
	case "create":
		return func() (bool, string) {
			n.Do("POST", "/balances", zzM{"ledger_id": "general_ledger_id", "currency": x.s("c"), "indicator": x.s("s")})
			return true, ""
		}
	case "get":
		return func() (bool, string) { p.get(n, x.s("s"), x.s("c")); return true, "" }
	}
	b := p.body(m, ref)
	path := "/transactions"
	var body interface{} = b
	if strings.HasSuffix(ch, "queue") {
		b["skip_queue"] = false
	}
	switch ch {
	case "bulk", "bulkqueue":
		skip := b["skip_queue"]
		delete(b, "skip_queue")
		path, body = "/transactions/bulk", zzM{"transactions": []zzM{b}, "skip_queue": skip}
	case "split", "splitqueue":
		delete(b, "destination")
		b["destinations"] = []zzM{{"identifier": x.s("d"), "distribution": "100%"}}
	case "hold":
		b["inflight"] = true
	case "ids":
		for _, k := range []string{"source", "destination"} {
			if r := p.get(n, b[k].(string), x.s("c")); r.OK() {
				b[k] = r.S("balance_id")
			}
		}
	}
	return func() (bool, string) {
		r := n.Do("POST", path, body)
		p.w.quiesceQueue()
		if ch == "hold" && r.OK() {
			r = n.Do("PUT", "/transactions/inflight/"+r.S("transaction_id"), zzM{"status": "commit", "skip_queue": true})
		}
		if ch == "refund" && r.OK() {
			r = n.Do("POST", "/refund-transaction/"+r.S("transaction_id"), zzM{"skip_queue": true})
		}
		if !r.OK() && ref != "" && strings.Contains(string(r.Body), "already been used") {
			return true, ""
		}
		return r.OK(), string(r.Body)
	}
}

func (p *zzIndicProg) Do(m zzM) zzM {
	op := zzP(m)
	out := zzM{"ok": true}
	p.cnt++
	ref := fmt.Sprint("r", p.cnt)
	switch op.s("k") {
	case "create":
		r := p.n1.Do("POST", "/balances", zzM{"ledger_id": "general_ledger_id", "currency": op.s("c"), "indicator": op.s("n")})
		out["ok"], out["resp"] = r.OK(), string(r.Body)
	case "get":
		r := p.get(p.n1, op.s("n"), op.s("c"))
		out["ok"], out["resp"] = r.OK(), string(r.Body)
	case "post":
		out["ok"], out["resp"] = p.send(p.n1, op.s("ch"), op.m("p"), ref)()
	case "work":
		p.n1.Work(false)
	case "both":
		a, b := p.send(p.n1, op.s("ch"), op.m("p"), ref+"a"), p.send(p.n2, op.s("ch2"), op.m("q"), ref+"b")
		p.n1.Work(false)
		if op.s("ch") == "queue" || op.s("ch2") == "queue" { // race the workers
			if op.s("ch") == "queue" {
				a()
				a = p.deliver(p.n1)
			}
			if op.s("ch2") == "queue" {
				had := p.tasks()
				b()
				b = p.deliverNew(p.n2, had)
			}
		}
		var ok1, ok2 bool
		var e1, e2 string
		zzBoth(p.n1, p.n2, func() { ok1, e1 = a() }, func() { ok2, e2 = b() }, op.i("at"))
		for i := 0; i < 3 && !ok1 && zzPasses(e1); i++ {
			ok1, e1 = a()
		}
		for i := 0; i < 3 && !ok2 && zzPasses(e2); i++ {
			ok2, e2 = b()
		}
		out["ok"], out["resp"] = ok1 && ok2, e1+e2
		p.n1.Work(false)
	}
	p.w.quiesceQueue()
	bal, one := zzM{}, map[string]int{}
	idKey := map[string]string{}
	for _, r := range p.w.db.Rows("balances") {
		i, c := zzStr(r["indicator"]), zzStr(r["currency"])
		if i == "" {
			continue
		}
		k := i + "/" + c
		one[k]++
		idKey[zzStr(r["balance_id"])] = k
		if v := zzBig(r["balance"]); v.Sign() != 0 {
			bal[k] = v.Int64()
		}
	}
	out["bal"], out["one"], out["same"] = bal, true, true
	must := zzM{}
	for k, n := range one {
		must[k] = true
		if n != 1 {
			out["one"] = fmt.Sprint(n, " balances for ", k)
		}
		j := strings.LastIndex(k, "/")
		g := p.get(p.n1, k[:j], k[j+1:])
		if p.ids[k] == "" {
			p.ids[k] = g.S("balance_id")
		}
		if g.S("balance_id") != p.ids[k] || idKey[p.ids[k]] != k || g.S("currency") != k[j+1:] || g.S("indicator") != k[:j] {
			out["same"] = fmt.Sprint(k, " named ", p.ids[k], " and now ", string(g.Body))
		}
	}
	// what a transaction names is a balance of its currency
	for _, r := range p.w.db.Rows("transactions") {
		for _, c := range []string{"source", "destination"} {
			if k := idKey[zzStr(r[c])]; k != "" && !strings.HasSuffix(k, "/"+zzStr(r["currency"])) {
				out["same"] = fmt.Sprint("a transaction in ", r["currency"], " names ", k)
			}
		}
	}
	out["must"] = must
	return out
}

func (p *zzIndicProg) tasks() map[string]bool {
	out := map[string]bool{}
	for _, q := range p.w.TxQueues() {
		for _, t := range p.w.Tasks(q) {
			out[t.ID] = true
		}
	}
	return out
}

func (p *zzIndicProg) deliver(n *zzNode) func() (bool, string) {
	return p.deliverNew(n, map[string]bool{})
}

// deliverNew is a worker that serves the tasks that were not there before.
func (p *zzIndicProg) deliverNew(n *zzNode, had map[string]bool) func() (bool, string) {
	var ts []zzTask
	for _, q := range p.w.TxQueues() {
		for _, t := range p.w.Tasks(q) {
			if !had[t.ID] {
				ts = append(ts, t)
			}
		}
	}
	return func() (bool, string) {
		for _, t := range ts {
			if err := n.Deliver(t); err != nil {
				return false, err.Error()
			}
			p.w.Ack(t)
		}
		return true, ""
	}
}

// zzPasses tells of an error that another request is in the way.
func zzPasses(e string) bool {
	return strings.Contains(e, "lock") || strings.Contains(e, "version") || strings.Contains(e, "has changed")
}
