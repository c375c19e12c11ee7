package main

// Interpreter of spec/Routing.tla.

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/blnkfinance/blnk/config"
)

func init() { zzProgs["routing"] = zzNewRouting }

const zzRoutingUnit = 20 * time.Second

type zzRoutingProg struct {
	w     *zzWorld
	n     *zzNode
	lane  bool
	bal   map[string]string // account -> balance id
	seen  map[string]bool
	tx    map[string]int64 // task id -> number of the transaction
	src   map[string]string
	pair  map[string]string
	homes map[string]string // source -> queue
	req   int
}

func zzNewRouting(cfg zzM) zzProg {
	c := zzP(cfg)
	w := zzNewWorld("", func(k *config.Configuration) {
		k.Queue.NumberOfQueues = int(c.i("queues"))
		k.Queue.EnableHotLane = c.b("lane")
		k.Queue.HotQueueName = "hotq"
		k.Queue.HotPairLockContentionThreshold = int(c.i("thr"))
		k.Queue.MaxRetryAttempts = 1000
	})
	w.cfg.Queue.HotPairTTL = time.Duration(c.i("ttl")) * zzRoutingUnit
	w.cfg.Transaction.EnableCoalescing = false
	w.cfg.Transaction.BatchSize = 1
	w.cfg.Transaction.LockWaitTimeout = time.Millisecond
	p := &zzRoutingProg{w: w, n: w.Node("n0"), lane: c.b("lane"), bal: map[string]string{}, seen: map[string]bool{}, tx: map[string]int64{}, src: map[string]string{}, pair: map[string]string{}, homes: map[string]string{}}
	for _, x := range []string{"A", "B", "C", "D"} { // balances known by an id and by a name
		p.req++
		zzMust(p.n.Do("POST", "/transactions", zzM{"precise_amount": 1000000, "precision": 100, "currency": "USD", "reference": "fund" + x, "description": "d", "allow_overdraft": true, "skip_queue": true, "source": "@world", "destination": "@" + x}))
	}
	for _, r := range w.db.Rows("balances") {
		if s := zzStr(r["indicator"]); len(s) == 2 {
			p.bal[s[1:]] = zzStr(r["balance_id"])
		}
	}
	return p
}
func (p *zzRoutingProg) Close() { p.w.Close() }

func (p *zzRoutingProg) ref(x, by string) string {
	if by == "name" {
		return "@" + x
	}
	return p.bal[x]
}

func (p *zzRoutingProg) tasks() []zzTask {
	var out []zzTask
	for _, q := range p.w.Queues() {
		if strings.HasPrefix(q, p.w.cfg.Queue.TransactionQueue) || q == "hotq" {
			out = append(out, p.w.Tasks(q)...)
		}
	}
	return out
}

// try serves a task once; done when it needs no further delivery.
func (p *zzRoutingProg) try(t zzTask) bool {
	err := p.n.Deliver(t)
	if err == nil {
		p.w.Ack(t)
	}
	return err == nil
}

func (p *zzRoutingProg) oldest(f func(zzTask) bool) *zzTask {
	var best *zzTask
	ts := p.tasks()
	for i := range ts {
		if f(ts[i]) && (best == nil || p.tx[ts[i].ID] < p.tx[best.ID]) {
			best = &ts[i]
		}
	}
	return best
}

func (p *zzRoutingProg) Do(m zzM) zzM {
	op := zzP(m)
	out := zzM{}
	p.req++
	s, d := op.s("s"), op.s("d")
	hold := func() string {
		k := p.bal[s]
		if op.i("which") == 2 {
			k = p.bal[d]
		}
		_ = p.w.mr.Set(k, "another")
		return k
	}
	switch op.s("k") {
	case "submit":
		by := op.s("by")
		ref := fmt.Sprint("r", op.i("i"))
		b := zzM{"precise_amount": 100, "precision": 100, "currency": "USD", "reference": ref, "description": "d", "allow_overdraft": true, "source": p.ref(s, by), "destination": p.ref(d, by)}
		switch op.s("meta") {
		case "hot":
			b["meta_data"] = zzM{"queue_lane": "hot"}
		case "junk":
			b["meta_data"] = zzM{"queue_lane": 5}
		}
		var legs [][2]string
		path := "/transactions"
		var body interface{} = b
		switch op.s("how") {
		case "dests":
			legs = [][2]string{{s, d}, {s, op.s("d2")}}
			delete(b, "destination")
			b["destinations"] = []zzM{{"identifier": p.ref(d, by), "distribution": "50%"}, {"identifier": p.ref(op.s("d2"), by), "distribution": "left"}}
		case "sources":
			legs = [][2]string{{s, d}, {op.s("d2"), d}}
			delete(b, "source")
			b["sources"] = []zzM{{"identifier": p.ref(s, by), "distribution": "50%"}, {"identifier": p.ref(op.s("d2"), by), "distribution": "left"}}
		case "bulk":
			legs = [][2]string{{s, d}, {op.s("d2"), d}}
			c := zzM{}
			for k, v := range b {
				c[k] = v
			}
			c["source"], c["reference"] = p.ref(op.s("d2"), by), ref+"b"
			path, body = "/transactions/bulk", zzM{"transactions": []zzM{b, c}}
		default:
			legs = [][2]string{{s, d}}
		}
		r := p.n.Do("POST", path, body)
		out["resp"] = string(r.Body)
		p.w.quiesceQueue()
		lanes := make([]string, len(legs))
		queues := interface{}(true)
		known := initializeQueues()
		hot := initializeHotQueues()
		for _, t := range p.tasks() {
			if p.seen[t.ID] {
				continue
			}
			p.seen[t.ID] = true
			var v map[string]interface{}
			_ = json.Unmarshal(t.Payload, &v)
			from, to := zzStr(v["source"]), zzStr(v["destination"])
			at := -1
			for i, l := range legs {
				if p.bal[l[0]] == from && p.bal[l[1]] == to {
					at = i
				}
			}
			if at < 0 {
				queues = "a task of no leg: " + string(t.Payload)
				continue
			}
			p.tx[t.ID], p.src[t.ID], p.pair[t.ID] = op.i("i")+int64(at), legs[at][0], legs[at][0]+legs[at][1]
			if t.Queue == "hotq" {
				lanes[at] += "hot"
				if _, ok := hot[t.Queue]; !ok {
					queues = "nobody serves " + t.Queue
				}
				continue
			}
			lanes[at] += "normal"
			if _, ok := known[t.Queue]; !ok {
				queues = "nobody serves " + t.Queue
			}
			if h := p.homes[from]; h == "" {
				p.homes[from] = t.Queue
			} else if h != t.Queue {
				queues = "not the queue of the source: " + t.Queue + ", " + h
			}
		}
		out["lanes"], out["queues"] = lanes, queues
	case "held", "trouble":
		t := p.oldest(func(t zzTask) bool { return p.pair[t.ID] == s+d })
		if t == nil {
			out["done"] = "no task"
			return out
		}
		k := hold()
		n := op.i("n")
		if n == 0 {
			n = 1
		}
		done := false
		for i := int64(0); i < n; i++ {
			done = p.try(*t) || done
		}
		p.w.mr.Del(k)
		out["done"] = done
	case "direct":
		p.w.mr.FastForward(time.Duration(op.i("dt")) * zzRoutingUnit)
		k := hold()
		r := p.n.Do("POST", "/transactions", zzM{"precise_amount": 100, "precision": 100, "currency": "USD", "reference": fmt.Sprint("x", p.req), "description": "d", "allow_overdraft": true, "skip_queue": true, "source": p.bal[s], "destination": p.bal[d]})
		p.w.mr.Del(k)
		out["done"], out["resp"] = r.OK(), string(r.Body)
	case "serve":
		// what the worker of that queue comes to first
		q := "hotq"
		if op.s("lane") != "hot" {
			q = p.homes[p.bal[s]]
		}
		for _, t := range p.w.Tasks(q) {
			if p.src[t.ID] == s {
				out["i"] = p.tx[t.ID]
				out["done"] = p.try(t)
				break
			}
		}
	case "pass":
		p.w.mr.FastForward(time.Duration(op.i("dt")) * zzRoutingUnit)
	}
	p.w.quiesceQueue()
	return out
}
