package main

// Interpreter of spec/Split.tla.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"github.com/blnkfinance/blnk/internal/zzverif/pgsim"
)

func init() { zzProgs["split"] = zzNewSplit }

type zzSplitProg struct {
	w    *zzWorld
	n    *zzNode
	exac bool
	unit *big.Int
	cnt  int
	open map[string]zzSplitOpen
}

type zzSplitOpen struct {
	id, dir string
	tag     string
}

func zzNewSplit(cfg zzM) zzProg {
	w := zzNewWorld("", nil)
	p := &zzSplitProg{w: w, n: w.Node("n0"), unit: big.NewInt(1), open: map[string]zzSplitOpen{}}
	if zzP(cfg).b("exact") {
		p.exac = true
		p.unit = big.NewInt(123456789123457)
	}
	return p
}
func (p *zzSplitProg) Close() { p.w.Close() }

// minor is an amount of v units of the specification, in minor units.
func (p *zzSplitProg) minor(v int64) *big.Int {
	x := new(big.Int).Mul(big.NewInt(v), p.unit)
	if p.exac {
		x.Mul(x, big.NewInt(10000))
	}
	return x
}

func (p *zzSplitProg) count(x *big.Int) interface{} {
	q, r := new(big.Int).QuoRem(x, p.unit, new(big.Int))
	if r.Sign() != 0 || !q.IsInt64() {
		return x.String()
	}
	return json.Number(q.String())
}

// major writes minor units in decimal at a precision that is a power of ten.
func zzMajor(x *big.Int, prec string) string {
	k := len(prec) - 1
	s := new(big.Int).Abs(x).String()
	for len(s) <= k {
		s = "0" + s
	}
	neg := ""
	if x.Sign() < 0 {
		neg = "-"
	}
	if k == 0 {
		return neg + s
	}
	return neg + s[:len(s)-k] + "." + s[len(s)-k:]
}

// bals are the balances of this split's names: settled net and inflight.
func (p *zzSplitProg) bals(tag string) (net, infl map[string]*big.Int) {
	net, infl = map[string]*big.Int{}, map[string]*big.Int{}
	for _, r := range p.w.db.Rows("balances") {
		i := zzStr(r["indicator"])
		if !strings.HasPrefix(i, "@"+tag+"-") {
			continue
		}
		i = i[len(tag)+2:]
		if net[i] != nil {
			net[i] = big.NewInt(-424242) // an indicator with two balances
			continue
		}
		net[i] = zzBig(r["balance"])
		infl[i] = zzBig(r["inflight_balance"])
	}
	return
}

func (p *zzSplitProg) legs(m map[string]*big.Int, sign int64) zzM {
	out := zzM{}
	for _, i := range []string{"a", "b", "c", "d"} {
		v := big.NewInt(0)
		if m[i] != nil {
			v.Mul(m[i], big.NewInt(sign))
		}
		out[i] = p.count(v)
	}
	return out
}

func (p *zzSplitProg) Do(m zzM) zzM {
	op := zzP(m)
	switch op.s("k") {
	case "split":
		p.cnt++
		tag := fmt.Sprintf("s%d", p.cnt)
		prec := op.s("prec")
		var ds []zzM
		for _, x := range op.l("ds") {
			d := zzP(x.(map[string]interface{}))
			e := zzM{"identifier": "@" + tag + "-" + d.s("id")}
			v := d.i("v")
			switch d.s("kind") {
			case "pct":
				e["distribution"] = zzMajor(big.NewInt(v), "100") + "%"
			case "left":
				e["distribution"] = "left"
			case "fixed":
				e["distribution"] = zzMajor(p.minor(v), prec)
			case "precise":
				if x := p.minor(v); x.IsInt64() {
					e["precise_distribution"] = x.String()
				} else {
					e["distribution"] = zzMajor(x, prec)
				}
			}
			ds = append(ds, e)
		}
		dir := op.s("dir")
		b := zzM{"precise_amount": json.RawMessage(p.minor(op.i("t")).String()), "precision": json.RawMessage(prec), "reference": "ref-" + tag, "currency": "USD", "description": "d",
			"allow_overdraft": true, "skip_queue": op.b("skip"), "inflight": op.b("infl"), dir: ds}
		sign := int64(1)
		if dir == "sources" {
			b["destination"] = "@" + tag + "-x"
			sign = -1
		} else {
			b["source"] = "@" + tag + "-x"
		}
		resp := p.n.Do("POST", "/transactions", b)
		p.w.quiesceQueue()
		p.n.Work(false)
		net, infl := p.bals(tag)
		if op.b("infl") {
			net, infl = infl, net
		}
		other := big.NewInt(0)
		if net["x"] != nil {
			other.Mul(net["x"], big.NewInt(-sign))
		}
		obs := zzM{"ok": resp.OK(), "legs": p.legs(net, sign), "other": p.count(other), "named": true, "resp": string(resp.Body)}
		for i, v := range infl { // nothing on the other side
			if v.Sign() != 0 {
				obs["legs"] = fmt.Sprint("also ", i, " ", v)
			}
		}
		if resp.OK() {
			p.open[op.s("l")] = zzSplitOpen{id: resp.S("transaction_id"), dir: dir, tag: tag}
			if op.b("skip") {
				obs["named"] = p.named(resp, dir, tag)
			}
		}
		return obs
	case "settle":
		o := p.open[op.s("l")]
		resp := p.n.Do("PUT", "/transactions/inflight/"+o.id, zzM{"status": op.s("how"), "skip_queue": op.b("skip")})
		p.w.quiesceQueue()
		p.n.Work(false)
		p.n.WorkQueue(p.w.cfg.Queue.InflightCommitQueue, true)
		net, infl := p.bals(o.tag)
		left := big.NewInt(0)
		for _, v := range infl {
			left.Add(left, new(big.Int).Abs(v))
		}
		sign := int64(1)
		if o.dir == "sources" {
			sign = -1
		}
		return zzM{"ok": resp.OK(), "inflight": p.count(left), "settled": p.legs(net, sign), "resp": string(resp.Body)}
	}
	panic("split: " + op.s("k"))
}

// named: the transaction given for each distribution in the response is the
// one that moved the money of that identifier.
func (p *zzSplitProg) named(resp zzResp, dir, tag string) interface{} {
	var x map[string]json.RawMessage
	_ = json.Unmarshal(resp.Body, &x)
	var ds []struct {
		Identifier    string `json:"identifier"`
		TransactionID string `json:"transaction_id"`
	}
	_ = json.Unmarshal(x[dir], &ds)
	col := strings.TrimSuffix(dir, "s")
	bal := map[string]string{}
	for _, r := range p.w.db.Rows("balances") {
		bal[zzStr(r["balance_id"])] = zzStr(r["indicator"])
	}
	rows := map[string]map[string]pgsim.Value{}
	for _, r := range p.w.db.Rows("transactions") {
		rows[zzStr(r["transaction_id"])] = r
	}
	for _, d := range ds {
		r := rows[d.TransactionID]
		if r == nil { // a share of nothing
			continue
		}
		if bal[zzStr(r[col])] != d.Identifier {
			return fmt.Sprintf("%s is given the transaction of %s", d.Identifier, bal[zzStr(r[col])])
		}
	}
	return true
}
