package main

// Interpreter of spec/History.tla.

import (
	"fmt"
	"net/url"
	"time"

)

func init() { zzProgs["history"] = zzNewHist }

type zzHistProg struct {
	r     *zzRun
	w     *zzWorld
	n     *zzNode
	bal   map[string]string
	ids   map[string]string
	marks []time.Time // instant 10*j
	far   time.Time
	poor  string
	cnt   int
}

func zzNewHist(cfg zzM) zzProg {
	r := zzNewRun("", nil, 1)
	r.w.cfg.Transaction.EnableCoalescing = zzP(cfg).b("coal")
	p := &zzHistProg{r: r, w: r.w, n: r.w.Node("n0"), bal: map[string]string{}, ids: map[string]string{}}
	for _, b := range []string{"A", "B", "C"} {
		p.bal[b] = r.Bal(p.n, b, "USD", nil)
	}
	p.poor = r.Bal(p.n, "P", "USD", nil)
	p.far = time.Now().AddDate(9, 0, 0).UTC().Truncate(time.Second)
	p.mark()
	return p
}
func (p *zzHistProg) Close() { p.w.Close() }

func (p *zzHistProg) mark() {
	time.Sleep(3 * time.Microsecond)
	p.marks = append(p.marks, time.Now().UTC().Truncate(time.Microsecond).Add(time.Microsecond))
	time.Sleep(3 * time.Microsecond)
}

func (p *zzHistProg) instant(t int64) time.Time {
	if t >= 800000 {
		return p.far.Add(time.Duration(t-900000) * time.Microsecond)
	}
	j := (t + 5) / 10
	return p.marks[j].Add(time.Duration(t-10*j) * time.Microsecond)
}

func (p *zzHistProg) find(ref string) string {
	for _, r := range p.w.db.Rows("transactions") {
		if zzStr(r["reference"]) == ref {
			return zzStr(r["transaction_id"])
		}
	}
	return ""
}

func (p *zzHistProg) Do(m zzM) zzM {
	op := zzP(m)
	out := zzM{}
	p.cnt++
	switch op.s("k") {
	case "post":
		ch := op.s("ch")
		l := op.s("l")
		queue := ch == "queue" || ch == "queuehold"
		b := zzM{"precise_amount": op.i("n"), "precision": 100, "currency": "USD", "reference": l, "description": "d", "source": p.bal[op.s("s")], "destination": p.bal[op.s("d")],
			"allow_overdraft": true, "skip_queue": !queue, "inflight": ch == "hold" || ch == "queuehold"}
		if e := op.i("eff"); e >= 0 {
			b["effective_date"] = p.instant(e).In(time.FixedZone("", -3*3600*int(e%2))).Format(time.RFC3339Nano)
		}
		var r zzResp
		if ch == "bulk" {
			delete(b, "skip_queue")
			r = p.n.Do("POST", "/transactions/bulk", zzM{"transactions": []zzM{b}, "skip_queue": true})
		} else {
			r = p.n.Do("POST", "/transactions", b)
		}
		p.w.quiesceQueue()
		p.ids[l] = p.find(l)
		out["ok"], out["resp"] = r.OK(), string(r.Body)
	case "work":
		p.n.Work(false)
		for l := range p.ids {
			if id := p.find(l + "_q"); id != "" {
				p.ids[l] = id
			}
		}
	case "settle":
		b := zzM{"status": op.s("how"), "skip_queue": op.b("skip")}
		if n := op.i("n"); n > 0 {
			b["precise_amount"] = n
		}
		r := p.n.Do("PUT", "/transactions/inflight/"+p.ids[op.s("tgt")], b)
		p.w.quiesceQueue()
		p.n.WorkQueue(p.w.cfg.Queue.InflightCommitQueue, true)
		out["ok"], out["resp"] = r.OK(), string(r.Body)
	case "reject":
		p.n.Do("POST", "/transactions", zzM{"precise_amount": 7, "precision": 100, "currency": "USD", "reference": fmt.Sprint("rej", p.cnt), "description": "d", "source": p.poor, "destination": p.bal[op.s("d")], "skip_queue": op.b("skip")})
		p.w.quiesceQueue()
		p.n.Work(true)
	case "refund":
		r := p.n.Do("POST", "/refund-transaction/"+p.ids[op.s("tgt")], zzM{"skip_queue": op.b("skip")})
		p.w.quiesceQueue()
		p.n.Work(false)
		out["ok"], out["resp"] = r.OK(), string(r.Body)
	case "midnight":
		p.w.db.Midnights = append(p.w.db.Midnights, time.Now())
	case "snapshot":
		r := p.n.Do("POST", fmt.Sprint("/balances-snapshots?batch_size=", op.i("batch")), nil)
		out["resp"] = string(r.Body)
		p.w.quiesceQueue()
	case "at", "at-late":
		q := "?from_source=" + fmt.Sprint(op.b("src"))
		if t := op.i("t"); t >= 0 {
			x := p.instant(t)
			if op.b("z") {
				x = x.In(time.FixedZone("", 2*3600+1800))
			}
			q += "&timestamp=" + url.QueryEscape(x.Format(time.RFC3339Nano))
		}
		r := p.n.Do("GET", "/balances/"+p.bal[op.s("b")]+"/at"+q, nil)
		v, _ := r.J["balance"].(map[string]interface{})
		is := func(c, d int64) bool {
			return fmt.Sprint(v["credit_balance"]) == fmt.Sprint(c) && fmt.Sprint(v["debit_balance"]) == fmt.Sprint(d) && fmt.Sprint(v["balance"]) == fmt.Sprint(c-d) && fmt.Sprint(v["currency"]) == "USD"
		}
		exact := is(op.i("credit"), op.i("debit"))
		out["ok"], out["exact"], out["explained"] = r.OK(), exact, exact || is(op.i("credit2"), op.i("debit2"))
		if out["explained"] == false {
			out["explained"] = q + string(r.Body)
		}
	}
	p.w.quiesceQueue()
	p.mark()
	return out
}
