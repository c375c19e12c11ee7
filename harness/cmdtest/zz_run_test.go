package main

// The interpreter that turns the specification's actions into calls on the
// real system: HTTP requests, worker deliveries, recovery and clock moves.

import (
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"github.com/blnkfinance/blnk/config"
	"github.com/blnkfinance/blnk/internal/zzverif/pgsim"
)

type zzLeg struct {
	To   string `json:"to"`
	Dist string `json:"dist"`
}

// zzOp is one action.  Field names follow spec/LedgerSeq.tla.
type zzOp struct {
	L     string  `json:"l"` // label
	K     string  `json:"k"` // txn commit void refund bulk deliver work recover
	Ref   string  `json:"ref"`
	Src   string  `json:"src"`
	Dst   string  `json:"dst"`
	Cur   string  `json:"cur"`
	Amt   int64   `json:"amt"`
	OD    string  `json:"od"`
	Lim   int64   `json:"lim"`
	Infl  bool    `json:"infl"`
	Skip  bool    `json:"skip"`
	Atom  bool    `json:"atom"`
	Dry   bool    `json:"dry"`
	Async bool    `json:"async"`
	Tgt   string  `json:"tgt"` // label of the op whose transaction is meant
	Kid   bool    `json:"kid"` // target its processed child instead
	Sub   []zzOp  `json:"sub"`
	Srcs  []zzLeg `json:"srcs"`
	Dsts  []zzLeg `json:"dsts"`
	Rep   string  `json:"rep"` // "a": decimal amount, else precise amount
	// seconds relative to now; 0 = absent
	Sched  int64 `json:"sched"`
	Expiry int64 `json:"expiry"`
	CDate  int64 `json:"cdate"`
	Eff    int64 `json:"eff"`
	Meta   zzM   `json:"meta"`
}

type zzRun struct {
	w    *zzWorld
	t    *zzTracer
	ids  map[string]string // label -> transaction id
	bids map[string]string // balance name -> id
	base time.Time
	snap []zzTask // tasks as they were when "snap" ran
}

func zzNewRun(key string, tweak func(*config.Configuration), scale int64) *zzRun {
	w := zzNewWorld(key, tweak)
	w.cfg.Transaction.LockWaitTimeout = 400 * time.Millisecond
	w.cfg.Transaction.EnableCoalescing = false
	w.cfg.Transaction.EnableQueuedChecks = false
	w.cfg.Queue.InsufficientFundRetries = false
	w.cfg.Queue.RejectLockContentionImmediately = false
	t := newZZTracer(w, scale)
	return &zzRun{w: w, t: t, ids: map[string]string{}, bids: map[string]string{}, base: t.base}
}

func (r *zzRun) big(m int64) *big.Int { return new(big.Int).Mul(big.NewInt(m), r.t.scale) }

// Bal creates a plain balance.
func (r *zzRun) Bal(n *zzNode, name, cur string, extra zzM) string {
	b := zzM{"ledger_id": "general_ledger_id", "currency": cur}
	for k, v := range extra {
		b[k] = v
	}
	resp := n.Do("POST", "/balances", b)
	id := resp.S("balance_id")
	if id == "" {
		panic("balance: " + string(resp.Body))
	}
	r.t.mu.Lock()
	r.w.names[id] = name
	r.bids[name] = id
	// the creation was recorded before the name was known
	for _, e := range r.t.out {
		if nb, ok := e["nb"].([]zzM); ok {
			for _, x := range nb {
				if strings.HasPrefix(x["bal"].(string), "x") && r.w.names[id] == name && x["fix"] == nil {
					x["bal"] = name
					x["fix"] = true
				}
			}
		}
	}
	r.t.mu.Unlock()
	return id
}

func (r *zzRun) balRef(name string) string {
	if strings.HasPrefix(name, "@") || name == "" {
		return name
	}
	if id, ok := r.bids[name]; ok {
		return id
	}
	return name
}

func (r *zzRun) stamp(sec int64) string {
	return time.Now().Add(time.Duration(sec) * time.Second).UTC().Format("2006-01-02T15:04:05Z07:00")
}

func (r *zzRun) body(o zzOp) zzM {
	cur := o.Cur
	if cur == "" {
		cur = "USD"
	}
	b := zzM{"precision": 100, "currency": cur, "reference": o.Ref, "description": "d", "skip_queue": o.Skip, "inflight": o.Infl}
	if n := r.big(o.Amt); o.Rep == "a" && n.IsInt64() && n.Int64() < 1<<53 {
		// decimal amount; exact because scale*amt/100 is representable
		v, _ := new(big.Float).Quo(new(big.Float).SetInt(r.big(o.Amt)), big.NewFloat(100)).Float64()
		b["amount"] = v
	} else {
		b["precise_amount"] = json.RawMessage(r.big(o.Amt).String())
	}
	if len(o.Srcs) > 0 {
		var l []zzM
		for _, s := range o.Srcs {
			l = append(l, zzM{"identifier": r.balRef(s.To), "distribution": s.Dist})
		}
		b["sources"] = l
	} else {
		b["source"] = r.balRef(o.Src)
	}
	if len(o.Dsts) > 0 {
		var l []zzM
		for _, s := range o.Dsts {
			l = append(l, zzM{"identifier": r.balRef(s.To), "distribution": s.Dist})
		}
		b["destinations"] = l
	} else {
		b["destination"] = r.balRef(o.Dst)
	}
	switch o.OD {
	case "unl":
		b["allow_overdraft"] = true
	case "lim":
		b["allow_overdraft"] = true
		f, _ := new(big.Float).Quo(new(big.Float).SetInt(r.big(o.Lim)), big.NewFloat(100)).Float64()
		b["overdraft_limit"] = f
	}
	if o.Atom {
		b["atomic"] = true
	}
	if o.Dry {
		b["dry_run"] = true
	}
	if o.Sched != 0 {
		b["scheduled_for"] = r.stamp(o.Sched)
	}
	if o.Expiry != 0 {
		b["inflight_expiry_date"] = r.stamp(o.Expiry)
	}
	if o.CDate != 0 {
		b["inflight_commit_date"] = r.stamp(o.CDate)
	}
	if o.Eff != 0 {
		b["effective_date"] = r.base.Add(time.Duration(o.Eff) * time.Second).UTC().Format(time.RFC3339Nano)
	}
	if o.Meta != nil {
		b["meta_data"] = o.Meta
	}
	return b
}

// target resolves the transaction id an action is about.
func (r *zzRun) target(o zzOp) string {
	id := r.ids[o.Tgt]
	if id == "" {
		return "txn_00000000-0000-0000-0000-000000000000"
	}
	if o.Kid {
		for _, x := range r.w.db.Rows("transactions") {
			if zzStr(x["transaction_id"]) == id && zzStr(x["status"]) == "INFLIGHT" {
				return id
			}
		}
		for _, x := range r.w.db.Rows("transactions") {
			if zzStr(x["parent_transaction"]) == id {
				st := zzStr(x["status"])
				if st == "INFLIGHT" || st == "APPLIED" || st == "VOID" {
					return zzStr(x["transaction_id"])
				}
			}
		}
	}
	return id
}

func (r *zzRun) declare(o zzOp) {
	r.t.mu.Lock()
	defer r.t.mu.Unlock()
	od := o.OD
	if od == "" {
		od = "none"
	}
	if _, ok := r.t.decl[o.Ref]; !ok && o.Ref != "" {
		r.t.decl[o.Ref] = zzDecl{OD: od, Lim: o.Lim}
	}
	for _, s := range o.Sub {
		od := s.OD
		if od == "" {
			od = "none"
		}
		if _, ok := r.t.decl[s.Ref]; !ok {
			r.t.decl[s.Ref] = zzDecl{OD: od, Lim: s.Lim}
		}
	}
}

// Exec performs one action on a node and reports what the caller saw.
func (r *zzRun) Exec(n *zzNode, o zzOp) zzM {
	r.declare(o)
	r.t.Label(n, o.L)
	r.t.Emit(zzM{"e": "call", "op": o.L, "k": o.K})
	res := r.exec(n, o)
	res["e"] = "ret"
	res["op"] = o.L
	res["k"] = o.K
	r.t.Emit(res)
	return res
}

func (r *zzRun) ret(o zzOp, resp zzResp) zzM {
	id := resp.S("transaction_id")
	if id == "" {
		id = resp.S("batch_id")
	}
	if id != "" && o.L != "" && (o.K == "txn" || o.K == "bulk" || o.K == "refund" || o.K == "commit") {
		r.ids[o.L] = id
	}
	st := resp.S("status")
	return zzM{"ok": resp.OK(), "cls": zzErrClass(resp), "code": resp.Code, "id": r.t.Tx(id), "st": st}
}

func (r *zzRun) exec(n *zzNode, o zzOp) zzM {
	switch o.K {
	case "txn":
		resp := n.Do("POST", "/transactions", r.body(o))
		if !o.Skip && resp.OK() {
			r.w.quiesceQueue()
		}
		return r.ret(o, resp)
	case "commit", "void":
		b := zzM{"status": o.K, "skip_queue": o.Skip, "dry_run": o.Dry}
		if o.K == "commit" && o.Amt > 0 {
			if o.Rep == "a" {
				v, _ := new(big.Float).Quo(new(big.Float).SetInt(r.big(o.Amt)), big.NewFloat(100)).Float64()
				b["amount"] = v
			} else {
				b["precise_amount"] = json.RawMessage(r.big(o.Amt).String())
			}
		}
		return r.ret(o, n.Do("PUT", "/transactions/inflight/"+r.target(o), b))
	case "refund":
		resp := n.Do("POST", "/refund-transaction/"+r.target(o), zzM{"skip_queue": o.Skip, "dry_run": o.Dry})
		if !o.Skip && resp.OK() {
			r.w.quiesceQueue()
		}
		return r.ret(o, resp)
	case "bulk":
		var l []zzM
		for _, s := range o.Sub {
			l = append(l, r.body(s))
		}
		resp := n.Do("POST", "/transactions/bulk", zzM{"transactions": l, "atomic": o.Atom, "inflight": o.Infl, "skip_queue": o.Skip, "run_async": o.Async, "dry_run": o.Dry})
		r.w.quiesceQueue()
		return r.ret(o, resp)
	case "work":
		c := n.Work(false)
		return zzM{"ok": true, "cls": "ok", "n": c, "id": "", "st": ""}
	case "inflwork":
		c := n.WorkQueue(r.w.cfg.Queue.InflightCommitQueue, true)
		return zzM{"ok": true, "cls": "ok", "n": c, "id": "", "st": ""}
	case "expire":
		c := n.WorkQueue(r.w.cfg.Queue.InflightExpiryQueue, true)
		return zzM{"ok": true, "cls": "ok", "n": c, "id": "", "st": ""}
	case "snap": // remember the waiting tasks, for late and double delivery
		r.snap = nil
		for _, q := range append(r.w.TxQueues(), r.w.cfg.Queue.InflightCommitQueue, r.w.cfg.Queue.InflightExpiryQueue) {
			r.snap = append(r.snap, r.w.Tasks(q)...)
		}
		return zzM{"ok": true, "cls": "ok", "n": len(r.snap), "id": "", "st": ""}
	case "deliver":
		for _, t := range r.snap {
			if o.Tgt != "" && !strings.Contains(string(t.Payload), `"`+o.Tgt+`_q"`) {
				continue
			}
			t.Retried = r.w.retriedOf(t.ID)
			err := n.Deliver(t)
			if os.Getenv("ZZ_DBG") != "" {
				fmt.Println("DELIVER", n.name, t.ID, err, n.inst.Stmts(), time.Now())
			}
			if err == nil {
				r.w.Ack(t)
			} else {
				r.w.retriedInc(t.ID)
			}
		}
		return zzM{"ok": true, "cls": "ok", "n": len(r.snap), "id": "", "st": ""}
	case "lose": // the queue forgets everything
		for _, q := range append(r.w.TxQueues(), r.w.cfg.Queue.InflightCommitQueue) {
			for _, t := range r.w.Tasks(q) {
				r.w.Ack(t)
			}
		}
		return zzM{"ok": true, "cls": "ok", "n": 0, "id": "", "st": ""}
	case "age": // Amt seconds pass for what is recorded
		for _, x := range r.w.db.Rows("transactions") {
			id := x["transaction_id"]
			if ts, ok := x["created_at"].(pgsim.TS); ok {
				ts.T = ts.T.Add(-time.Duration(o.Amt) * time.Second)
				r.w.db.Poke("transactions", func(m map[string]pgsim.Value) bool { return m["transaction_id"] == id }, map[string]pgsim.Value{"created_at": ts})
			}
		}
		return zzM{"ok": true, "cls": "ok", "n": 0, "id": "", "st": ""}
	case "recover":
		resp := n.Do("POST", "/transactions/recover?threshold="+o.Ref, nil)
		r.w.quiesceQueue()
		return zzM{"ok": resp.OK(), "cls": zzErrClass(resp), "id": "", "st": ""}
	}
	panic("unknown op " + o.K)
}

// WorkQueue delivers everything in one queue once.
func (n *zzNode) WorkQueue(q string, all bool) int {
	c := 0
	for _, t := range n.w.Tasks(q) {
		if all || t.State == "pending" || !t.NextAt.After(time.Now()) {
			c++
			if err := n.Deliver(t); err == nil {
				n.w.Ack(t)
			} else {
				n.w.retriedInc(t.ID)
			}
		}
	}
	return c
}

// A difference is only believed when it shows with the long wait as well.
var zzQuiesceFor = 6 * time.Millisecond

const zzQuiesceLong = 250 * time.Millisecond

// quiesceQueue waits for the asynchronous tail of a request (persisting queued
// entries and enqueueing them) to settle: nothing happens for a while, and no
// goroutine of the system under test is left, unless it stands still.
func (w *zzWorld) quiesceQueue() {
	last, since := -1, time.Now()
	for i := 0; i < 8000; i++ {
		n := w.db.CommitCount() + w.mr.CommandCount()
		if n != last {
			last, since = n, time.Now()
		} else if idle := time.Since(since); idle > zzQuiesceFor {
			b := zzBusy()
			if s := int(atomic.LoadInt32(&zzStuck)); b <= s {
				atomic.StoreInt32(&zzStuck, int32(b))
				return
			}
			if idle > zzQuiesceLong {
				atomic.StoreInt32(&zzStuck, int32(b))
				return
			}
		}
		time.Sleep(500 * time.Microsecond)
	}
}

// zzStuck is the number of such goroutines known to stand still.
var zzStuck int32

// zzBusy counts the goroutines started by the code under test, other than those
// that a dead instance has left behind (they block for ever).
func zzBusy() int {
	var recs []runtime.StackRecord
	n, ok := 200, false
	for !ok {
		recs = make([]runtime.StackRecord, n+50)
		n, ok = runtime.GoroutineProfile(recs)
	}
	c := 0
	for _, r := range recs[:n] {
		st, stuck, ours := r.Stack(), false, false
		for i := len(st) - 1; i >= 0; i-- {
			f := runtime.FuncForPC(st[i])
			if f == nil {
				continue
			}
			if nm := f.Name(); nm == "runtime.goexit" {
				continue
			} else if strings.HasPrefix(nm, "github.com/blnkfinance/blnk.") || strings.HasPrefix(nm, "github.com/blnkfinance/blnk/api.") {
				ours = true
			}
			break
		}
		for i := 0; ours && i < len(st) && i < 4; i++ {
			if f := runtime.FuncForPC(st[i] - 1); f != nil && f.Name() == "runtime.block" {
				stuck = true
			}
		}
		if ours && !stuck {
			c++
		}
	}
	return c
}

func (w *zzWorld) retriedOf(id string) int { w.mu.Lock(); defer w.mu.Unlock(); return w.retried[id] }
func (w *zzWorld) retriedInc(id string)    { w.mu.Lock(); defer w.mu.Unlock(); w.retried[id]++ }

// admin runs a statement as the database administrator.
func (w *zzWorld) admin(q string, args ...interface{}) {
	c := w.db.Instance("admin").Open()
	defer c.Close()
	if _, err := c.Exec(q, args...); err != nil {
		panic("ZZ-HARNESS admin: " + err.Error())
	}
}

var _ = context.Background
var _ = fmt.Sprint
