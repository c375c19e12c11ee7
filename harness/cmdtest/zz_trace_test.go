package main

// Normalised traces of what the real code committed and returned, in the
// vocabulary of spec/LedgerTrace.tla.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/blnkfinance/blnk/internal/zzverif/pgsim"
)

// zzDecl is what a request declared about the funds rule for its reference.
type zzDecl struct {
	OD  string // none | unl | lim
	Lim int64  // in model units
}

type zzTracer struct {
	w     *zzWorld
	scale *big.Int // real units per model unit
	mu    sync.Mutex
	txid  map[string]string // real transaction id -> short id
	decl  map[string]zzDecl
	out   []zzM
	label map[string]string // instance -> op label
	base  time.Time
}

func newZZTracer(w *zzWorld, scale int64) *zzTracer {
	t := &zzTracer{w: w, scale: big.NewInt(scale), txid: map[string]string{}, decl: map[string]zzDecl{}, label: map[string]string{}, base: time.Now()}
	w.db.OnCommit = t.onCommit
	return t
}

func (t *zzTracer) num(v interface{}) int64 {
	b := zzBig(v)
	q, r := new(big.Int).QuoRem(b, t.scale, new(big.Int))
	if r.Sign() != 0 || !q.IsInt64() || q.Int64() > 1000000000 || q.Int64() < -1000000000 {
		return -999999999
	}
	return q.Int64()
}

func (t *zzTracer) tx(id string) string {
	if id == "" {
		return ""
	}
	if s, ok := t.txid[id]; ok {
		return s
	}
	p := "t"
	if strings.HasPrefix(id, "bulk_") {
		p = "k"
	}
	s := p + strconv.Itoa(len(t.txid)+1)
	t.txid[id] = s
	return s
}

// Tx gives the short name of a real transaction id.
func (t *zzTracer) Tx(id string) string { t.mu.Lock(); defer t.mu.Unlock(); return t.tx(id) }

func (t *zzTracer) bal(id string) string {
	if s, ok := t.w.names[id]; ok {
		return s
	}
	s := "x" + strconv.Itoa(len(t.w.names)+1)
	t.w.names[id] = s
	return s
}

// zzUserRef strips the suffixes the queue adds to a user's reference.
func zzUserRef(r string) string {
	for {
		switch {
		case strings.HasSuffix(r, "_q"):
			r = r[:len(r)-2]
		default:
			return r
		}
	}
}

// eff is a declared effective date in seconds relative to the run's base; 0
// when it is not one of the dates the programs use (whole seconds, far from now).
func (t *zzTracer) eff(v interface{}) int64 {
	ts, ok := v.(pgsim.TS)
	if !ok {
		return 0
	}
	d := int64(ts.T.Sub(t.base).Round(time.Second) / time.Second)
	if d > -1000 && d < 1000 {
		return 0
	}
	return d
}

// declared funds rule of a reference; split legs are r_1, r_2 ...
func (t *zzTracer) declOf(ref string, meta interface{}) zzDecl {
	u := zzUserRef(ref)
	if d, ok := t.decl[u]; ok {
		return d
	}
	if i := strings.LastIndex(u, "_"); i > 0 {
		if d, ok := t.decl[u[:i]]; ok {
			return d
		}
	}
	if strings.HasSuffix(u, "_refund") {
		return zzDecl{OD: "unl"}
	}
	return zzDecl{OD: "none"}
}

func (t *zzTracer) ref(r string) string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.refL(r)
}

// references derived from transaction ids are shortened too
func (t *zzTracer) refL(r string) string {
	if i := strings.Index(r, "txn_"); i >= 0 && len(r) >= i+40 {
		return r[:i] + t.tx(r[i:i+40]) + r[i+40:]
	}
	return r
}

func zzMeta(v interface{}) zzM {
	switch x := v.(type) {
	case pgsim.JSON:
		m, _ := x.V.(map[string]interface{})
		return m
	case string:
		var m zzM
		_ = json.Unmarshal([]byte(x), &m)
		return m
	}
	return nil
}

func (t *zzTracer) balState(r map[string]interface{}) zzM {
	return zzM{
		"b": t.num(r["balance"]), "c": t.num(r["credit_balance"]), "d": t.num(r["debit_balance"]),
		"ib": t.num(r["inflight_balance"]), "ic": t.num(r["inflight_credit_balance"]), "id": t.num(r["inflight_debit_balance"]),
		"v": zzBig(r["version"]).Int64(),
	}
}

func (t *zzTracer) txRow(r map[string]interface{}) zzM {
	ref := zzStr(r["reference"])
	d := t.declOf(ref, r["meta_data"])
	m := zzMeta(r["meta_data"])
	qp, _ := m["QUEUED_PARENT_TRANSACTION"].(string)
	reason, _ := m["blnk_rejection_reason"].(string)
	return zzM{
		"id": t.tx(zzStr(r["transaction_id"])), "par": t.tx(zzStr(r["parent_transaction"])),
		"ref": t.refL(ref), "uref": t.refL(zzUserRef(ref)),
		"src": t.bal(zzStr(r["source"])), "dst": t.bal(zzStr(r["destination"])),
		"amt": t.num(r["precise_amount"]), "st": zzStr(r["status"]), "cur": zzStr(r["currency"]),
		"od": d.OD, "lim": d.Lim, "qp": t.tx(qp), "rej": reason != "", "eff": t.eff(r["effective_date"]),
	}
}

func (t *zzTracer) onCommit(inst string, txid int64, ch []pgsim.Change) {
	t.mu.Lock()
	defer t.mu.Unlock()
	ins, upd, nb, oth := []zzM{}, []zzM{}, []zzM{}, []string{}
	for _, c := range ch {
		tb := strings.TrimPrefix(c.Table, "blnk.")
		switch {
		case tb == "balances" && c.Op == "insert":
			id := zzStr(c.New["balance_id"])
			if _, ok := t.w.names[id]; !ok {
				if ind := zzStr(c.New["indicator"]); ind != "" {
					t.w.names[id] = ind + "/" + zzStr(c.New["currency"])
				}
			}
			b := t.balState(c.New)
			b["bal"] = t.bal(id)
			b["cur"] = zzStr(c.New["currency"])
			b["ind"] = zzStr(c.New["indicator"])
			nb = append(nb, b)
		case tb == "balances" && c.Op == "update":
			b := t.balState(c.New)
			b["bal"] = t.bal(zzStr(c.New["balance_id"]))
			b["pv"] = zzBig(c.Old["version"]).Int64()
			upd = append(upd, b)
		case tb == "transactions" && c.Op == "insert":
			ins = append(ins, t.txRow(c.New))
		case tb == "transactions" && c.Op == "update":
			o, n := t.txRow(c.Old), t.txRow(c.New)
			same := true
			for _, k := range []string{"id", "par", "ref", "src", "dst", "amt", "st", "cur"} {
				if o[k] != n[k] {
					same = false
				}
			}
			if same {
				oth = append(oth, "txmeta")
			} else {
				oth = append(oth, "txchange")
			}
		default:
			oth = append(oth, tb+":"+c.Op)
		}
	}
	if len(ins)+len(upd)+len(nb)+len(oth) == 0 {
		return
	}
	// a balance updated more than once in one SQL transaction: keep the last
	last := map[string]int{}
	var u2 []zzM
	for _, u := range upd {
		k := u["bal"].(string)
		if i, ok := last[k]; ok {
			u["pv"] = u2[i]["pv"]
			u["multi"] = true
			u2[i] = u
			continue
		}
		last[k] = len(u2)
		u2 = append(u2, u)
	}
	if u2 == nil {
		u2 = []zzM{}
	}
	t.out = append(t.out, zzM{"e": "commit", "op": t.label[inst], "ins": ins, "upd": u2, "nb": nb, "oth": oth})
}

func (t *zzTracer) Emit(e zzM) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.out = append(t.out, e)
}

func (t *zzTracer) Label(n *zzNode, op string) {
	t.mu.Lock()
	t.label[n.name] = op
	t.mu.Unlock()
}

// zzErrClass maps an error text to the class the specification knows.
func zzErrClass(r zzResp) string {
	if r.OK() {
		return "ok"
	}
	s := strings.ToLower(string(r.Body))
	switch {
	case strings.Contains(s, "insufficient funds"):
		return "funds"
	case strings.Contains(s, "exceeds overdraft limit"):
		return "limit"
	case strings.Contains(s, "already been used") || strings.Contains(s, "duplicate"):
		return "dup"
	case strings.Contains(s, "optimistic lock"):
		return "conflict"
	case strings.Contains(s, "lock"):
		return "lock"
	case strings.Contains(s, "already been voided"):
		return "voided"
	case strings.Contains(s, "already committed") || strings.Contains(s, "already been committed"):
		return "committed"
	case strings.Contains(s, "already been refunded"):
		return "refunded"
	}
	return "other"
}

// Final appends the state of the database as the last event.
func (t *zzTracer) Final(extra zzM) {
	t.w.db.View(func(rows func(string) []map[string]pgsim.Value) {
		t.mu.Lock()
		defer t.mu.Unlock()
		bals := []zzM{}
		for _, r := range rows("balances") {
			b := t.balState(r)
			b["bal"] = t.bal(zzStr(r["balance_id"]))
			b["cur"] = zzStr(r["currency"])
			bals = append(bals, b)
		}
		txs := []zzM{}
		for _, r := range rows("transactions") {
			txs = append(txs, t.txRow(r))
		}
		e := zzM{"e": "final", "bals": bals, "txs": txs, "drained": false}
		for k, v := range extra {
			e[k] = v
		}
		t.out = append(t.out, e)
	})
}

// ---- output ----

type zzOut struct {
	mu sync.Mutex
	f  *os.File
	n  int
}

func zzOpenOut() *zzOut {
	p := os.Getenv("ZZ_OUT")
	if p == "" {
		p = "/dev/stdout"
	}
	f, err := os.Create(p)
	if err != nil {
		panic(err)
	}
	return &zzOut{f: f}
}

func (o *zzOut) Write(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	o.mu.Lock()
	o.f.Write(append(b, '\n'))
	o.n++
	o.mu.Unlock()
}

func (o *zzOut) Close() { o.f.Close() }

func (o *zzOut) Trace(id string, sc string, t *zzTracer) {
	t.mu.Lock()
	ev := t.out
	t.mu.Unlock()
	o.Write(zzM{"id": id, "sc": sc, "ev": ev})
}

func zzEnvInt(k string, d int) int {
	if v := os.Getenv(k); v != "" {
		if n, err := strconv.Atoi(v); err == nil {
			return n
		}
	}
	return d
}

var _ = fmt.Sprint
var _ = time.Now
