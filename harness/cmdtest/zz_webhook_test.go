package main

// Interpreter of spec/Webhooks.tla.

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/http/httptest"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/blnkfinance/blnk/internal/zzverif/pgsim"
	"github.com/hibiken/asynq"
)

func init() { zzProgs["webhooks"] = zzNewWebhooks }

type zzWebhookProg struct {
	w     *zzWorld
	n     *zzNode
	srv   *httptest.Server
	mu    sync.Mutex
	code  int
	got   []zzHookReq
	scale *big.Int
	key   string
	bal   map[string]string
	led   string
	ents  map[string]string // id -> label
	tx    map[int64]string
	batch map[string]int64
	seen  map[string]string // task -> label
	req   int
}

type zzHookReq struct {
	h    http.Header
	body []byte
	meth string
}

func zzNewWebhooks(cfg zzM) zzProg {
	c := zzP(cfg)
	p := &zzWebhookProg{bal: map[string]string{}, ents: map[string]string{}, tx: map[int64]string{}, batch: map[string]int64{}, seen: map[string]string{}, key: c.s("key")}
	p.scale, _ = new(big.Int).SetString(c.s("scale"), 10)
	p.srv = httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		p.mu.Lock()
		p.got = append(p.got, zzHookReq{r.Header.Clone(), b, r.Method})
		code := p.code
		p.mu.Unlock()
		if code == 0 { // the connection breaks
			if h, ok := rw.(http.Hijacker); ok {
				if conn, _, err := h.Hijack(); err == nil {
					_ = conn.Close()
				}
			}
			return
		}
		rw.WriteHeader(code)
	}))
	p.srv.Config.SetKeepAlivesEnabled(false)
	p.w = zzNewWorld("", nil)
	p.w.cfg.Notification.Webhook.Url = p.srv.URL + "/hook"
	p.w.cfg.Notification.Webhook.Headers = map[string]string{"X-Mine": "yes"}
	p.w.cfg.Transaction.EnableCoalescing = c.b("coal")
	p.w.cfg.Server.SecretKey = p.key
	p.w.cfg.Queue.InsufficientFundRetries = false
	p.n = p.w.Node("n0")
	p.led = zzMust(p.n.Do("POST", "/ledgers", zzM{"name": "l"})).S("ledger_id")
	for _, x := range []string{"W", "A", "B"} {
		p.bal[x] = zzMust(p.n.Do("POST", "/balances", zzM{"ledger_id": p.led, "currency": "USD"})).S("balance_id")
	}
	p.fresh()
	for _, t := range p.w.Tasks(p.w.cfg.Queue.WebhookQueue) {
		p.w.Ack(t)
	}
	return p
}
func (p *zzWebhookProg) Close() { p.w.Close(); p.srv.Close() }

var zzHookRef = regexp.MustCompile(`^r(\d+)(_q)?$`)

func (p *zzWebhookProg) rows() map[string]map[string]interface{} {
	out := map[string]map[string]interface{}{}
	for _, r := range p.w.db.Rows("transactions") {
		out[zzStr(r["transaction_id"])] = r
	}
	return out
}

// label names what a notification is about.
func (p *zzWebhookProg) label(ev string, data map[string]interface{}, rows map[string]map[string]interface{}) string {
	switch {
	case strings.HasPrefix(ev, "transaction."):
		for id, k := zzStr(data["transaction_id"]), 0; k < 8; k++ {
			r := rows[id]
			if r == nil {
				return "unknown transaction " + id
			}
			if m := zzHookRef.FindStringSubmatch(zzStr(r["reference"])); m != nil {
				return m[1]
			}
			id = zzStr(r["parent_transaction"])
		}
	case strings.HasPrefix(ev, "bulk_transaction."):
		if i, ok := p.batch[zzStr(data["batch_id"])]; ok {
			return fmt.Sprint(i)
		}
	case strings.HasSuffix(ev, ".created"):
		for _, k := range []string{"ledger_id", "identity_id", "balance_id"} {
			if strings.HasPrefix(k, strings.TrimSuffix(ev, "created")[:4]) {
				return p.ents[zzStr(data[k])]
			}
		}
	}
	return "?"
}

type zzHook struct {
	Event string                 `json:"event"`
	Data  map[string]interface{} `json:"data"`
}

func zzHookParse(b []byte) (h zzHook) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	_ = d.Decode(&h)
	return
}

// fresh counts the notifications made since the last call.
func (p *zzWebhookProg) fresh() interface{} {
	p.w.quiesceQueue()
	rows := p.rows()
	cnt := map[string]int{}
	for _, t := range p.w.Tasks(p.w.cfg.Queue.WebhookQueue) {
		if _, ok := p.seen[t.ID]; ok {
			continue
		}
		h := zzHookParse(t.Payload)
		k := h.Event + ":" + p.label(h.Event, h.Data, rows)
		p.seen[t.ID] = k
		if h.Event != "system.error" {
			cnt[k]++
		}
	}
	if len(cnt) == 0 {
		return []int{}
	}
	return cnt
}

func (p *zzWebhookProg) amount(v int64) json.Number {
	return json.Number(new(big.Int).Mul(big.NewInt(v), p.scale).String())
}

func (p *zzWebhookProg) meta(s string) zzM {
	switch s {
	case "html":
		return zzM{"m": "<b>&amp;</b> \" \\ \u2028"}
	case "deep":
		return zzM{"m": zzM{"a": []interface{}{1, zzM{"b": "é☃\U0001F600"}, nil, true, 12345678}}}
	case "long":
		return zzM{"m": strings.Repeat("0123456789abcdef", 600)}
	}
	return zzM{}
}

func (p *zzWebhookProg) body(i, v int64, s, d string, hold bool) zzM {
	return zzM{"precise_amount": p.amount(v), "precision": 100, "currency": "USD", "reference": fmt.Sprint("r", i), "description": "d", "inflight": hold, "allow_overdraft": s == "W", "source": p.bal[s], "destination": p.bal[d]}
}

func (p *zzWebhookProg) status(ref string) (string, string) {
	for _, r := range p.w.db.Rows("transactions") {
		if zzStr(r["reference"]) == ref {
			return zzStr(r["transaction_id"]), zzStr(r["status"])
		}
	}
	return "", ""
}

// fail makes the next commit, or the next write of a transaction, fail once.
func (p *zzWebhookProg) fail(how string) {
	var mu sync.Mutex
	done := false
	p.n.inst.Gate = func(s *pgsim.StmtInfo) error {
		u := strings.ToUpper(s.SQL)
		if !strings.HasPrefix(u, "COMMIT") && !(how == "write" && strings.Contains(u, "INSERT INTO") && strings.Contains(u, "TRANSACTIONS")) {
			return nil
		}
		mu.Lock()
		defer mu.Unlock()
		if done {
			return nil
		}
		done = true
		return errors.New("connection reset")
	}
}

func zzJSON(v interface{}) string { b, _ := json.Marshal(v); return string(b) }

// about compares what a delivery carried with the record it is about.
func (p *zzWebhookProg) about(h zzHook) interface{} {
	if !strings.HasPrefix(h.Event, "transaction.") {
		return true
	}
	r := p.rows()[zzStr(h.Data["transaction_id"])]
	if r == nil {
		return "no such transaction"
	}
	want := map[string]string{"transaction.applied": "APPLIED", "transaction.inflight": "INFLIGHT", "transaction.void": "VOID", "transaction.rejected": "REJECTED"}[h.Event]
	if zzStr(h.Data["status"]) != want || zzStr(r["status"]) != want {
		return fmt.Sprint("status ", h.Data["status"], " of a row that is ", r["status"])
	}
	for _, k := range []string{"reference", "currency", "source", "destination", "description", "parent_transaction"} {
		if zzStr(h.Data[k]) != zzStr(r[k]) {
			return fmt.Sprint(k, " ", h.Data[k], " instead of ", r[k])
		}
	}
	if zzStr(h.Data["precise_amount"]) != zzBig(r["precise_amount"]).String() {
		return fmt.Sprint("precise_amount ", h.Data["precise_amount"], " instead of ", zzBig(r["precise_amount"]))
	}
	md, _ := h.Data["meta_data"].(map[string]interface{})
	rm := zzMetaOf(r["meta_data"])
	if md["m"] != nil || rm["m"] != nil {
		if g := zzJSON(md["m"]); g != zzStr(rm["m"]) {
			return fmt.Sprint("meta data ", g, " instead of ", rm["m"])
		}
	}
	return true
}

func (p *zzWebhookProg) Do(m zzM) zzM {
	op := zzP(m)
	out := zzM{}
	n := p.n
	p.req++
	if os.Getenv("ZZ_TIME") != "" {
		t0 := time.Now()
		defer func() { fmt.Fprintln(os.Stderr, "ZZTIME", op.s("k"), time.Since(t0)) }()
	}
	switch op.s("k") {
	case "post":
		i := op.i("i")
		b := p.body(i, op.i("v"), op.s("s"), op.s("d"), op.b("hold"))
		b["skip_queue"] = true
		b["meta_data"] = p.meta(op.s("meta"))
		var r zzResp
		switch op.s("path") {
		case "bulk":
			r = n.Do("POST", "/transactions/bulk", zzM{"transactions": []zzM{b}, "inflight": op.b("hold"), "skip_queue": true})
		case "dry":
			b["dry_run"] = true
			r = n.Do("POST", "/transactions", b)
		case "crash":
			p.fail("commit")
			r = n.Do("POST", "/transactions", b)
			n.inst.Gate = nil
		default:
			r = n.Do("POST", "/transactions", b)
		}
		out["done"], out["resp"] = r.OK(), string(r.Body)
		p.tx[i], _ = p.status(fmt.Sprint("r", i))
		out["new"] = p.fresh()
	case "queue":
		i := op.i("i")
		for j, l := range op.l("legs") {
			lp := zzP(l.(map[string]interface{}))
			b := p.body(i+int64(j), lp.i("v"), op.s("s"), lp.s("d"), op.b("hold"))
			b["meta_data"] = p.meta(op.s("meta"))
			r := n.Do("POST", "/transactions", b)
			out["resp"] = string(r.Body)
			p.w.quiesceQueue()
		}
		var ts []zzTask
		for _, q := range p.w.TxQueues() {
			ts = append(ts, p.w.Tasks(q)...)
		}
		if f := op.s("fault"); f != "" {
			p.fail(f)
		}
		n.Work(true)
		n.inst.Gate = nil
		p.w.quiesceQueue()
		if op.b("twice") {
			for _, t := range ts {
				_ = n.Deliver(t)
			}
		}
		for j := range op.l("legs") {
			p.tx[i+int64(j)], _ = p.status(fmt.Sprintf("r%d_q", i+int64(j)))
		}
		out["new"] = p.fresh()
	case "batch":
		i := op.i("i")
		b1 := p.body(i, op.i("v"), "W", op.s("d"), op.b("hold"))
		b2 := p.body(i+1, op.i("u"), op.s("s"), op.s("e"), op.b("hold"))
		r := n.Do("POST", "/transactions/bulk", zzM{"transactions": []zzM{b1, b2}, "inflight": op.b("hold"), "atomic": op.b("atomic"), "skip_queue": true, "run_async": true})
		out["resp"] = string(r.Body)
		id := r.S("batch_id")
		p.batch[id] = i
		for k := 0; k < 400; k++ { // until it says it is over
			over := false
			for _, t := range p.w.Tasks(p.w.cfg.Queue.WebhookQueue) {
				over = over || (bytes.Contains(t.Payload, []byte(id)) && bytes.Contains(t.Payload, []byte(`"event":"bulk_transaction.`)))
			}
			if over {
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
		n.Work(true)
		p.tx[i], _ = p.status(fmt.Sprint("r", i))
		p.tx[i+1], _ = p.status(fmt.Sprint("r", i+1))
		out["new"] = p.fresh()
	case "settle":
		b := zzM{"status": map[string]string{"commit": "commit", "part": "commit", "void": "void"}[op.s("how")], "skip_queue": !op.b("q")}
		if op.s("how") == "part" {
			b["precise_amount"] = p.amount(op.i("v"))
		}
		if op.b("crash") {
			p.fail("commit")
		}
		r := n.Do("PUT", "/transactions/inflight/"+p.tx[op.i("i")], b)
		n.inst.Gate = nil
		p.w.quiesceQueue()
		n.WorkQueue(p.w.cfg.Queue.InflightCommitQueue, true)
		out["done"], out["resp"], out["new"] = r.OK(), string(r.Body), p.fresh()
	case "refund":
		r := n.Do("POST", "/refund-transaction/"+p.tx[op.i("i")], zzM{"skip_queue": true})
		out["done"], out["resp"], out["new"] = r.OK(), string(r.Body), p.fresh()
	case "make":
		lab := fmt.Sprint(100 + op.i("i"))
		var r zzResp
		switch op.s("what") {
		case "ledger":
			r = n.Do("POST", "/ledgers", zzM{"name": "l" + lab})
			p.ents[r.S("ledger_id")] = lab
		case "identity":
			r = n.Do("POST", "/identities", zzM{"identity_type": "individual", "first_name": "F" + lab, "last_name": "L"})
			p.ents[r.S("identity_id")] = lab
		case "balance":
			r = n.Do("POST", "/balances", zzM{"ledger_id": p.led, "currency": "USD"})
			p.ents[r.S("balance_id")] = lab
		case "named": // made by naming it
			r = n.Do("GET", "/balances/indicator/@x"+lab+"/currency/USD", nil)
			if !r.OK() {
				r = n.Do("POST", "/transactions", zzM{"precise_amount": 5, "precision": 100, "currency": "USD", "reference": "n" + lab, "description": "d", "source": "@x" + lab, "destination": p.bal["B"], "skip_queue": true})
			}
			for _, b := range p.w.db.Rows("balances") {
				if zzStr(b["indicator"]) == "@x"+lab {
					p.ents[zzStr(b["balance_id"])] = lab
				}
			}
		case "none":
			r = n.Do("POST", "/balances", zzM{"ledger_id": "ldg_none", "currency": "USD"})
		}
		out["resp"], out["new"] = string(r.Body), p.fresh()
	case "deliver":
		var task *zzTask
		for _, t := range p.w.Tasks(p.w.cfg.Queue.WebhookQueue) {
			if p.seen[t.ID] == op.s("key") {
				t := t
				task = &t
				break
			}
		}
		if task == nil {
			out["body"] = "no such notification"
			return out
		}
		p.mu.Lock()
		p.code, p.got = int(op.i("code")), nil
		p.mu.Unlock()
		t0 := time.Now().Unix()
		err := n.Deliver(*task)
		t1 := time.Now().Unix()
		if err == nil {
			p.w.Ack(*task)
		}
		out["again"] = interface{}(err != nil)
		if err != nil && (errors.Is(err, asynq.SkipRetry) || errors.Is(err, asynq.RevokeTask) || task.Max < 3) {
			out["again"] = "given up: " + err.Error()
		}
		p.mu.Lock()
		got := p.got
		p.mu.Unlock()
		if len(got) == 0 {
			out["body"] = fmt.Sprint("no request: ", err)
			return out
		}
		out["signed"] = false
		out["body"] = true
		for _, g := range got {
			h := zzHookParse(g.body)
			if k := h.Event + ":" + p.label(h.Event, h.Data, p.rows()); k != op.s("key") {
				out["body"] = "about " + k
			} else if a := p.about(h); a != true {
				out["body"] = a
			}
			if g.meth != "POST" || !strings.HasPrefix(g.h.Get("Content-Type"), "application/json") || g.h.Get("X-Mine") != "yes" {
				out["body"] = fmt.Sprint(g.meth, g.h)
			}
			if s := g.h.Get("X-Blnk-Signature"); s != "" {
				ts := g.h.Get("X-Blnk-Timestamp")
				mac := hmac.New(sha256.New, []byte(p.key))
				mac.Write([]byte(ts + "." + string(g.body)))
				at, e := strconv.ParseInt(ts, 10, 64)
				out["signed"] = true
				if s != hex.EncodeToString(mac.Sum(nil)) {
					out["signed"] = "wrong signature"
				} else if e != nil || at < t0 || at > t1 {
					out["signed"] = "signed at " + ts
				}
			}
		}
	}
	p.w.quiesceQueue()
	return out
}
