package main

import (
	"fmt"
	"os"
	"testing"
	"time"
)

func TestZZSmoke(t *testing.T) {
	if os.Getenv("ZZ_MODE") != "smoke" {
		t.Skip()
	}
	t0 := time.Now()
	w := zzNewWorld("", nil)
	n := w.Node("n1")
	fmt.Println("world", time.Since(t0))
	show := func(l string, r zzResp) { fmt.Println("==", l, r.Code, string(r.Body)) }
	r := n.Do("POST", "/balances", zzM{"ledger_id": "general_ledger_id", "currency": "USD"})
	show("bal A", r)
	A := r.S("balance_id")
	r = n.Do("POST", "/balances", zzM{"ledger_id": "general_ledger_id", "currency": "USD"})
	B := r.S("balance_id")
	r = n.Do("POST", "/transactions", zzM{"amount": 100.5, "precision": 100, "currency": "USD", "reference": "r1", "source": "@world", "destination": A, "allow_overdraft": true, "skip_queue": true, "description": "x"})
	show("skip", r)
	r = n.Do("POST", "/transactions", zzM{"amount": 20, "precision": 100, "currency": "USD", "reference": "r2", "source": A, "destination": B, "description": "x"})
	show("queued", r)
	w.quiesce()
	for _, q := range w.Queues() {
		for _, tk := range w.Tasks(q) {
			fmt.Println(q, tk.ID, tk.State, string(tk.Payload)[:min(200, len(tk.Payload))])
		}
	}
	fmt.Println("worked", n.Work(false))
	r = n.Do("POST", "/transactions", zzM{"amount": 30, "precision": 100, "currency": "USD", "reference": "r3", "source": A, "destination": B, "description": "x", "inflight": true, "skip_queue": true})
	show("inflight", r)
	id := r.S("transaction_id")
	show("commit", n.Do("PUT", "/transactions/inflight/"+id, zzM{"status": "commit", "amount": 10, "skip_queue": true}))
	show("void", n.Do("PUT", "/transactions/inflight/"+id, zzM{"status": "void", "skip_queue": true}))
	show("void", n.Do("PUT", "/transactions/inflight/"+id, zzM{"status": "void", "skip_queue": true}))
	r = n.Do("POST", "/transactions", zzM{"amount": 3, "precision": 100, "currency": "USD", "reference": "r4", "source": A, "destination": B, "description": "x", "skip_queue": true})
	show("refund", n.Do("POST", "/refund-transaction/"+r.S("transaction_id"), zzM{"skip_queue": true}))
	show("refund", n.Do("POST", "/refund-transaction/"+r.S("transaction_id"), zzM{"skip_queue": true}))
	show("bulk", n.Do("POST", "/transactions/bulk", zzM{"atomic": true, "skip_queue": true, "transactions": []zzM{
		{"amount": 3, "precision": 100, "currency": "USD", "reference": "b1", "source": A, "destination": B, "description": "x"},
		{"amount": 300, "precision": 100, "currency": "USD", "reference": "b2", "source": A, "destination": B, "description": "x"}}}))
	show("get", n.Do("GET", "/balances/"+A, nil))
	show("get", n.Do("GET", "/balances/"+B, nil))
	show("at", n.Do("GET", "/balances/"+B+"/at?timestamp="+time.Now().UTC().Add(time.Second).Format(time.RFC3339)+"&from_source=true", nil))
	show("snap", n.Do("POST", "/balances-snapshots", nil))
	w.quiesce()
	show("list", n.Do("GET", "/transactions?limit=2", nil))
	show("filter", n.Do("POST", "/transactions/filter", zzM{"filters": []zzM{{"field": "status", "operator": "eq", "value": "REFUND"}}}))
	for _, r := range w.db.Rows("transactions") {
		fmt.Println(r["transaction_id"], zzStr(r["parent_transaction"]), r["status"], r["reference"], zzStr(r["precise_amount"]), r["meta_data"])
	}
	fmt.Println(time.Since(t0))
	w.Close()
}
