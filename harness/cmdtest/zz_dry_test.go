package main

// Dry runs: each request of a program is first made as a dry run, which must
// leave everything as it was and predict what the request then does.

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

var zzTables = []string{"ledgers", "balances", "transactions", "identity", "accounts", "api_keys", "balance_monitors", "balance_snapshots", "lineage_mappings", "lineage_outbox", "external_transactions", "matching_rules", "reconciliations", "matches"}

// image of everything stored: all rows, and all queued work.
func (w *zzWorld) image() string {
	var b strings.Builder
	w.db.View(func(rows func(string) []map[string]interface{}) {
		for _, t := range zzTables {
			var l []string
			for _, r := range rows(t) {
				l = append(l, fmt.Sprint(r))
			}
			sort.Strings(l)
			fmt.Fprintln(&b, t, len(l), strings.Join(l, "\n"))
		}
	})
	for _, k := range w.mr.Keys() {
		if strings.HasPrefix(k, "asynq:") {
			fmt.Fprintln(&b, k)
		}
	}
	return b.String()
}

func zzDiffLine(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			if i < len(y) {
				return y[i]
			}
			return "less"
		}
	}
	return "more"
}

type zzPreview struct {
	Would bool `json:"would_apply"`
	Rej   *struct {
		Message string `json:"message"`
	} `json:"rejection"`
	Balances []zzProjection `json:"balances"`
	Results  []zzPreview    `json:"results"`
	Precise  string         `json:"precise_amount"`
}

type zzProjection struct {
	ID string `json:"balance_id"`
	B  string `json:"resulting_balance"`
	C  string `json:"resulting_credit_balance"`
	D  string `json:"resulting_debit_balance"`
	Ic string `json:"resulting_inflight_credit_balance"`
	Id string `json:"resulting_inflight_debit_balance"`
	Av string `json:"resulting_available"`
}

// dry performs the dry run of an action; it reports what it said and whether
// anything changed.
func (r *zzRun) dry(n *zzNode, o zzOp) (zzPreview, zzResp, string) {
	o.Dry = true
	r.w.quiesceQueue()
	before := r.w.image()
	var resp zzResp
	switch o.K {
	case "txn":
		resp = n.Do("POST", "/transactions", r.body(o))
	case "commit", "void":
		b := zzM{"status": o.K, "skip_queue": o.Skip, "dry_run": true}
		if o.K == "commit" && o.Amt > 0 {
			b["precise_amount"] = json.RawMessage(r.big(o.Amt).String())
		}
		resp = n.Do("PUT", "/transactions/inflight/"+r.target(o), b)
	case "refund":
		resp = n.Do("POST", "/refund-transaction/"+r.target(o), zzM{"skip_queue": o.Skip, "dry_run": true})
	case "bulk":
		var l []zzM
		for _, s := range o.Sub {
			l = append(l, r.body(s))
		}
		resp = n.Do("POST", "/transactions/bulk", zzM{"transactions": l, "atomic": o.Atom, "inflight": o.Infl, "skip_queue": o.Skip, "dry_run": true})
	}
	r.w.quiesceQueue()
	after := r.w.image()
	changed := ""
	if after != before {
		changed = zzDiffLine(before, after)
	}
	var p zzPreview
	_ = json.Unmarshal(resp.Body, &p)
	return p, resp, changed
}

// dryCheck compares a dry run with what the specification expects of the
// request itself.
func (r *zzRun) dryCheck(n *zzNode, s zzStep, diff func(what, want, got string)) {
	switch s.Op.K {
	case "txn", "commit", "void", "refund", "bulk":
	default:
		return
	}
	p, resp, changed := r.dry(n, s.Op)
	if changed != "" {
		diff("dry run changes", "nothing", changed)
	}
	if !s.Op.Skip || len(s.Alts) > 0 {
		return
	}
	would := resp.OK() && p.Would
	if would != s.OK {
		diff("dry run predicts", fmt.Sprint(s.OK, " ", s.Cls), string(resp.Body))
		return
	}
	if !would {
		return
	}
	seen := map[string]bool{}
	for _, x := range p.Balances {
		name := r.w.names[x.ID]
		if name == "" {
			name = x.ID
		}
		if i := strings.Index(name, "/"); i > 0 {
			name = name[:i]
		}
		want, ok := s.Bals[name]
		got := zzSix{B: r.t.num(x.B), C: r.t.num(x.C), D: r.t.num(x.D), Ic: r.t.num(x.Ic), Id: r.t.num(x.Id)}
		got.Ib = got.Ic - got.Id
		if !ok || got != want {
			diff("dry run balance "+name, fmt.Sprint(want), fmt.Sprint(got))
		}
		av := want.B - want.Id
		if r.w.cfg.Transaction.EnableQueuedChecks {
			av = r.t.num(x.Av)
		}
		if ok && r.t.num(x.Av) != av {
			diff("dry run available "+name, fmt.Sprint(av), x.Av)
		}
		seen[name] = true
	}
	for _, nm := range []string{s.Op.Src, s.Op.Dst} {
		if s.Op.K == "txn" && !seen[nm] {
			diff("dry run balances", nm, fmt.Sprint(seen))
		}
	}
}
