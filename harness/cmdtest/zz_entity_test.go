package main

// Interpreters of spec/Meta.tla and spec/Tokens.tla.

import (
	"encoding/json"
	"fmt"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"unicode"

	"github.com/blnkfinance/blnk/internal/zzverif/pgsim"
)

func init() {
	zzProgs["meta"] = func(zzM) zzProg { return zzNewMeta() }
	zzProgs["tokens"] = func(zzM) zzProg { return zzNewTok() }
}

type zzMetaProg struct {
	r    *zzRun
	n    *zzNode
	ids  map[string]string // label -> id
	kind map[string]string
	cnt  int
	a, b string
}

func zzNewMeta() *zzMetaProg {
	r := zzNewRun("", nil, 1)
	m := &zzMetaProg{r: r, n: r.w.Node("n0"), ids: map[string]string{}, kind: map[string]string{}}
	m.a, m.b = r.Bal(m.n, "A", "USD", nil), r.Bal(m.n, "B", "USD", nil)
	return m
}
func (m *zzMetaProg) Close() { m.r.w.Close() }

func zzRaw(x zzM) zzM {
	out := zzM{}
	for k, v := range x {
		out[k] = json.RawMessage(v.(string))
	}
	return out
}

func (m *zzMetaProg) table(kind string) (string, string) {
	switch kind {
	case "ldg":
		return "ledgers", "ledger_id"
	case "bln":
		return "balances", "balance_id"
	case "idt":
		return "identity", "identity_id"
	}
	return "transactions", "transaction_id"
}

func zzMetaOf(v interface{}) zzM {
	var b []byte
	switch x := v.(type) {
	case nil:
		return zzM{}
	case []byte:
		b = x
	case pgsim.JSON:
		b, _ = json.Marshal(x.V)
	default:
		b = []byte(fmt.Sprint(x))
	}
	out := map[string]json.RawMessage{}
	d := json.NewDecoder(strings.NewReader(string(b)))
	if err := d.Decode(&out); err != nil {
		return zzM{"?": string(b)}
	}
	r := zzM{}
	for k, x := range out {
		r[k] = zzJS(x)
	}
	return r
}

// state: user metadata of every known row, and everything else.
func (m *zzMetaProg) state() (zzM, string) {
	metas := zzM{}
	rest := []string{}
	rowsOf := map[string][]map[string]pgsim.Value{}
	for l, id := range m.ids {
		t, c := m.table(m.kind[l])
		if rowsOf[t] == nil {
			rowsOf[t] = m.r.w.db.Rows(t)
		}
		for _, x := range rowsOf[t] {
			if zzStr(x[c]) != id {
				continue
			}
			all := zzMetaOf(x["meta_data"])
			mine := zzM{}
			for _, k := range []string{"a", "b", "c.d", "blnk x"} {
				if v, ok := all[k]; ok {
					mine[k] = v
					delete(all, k)
				}
			}
			metas[l] = mine
			var o []string
			for k, v := range x {
				if k != "meta_data" {
					o = append(o, fmt.Sprint(k, "=", v))
				}
			}
			sort.Strings(o)
			rest = append(rest, l+zzJS(all)+strings.Join(o, ","))
		}
	}
	sort.Strings(rest)
	return metas, strings.Join(rest, "\n")
}

// shown is the metadata the API reports for a row.
func (m *zzMetaProg) shown(l string) zzM {
	p := map[string]string{"ldg": "/ledgers/", "bln": "/balances/", "idt": "/identities/"}[m.kind[l]]
	if p == "" {
		p = "/transactions/"
	}
	r := m.n.Do("GET", p+m.ids[l], nil)
	if !r.OK() {
		return zzM{"error": string(r.Body)}
	}
	var x struct {
		M json.RawMessage `json:"meta_data"`
	}
	_ = json.Unmarshal(r.Body, &x)
	all := zzMetaOf(string(x.M))
	mine := zzM{}
	for _, k := range []string{"a", "b", "c.d", "blnk x"} {
		if v, ok := all[k]; ok {
			mine[k] = v
		}
	}
	return mine
}

func (m *zzMetaProg) Do(x zzM) zzM {
	op := zzP(x)
	_, before := m.state()
	out := zzM{"ok": true}
	created := false
	switch op.s("k") {
	case "create":
		created = true
		l, meta := op.s("l"), zzRaw(op.m("meta"))
		m.cnt++
		tx := func(ref string) zzM {
			return zzM{"precise_amount": 5, "precision": 100, "currency": "USD", "reference": ref, "description": "d", "source": "@W", "destination": m.a, "allow_overdraft": true, "skip_queue": true, "meta_data": meta}
		}
		switch k := op.s("kind"); k {
		case "ldg":
			m.ids[l] = m.n.Do("POST", "/ledgers", zzM{"name": "l", "meta_data": meta}).S("ledger_id")
		case "bln":
			m.ids[l] = m.n.Do("POST", "/balances", zzM{"ledger_id": "general_ledger_id", "currency": "USD", "meta_data": meta}).S("balance_id")
		case "idt":
			m.ids[l] = m.n.Do("POST", "/identities", zzM{"identity_type": "individual", "first_name": "F", "last_name": "L", "meta_data": meta}).S("identity_id")
		case "txn", "hold":
			b := tx("r" + l)
			b["inflight"] = k == "hold"
			m.ids[l] = m.n.Do("POST", "/transactions", b).S("transaction_id")
		case "queued":
			b := tx("r" + l)
			b["skip_queue"] = false
			m.ids[l] = m.n.Do("POST", "/transactions", b).S("transaction_id")
			m.r.w.quiesceQueue()
			m.n.Work(false)
			for _, y := range m.r.w.db.Rows("transactions") {
				if zzStr(y["parent_transaction"]) == m.ids[l] {
					m.ids[l+"child"] = zzStr(y["transaction_id"])
					m.kind[l+"child"] = "txn"
				}
			}
		case "bulk":
			r := m.n.Do("POST", "/transactions/bulk", zzM{"transactions": []zzM{tx("r" + l + "m1"), tx("r" + l + "m2")}, "skip_queue": true})
			for _, y := range m.r.w.db.Rows("transactions") {
				for _, s := range []string{"m1", "m2"} {
					if zzStr(y["reference"]) == "r"+l+s {
						m.ids[l+s] = zzStr(y["transaction_id"])
						m.kind[l+s] = "txn"
					}
				}
			}
			m.ids["#"+l] = r.S("batch_id")
		}
		if op.s("kind") != "bulk" {
			m.kind[l] = op.s("kind")
		} else {
			m.kind["#"+l] = "bulk"
		}
		m.r.w.quiesceQueue()
	case "update":
		out["ok"] = m.update(m.n, op.s("tgt"), op.m("meta"))
		m.r.w.quiesceQueue()
	case "both": // two updates of one entity, or an update and a posting over the balances
		m2 := m.r.w.Node("n1")
		var ok1, ok2 bool
		zzBoth(m.n, m2, func() { ok1 = m.update(m.n, op.s("tgt"), op.m("meta")) }, func() {
			if op.b("post") {
				ok2 = m.post(m2, 1)
			} else {
				ok2 = m.update(m2, op.s("tgt"), op.m("meta2"))
			}
		}, op.i("at"))
		out["ok"] = ok1 && ok2
		created = op.b("post")
		m.r.w.quiesceQueue()
	case "post":
		out["ok"] = m.post(m.n, op.i("n"))
		created = true
		m.r.w.quiesceQueue()
	}
	metas, after := m.state()
	out["meta"] = metas
	out["intact"] = created || before == after
	for l := range metas { // what is shown is what is stored
		if s := m.shown(l); !reflect.DeepEqual(zzNorm(s), zzNorm(metas[l])) {
			out["intact"] = fmt.Sprint("shown ", l, " ", s, " stored ", metas[l])
		}
	}
	return out
}

func (m *zzMetaProg) update(n *zzNode, tgt string, meta zzM) bool {
	id := m.ids[tgt]
	if id == "" {
		id = m.ids["#"+tgt]
	}
	if id == "" {
		id = "txn_00000000-0000-0000-0000-00000000000" + fmt.Sprint(m.cnt%3)
	}
	return n.Do("POST", "/"+id+"/metadata", zzM{"meta_data": zzRaw(meta)}).OK()
}

// post moves money over the fixed balances and the ones under test.
func (m *zzMetaProg) post(n *zzNode, amt int64) bool {
	ok := true
	one := func(src string) {
		m.cnt++
		r := n.Do("POST", "/transactions", zzM{"precise_amount": amt, "precision": 100, "currency": "USD", "reference": fmt.Sprint("post", m.cnt), "description": "d", "source": src, "destination": m.b, "allow_overdraft": true, "skip_queue": true})
		ok = ok && r.OK()
	}
	one(m.a)
	for l, k := range m.kind {
		if k == "bln" {
			one(m.ids[l])
		}
	}
	return ok
}

// ---- tokens ----

type zzTok struct {
	w    *zzWorld
	n    *zzNode
	ids  map[string]string
	vals map[string]map[string]string
	rest map[string]string
}

func zzNewTok() *zzTok {
	w := zzNewWorld("", nil)
	return &zzTok{w: w, n: w.Node("n0"), ids: map[string]string{}, vals: map[string]map[string]string{}, rest: map[string]string{}}
}
func (k *zzTok) Close() { k.w.Close() }

var zzTokCols = map[string]string{"FirstName": "first_name", "LastName": "last_name", "OtherNames": "other_names", "EmailAddress": "email_address", "PhoneNumber": "phone_number", "Street": "street", "PostCode": "post_code"}

func zzTokVal(s string) string {
	if s == "long" {
		return strings.Repeat("Long välue 0123456789 ", 400)
	}
	return s
}

// word tells whether a value says something: enough letters and digits that a
// token containing it cannot be chance.
func zzWord(s string) bool {
	n := 0
	for _, c := range s {
		if c < 128 && (unicode.IsLetter(c) || unicode.IsDigit(c)) {
			n++
		} else if unicode.IsLetter(c) {
			n += 4
		}
	}
	return n >= 6
}

func (k *zzTok) Do(x zzM) zzM {
	op := zzP(x)
	id := k.ids[op.s("id")]
	f := op.s("f")
	if op.b("low") {
		f = strings.ToLower(f[:1]) + f[1:]
	}
	out := zzM{}
	vals := func(l map[string]string) zzM {
		o := zzM{}
		for a, b := range l {
			if b == zzTokVal("long") {
				b = "long"
			}
			o[a] = b
		}
		return o
	}
	switch op.s("k") {
	case "create":
		b := zzM{"identity_type": "individual", "gender": "other", "city": "C", "country": "X", "meta_data": zzM{"keep": "me"}}
		vs := map[string]string{}
		for a, v := range op.m("vals") {
			vs[a] = zzTokVal(v.(string))
			b[zzTokCols[a]] = vs[a]
		}
		r := k.n.Do("POST", "/identities", b)
		k.ids[op.s("id")] = r.S("identity_id")
		k.vals[op.s("id")] = vs
		out["ok"] = r.OK()
	case "tok":
		out["ok"] = k.n.Do("POST", "/identities/"+id+"/tokenize/"+url.PathEscape(f), nil).OK()
	case "tokmany":
		out["ok"] = k.n.Do("POST", "/identities/"+id+"/tokenize", zzM{"fields": op.l("fs")}).OK()
	case "detok":
		r := k.n.Do("GET", "/identities/"+id+"/detokenize/"+url.PathEscape(f), nil)
		out["ok"] = r.OK()
		v := r.S("value")
		if v == zzTokVal("long") {
			v = "long"
		}
		out["value"] = v
	case "detokall":
		if op.s("how") == "all" {
			r := k.n.Do("POST", "/identities/"+id+"/detokenize", zzM{"fields": []string{}})
			out["ok"] = r.OK()
			var j struct {
				F map[string]string `json:"fields"`
			}
			_ = json.Unmarshal(r.Body, &j)
			out["values"] = vals(j.F)
		} else {
			d, err := k.n.B().GetDetokenizedIdentity(id)
			out["ok"] = err == nil
			if err == nil {
				v := reflect.ValueOf(*d)
				l := map[string]string{}
				for a := range zzTokCols {
					l[a] = v.FieldByName(a).String()
				}
				out["values"] = vals(l)
			}
		}
	case "edit":
		k.vals[op.s("id")][f] = zzTokVal(op.s("v"))
		out["ok"] = k.n.Do("PUT", "/identities/"+id, zzM{zzTokCols[f]: zzTokVal(op.s("v"))}).OK()
	case "meta":
		out["ok"] = k.n.Do("POST", "/"+id+"/metadata", zzM{"meta_data": zzM{"n": op.i("n")}}).OK()
	}
	k.w.quiesceQueue()
	// what is stored and shown
	plain, toks, other, hidden := zzM{}, zzM{}, true, true
	for l, id := range k.ids {
		var row map[string]pgsim.Value
		for _, y := range k.w.db.Rows("identity") {
			if zzStr(y["identity_id"]) == id {
				row = y
			}
		}
		var shown zzM
		r := k.n.Do("GET", "/identities/"+id, nil)
		_ = json.Unmarshal(r.Body, &shown)
		var tf struct {
			F []string `json:"tokenized_fields"`
		}
		_ = json.Unmarshal(k.n.Do("GET", "/identities/"+id+"/tokenized-fields", nil).Body, &tf)
		is := map[string]bool{}
		for a := range zzTokCols {
			is[a] = false
		}
		for _, a := range tf.F {
			is[a] = true
		}
		toks[l] = is
		p := map[string]string{}
		for a, c := range zzTokCols {
			stored := zzStr(row[c])
			if stored != zzStr(shown[c]) {
				other = false
			}
			if !is[a] {
				p[a] = stored
			} else {
				orig := k.vals[l][a]
				if zzWord(orig) && strings.Contains(stored, orig) {
					hidden = false
				}
				for _, w := range strings.FieldsFunc(orig, func(c rune) bool { return c > 127 || unicode.IsSpace(c) }) {
					if zzWord(w) && strings.Contains(stored, w) {
						hidden = false
					}
				}
			}
		}
		plain[l] = vals(p)
		rest := fmt.Sprint(row["city"], row["country"], row["gender"], row["identity_type"], row["dob"], row["created_at"], zzMetaOf(row["meta_data"])["keep"])
		if k.rest[l] == "" {
			k.rest[l] = rest
		}
		if k.rest[l] != rest {
			other = false
		}
	}
	out["plain"], out["tokenized"], out["hidden"], out["other"] = plain, toks, hidden, other
	return out
}
