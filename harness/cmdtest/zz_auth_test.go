package main

// Interpreters of spec/AuthRoutes.tla and spec/AuthKeys.tla: requests with
// every kind of credential against the real router, security on.

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/blnkfinance/blnk/config"
	"github.com/gin-gonic/gin"
)

func init() {
	zzProgs["authroutes"] = func(zzM) zzProg { return zzNewAuth() }
	zzProgs["authkeys"] = func(zzM) zzProg { return zzNewAuth() }
	zzModes["routes"] = zzModeRoutes
}

// zzModeRoutes lists what the router serves, and some requests it does not.
func zzModeRoutes(t *testing.T) {
	o := zzOpenOut()
	defer o.Close()
	if os.Getenv("ZZ_SHARD") != "0" {
		return
	}
	w := zzNewWorld("secure", func(c *config.Configuration) { c.Server.Secure = true })
	n := w.Node("n0")
	real := true
	put := func(m, p string) {
		o.Write(zzM{"m": m, "p": p, "real": real, "seg": strings.Split(strings.TrimPrefix(p, "/"), "/")[0]})
	}
	segs := map[string]bool{}
	for _, r := range n.router.(*gin.Engine).Routes() {
		p := r.Path
		for _, s := range strings.Split(p, "/") {
			if strings.HasPrefix(s, ":") || strings.HasPrefix(s, "*") {
				p = strings.Replace(p, s, "x1", 1)
			}
		}
		put(r.Method, p)
		segs[strings.Split(strings.TrimPrefix(p, "/"), "/")[0]] = true
	}
	real = false
	for s := range segs {
		if os.Getenv("ZZ_FULL") == "" && s != "ledgers" && s != "hooks" && s != "transactions" && s != "mocked-account" {
			continue
		}
		for _, m := range []string{"PATCH", "OPTIONS", "HEAD", "TRACE"} {
			if s != "" && s != "health" && s != "metrics" {
				put(m, "/"+s)
			}
		}
		if s != "" {
			put("GET", "//"+s)
			put("GET", "/"+strings.ToUpper(s))
		}
	}
	put("GET", "/nothing")
	put("GET", "/health/ledgers")
	put("GET", "/metrics/ledgers")
	put("POST", "/ledgersx")
	put("GET", "/x1/../ledgers")
	w.Close()
}

type zzAuth struct {
	w     *zzWorld
	n     *zzNode
	keys  map[string]string // label -> secret
	ids   map[string]string // label -> id
	short []time.Time
	cred  string
	late  bool
	last  string
}

func zzNewAuth() *zzAuth {
	w := zzNewWorld("secure", func(c *config.Configuration) { c.Server.Secure = true })
	return &zzAuth{w: w, n: w.Node("n0"), keys: map[string]string{"master": "master-secret"}, ids: map[string]string{}}
}

func (a *zzAuth) Close() { a.w.Close() }

// state is everything stored, but for when keys were last used.
func (a *zzAuth) state() string {
	var l []string
	for _, t := range []string{"ledgers", "balances", "transactions", "identity", "accounts", "api_keys", "balance_monitors", "matching_rules", "reconciliations", "external_transactions"} {
		for _, r := range a.w.db.Rows(t) {
			if t == "api_keys" {
				delete(r, "last_used_at")
			}
			l = append(l, t+fmt.Sprint(r))
		}
	}
	for _, k := range a.w.mr.Keys() {
		if strings.Contains(k, "hook") {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func zzScopes(l []interface{}) []string {
	out := []string{}
	for _, x := range l {
		m := zzP(x.(map[string]interface{}))
		if m.s("r") == "" {
			out = append(out, m.s("a"))
		} else {
			out = append(out, m.s("r")+":"+m.s("a"))
		}
	}
	return out
}

func (a *zzAuth) mint(by, owner string, scopes []string, exp time.Time) zzResp {
	return a.n.Do("POST", "/api-keys", zzM{"name": "n", "owner": owner, "scopes": scopes, "expires_at": exp}, "X-Blnk-Key", a.keys[by])
}

// served tells whether a request passed authentication and authorisation.
func zzServed(r zzResp) bool { return r.Code != 401 && r.Code != 403 }

// leak tells whether a stored or listed form of a key contains its secret.
func (a *zzAuth) leak(body string) bool {
	for l, k := range a.keys {
		if l == "master" {
			continue
		}
		if strings.Contains(body, k) {
			return true
		}
		for _, r := range a.w.db.Rows("api_keys") {
			for _, v := range r {
				if strings.Contains(fmt.Sprint(v), k) {
					return true
				}
			}
		}
		for _, c := range a.w.mr.Keys() {
			if v, err := a.w.mr.Get(c); err == nil && strings.Contains(v+c, k) {
				return true
			}
		}
	}
	return false
}

func (a *zzAuth) Do(m zzM) zzM {
	op := zzP(m)
	void := func(o zzM) zzM {
		if !a.late {
			for _, d := range a.short {
				if time.Now().After(d) {
					o["zz_skip"] = true
				}
			}
		}
		return o
	}
	switch op.s("k") {
	case "cred":
		switch op.s("kind") {
		case "none":
			a.cred = ""
		case "wrong":
			a.cred = "bm90LWEta2V5LW5vdC1hLWtleS1ub3QtYS1rZXk="
		case "master":
			a.cred = "master-secret"
		case "nearmaster":
			a.cred = "master-secreT"
		default:
			r := a.mint("master", "o", zzScopes(op.l("scopes")), time.Now().Add(time.Hour))
			if !r.OK() {
				// an unlimited key, then only its beginning is presented
				r = a.mint("master", "o", []string{"*:*"}, time.Now().Add(time.Hour))
			}
			a.cred = r.S("key")
			if op.s("kind") == "prefix" {
				r = a.mint("master", "o", []string{"*:*"}, time.Now().Add(time.Hour))
				a.cred = r.S("key")[:16]
			}
			return zzM{"ok": r.OK()}
		}
		return zzM{"ok": true}
	case "req":
		if a.last == "" {
			a.w.quiesceQueue()
			a.last = a.state()
		}
		var body interface{}
		if x := op.s("m"); x != "GET" && x != "HEAD" {
			body = zzM{"name": "x"}
		}
		h := []string{}
		if a.cred != "" {
			h = []string{"X-Blnk-Key", a.cred}
		}
		r := a.n.Do(op.s("m"), op.s("p"), body, h...)
		s := zzServed(r)
		if s {
			a.last = ""
			return zzM{"served": s, "changed": false, "code": r.Code}
		}
		if zzQuiesceFor == zzQuiesceLong {
			a.w.quiesceQueue()
		}
		return zzM{"served": s, "changed": a.state() != a.last, "code": r.Code}
	case "mint":
		exp := time.Now().Add(time.Hour)
		switch op.s("life") {
		case "past":
			exp = time.Now().Add(-time.Hour)
		case "short":
			exp = time.Now().Add(1500 * time.Millisecond)
		}
		r := a.mint(op.s("by"), op.s("owner"), zzScopes(op.l("scopes")), exp)
		if r.OK() {
			a.keys[op.s("l")], a.ids[op.s("l")] = r.S("key"), r.S("api_key_id")
			if op.s("life") == "short" {
				a.short = append(a.short, exp)
			}
		}
		return void(zzM{"served": r.OK(), "code": r.Code, "leak": a.leak("")})
	case "use":
		k := a.keys[op.s("by")]
		switch op.s("how") {
		case "tail":
			k = k[:len(k)-3] + "AA="
			if k == a.keys[op.s("by")] {
				k = k[:len(k)-3] + "BA="
			}
		case "prefix":
			k = k[:16]
		}
		var body interface{}
		if op.s("m") == "POST" {
			body = zzM{"name": "l"}
		}
		r := a.n.Do(op.s("m"), "/"+op.s("seg"), body, "X-Blnk-Key", k)
		return void(zzM{"served": zzServed(r), "code": r.Code, "leak": a.leak(string(r.Body))})
	case "list":
		p := "/api-keys"
		if op.s("owner") != "" {
			p += "?owner=" + op.s("owner")
		}
		r := a.n.Do("GET", p, nil, "X-Blnk-Key", a.keys[op.s("by")])
		out := zzM{"served": r.OK(), "code": r.Code, "leak": a.leak(string(r.Body))}
		if r.OK() {
			var l []zzM
			_ = json.Unmarshal(r.Body, &l)
			ks := zzM{}
			for i, x := range l {
				name := fmt.Sprint("?", i)
				for lab, id := range a.ids {
					if id == x["api_key_id"] {
						name = lab
					}
				}
				ks[name] = x["is_revoked"]
			}
			out["keys"] = ks
			out["n"] = len(ks)
		}
		return void(out)
	case "revoke":
		p := "/api-keys/" + a.ids[op.s("tgt")]
		if op.s("owner") != "" {
			p += "?owner=" + op.s("owner")
		}
		r := a.n.Do("DELETE", p, nil, "X-Blnk-Key", a.keys[op.s("by")])
		return void(zzM{"served": r.OK(), "code": r.Code, "leak": a.leak("")})
	case "tick":
		for _, d := range a.short {
			if x := time.Until(d) + 5*time.Millisecond; x > 0 {
				time.Sleep(x)
			}
		}
		a.late = true
		return zzM{"served": true, "leak": false}
	}
	panic("auth op " + op.s("k"))
}
