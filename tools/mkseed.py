#!/usr/bin/env python3
"""mkseed.py DEF.py...   build seeded/<id>/ from a definition and try it in a scratch copy:
   the patch applies and builds, the demo passes without it and fails with it.
   DEF defines ID, PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (Go test source, func TestDemo)."""
import io, json, os, shutil, subprocess, sys, tarfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/sd"
DEMO_SH = """#!/bin/bash
# Runs demo_test.go.txt on /repo's working tree, against an in-memory database and redis.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 3
trap 'rm -rf "$T"' EXIT
tar xzf "$D/kit.tgz" -C "$T" && cp "$D/demo_test.go.txt" "$T/harness/cmdtest/zz_demo_test.go" || exit 3
ZZ_REPO="${ZZ_REPO:-$PWD}" bash "$T/harness/build.sh" "$T/out" > "$T/log" 2>&1 || { tail -20 "$T/log"; exit 3; }
cd "$T" && timeout 200 ./out/zz.test -test.run '^TestDemo$' -test.v 2>&1 | grep -v 'level=' | tail -30
exit "${PIPESTATUS[0]}"
"""
PRE = r"""package main

import (
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/blnkfinance/blnk/config"
	"github.com/blnkfinance/blnk/internal/zzverif/pgsim"
)

var _ = errors.New
var _ = time.Now

type demo struct {
	*testing.T
	w *zzWorld
	n *zzNode
}

func newDemo(t *testing.T, tweak func(*config.Configuration)) *demo {
	w := zzNewWorld("", tweak)
	return &demo{t, w, w.Node("n1")}
}

func (d *demo) balance() string {
	r := d.n.Do("POST", "/balances", zzM{"ledger_id": "general_ledger_id", "currency": "USD"})
	if r.S("balance_id") == "" {
		d.Fatal("no balance: " + string(r.Body))
	}
	return r.S("balance_id")
}

func (d *demo) post(ref, src, dst string, amt int64, extra zzM) zzResp {
	b := zzM{"precise_amount": amt, "precision": 1, "currency": "USD", "reference": ref, "source": src, "destination": dst, "description": "demo"}
	for k, v := range extra {
		b[k] = v
	}
	return d.n.Do("POST", "/transactions", b)
}

func (d *demo) ok(r zzResp) string {
	d.Helper()
	if !r.OK() {
		d.Fatalf("refused: %d %s", r.Code, r.Body)
	}
	return r.S("transaction_id")
}

func (d *demo) fund(id string, amt int64) {
	d.ok(d.post("fund-"+id, "@world", id, amt, zzM{"allow_overdraft": true, "skip_queue": true}))
}

func (d *demo) is(id, bal, inflight string) {
	d.Helper()
	r := d.n.Do("GET", "/balances/"+id, nil)
	got := fmt.Sprintf("%v %v", r.J["balance"], r.J["inflight_balance"])
	if got != bal+" "+inflight {
		d.Errorf("balance is %s, expected %s %s", got, bal, inflight)
	}
}

// once runs f just before node n's first statement that contains match.
func (d *demo) once(n *zzNode, match string, f func()) {
	var o sync.Once
	n.inst.Gate = func(si *pgsim.StmtInfo) error {
		if strings.Contains(si.SQL, match) {
			o.Do(f)
		}
		return nil
	}
}

// after runs f just after node n's first statement that contains match.
func (d *demo) after(n *zzNode, match string, f func()) {
	var o sync.Once
	n.inst.After = func(si *pgsim.StmtInfo, err error) error {
		if strings.Contains(si.SQL, match) {
			o.Do(f)
		}
		return nil
	}
}

// task finds the queued task of a reference.
func (d *demo) task(ref string) zzTask {
	for _, q := range d.w.TxQueues() {
		for _, k := range d.w.Tasks(q) {
			if strings.Contains(string(k.Payload), `"`+ref+`_q"`) {
				return k
			}
		}
	}
	d.Fatal("no task for " + ref)
	return zzTask{}
}

// age makes everything recorded so far look older.
func (d *demo) age(by time.Duration) {
	for _, x := range d.w.db.Rows("transactions") {
		id := x["transaction_id"]
		if ts, ok := x["created_at"].(pgsim.TS); ok {
			ts.T = ts.T.Add(-by)
			d.w.db.Poke("transactions", func(m map[string]pgsim.Value) bool { return m["transaction_id"] == id }, map[string]pgsim.Value{"created_at": ts})
		}
	}
}

func (d *demo) status(ref string) string {
	for _, r := range d.w.db.Rows("transactions") {
		if r["reference"] == ref {
			return fmt.Sprint(r["status"])
		}
	}
	return ""
}
"""
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def copy():
    if not os.path.exists(S + "/repo/.git"):
        os.makedirs(S, exist_ok=True); sh("cp -a /repo %s/repo" % S)
    sh("cd %s/repo && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq" % S)
def run(path):
    d = {"PRE": PRE}; exec(open(path).read(), d)
    copy()
    out = os.path.join(V, "seeded", d["ID"]); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    for f, old, new in d["EDITS"]:
        p = S + "/repo/" + f; s = open(p).read()
        assert s.count(old) == d.get("COUNT", 1), (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    if d.get("FMT", True): print(sh("cd %s/repo && gofmt -l %s" % (S, " ".join(sorted({e[0] for e in d["EDITS"]})))).stdout.strip())
    open(out + "/patch.diff", "w").write(sh("cd %s/repo && git diff" % S).stdout)
    json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    open(out + "/demo.sh", "w").write(DEMO_SH); os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo_test.go.txt", "w").write(d["DEMO"])
    with tarfile.open(out + "/kit.tgz", "w:gz") as t:
        for root, _, fs in os.walk(V + "/harness"):
            for f in sorted(fs):
                p = os.path.join(root, f)
                if f.endswith((".go", ".sh", ".py")): t.add(p, arcname="harness/" + os.path.relpath(p, V + "/harness"))
    b = sh(". /opt/vp/env.sh; cd %s/repo && go build ./... && go vet . ./database ./model 2>&1 | head -5" % S, executable="/bin/bash")
    print(d["ID"], "build", b.returncode, b.stdout[-500:])
    a = sh("cd /repo && bash %s/demo.sh" % out); z = sh("cd %s/repo && ZZ_REPO=%s/repo bash %s/demo.sh" % (S, S, out))
    print(d["ID"], "clean", a.returncode, "patched", z.returncode); 
    if a.returncode: print(a.stdout[-2500:])
    print("   patched says:", z.stdout[-400:])
    return a.returncode == 0 and z.returncode == 1
def suite(i):
    """the stable tests, with the patch"""
    copy(); print(sh("cd %s/repo && git apply %s/seeded/%s/patch.diff" % (S, V, i)).stdout)
    r = sh("cd %s/repo && sed 's#cd /repo#cd %s/repo#' /opt/vp/env.sh > %s/env.sh && sed 's#/opt/vp/env.sh#%s/env.sh#; s#> /opt/vp/last-test.log#> /dev/null#' /opt/vp/test.sh > %s/test.sh && bash %s/test.sh %s/t.json" % ((S,) * 7))
    b = json.load(open("/opt/vp/BASELINE.json")); t = json.load(open(S + "/t.json"))
    m = sorted(set(b["stable"]) - set(t["passed"])); print(i, "suite: missing", len(m), m[:6])
if sys.argv[1] == "suite":
    for i in sys.argv[2:]: suite(i)
else:
    for p in sys.argv[1:]: print("OK" if run(p) else "NOT OK", p)
