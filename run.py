#!/usr/bin/env python3
"""run.py check <ID> [quick|thorough]   decide one property on /repo's working tree
   run.py all [quick|thorough]          all of them
   run.py setup                         build the harness and parse the specifications"""
import fnmatch, glob, json, os, random, subprocess, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import zz
from zz import log, Infra, V

class Ctx:
    def __init__(s, pid, tier):
        s.pid, s.tier, s.seed = pid, tier, int(os.environ.get("VERIF_SEED", "1") or 1)
        s.thorough = tier == "thorough"
        s.states = s.trans = s.traces = s.execs = 0
        s.samples, s.viol, s.parts, s.assume = [], [], [], []
        s.level, s.extra = "model_checking", {}
    def n(s, quick, thorough): return thorough if s.thorough else quick
    def violation(s, key, what, replay): s.viol.append((key, what, replay))
    def sample(s, x):
        if len(s.samples) < 6: s.samples.append(x)
    def part(s, name, **kw): s.parts.append(dict(part=name, **kw))

    # ---- components ----
    def model(s, module, consts, inv, props=(), **kw):
        g, d = zz.exhaustive(module, consts, inv, props, **kw)
        s.states += d; s.trans += g
        s.part("exhaustive " + module, constants={k: str(v) if not isinstance(v, (set, frozenset)) else sorted(map(str, v)) for k, v in consts.items()}, states=d, transitions=g, invariants=list(inv) + list(props))

    def refuted(s, module, consts, inv, what, **kw):
        """The specification without one of its guards must break the invariant:
        shows that the invariant can fail and what the guard is for."""
        rc, out = zz.tlc(module, zz.cfg_text(consts, inv, **kw))
        if rc not in (12, 13):  # 12: an invariant is violated, 13: a temporal property is
            sys.stdout.write(out[-3000:])
            raise Infra("%s: invariant not violated without %s" % (module, what))
        g, d = zz.states(out)
        s.states += d; s.trans += g
        s.part("counterexample expected: " + what, states=d)

    def traces_(s, recs, watch, module="LedgerTrace", extra=None, keyf=None):
        v, st, n = zz.validate(recs, watch, module, extra)
        s.states += st; s.trans += st; s.traces += n; s.execs += len(recs)
        s.part("trace validation " + module, executions=len(recs), distinct_traces=n, states=st)
        if recs: s.sample({"trace": recs[len(recs) // 2]["id"], "events": recs[len(recs) // 2]["ev"][-4:]})
        seen = set()
        for x in v:
            for tag in x["tags"]:
                if tag not in watch: continue
                key = "%s:%s" % (x["id"], tag)
                if key in seen: continue
                seen.add(key)
                s.violation(key, "execution %s is not a behaviour of %s: %s at event %s" % (x["id"], module, tag, x["at"]), {"tag": tag, "at": x["at"], "trace": x["trace"]})

    def diffs(s, recs, name):
        """Outcome of replaying specification behaviours: any difference is a violation."""
        d = [r for r in recs if r.get("diff")]
        for x in d:
            s.violation("%s:%s:%s" % (name, x.get("k"), x.get("what")), "%s %s step %s (%s): expected %s, the code did %s" % (name, x.get("id"), x.get("step"), x.get("what"), x.get("want"), x.get("got")), x)
        return [r for r in recs if not r.get("diff")]

def reply(ctx, t0):
    known, fixed = [], []
    kf = os.path.join(V, "known-findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l.startswith("open:"):
                f = dict(x.split("=", 1) for x in l[5:].split()[:2])
                known.append((f["property"], f["key"], l[5:].split(None, 2)[2]))
    new, kn = [], {}
    for key, what, rep in ctx.viol:
        for p, pat, text in known:
            if p == ctx.pid and fnmatch.fnmatchcase(key, pat):
                kn.setdefault((pat, text), []).append(key); break
        else:
            new.append((key, what, rep))
    for (pat, text), keys in kn.items():
        print("KNOWN-FINDING: property=%s %s (%d times, e.g. %s)" % (ctx.pid, text, len(keys), keys[0]))
    ev = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level=ctx.level,
              coverage=dict(states=ctx.states, transitions=ctx.trans, traces_validated_against_impl=ctx.traces, executions_of_the_code=ctx.execs, samples=ctx.samples or ["none"], parts=ctx.parts, **ctx.extra),
              assumptions=ctx.assume, wall_s=round(time.time() - t0, 1), violations=len(new), known_findings=sum(len(k) for k in kn.values()))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", ctx.pid + ".json"), "w"), indent=1)
    if new:
        for i, (key, what, rep) in enumerate(new[:10]):
            p = os.path.join(zz.work(), "violation-%d.json" % i)
            json.dump({"property": ctx.pid, "key": key, "what": what, "replay": rep, "seed": ctx.seed}, open(p, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (ctx.pid, p))
            print("   " + what[:600])
        if len(new) > 10: print("   ... and %d more" % (len(new) - 10))
        return 1
    log("%s held: %d model states, %d executions of the code (%d distinct traces)" % (ctx.pid, ctx.states, ctx.execs, ctx.traces))
    return 0

def check(pid, tier):
    import checks
    os.environ["VERIF_TIER"] = tier
    zz.work(pid)
    t0 = time.time()
    ctx = Ctx(pid, tier)
    try:
        try:
            zz.build()
            checks.CHECKS[pid](ctx)
        except zz.Crashed as e:
            ctx.violation("crash", "the code crashed: " + str(e)[-1500:], {"output": str(e)[-6000:]})
        if ctx.viol and zz.UNSUPPORTED:
            raise Infra("statements the database simulator does not know: %s" % zz.UNSUPPORTED[:3])
        return reply(ctx, t0)
    except Infra as e:
        print("CHECK-ERROR %s: %s" % (pid, e))
        return 2

def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        zz.work("setup"); zz.build()
        for m in sorted(glob.glob(os.path.join(zz.SPEC, "*.tla"))):
            pass
        return 0
    tier = a[-1] if a[-1] in ("quick", "thorough") else os.environ.get("VERIF_TIER", "quick")
    if a[:1] == ["check"]:
        return check(a[1], tier)
    if a[:1] == ["all"]:
        import checks
        rc = 0
        for p in sorted(checks.CHECKS):
            t = time.time()
            r = subprocess.run([sys.executable, __file__, "check", p, tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print("%s rc=%d %.0fs %s" % (p, r.returncode, time.time() - t, "" if r.returncode == 0 else r.stdout[-1500:]), flush=True)
            rc = rc or r.returncode
        return rc
    print(__doc__); return 2

if __name__ == "__main__":
    sys.exit(main())
