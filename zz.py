"""Shared machinery of the checks: build, TLC, harness shards, trace validation."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib
V = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(V, "spec")
BUILD = os.path.join(V, "build")
JAR = "/opt/veriftools/tla/tla2tools.jar"
T0 = time.time()

class Infra(Exception):
    """The check could not be carried out."""
class Crashed(Exception):
    """The code under test panicked."""
UNSUPPORTED = []

def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)

def build():
    t = time.time()
    r = subprocess.run([os.path.join(V, "harness", "build.sh"), BUILD], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout)
        raise Infra("harness build failed")
    log("harness built in %.1fs" % (time.time() - t))
    return os.path.join(BUILD, "zz.test")

def cfg_text(consts, inv=(), props=(), spec="Spec", constraint=None, deadlock=False, view=None, sym=None, extra=()):
    L = ["SPECIFICATION " + spec]
    L += ["INVARIANT " + i for i in inv] + ["PROPERTY " + p for p in props]
    if constraint: L.append("CONSTRAINT " + constraint)
    if view: L.append("VIEW " + view)
    if sym: L.append("SYMMETRY " + sym)
    if consts:
        L.append("CONSTANTS")
        L += ["  %s = %s" % (k, tla(v)) for k, v in consts.items()]
    L += list(extra)
    if not deadlock: L.append("CHECK_DEADLOCK FALSE")
    return "\n".join(L) + "\n"

def tla(v):
    if isinstance(v, bool): return "TRUE" if v else "FALSE"
    if isinstance(v, (set, frozenset)): return "{" + ", ".join(tla(x) for x in sorted(v, key=str)) + "}"
    if isinstance(v, (list, tuple)): return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, str): return v if v.startswith("\\") or v.startswith("mv:") else '"%s"' % v
    return str(v)

def tlc(module, cfg, args=(), env=None, timeout=800, workers=8, heap="6g", tag=""):
    """Runs TLC in its own scratch copy of spec/.  Returns (output, states, distinct)."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=work())
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        c = os.path.join(d, "run.cfg")
        open(c, "w").write(cfg)
        tmp = os.path.join(d, "tmp"); os.mkdir(tmp)
        cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + tmp, "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet" if False else "-Dzz=1",
               "-cp", JAR + ":/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-config", c] + list(args) + [os.path.join(d, module + ".tla")]
        e = dict(os.environ); e.update(env or {})
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout, cwd=d)
        except subprocess.TimeoutExpired as x:
            out = x.stdout or b""
            raise Infra("TLC timed out on " + module + "\n" + (out.decode() if isinstance(out, bytes) else out)[-2000:])
        return r.returncode, r.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)

_W = None
def work(name=None):
    global _W
    if name is not None:
        _W = os.path.join(V, "work", name)
        shutil.rmtree(_W, ignore_errors=True)
    if _W is None:
        _W = os.path.join(V, "work", "misc")
    os.makedirs(_W, exist_ok=True)
    return _W

STATES = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")
def states(out):
    m = STATES.findall(out)
    if m: return tuple(int(x.replace(",", "")) for x in m[-1])
    m = re.findall(r"The number of states generated: ([\d,]+)", out)
    return (int(m[-1].replace(",", "")), 0) if m else (0, 0)

def zzlines(out, tag):
    p = '<<"%s", ' % tag
    for l in out.splitlines():
        if l.startswith(p) and l.endswith(">>"):
            body = l[len(p):-2]
            try:
                yield json.loads(json.loads(body))
            except Exception:
                try: yield json.loads(body)
                except Exception: yield body

def exhaustive(module, consts, inv, props=(), timeout=800, **kw):
    """Checks the specification itself; any violation is a defect of the model."""
    t = time.time()
    rc, out = tlc(module, cfg_text(consts, inv, props, **kw), timeout=timeout)
    g, d = states(out)
    if rc != 0 or "No error has been found" not in out:
        sys.stdout.write(out[-4000:])
        raise Infra("specification %s does not satisfy its own invariants" % module)
    log("TLC %s: %d states, %d distinct, no error (%.1fs)" % (module, g, d, time.time() - t))
    return g, d

def generate(module, consts, num, depth, seed, inv=(), tag="ZZPROG", timeout=600, procs=4):
    """Behaviours of the specification, drawn by TLC's simulator."""
    import concurrent.futures as cf
    t = time.time()
    per = (num + procs - 1) // procs
    def one(k):
        rc, out = tlc(module, cfg_text(consts, inv), ["-simulate", "num=%d" % per, "-depth", str(depth), "-seed", str(seed * 1000 + k)], workers=1, timeout=timeout, heap="2g")
        if rc != 0:
            i = out.find("Error:")
            sys.stdout.write(out[max(i, 0):max(i, 0) + 1200] + "\n...\n" + out[-1500:])
            raise Infra("TLC simulation of %s failed" % module)
        return out
    with cf.ThreadPoolExecutor(procs) as ex:
        outs = list(ex.map(one, range(procs)))
    progs, seen, st = [], set(), 0
    for o in outs:
        st += states(o)[0]
        for p in zzlines(o, tag):
            k = json.dumps(p, sort_keys=True)
            if k not in seen:
                seen.add(k); progs.append(p)
    log("TLC simulated %s: %d behaviours, %d states (%.1fs)" % (module, len(progs), st, time.time() - t))
    kinds = {}
    for p in progs:
        for s in p if isinstance(p, list) else []:
            if isinstance(s, dict) and s.get("exp") == []: s["exp"] = {}
            if isinstance(s, dict) and "op" in s: kinds[s["op"].get("k")] = kinds.get(s["op"].get("k"), 0) + 1
    if kinds: log("   actions: " + ", ".join("%s %d" % x for x in sorted(kinds.items(), key=lambda x: str(x[0]))))
    if not progs: raise Infra("no behaviours generated from " + module)
    return progs, st

def ours(trace):
    """A panic whose innermost frame of this repository is not the harness's own."""
    for l in trace.splitlines():
        if "/repo/" in l: return "zzverif" not in l and "/zz_" not in l
    return False

def harness(mode, env=None, inp=None, shards=8, timeout=400, name=None):
    """Runs a harness mode on the real code; returns its output records."""
    t = time.time()
    name = name or mode
    e = dict(os.environ); e.update({"ZZ_MODE": mode, "ZZ_SHARDS": str(shards)}); e.update({k: str(v) for k, v in (env or {}).items()})
    if inp is not None:
        p = os.path.join(work(), name + ".in")
        with open(p, "w") as f:
            for x in inp: f.write(json.dumps(x) + "\n")
        e["ZZ_IN"] = p
    ps = []
    for i in range(shards):
        o = os.path.join(work(), "%s.%d.out" % (name, i))
        lf = open(os.path.join(work(), "%s.%d.log" % (name, i)), "w")
        ee = dict(e, ZZ_OUT=o, ZZ_SHARD=str(i))
        ps.append((subprocess.Popen([os.path.join(BUILD, "zz.test"), "-test.run", "TestZZ$", "-test.timeout", "%ds" % timeout], env=ee, stdout=lf, stderr=subprocess.STDOUT, cwd="/repo/cmd"), o, lf))
    recs, bad, crash = [], None, None
    for i, (p, o, lf) in enumerate(ps):
        try: rc = p.wait(timeout=timeout + 20)
        except subprocess.TimeoutExpired:
            p.kill(); rc = -9
        lf.close()
        txt = open(lf.name).read()
        if rc != 0 or "ZZ-DONE" not in txt:
            if "\npanic: " in "\n" + txt and "ZZ-HARNESS" not in txt and "panic: test timed out" not in txt and ours(txt.split("panic: ", 1)[1]):
                crash = "harness %s shard %d: panic: %s" % (mode, i, txt.split("panic: ", 1)[1][:3000])
            bad = bad or "harness %s shard %d failed rc=%s\n%s" % (mode, i, rc, txt[-3000:])
        if "PGSIM-UNSUPPORTED" in txt:
            for l in txt.splitlines():
                if "PGSIM-UNSUPPORTED" in l: print(l); UNSUPPORTED.append(l)
        if os.path.exists(o):
            for l in open(o):
                try: recs.append(json.loads(l))
                except ValueError: bad = bad or "truncated output"
    if crash: raise Crashed(crash)
    if bad: raise Infra(bad)
    log("harness %s: %d records (%.1fs)" % (name, len(recs), time.time() - t))
    return recs

def validate(recs, watch, module="LedgerTrace", extra=None, timeout=700, chunk=4000):
    """Checks recorded executions against the trace specification.  Returns (violations, states, distinct traces)."""
    t = time.time()
    uniq = {}
    for r in recs:
        k = hashlib.sha1(json.dumps(r["ev"], sort_keys=True).encode()).hexdigest()
        uniq.setdefault(k, []).append(r)
    reps = [v[0] for v in uniq.values()]
    viols, st = [], 0
    for c in range(0, len(reps), chunk):
        part = reps[c:c + chunk]
        p = os.path.join(work(), "traces.%s.%d.ndjson" % (module, c))
        with open(p, "w") as f:
            for r in part: f.write(json.dumps(r) + "\n")
        consts = {"Watch": set(watch)}; consts.update(extra or {})
        rc, out = tlc(module, cfg_text(consts, ["NoViolation"]), ["-continue"], env={"TRACE": p}, timeout=timeout)
        ends = len(set(map(str, zzlines(out, "ZZEND"))))
        vs = list(zzlines(out, "ZZVIOL"))
        st += states(out)[0]
        if ends != len(set(r["id"] for r in part)) or (rc != 0 and not vs):
            sys.stdout.write(out[-3000:])
            raise Infra("trace validation incomplete: %d of %d traces" % (ends, len(part)))
        for v in vs:
            v["trace"] = part[v["n"] - 1]
            viols.append(v)
        os.unlink(p)
    log("TLC validated %d distinct traces of %d executions, %d states, %d violations (%.1fs)" % (len(reps), len(recs), st, len(viols), time.time() - t))
    return viols, st, len(reps)
