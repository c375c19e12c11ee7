"""The checks, one function per property; see DESIGN.md."""
import json, os
import zz
from zz import Infra, log

NAMES, AMTS, LIMS = {"A", "B", "C"}, {1, 2, 3, 5, 7}, {2, 4}
CORE = {"effect", "equation", "orphan", "dupbalance", "notempty", "mutated", "badstatus", "dupid", "badamount", "unaccounted", "sum", "erreffect"}

def model(ctx, scn, inv, props=("Finished",), **over):
    c = {"Scn": scn, "Expiries": 2, "Crashes": 1, "UseLock": True, "UseVersion": True, "UseRef": True, "UseRecheck": True}
    c.update(over)
    ctx.model("Ledger", c, inv, props)

def refuted(ctx, scn, guard, inv, exp=2):
    c = {"Scn": scn, "Expiries": exp, "Crashes": 1, "UseLock": True, "UseVersion": True, "UseRef": True, "UseRecheck": True}
    c[guard] = False
    ctx.refuted("Ledger", c, [inv], "%s without %s breaks %s" % (scn, guard, inv))

def seq(ctx, feat, quick, thorough, watch, fifo=False, maxlen=12, depth=20, scale=1, names=NAMES, amts=AMTS, lims=LIMS, qcheck=False, **opt):
    """Programs drawn from LedgerSeq, replayed on the real API, their recorded executions validated."""
    progs, st = zz.generate("LedgerSeq", {"MaxLen": maxlen, "Names": names, "Amts": amts, "Lims": lims, "Feat": set(feat), "Fifo": fifo, "QCheck": qcheck, "Sim": True},
                            ctx.n(quick, thorough), depth, ctx.seed, ["Inv"])
    ctx.states += st
    env = {"ZZ_SCALE": scale}
    if fifo: env["ZZ_NOCOAL"] = 1
    if qcheck: env["ZZ_QCHECK"] = 1
    env.update({"ZZ_" + k.upper(): 1 for k in opt if opt[k]})
    recs = zz.harness("seq", env, progs)
    ctx.execs += len(progs)
    ctx.part("replay of LedgerSeq behaviours", programs=len(progs), steps=sum(len(p) for p in progs), features=sorted(feat), generator_states=st)
    ctx.sample({"program": [s["op"] for s in progs[0]][:4]})
    ok = ctx.diffs(recs, "program")
    ctx.traces_(ok, set(watch))

def conc(ctx, watch, only=None, depth=None):
    recs = zz.harness("conc", {"ZZ_DEPTH": depth or ctx.n(1, 2), "ZZ_ONLY": ",".join(only or [])})
    ctx.part("systematic schedules", scenarios=sorted(set(r["sc"] for r in recs)), schedules=len(recs))
    ctx.traces_(recs, set(watch))

def c01(ctx):
    for s in ("spend", "hold", "settle", "void"):
        model(ctx, s, ["Equation", "Conservation", "Journal"])
    seq(ctx, {"skip", "queue", "inflight", "commit", "void", "refund", "bulk", "lim", "unl", "dup"}, 500, 6000, CORE | {"childdiffers"})
    # each amount fits 64 bits, their sums do not
    seq(ctx, {"skip", "queue", "inflight", "commit", "void", "refund", "unl"}, 200, 2000, CORE | {"childdiffers"}, scale=1300000000000000000)
    conc(ctx, CORE, depth=ctx.n(1, 2))

def c02(ctx):
    model(ctx, "spend", ["NoBad"]); model(ctx, "hold", ["NoBad"])
    refuted(ctx, "spend", "UseVersion", "NoBad")
    seq(ctx, {"skip", "queue", "inflight", "lim", "unl", "commit", "void"}, 700, 8000, {"overspend", "erreffect"})
    run(ctx, "plain", {"expect", "overspend"}, ["qcheck"], "queued amounts count as spent")
    conc(ctx, {"overspend"}, ["spend-spend", "spend-credit", "limit-limit", "hold-spend", "commit-spend"], 2)

def c03(ctx):
    model(ctx, "ref", ["RefOnce", "Answered"])
    refuted(ctx, "ref", "UseRef", "RefOnce")
    seq(ctx, {"skip", "queue", "inflight", "dup", "unl"}, 600, 6000, {"dupref", "erreffect", "twooutcomes"})
    conc(ctx, {"dupref", "erreffect"}, ["same-ref", "same-ref-other-balances"], 2)

def c05(ctx):
    for s in ("spend", "hold", "settle"):
        model(ctx, s, ["Conservation", "Journal", "NoBad"])
    refuted(ctx, "spend", "UseVersion", "Conservation")
    conc(ctx, {"effect", "version", "unaccounted", "sum", "equation", "overspend", "erreffect"}, None, ctx.n(1, 2))
    run(ctx, "race", {"effect", "version", "unaccounted", "sum", "equation", "overspend"}, ["deliver-spend", "deliver-spend+coal", "deliver-spend2+coal", "deliver-spend3+coal", "deliver-part+coal", "deliver-recover+coal"], "workers and direct postings", DEPTH=ctx.n(1, 2))

def c06(ctx):
    for s in ("settle", "void", "hold"):
        model(ctx, s, ["HoldBound", "Equation"])
    refuted(ctx, "settle", "UseRecheck", "HoldBound"); refuted(ctx, "void", "UseRecheck", "HoldBound")
    seq(ctx, {"skip", "queue", "inflight", "commit", "void", "unl", "early", "qsettle"}, 700, 8000, {"overcommit", "aftervoid", "voidamount", "erreffect", "effect"})
    conc(ctx, {"overcommit", "aftervoid", "voidamount", "erreffect", "effect"},
         ["commit-commit", "commit-partial", "commit-void", "commit-commit-other", "commit-void-other", "void-void", "commit-spend", "two-holds-commit"], 2)

def c07(ctx):
    model(ctx, "refund", ["RefundOnce", "Conservation"])
    refuted(ctx, "refund", "UseRef", "RefundOnce", 4)
    seq(ctx, {"skip", "queue", "inflight", "commit", "refund", "unl"}, 700, 8000, {"dblrefund", "refundamount", "erreffect", "twooutcomes"})
    conc(ctx, {"dblrefund", "refundamount", "erreffect"}, ["refund-refund", "refund-spend"], 2)


QINV = ["OneOutcome", "NoStale", "Journal", "Funded", "Serial"]
QBASE = dict(Workers={"w1", "w2"}, Redeliveries=1, Crashes=1, Losses=1, Coalesce=True, UseRef=True, UseVersion=True, UseLateAck=True, UseRecovery=True, UseFallback=True)
def queue(ctx, *scns, **over):
    """The design of asynchronous posting, exhaustively."""
    for s in scns:
        ctx.model("Queue", dict(QBASE, Scn=s, **over), QINV, ["Drained"])
def queue_deep(ctx):
    if ctx.thorough:
        queue(ctx, "mixed", Crashes=0, Losses=0); queue(ctx, "mixed", Redeliveries=0, Losses=0); queue(ctx, "mixed", Redeliveries=0, Crashes=0)
def qrefuted(ctx, scn, guard, inv, **over):
    c = dict(QBASE, Scn=scn, **over); c[guard] = False
    if inv == "Drained": ctx.refuted("Queue", c, [], "%s without %s never drains" % (scn, guard), props=["Drained"])
    else: ctx.refuted("Queue", c, [inv], "%s without %s breaks %s" % (scn, guard, inv))

def run(ctx, mode, watch, only=None, part=None, **env):
    """One harness mode on the real code, its executions validated."""
    e = {"ZZ_" + k: v for k, v in env.items()}
    if only: e["ZZ_ONLY"] = ",".join(only)
    recs = zz.harness(mode, e, name="%s-%d" % (mode, len(ctx.parts)))
    ctx.part(part or mode, scenarios=sorted(set(r["sc"] for r in recs)), executions=len(recs), **env)
    ctx.traces_(recs, set(watch))

QTAGS = {"twooutcomes", "nooutcome", "childdiffers", "noreason", "dupref", "expect", "effect", "unaccounted", "sum", "version", "overspend"}
DIRECT = ["direct", "direct-first-use", "hold", "commit", "void", "void-rest", "refund"]

def c04(ctx):
    for s in ("spend", "ref", "settle", "refund"):
        model(ctx, s, ["Journal", "RefOnce", "Conservation"])
    run(ctx, "crash", {"effect", "orphan", "expect", "unaccounted", "sum", "equation", "version", "dupref"}, DIRECT + ["worker", "commit-queued", "void-queued"] + (["worker+coal", "bulk-atomic"] if ctx.thorough else []),
        "process death and database faults at every statement")

def c08(ctx):
    seq(ctx, {"skip", "inflight", "bulk", "dup", "unl"}, 600, 6000, {"effect", "unaccounted", "sum", "erreffect"})
    run(ctx, "plain", {"expect", "effect", "unaccounted"}, ["bulk-fail", "bulk-page"], "atomic bulk requests, every failing position")
    run(ctx, "crash", {"expect", "effect", "unaccounted"}, ["bulk-atomic", "bulk-atomic-inflight"], "a database fault at every statement of an atomic bulk request")

def c10(ctx):
    queue(ctx, "plain", "chain"); queue(ctx, "mixed", Crashes=0, Losses=0, Coalesce=False); queue_deep(ctx)
    qrefuted(ctx, "plain", "UseRef", "OneOutcome"); qrefuted(ctx, "plain", "UseLateAck", "Drained", UseRecovery=False, Losses=0)
    run(ctx, "crash", QTAGS, ["worker", "worker-mixed", "refund-queued", "commit-queued", "void-queued", "bulk-queued"] + (["worker+coal", "worker-mixed+coal"] if ctx.thorough else []), "a worker dies or its database fails at every statement, then redelivery")
    run(ctx, "race", QTAGS, ["deliver-deliver", "deliver-deliver+coal", "deliver-deliver-short", "deliver-part", "deliver-spend", "deliver-commitq", "commitq-void"], "the same tasks delivered to two workers", DEPTH=ctx.n(1, 2))
    seq(ctx, {"skip", "queue", "inflight", "lim", "unl", "dup", "refund"}, 500, 6000, QTAGS)

def c11(ctx):
    queue(ctx, "plain", "chain"); queue_deep(ctx)
    qrefuted(ctx, "plain", "UseFallback", "Drained", UseRecovery=False, Losses=0)
    qrefuted(ctx, "plain", "UseVersion", "NoStale")
    seq(ctx, {"skip", "queue", "inflight", "lim", "unl"}, 700, 8000, QTAGS)
    run(ctx, "plain", QTAGS, ["work", "qcheck"], "coalesced and single processing of the same programs")
    run(ctx, "crash", QTAGS, ["worker+coal", "worker-mixed+coal"], "faults and deaths while a group is committed")
    run(ctx, "race", QTAGS, ["deliver-deliver+coal", "deliver-deliver-short+coal", "deliver-part+coal", "deliver-part2+coal", "deliver-part3+coal", "deliver-part-short+coal", "deliver-spend+coal", "deliver-spend2+coal", "deliver-spend3+coal", "deliver-recover+coal"], "groups racing with other workers", DEPTH=ctx.n(1, 2))

def c12(ctx):
    queue(ctx, "plain", "chain", Losses=2); queue_deep(ctx)
    qrefuted(ctx, "plain", "UseRecovery", "Drained")
    run(ctx, "plain", QTAGS, ["recover"], "what recovery must do and leave alone")
    run(ctx, "crash", QTAGS, ["worker-recover", "recover-recover"] + (["worker-recover+coal"] if ctx.thorough else []), "recovery interrupted at every statement")
    run(ctx, "race", QTAGS, ["deliver-recover", "deliver-recover+coal", "deliver-recover-short", "recover-recover2"], "recovery racing with the original task", DEPTH=ctx.n(1, 2))

def prog(ctx, name, progs, what, cfg=None, states=0, shards=8, timeout=400):
    """Programs of a sequential specification replayed on the code, every observation compared."""
    env = {"ZZ_PROG": name}
    if cfg: env["ZZ_CFG"] = json.dumps(cfg)
    recs = zz.harness("prog", env, progs, name="%s-%d" % (name, len(ctx.parts)), shards=shards, timeout=timeout)
    if len(set(r["id"] for r in recs)) != len(progs): raise Infra("%s: %d of %d programs answered" % (name, len(recs), len(progs)))
    ctx.execs += len(progs); ctx.states += states
    ctx.part(what, programs=len(progs), steps=sum(len(p) for p in progs), generator_states=states, cut_short=sum(1 for r in recs if r.get("cut")))
    ctx.sample({"program": progs[0][:3]})
    ctx.diffs(recs, name)
    return recs

def gen(ctx, module, consts, name, quick, thorough, depth, what, cfg=None, inv=("Inv",)):
    progs, st = zz.generate(module, dict(consts, Sim=True), ctx.n(quick, thorough), depth, ctx.seed, list(inv))
    return prog(ctx, name, progs, what, cfg, st)

def c21(ctx):
    routes = zz.harness("routes", {"ZZ_FULL": 1} if ctx.thorough else {})
    if len(routes) < 40: raise Infra("only %d routes" % len(routes))
    p = os.path.join(zz.work(), "routes.ndjson")
    open(p, "w").write("".join(json.dumps(r) + "\n" for r in sorted(routes, key=json.dumps)))
    rc, out = zz.tlc("AuthRoutes", zz.cfg_text({"Full": ctx.thorough}, ["Inv"]), env={"ROUTES": p}, workers=1)
    if rc: raise Infra("AuthRoutes: " + out[-2000:])
    progs = list(zz.zzlines(out, "ZZPROG"))
    prog(ctx, "authroutes", progs, "every route with every shape of credential", states=zz.states(out)[0])
    ctx.part("routes", n=len(routes))

def c22(ctx):
    ctx.model("AuthKeys", {"MaxLen": 3, "Sim": False}, ["Inv"], ["NoRevival"])
    gen(ctx, "AuthKeys", {"MaxLen": 14}, "authkeys", 160, 2500, 20, "lives of API keys")

def c14(ctx):
    G = {"Expiries": 2, "UseCompare": True, "UseRollback": True, "UseOrder": True}
    for scn in ("one", "pair", "ring"):
        ctx.model("Lock", dict(G, Scn=scn), ["Exclusion", "Held", "NothingLeft"] if scn == "x" else ["Exclusion", "Held"])
        ctx.model("Lock", dict(G, Scn=scn, Expiries=0), ["Exclusion", "Held", "NothingLeft"], ["Progress"])
    ctx.refuted("Lock", dict(G, Scn="pair", UseCompare=False), ["Held"], "deleting without comparing")
    ctx.refuted("Lock", dict(G, Scn="ring", UseRollback=False, Expiries=0), ["NothingLeft"], "keeping what was taken")
    ctx.refuted("Lock", dict(G, Scn="pair", UseOrder=False, Expiries=0), [], "taking keys in different orders", props=["Progress"])
    LTAGS = {"theft", "strange", "dropped", "partial", "ttl", "leftover", "refused", "class", "gaveup", "stuck", "answer", "deadlock", "unknown"}
    for n in (2, 3):
        progs, st = zz.generate("LockSched", {"N": n, "Calls": 5, "Steps": 30, "Sim": True}, ctx.n(1600, 20000), 3, ctx.seed)
        recs = zz.harness("lock", {}, progs, name="lock%d" % n, shards=24, timeout=700)
        ctx.states += st
        ctx.part("schedules of lock commands", clients=n, programs=len(progs))
        ctx.traces_(recs, LTAGS, module="LockTrace")

def c24(ctx):
    ctx.model("Tokens", {"MaxLen": 3, "Sim": False}, ["Inv"])
    gen(ctx, "Tokens", {"MaxLen": 14}, "tokens", 800, 10000, 20, "lives of tokenized identities")

def c26(ctx):
    ctx.model("Meta", {"MaxLen": 3, "Sim": False}, ["Inv"], ["Keeps"])
    gen(ctx, "Meta", {"MaxLen": 12}, "meta", 500, 6000, 20, "metadata updates among postings")

def c31(ctx):
    F = {"skip", "queue", "inflight", "commit", "void", "refund", "lim", "unl", "dup"}
    seq(ctx, F, 400, 5000, {"twooutcomes", "nooutcome"}, queued=1)
    seq(ctx, F, 400, 5000, {"twooutcomes", "nooutcome", "erreffect"}, queued=1, qcheck=True, amts={1, 2, 3, 5})
    seq(ctx, F, 150, 1500, {"twooutcomes", "nooutcome"}, queued=1, scale=1300000000000000000)
    run(ctx, "plain", {"expect", "overspend"}, ["qcheck"], "queued amounts count as spent")

def c19(ctx):
    F = {"skip", "queue", "inflight", "commit", "void", "refund", "bulk", "lim", "unl", "dup", "early"}
    seq(ctx, F, 300, 5000, {"effect"}, dry=1)
    seq(ctx, F - {"bulk"}, 250, 3000, {"effect"}, dry=1, qcheck=True)
    seq(ctx, F - {"queue", "early"}, 150, 3000, {"effect"}, dry=1, scale=1300000000000000000)

def c09(ctx):
    ctx.model("Split", {"MaxLen": 2, "Sim": False, "Exact": False}, ["Whole"])
    for ex in (False, True):
        gen(ctx, "Split", {"MaxLen": 12, "Exact": ex}, "split", 150, 2500, 16, "splits" + (" with 20-digit amounts" if ex else ""), {"exact": ex}, ["Whole"])

def c27(ctx):
    ctx.model("Amounts", {"MaxLen": 4, "Sim": False}, ["Whole", "Canonical"])
    for coal in (False, True):
        gen(ctx, "Amounts", {"MaxLen": 14}, "amounts", 150, 2500, 20, "amounts" + (" with coalescing" if coal else ""), {"coal": coal}, ["Whole", "Canonical"])

def c29(ctx):
    ctx.model("Indicators", {"MaxLen": 2, "Sim": False}, ["Apart", "Known"])
    for cfg in ({"coal": False, "qcheck": True}, {"coal": True, "qcheck": False}):
        gen(ctx, "Indicators", {"MaxLen": 12}, "indicators", 160, 2500, 16, "uses of indicators", cfg, ["Apart", "Known"])

def c15(ctx):
    ctx.model("History", {"MaxLen": 2, "Sim": False, "Late": True}, ["Daily"])
    for coal in (False, True):
        gen(ctx, "History", {"MaxLen": 22, "Late": False}, "history", 180, 4000, 26, "histories and the instants asked about", {"coal": coal}, ["Agree", "Daily"])
    gen(ctx, "History", {"MaxLen": 12, "Late": True}, "history", 150, 2000, 16, "histories with late entries", {"coal": False}, ["Daily"])

def c13(ctx):
    ctx.model("Dates", {"MaxLen": 3, "Sim": False}, ["Inv"])
    for coal in (False, True):
        gen(ctx, "Dates", {"MaxLen": 14}, "dates", 200, 3000, 18, "dated work and the passing of time", {"coal": coal})

def c18(ctx):
    ctx.model("Chain", {"MaxLen": 5, "MaxTampers": 2, "Sim": False}, ["Inv"])
    gen(ctx, "Chain", {"MaxLen": 11, "MaxTampers": 2}, "chain", 400, 5000, 14, "chain workers and tampering", {"batch": 3, "scale": 1})
    gen(ctx, "Chain", {"MaxLen": 8, "MaxTampers": 1}, "chain", 12, 200, 14, "chains of more than a page", {"batch": 150, "scale": 400})

def c16(ctx):
    ctx.model("Lineage", {"MaxLen": 3, "Sim": False, "Faults": False, "Parts": True}, ["Inv"])
    for coal in (False, True):
        gen(ctx, "Lineage", {"MaxLen": 18, "Faults": False, "Parts": False}, "lineage", 300, 4000, 22, "funding, spending and settling of tracked balances", {"coal": coal})
    gen(ctx, "Lineage", {"MaxLen": 12, "Faults": False, "Parts": True}, "lineage", 60, 500, 16, "holds settled in parts", {"coal": False})

def c17(ctx):
    ctx.model("Lineage", {"MaxLen": 3, "Sim": False, "Faults": False, "Parts": False}, ["Inv"])
    gen(ctx, "Lineage", {"MaxLen": 14, "Faults": True, "Parts": False}, "lineage", 600, 6000, 18, "lineage work interrupted, failed and done by two workers", {"coal": False})

def c20(ctx):
    ctx.model("Monitors", {"MaxLen": 3, "Sim": False}, ["Inv"])
    gen(ctx, "Monitors", {"MaxLen": 20}, "monitors", 250, 4000, 24, "balance monitors made, changed and deleted between postings", {"coal": False})
    gen(ctx, "Monitors", {"MaxLen": 20}, "monitors", 100, 2000, 24, "the same with coalescing", {"coal": True})

def c30(ctx):
    K = {"Lane": True, "Thr": 2, "Ttl": 2}
    ctx.model("Routing", dict(K, MaxLen=4, Sim=False), ["Inv"])
    for lane, thr, ttl, q, n in ((True, 3, 3, 3, 120), (True, 2, 2, 1, 60), (False, 3, 3, 5, 30), (True, 1, 1, 20, 30)):
        gen(ctx, "Routing", {"MaxLen": 30, "Lane": lane, "Thr": thr, "Ttl": ttl}, "routing", n, 15 * n, 34, "queues and lanes of queued transactions",
            {"lane": lane, "thr": thr, "ttl": ttl, "queues": q}, ["Inv"])

def c28(ctx):
    ctx.model("Webhooks", {"MaxLen": 3, "Sim": False, "Signed": True}, ["Inv"])
    for coal, key in ((False, "some secret"), (True, "k")):
        gen(ctx, "Webhooks", {"MaxLen": 20, "Signed": True}, "webhooks", 150, 3000, 24, "outcomes, notifications and their delivery", {"coal": coal, "key": key, "scale": "9007199254740993"}, ["Inv"])
    gen(ctx, "Webhooks", {"MaxLen": 12, "Signed": False}, "webhooks", 20, 300, 16, "the same without a secret", {"coal": False, "key": "", "scale": "1"}, ["Inv"])

CHECKS = {"C28": c28, "C30": c30, "C20": c20, "C16": c16, "C17": c17, "C18": c18, "C13": c13, "C15": c15, "C29": c29, "C27": c27, "C09": c09, "C19": c19, "C31": c31, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C10": c10, "C11": c11, "C12": c12, "C14": c14, "C21": c21, "C22": c22, "C24": c24, "C26": c26}

NA = {"C23": "the method applies (a specification of conditions, order and pages, replayed on the real routes), but no check is finished: the Postgres stand-in does not cover all the SQL that filters generate",
      "C25": "the method applies (a specification of rules and matches, replayed on the real routes), but no check is finished"}
