"""C01-C11, C21: the component runtime, specification Core (design CoreMC, Sched; conformance CoreTrace)."""
import json
import common
import coregen
import mtgen
import promgen

OPS = {
    "start": lambda f: [{"o": "ctl", "to": 1, "cmd": "start", "n": f()}],
    "stop": lambda f: [{"o": "ctl", "to": 1, "cmd": "stop", "n": f()}],
    "kill": lambda f: [{"o": "ctl", "to": 1, "cmd": "kill", "n": f()}],
    "start2": lambda f: [{"o": "ctl", "to": 2, "cmd": "start", "n": f()}],
    "kill2": lambda f: [{"o": "ctl", "to": 2, "cmd": "kill", "n": f()}],
    "send": lambda f: [{"o": "send", "to": 1, "m": f()}],
    "send2": lambda f: [{"o": "send", "to": 2, "m": f()}],
    "exec": lambda f: [{"o": "exec", "k": 0}],
    "drain": lambda f: [{"o": "drain"}],
    "trigd": lambda f: [{"o": "trigd", "c": 1, "port": 0, "i": f()}],
    "trigd2": lambda f: [{"o": "trigd", "c": 1, "port": 2, "i": f()}],
    "adv": lambda f: [{"o": "adv", "d": 1}],
    "fire": lambda f: [{"o": "fire", "p": 1}],
    "panic": lambda f: [{"o": "send", "to": 1, "m": f(), "sc": {"r": "panic"}}],
    "recov": lambda f: [{"o": "send", "to": 1, "m": f(), "sc": {"r": "recov"}}],
    "unrec": lambda f: [{"o": "send", "to": 1, "m": f(), "sc": {"r": "unrec"}}],
    "shut": lambda f: [{"o": "send", "to": 1, "m": f(), "sc": {"r": "shutdown"}}],
    "suic": lambda f: [{"o": "send", "to": 1, "m": f(), "sc": {"ops": [{"o": "ctl", "to": 1, "cmd": "suicide"}]}}],
    "fwd": lambda f: [{"o": "send", "to": 1, "m": f(), "sc": {"ops": [{"o": "send", "to": 2, "m": f()}]}}],
    "portpanic": lambda f: [{"o": "trigd", "c": 1, "port": 0, "i": f(), "sc": {"r": "panic"}}],
    "portbenign": lambda f: [{"o": "trigd", "c": 1, "port": 2, "i": f(), "sc": {"r": "benign"}}],
    "setrec": lambda f: [{"o": "setrec", "c": 1, "tag": 100 + f()}],
    "trig": lambda f: [{"o": "send", "to": 1, "m": f(), "sc": {"ops": [{"o": "trig", "port": 0, "i": f()}]}}],
    "trigr": lambda f: [{"o": "send", "to": 2, "m": f(), "sc": {"ops": [{"o": "trig", "port": 2, "i": f()}]}}],
    "rel2": lambda f: [{"o": "ctl", "to": 2, "cmd": "kill"}, {"o": "drain"}, {"o": "rel", "c": 2}],
    "eq": lambda f: [{"o": "eq", "c": 1, "d": 1}, {"o": "eq", "c": 1, "d": 2}],
    "drop": lambda f: [{"o": "ctl", "to": 1, "cmd": "kill"}, {"o": "drain"}, {"o": "rel", "c": 1}, {"o": "drain"}],
}


def block(f):
    x = f()
    return [{"o": "send", "to": 1, "m": x, "sc": {"r": {"block": {"f": x, "fut": {"p": x}}}}}]


def blockseq(f):
    """block; when the promise is resolved, block once more on a future that is ready"""
    x = f()
    return [{"o": "send", "to": 1, "m": x, "sc": {"r": {"block": {"f": x, "fut": {"p": x, "r": {"block": {"f": x + 500, "fut": {}}}}}}}}]


def spawn(f):
    x = f()
    return [{"o": "send", "to": 1, "m": x, "sc": {"ops": [{"o": "spawn", "f": x, "fut": {"p": x}}]}}]


def fireall(f):
    return [{"o": "fire", "p": p} for p in range(1, 12)]


def sched(d, p):
    return lambda f: (lambda t: [{"o": "send", "to": 1, "m": t, "sc": {"ops": [{"o": "sched", "t": t, "d": d, "p": p}]}}])(f())


def cancel(t):
    return lambda f: [{"o": "send", "to": 1, "m": f(), "sc": {"ops": [{"o": "cancel", "t": t}]}}]


def ask(kind):
    def g(f):
        a = f()
        ops = {"reply": [{"o": "reply", "a": a, "v": a * 10}], "drop": [{"o": "dropask", "a": a}], "keep": [],
               "fwd": [{"o": "fwd", "a": a, "to": 2, "sc": {"ops": [{"o": "reply", "a": a, "v": a * 10}]}}],
               "fwdkeep": [{"o": "fwd", "a": a, "to": 2}]}[kind]
        return [{"o": "ask", "a": a, "to": 1, "sc": {"ops": ops}}]
    return g


def via(v):
    return lambda f: [{"o": "send", "to": 1, "m": f(), "via": v}]


def conn(ch, a, b, kind="two"):
    used = []

    def g(f):
        return [{"o": "conn", "ch": f(), "a": a, "b": b, "port": 0, "kind": kind}]
    return g


NEW1 = lambda f: [{"o": "new", "c": 1}]
NEW2 = lambda f: [{"o": "new", "c": 1}, {"o": "new", "c": 2}]
RUN1 = lambda f: [{"o": "new", "c": 1}, {"o": "ctl", "to": 1, "cmd": "start"}, {"o": "drain"}]
RUN2 = lambda f: [{"o": "new", "c": 1}, {"o": "new", "c": 2}, {"o": "ctl", "to": 1, "cmd": "start"}, {"o": "ctl", "to": 2, "cmd": "start"}, {"o": "drain"}]
RUN3C = lambda f: [{"o": "new", "c": 1}, {"o": "new", "c": 2}, {"o": "new", "c": 3},
                   {"o": "conn", "ch": 91, "a": 1, "b": 2, "port": 0}, {"o": "conn", "ch": 92, "a": 1, "b": 3, "port": 0}] + \
                  [{"o": "ctl", "to": c, "cmd": "start"} for c in (1, 2, 3)] + [{"o": "drain"}]
END1 = lambda f: [{"o": "drain"}, {"o": "ctl", "to": 1, "cmd": "start"}, {"o": "drain"}]
KILL1 = lambda f: [{"o": "drain"}, {"o": "ctl", "to": 1, "cmd": "kill", "n": f()}, {"o": "drain"}, {"o": "send", "to": 1, "m": f()}, {"o": "drain"}]
D = lambda f: [{"o": "drain"}]

# property -> (alphabet, prefix, suffix, length quick, length thorough)
EXHAUSTIVE = {
    "C01": (["send", "fwd", "exec", "stop", "start"], RUN2, END1, 5, 6),
    "C03": (["start", "stop", "send", "trigd", "exec", block, fireall], NEW1, END1, 4, 5),
    "C04": (["start", "stop", "kill", "send", "exec", "unrec", "shut", "suic", "panic"], NEW1, KILL1, 4, 5),
    "C05": ([block, blockseq, spawn, "send", "exec", fireall, "stop", "start"], RUN1, lambda f: [{"o": "drain"}] + fireall(f) + END1(f), 4, 5),
    "C06": (["panic", "recov", "setrec", "send", "exec", "send2", "portpanic", "start"], RUN2, lambda f: [{"o": "drain"}, {"o": "send", "to": 1, "m": f()}, {"o": "send", "to": 2, "m": f()}, {"o": "drain"}], 4, 5),
    "C07": (["start", "stop", "kill", "exec", "start2", "kill2", "drain"], NEW2, D, 4, 6),
    "C08": (["trig", "trigr", conn(0, 2, 3), "exec", "rel2", lambda f: [{"o": "disc", "ch": 91}], lambda f: [{"o": "disc", "ch": 92}], "stop"], RUN3C, END1, 4, 5),
    "C09": (["send", "trigd", "trigd2", "exec", "stop", "start", "portbenign"], RUN1, END1, 5, 6),
    "C10": ([sched(1, 0), sched(2, 0), sched(1, 1), "adv", cancel(1), cancel(2), "exec"], RUN1, lambda f: [{"o": "drain"}, {"o": "adv", "d": 3}, {"o": "drain"}], 5, 6),
    "C11": ([ask("reply"), ask("drop"), ask("keep"), ask("fwd"), ask("fwdkeep"), "exec", "kill", "kill2", "panic"], RUN2, lambda f: [{"o": "drain"}] + KILL1(f), 4, 5),
    "C21": ([via(0), via(1), via(2), via(3), via(5), "exec", "kill", "eq", "drop"], RUN2, D, 4, 5),
}


def exhaustive(pid, quick, base):
    if pid not in EXHAUSTIVE:
        return []
    al, pre, suf, lq, lt = EXHAUSTIVE[pid]
    al = [OPS[a] if isinstance(a, str) else a for a in al]
    out = []
    for thr in ([50] if quick else [50, 1]):
        out += coregen.histories(al, lq if quick else lt, base=base + len(out), prefix=pre, suffix=suf, thr=thr)
    if pid == "C08":        # no two connections between the same ends
        good = []
        for s in out:
            seen = set()
            ok = True
            for o in s["ops"]:
                if o["o"] == "conn":
                    k = (o["a"], o["b"], o["port"])
                    ok = ok and k not in seen
                    seen.add(k)
            if ok:
                good.append(s)
        out = good
    return out


def explain(d, pos):
    t = d["t"]
    e = t[min(pos, len(t)) - 1]
    return "event %d (%s c=%s %s i=%s j=%s s=%s %s) of the recorded execution is not a step of the specification" % (
        pos, e["e"], e["c"], e["k"], e["i"], e["j"], e["s"], e["r"])


def report(chk, world, bad, dead, scen, own=None):
    bad.sort(key=lambda b: len(b[0]["t"]))
    for d, pos in bad[:8]:
        sid = own[d["id"]] if own else d["id"]
        chk.violate("%s world: %s" % (world, explain(d, pos)), {"world": world, "scenario": scen[sid], "position": pos, "trace": d["t"][:pos]})
    if len(bad) > 8:
        chk.notes.append("%d more rejected traces in world %s" % (len(bad) - 8, world))
    for s, why in dead[:3]:
        chk.violate("%s world: the process running the scenario ended: %s" % (world, why), {"world": world, "scenario": s})


def deterministic(chk, scen, what):
    byid = {s["id"]: s for s in scen}
    res, dead = common.harness(chk, "core", scen, timeout=300)
    bad = common.validate(chk, "CoreTrace.tla", "CoreTrace.cfg", list(res.values()))
    chk.log("%s: %d scenarios, %d traces accepted, %d rejected" % (what, len(scen), len(res) - len(bad), len(bad)))
    report(chk, "core", bad, dead, byid)
    for s in scen[-2:]:
        chk.sample({"world": "core", "scenario": s})
    return len(bad)


def promises(chk):
    """C11: promises and futures by themselves (specification Promises). A rejected trace is recorded twice more."""
    common.design(chk, "PromisesMC.tla", "PromisesMC.cfg", "every history of two promises, replied to, lost, waited for alone and together", timeout=400)
    if not chk.quick:
        common.design(chk, "PromisesMC.tla", "PromisesMC_big.cfg", "every history of three promises", timeout=1800)
    for v in ("keeps", "lies"):
        if common.tlc(chk, "PromisesMC.tla", "PromisesMC_%s.cfg" % v, workers=4)["code"] == 0:
            raise common.Broken("mutated promise design %s is not refuted" % v)
    for k in range(1 if chk.quick else 10):
        scen = promgen.scenarios(chk.rng("prom%d" % k), 2400, 30_000_000 + 10_000 * k)
        byid = {s["id"]: s for s in scen}
        todo, first = scen, None
        for _ in range(3):
            res, dead = common.harness(chk, "prom", todo, timeout=120)
            bad = common.validate(chk, "PromisesTrace.tla", "PromisesTrace.cfg", list(res.values()))
            ids = [d["id"] for d, _ in bad] + [s["id"] for s, _ in dead]
            first = len(ids) if first is None else first
            if not ids:
                break
            todo = [byid[i] for i in ids[:12]]
        chk.log("promises: %d scenarios, %d rejected at first, %d again" % (len(scen), first, len(bad) + len(dead)))
        bad.sort(key=lambda b: len(b[0]["t"]))
        for d, pos in bad[:8]:
            e = d["t"][min(pos, len(d["t"])) - 1]
            chk.violate("promise world: event %d %s is not a step of the specification" % (pos, str(e)[:300]),
                        {"world": "prom", "scenario": byid[d["id"]], "position": pos, "trace": d["t"][:pos]})
        for s, why in dead[:3]:
            chk.violate("promise world: the process running the scenario ended: %s" % why, {"world": "prom", "scenario": s})
        chk.sample({"world": "prom", "scenario": scen[-1]})
        if bad or dead:
            return len(bad) + len(dead)
    return 0


def threads(chk, world, scen, what):
    byid = {s["id"]: s for s in scen}
    res, dead = common.harness(chk, world, scen, timeout=420)
    tr, own = [], {}
    runs = 0
    for i, d in res.items():
        runs += d["runs"]
        for t in d["ts"]:
            tr.append({"id": len(tr) + 1, "t": t})
            own[len(tr)] = i
    bad = common.validate(chk, "CoreTrace.tla", "CoreTrace.cfg", tr)
    chk.impl_steps += runs
    done = sum(1 for d in res.values() if d.get("complete"))
    chk.log("%s: %d scenarios (%d exhausted), %d schedules, %d distinct traces, %d rejected" % (what, len(scen), done, runs, len(tr), len(bad)))
    chk.notes.append("%s: %d scenarios, %d schedules run, %d distinct traces validated" % (what, len(scen), runs, len(tr)))
    report(chk, world, bad, dead, byid, own)
    if scen:
        chk.sample({"world": world, "scenario": scen[-1]})
    return len(bad)


DESIGN = {
    "C01": ["CoreMC_C01", "Sched_plain"],
    "C02": ["Sched_block", "Sched_big"],
    "C03": ["CoreMC_C03"], "C04": ["CoreMC_C04"], "C05": ["CoreMC_C05", "Sched_block"], "C06": ["CoreMC_C06"], "C07": ["CoreMC_C07"],
    "C08": ["CoreMC_C08"], "C09": ["CoreMC_C09"], "C10": ["CoreMC_C10"], "C11": ["CoreMC_C11"], "C21": ["CoreMC_C01"],
}


def check(chk):
    pid, quick = chk.pid, chk.quick
    for m in DESIGN[pid]:
        common.design(chk, m.split("_")[0] + ".tla", m + ".cfg", "bounded histories: " + m, timeout=400)
    if not quick and pid in ("C01", "C02", "C05"):
        for v in ("pushfirst", "nolock", "noresume", "nopoll", "noresched"):
            r = common.tlc(chk, "Sched.tla", "Sched_%s.cfg" % v, workers=4)
            if r["code"] == 0:
                raise common.Broken("mutated protocol %s is not refuted" % v)
        chk.notes.append("5 mutations of the scheduling protocol refuted by TLC")
    nbad = promises(chk) if pid == "C11" else 0
    if pid in coregen.PROFILES:
        ex = exhaustive(pid, quick, 0)
        if quick and len(ex) > 6000:     # a seeded part of them; thorough runs all
            chk.notes.append("%d of %d short histories" % (6000, len(ex)))
            ex = chk.rng("ex").sample(ex, 6000)
        for i in range(0, len(ex), 24000):
            nbad += deterministic(chk, ex[i:i + 24000], "all short histories")
            if nbad:
                break
        rounds, n = (1, 6000) if quick else (8, 12000)
        for k in range(rounds):
            if nbad:
                break
            sc = coregen.random_scenarios(chk.rng("r%d" % k), pid, n, base=10_000_000 + k * n)
            nbad += deterministic(chk, sc, "random scenarios")
    if not nbad or quick:
        sy = [s for s in mtgen.systematic(0, 3 if quick else 6, 3000 if quick else 40000) if s.pop("pid") == pid or pid == "C02"]
        if sy:
            threads(chk, "mt", sy, "systematic schedules")
        sc = mtgen.mt(chk.rng("mt"), pid, 60 if quick else 400, 1000, runs=40 if quick else 150)
        sc += mtgen.mt(chk.rng("mtd"), pid, 30 if quick else 300, 5000, dfs=150 if quick else 1500, pb=2 if quick else 3)
        threads(chk, "mt", sc, "random scenarios under controlled schedules")
    if pid in ("C01", "C02", "C05", "C07", "C08", "C11", "C21"):
        n = 200 if pid == "C07" else 60
        sc = mtgen.real(chk.rng("real"), pid, n if quick else 5 * n, 0, reps=2 if quick else 6)
        threads(chk, "real", sc, "free-running threads")
    return chk.finish("Core.tla: TLC explores the bounded design model and validates recorded executions of the real runtime "
                      "(deterministic, gated multi-threaded, free-running worlds) against it")
