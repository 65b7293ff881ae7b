"""C12, C13: the table of names and routing over it, specification Routing (design RoutingMC; conformance RoutingTrace)."""
import os
import common
import routegen as g


def dec(e):
    e = {k: v for k, v in e.items()}
    for k in ("p", "q"):
        if k in e:
            e[k] = "/".join("".join(map(chr, s)) for s in e[k])
    return e


def explain(d, pos):
    return "event %d %s is not a step of the specification" % (pos, str(dec(d["t"][min(pos, len(d["t"])) - 1]))[:400])


def run(chk, scen, what, base, bin=None, timeout=400):
    for i, s in enumerate(scen):
        s["id"] = base + i
    byid = {s["id"]: s for s in scen}
    res, dead = common.harness(chk, "route", scen, timeout=timeout, bin=bin)
    bad = common.validate(chk, "RoutingTrace.tla", "RoutingTrace.cfg", list(res.values()))
    chk.log("%s: %d scenarios, %d traces accepted, %d rejected" % (what, len(scen), len(res) - len(bad), len(bad)))
    bad.sort(key=lambda x: (len(str(byid[x[0]["id"]])), x[1]))
    for d, pos in bad[:8]:
        chk.violate("routing world: " + explain(d, pos), {"world": "route", "scenario": byid[d["id"]], "position": pos, "trace": [dec(e) for e in d["t"][:pos]]})
    for s, why in dead[:3]:
        chk.violate("routing world: the process running the scenario ended: %s" % why, {"world": "route", "scenario": s})
    for s in scen[-1:]:
        chk.sample({"world": "route", "scenario": s})
    return len(bad) + len(dead)


def check(chk):
    q = chk.quick
    if chk.pid == "C12":
        common.design(chk, "RoutingMC.tla", "RoutingMC.cfg", "every history of registrations and messages over four names", timeout=300)
        for k in range(1 if q else 6):
            n = (lambda a, b: a if q else b)
            if run(chk, g.names(chk.rng("n%d" % k), n(1500, 5000)), "local dispatcher", 0) \
                    or run(chk, g.names(chk.rng("d%d" % k), n(600, 2000), True), "network dispatcher", 100000) \
                    or run(chk, g.names(chk.rng("r%d" % k), n(600, 2000), True, True), "messages from another system", 200000) \
                    or run(chk, g.stores(chk.rng("s%d" % k), n(2000, 8000), False), "actor store", 300000) \
                    or run(chk, g.reaping(chk.rng("p%d" % k), n(8, 32)), "collecting ended components", 400000):
                break
    else:
        common.design(chk, "RoutingMC.tla", "RoutingMC.cfg" if q else "RoutingMC_big.cfg",
                      "every history of registrations, policies, messages" + ("" if q else " and ends of components") + " over four names", timeout=800)
        common.build(chk, common.IMPLICIT)
        imp = os.path.join(common.TARGET, "debug", "kverif-implicit")
        for k in range(1 if q else 6):
            n = (lambda a, b: a if q else b)
            if run(chk, g.routes(chk.rng("n%d" % k), n(1500, 5000)), "local dispatcher", 0) \
                    or run(chk, g.routes(chk.rng("d%d" % k), n(500, 2000), True), "network dispatcher", 100000) \
                    or run(chk, g.routes(chk.rng("r%d" % k), n(500, 2000), True, True), "messages from another system", 200000) \
                    or run(chk, g.stores(chk.rng("s%d" % k), n(2000, 8000), True), "actor store", 300000) \
                    or run(chk, g.routes(chk.rng("i%d" % k), n(1000, 4000)), "implicit routing", 500000, imp) \
                    or run(chk, g.routes(chk.rng("j%d" % k), n(200, 1000), True, True), "implicit routing from another system", 600000, imp) \
                    or run(chk, g.stores(chk.rng("k%d" % k), n(1000, 4000), True), "actor store with implicit routing", 700000, imp) \
                    or run(chk, g.reaping(chk.rng("p%d" % k), n(8, 32)), "collecting ended members", 400000):
                break
    return chk.finish("Routing.tla: what is registered under which name and who gets a message to a path; TLC checks the design of the table and of the "
                      "policies (RoutingMC) and validates histories of real dispatchers and actor stores (RoutingTrace)")
