"""C22: configuration, specification Config (design ConfigMC; conformance ConfigTrace)."""
import common
import confgen as g


def explain(d, pos):
    e = d["t"][min(pos, len(d["t"])) - 1]
    return "event %d %s is not a step of the specification" % (pos, str(e)[:500])


def run(chk, scen, what, base, timeout=300):
    for i, s in enumerate(scen):
        s["id"] = base + i
    byid = {s["id"]: s for s in scen}
    res, dead = common.harness(chk, "conf", scen, timeout=timeout)
    bad = common.validate(chk, "ConfigTrace.tla", "ConfigTrace.cfg", list(res.values()))
    chk.log("%s: %d scenarios, %d traces accepted, %d rejected" % (what, len(scen), len(res) - len(bad), len(bad)))
    bad.sort(key=lambda x: x[1])
    for d, pos in bad[:8]:
        chk.violate("configuration world: " + explain(d, pos), {"world": "conf", "scenario": byid[d["id"]], "position": pos, "trace": d["t"][:pos]})
    for s, why in dead[:3]:
        chk.violate("configuration world: the process running the scenario ended: %s" % why, {"world": "conf", "scenario": s})
    for s in scen[-1:]:
        chk.sample({"world": "conf", "scenario": s})
    return len(bad) + len(dead)


def check(chk):
    q = chk.quick
    for cfg in ["ConfigMC.cfg"] + ([] if q else ["ConfigMC_big.cfg"]):
        common.design(chk, "ConfigMC.tla", cfg, "every sequence of small documents set one over the other", timeout=600)
    nbad = run(chk, g.systematic(chk.rng("s")), "systematic", 0)
    nbad += run(chk, g.roundtrips(chk.rng("r"), 3000 if q else 30000), "round trips", 100000)
    for k in range(1 if q else 6):
        if not nbad:
            nbad = run(chk, g.docs(chk.rng("d%d" % k), 6000 if q else 20000), "documents", 200000)
        if not nbad:
            nbad = run(chk, g.systems(chk.rng("y%d" % k), 2500 if q else 10000), "systems", 300000)
    return chk.finish("Config.tla: the tree that comes out of merging sources in order, lookups in it, what a value means as each typed entry, and which "
                      "runtime a configuration describes; TLC checks merging (ConfigMC) and validates what the real loader, lookups, converters and "
                      "systems answered")
