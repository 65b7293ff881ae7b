"""C18, C19, C20: sessions, connections and their limits, specification Net (design NetMC; conformance NetTrace).

The world has a real system on a real socket, so that how long things take matters to what is seen after a step. A trace
the specification rejects is recorded again with much more patience, and counts only if it is rejected again."""
import common
import netgen as g


def brief(e):
    e = {k: v for k, v in e.items() if v not in ([], 0, "") and k != "e"}
    if "st" in e:
        e["st"] = [(s["k"], s["p"], s["s"]) if s["p"] else (s["k"], s["x"], s["l"]) for s in e["st"]]
    if "fr" in e:
        e["fr"] = [(f["c"], f["k"], f["n"], f["s"]) for f in e["fr"]]
    return e


def explain(d, pos):
    e = d["t"][min(pos, len(d["t"])) - 1]
    if e["e"] == "dead":
        return "event %d: the system no longer answers (%s)" % (pos, e["why"])
    return "event %d %s is not a step of the specification" % (pos, str(brief(e))[:400])


def run(chk, scen, what, base, timeout=400):
    for i, s in enumerate(scen):
        s["id"] = base + i
    byid = {s["id"]: s for s in scen}
    res, dead = common.harness(chk, "net", scen, timeout=timeout)
    bad = common.validate(chk, "NetTrace.tla", "NetTrace.cfg", list(res.values()))
    first = [d["id"] for d, _ in bad] + [s["id"] for s, _ in dead]
    if first:
        again = [byid[i] for i in first[:12]]
        res2, dead = common.harness(chk, "net", again, timeout=timeout, env={"KV_SLOW": "1"})
        bad = common.validate(chk, "NetTrace.tla", "NetTrace.cfg", list(res2.values()))
        # what was seen by chance once is seen by chance again: a third time must agree
        if bad or dead:
            again = [byid[i] for i in [d["id"] for d, _ in bad] + [s["id"] for s, _ in dead]]
            res3, dead = common.harness(chk, "net", again, timeout=timeout, env={"KV_SLOW": "1"})
            bad = common.validate(chk, "NetTrace.tla", "NetTrace.cfg", list(res3.values()))
    chk.log("%s: %d scenarios, %d rejected at first, %d with patience" % (what, len(scen), len(first), len(bad) + len(dead)))
    bad.sort(key=lambda x: x[1])
    for d, pos in bad[:8]:
        chk.violate("network world: " + explain(d, pos), {"world": "net", "scenario": byid[d["id"]], "position": pos, "trace": [brief(e) for e in d["t"][:pos]]})
    for s, why in dead[:3]:
        chk.violate("network world: the process running the scenario ended: %s" % why, {"world": "net", "scenario": s})
    for s in scen[-1:]:
        chk.sample({"world": "net", "scenario": s})
    return len(bad) + len(dead)


MODES = {"C18": [("auto", 900), ("raw", 900), ("stall", 350), ("odd", 700)],
         "C19": [("raw", 1500), ("auto", 1000), ("odd", 500), ("stall", 300)],
         "C20": [("block", 2000), ("limits", 1500)]}
MODELS = {"C18": ["one", "stall"], "C19": ["one", "stall"], "C20": ["block", "limits"]}


def check(chk):
    q = chk.quick
    for m in MODELS[chk.pid] + ([] if q else [m + "_big" for m in MODELS[chk.pid] if m != "stall"]):
        common.design(chk, "NetMC.tla", "NetMC_%s.cfg" % m, "every history of the steps given there", timeout=900)
    base = 0
    for k in range(1 if q else 8):
        for m, n in MODES[chk.pid]:
            if run(chk, g.several(chk.rng("%s%d" % (m, k)), m, n), m, base):
                base = -1
                break
            base += 100000
        if base < 0:
            break
    return chk.finish("Net.tla: connections, sessions, retries, block lists and limits of a system between scripted peers; TLC checks the design for "
                      "order, honest events and limits (NetMC) and validates what a real system did on real sockets (NetTrace)")
