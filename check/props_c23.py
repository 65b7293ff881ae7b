"""C23: datagrams, specification Datagrams (design DatagramsMC; conformance DatagramsTrace).

The world has a real UDP socket on the loopback interface, which neither loses nor reorders what fits into its buffer. A
trace the specification rejects is recorded again, twice, with more patience, and counts only if it is rejected again."""
import common
import udpgen as g


def brief(e):
    e = dict(e)
    for k in ("in", "rx"):
        e[k] = [dict(d, b=d["b"][:60]) for d in e.get(k, [])]
    return {k: v for k, v in e.items() if v not in ([], 0, "") and k != "e"}


def explain(d, pos):
    e = d["t"][min(pos, len(d["t"])) - 1]
    if e["e"] == "dead":
        return "event %d: %s" % (pos, e["why"])
    return "event %d %s is not a step of the specification" % (pos, str(brief(e))[:500])


def run(chk, scen, what, base, timeout=300):
    for i, s in enumerate(scen):
        s["id"] = base + i
    byid = {s["id"]: s for s in scen}
    todo, first = scen, None
    for slow in (None, {"KV_SLOW": "1"}, {"KV_SLOW": "1"}):
        res, dead = common.harness(chk, "udp", todo, timeout=timeout, env=slow)
        bad = common.validate(chk, "DatagramsTrace.tla", "DatagramsTrace.cfg", list(res.values()))
        ids = [d["id"] for d, _ in bad] + [s["id"] for s, _ in dead]
        first = len(ids) if first is None else first
        if not ids:
            break
        todo = [byid[i] for i in ids[:12]]
    chk.log("%s: %d scenarios, %d rejected at first, %d with patience" % (what, len(scen), first, len(bad) + len(dead)))
    bad.sort(key=lambda x: x[1])
    for d, pos in bad[:8]:
        chk.violate("datagram world: " + explain(d, pos), {"world": "udp", "scenario": byid[d["id"]], "position": pos, "trace": [brief(e) for e in d["t"][:pos]]})
    for s, why in dead[:3]:
        chk.violate("datagram world: the process running the scenario ended: %s" % why, {"world": "udp", "scenario": s})
    for s in scen[-1:]:
        chk.sample({"world": "udp", "scenario": s})
    return len(bad) + len(dead)


MODES = [("one", 600), ("burst", 900), ("bad", 600), ("tight", 600)]


def check(chk):
    q = chk.quick
    common.design(chk, "DatagramsMC.tla", "DatagramsMC.cfg", "every history of up to 3 datagrams of 10 kinds and 3 messages", timeout=600)
    if not q:
        common.design(chk, "DatagramsMC.tla", "DatagramsMC_big.cfg", "every history of up to 4 datagrams of 10 kinds and 3 messages", timeout=1800)
    for v in ("keep", "stop", "hold"):
        r = common.tlc(chk, "DatagramsMC.tla", "DatagramsMC_%s.cfg" % v, workers=4)
        if r["code"] == 0:
            raise common.Broken("mutated datagram design %s is not refuted" % v)
    chk.notes.append("3 mutations of the datagram design refuted by TLC")
    base = 0
    for k in range(1 if q else 12):
        for m, n in MODES:
            if run(chk, g.several(chk.rng("%s%d" % (m, k)), m, n), m, base):
                return fin(chk)
            base += 100000
    return fin(chk)


def fin(chk):
    return chk.finish("Datagrams.tla: what a datagram means is decided from its bytes alone; TLC checks the design of the socket's owner (DatagramsMC) and "
                      "validates what a real system delivered and sent for bursts of good, bad, truncated and empty datagrams and of messages that can and cannot be sent")
