"""C14, C15: paths, values and messages, specification Wire (design WireMC; conformance WireTrace)."""
import common
import wiregen


def explain(d, pos):
    t = d["t"]
    e = t[min(pos, len(t)) - 1]
    s = {k: v for k, v in e.items() if k in ("e", "how", "way", "then", "via", "ty", "r", "m", "src", "v", "id", "ss")}
    return "event %d %s is not a step of the specification" % (pos, s)


def run(chk, scen, what):
    byid = {s["id"]: s for s in scen}
    res, dead = common.harness(chk, "wire", scen, timeout=300)
    bad = common.validate(chk, "WireTrace.tla", "WireTrace.cfg", list(res.values()))
    chk.log("%s: %d scenarios, %d traces accepted, %d rejected" % (what, len(scen), len(res) - len(bad), len(bad)))
    bad.sort(key=lambda x: x[1])
    for d, pos in bad[:8]:
        chk.violate("wire world: " + explain(d, pos), {"world": "wire", "scenario": byid[d["id"]], "position": pos, "event": d["t"][min(pos, len(d["t"])) - 1]})
    for s, why in dead[:3]:
        chk.violate("wire world: the process running the scenario ended: %s" % why, {"world": "wire", "scenario": s})
    for s in scen[-1:]:
        chk.sample({"world": "wire", "scenario": s})
    return len(bad) + len(dead)


def check(chk):
    q = chk.quick
    if chk.pid == "C14":
        for m in ("paths", "bytes"):
            common.design(chk, "WireMC.tla", "WireMC_%s.cfg" % m, "every %s over a small alphabet" % m, timeout=300)
        ops = wiregen.paths_systematic() + wiregen.builds_systematic() + wiregen.texts_systematic(3 if q else 5) + wiregen.bytes_systematic(3 if q else 5)
        nbad = run(chk, wiregen.pack(ops), "systematic")
        for k in range(1 if q else 10):
            if not nbad:
                nbad = run(chk, wiregen.pack(wiregen.c14_random(chk.rng("r%d" % k), 20000 if q else 60000), base=100000), "random")
    else:
        common.design(chk, "WireMC.tla", "WireMC_values.cfg", "every value shape of two levels", timeout=300)
        common.design(chk, "WireMC.tla", "WireMC_%s.cfg" % ("msgs2" if q else "msgs"), "the life of %d messages" % (2 if q else 3), timeout=600)
        nbad = 0
        for k in range(1 if q else 8):
            if not nbad:
                nbad = run(chk, wiregen.pack(wiregen.c15_content(chk.rng("c%d" % k), 15000 if q else 60000), base=1000000), "content")
            if not nbad:
                nbad = run(chk, wiregen.c15_messages(chk.rng("m%d" % k), 2500 if q else 8000, 1), "messages")
    return chk.finish("Wire.tla: forms of paths, values and messages, and the life of a message; TLC checks the design over small alphabets and "
                      "validates what the real functions answered and delivered")
