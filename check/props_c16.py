"""C16: frames and the decoder of a byte stream, specification Frames (design FramesMC; conformance FramesTrace)."""
import common
import framegen as g


def explain(d, pos):
    e = d["t"][min(pos, len(d["t"])) - 1]
    s = {k: v for k, v in e.items() if k in ("e", "r", "n", "bad", "b", "ip", "port", "id", "len")}
    fed = sum(x["n"] for x in d["t"][:pos - 1] if x["e"] == "feed" and x["n"] > 0)
    return "after %d bytes of the stream, event %d %s is not a step of the specification" % (fed, pos, str(s)[:300])


def run(chk, scen, what, base):
    for i, s in enumerate(scen):
        s["id"] = base + i
    byid = {s["id"]: s for s in scen}
    res, dead = common.harness(chk, "frames", scen, timeout=300)
    bad = common.validate(chk, "FramesTrace.tla", "FramesTrace.cfg", list(res.values()))
    chk.log("%s: %d scenarios, %d traces accepted, %d rejected" % (what, len(scen), len(res) - len(bad), len(bad)))
    bad.sort(key=lambda x: (len(str(byid[x[0]["id"]])), x[1]))
    for d, pos in bad[:8]:
        chk.violate("frame world: " + explain(d, pos), {"world": "frames", "scenario": byid[d["id"]], "position": pos, "event": d["t"][min(pos, len(d["t"])) - 1]})
    for s, why in dead[:3]:
        chk.violate("frame world: the process running the scenario ended: %s" % why, {"world": "frames", "scenario": s})
    for s in scen[-1:]:
        chk.sample({"world": "frames", "scenario": s})
    return len(bad) + len(dead)


def check(chk):
    q = chk.quick
    common.design(chk, "FramesMC.tla", "FramesMC.cfg", "every stream of three frames, every cut, every swap", timeout=300)
    if not q:
        common.design(chk, "FramesMC.tla", "FramesMC_big.cfg", "four frames, larger chunks", timeout=600)
    nbad = run(chk, g.systematic(chk.rng("s"), not q), "systematic", 0)
    nbad += run(chk, g.encodes(chk.rng("e"), 150 if q else 1500), "encoders", 100000)
    for k in range(1 if q else 8):
        if not nbad:
            nbad = run(chk, g.rand(chk.rng("w%d" % k), 1500 if q else 6000), "well-formed", 200000)
        if not nbad:
            nbad = run(chk, g.rand(chk.rng("b%d" % k), 2000 if q else 8000, .3), "corrupted", 300000)
    return chk.finish("Frames.tla: the frames of a stream as a function of its bytes and of how many have arrived; TLC checks the decoder's design for "
                      "every cut and validates the real decoder and encoders")
