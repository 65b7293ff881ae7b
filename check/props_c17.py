"""C17: network buffers, specification Buffers (design BuffersMC; conformance BuffersTrace)."""
import common
import bufgen as g


def explain(d, pos):
    e = d["t"][min(pos, len(d["t"])) - 1]
    return "event %d %s is not a step of the specification (config %s)" % (pos, str(e)[:400], {k: d["t"][0][k] for k in ("cs", "max", "free", "init")})


def run(chk, scen, what, base, timeout=300):
    for i, s in enumerate(scen):
        s["id"] = base + i
    byid = {s["id"]: s for s in scen}
    res, dead = common.harness(chk, "bufs", scen, timeout=timeout)
    bad = common.validate(chk, "BuffersTrace.tla", "BuffersTrace.cfg", list(res.values()))
    chk.log("%s: %d scenarios, %d traces accepted, %d rejected" % (what, len(scen), len(res) - len(bad), len(bad)))
    bad.sort(key=lambda x: (len(str(byid[x[0]["id"]])), x[1]))
    for d, pos in bad[:8]:
        chk.violate("buffer world: " + explain(d, pos), {"world": "bufs", "scenario": byid[d["id"]], "position": pos, "trace": d["t"][:pos]})
    for s, why in dead[:3]:
        chk.violate("buffer world: the process running the scenario ended: %s" % why, {"world": "bufs", "scenario": s})
    for s in scen[-1:]:
        chk.sample({"world": "bufs", "scenario": s})
    return len(bad) + len(dead)


def check(chk):
    q = chk.quick
    common.design(chk, "BuffersMC.tla", "BuffersMC.cfg" if q else "BuffersMC_big.cfg",
                  "every history of writing, leasing, dropping, reserving and swapping on small chunks", timeout=600)
    nbad = run(chk, g.systematic(chk.rng("s"), not q), "systematic", 0)
    nbad += run(chk, g.systems(chk.rng("y"), 60 if q else 400), "components and systems going away", 100000)
    for k in range(1 if q else 8):
        if not nbad:
            nbad = run(chk, g.encodes(chk.rng("e%d" % k), 3000 if q else 8000), "encode buffers", 200000)
        if not nbad:
            nbad = run(chk, g.pools(chk.rng("p%d" % k), 3000 if q else 8000), "pools and decoders", 300000)
    return chk.finish("Buffers.tla: which chunks exist, which pieces of them handles show and what may be reused; TLC checks the buffer algorithm's design "
                      "(BuffersMC) and validates histories of the real buffers over an allocator that sees every chunk come and go")
