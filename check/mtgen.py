"""Scenario generators for the worlds with several threads: gated (mt) and free-running (real)."""
import coregen

THREADOK = {"send", "trigd", "fire", "dropp", "ask", "ctl"}


def split(rng, scen, prof, base=None, runs=0, dfs=0, pb=0, seed=0, nthreads=None):
    """A random scenario of the deterministic world, with its operations dealt out to threads."""
    ops = scen["ops"]
    cut = next((i for i, o in enumerate(ops) if o["o"] == "drain"), None)
    if cut is None:
        cut = sum(1 for o in ops if o["o"] in ("new", "conn", "setrec"))
    else:
        cut += 1
    setup, rest = ops[:cut], ops[cut:]
    # sleeping timers: their requests must have reached the timer before the clock is moved by another thread
    n = nthreads or rng.choice([1, 2, 2, 3])
    th = [[] for _ in range(n)]
    finish = []
    tail = len(rest)
    while tail > 0 and rest[tail - 1]["o"] in ("drain", "fire", "adv", "rel"):
        tail -= 1
    cur = 0
    for o in rest[:tail]:
        if o["o"] in THREADOK:
            if rng.random() < 0.5:
                cur = rng.randrange(n)
            th[cur].append(o)
        elif o["o"] in ("disc", "rel", "conn"):
            finish.append(o)
    finish = [o for o in finish if o["o"] != "conn"]
    chans = {o["ch"] for o in setup if o["o"] == "conn"}
    finish = [o for o in finish if o["o"] != "disc" or o["ch"] in chans]
    finish += rest[tail:]
    return {"id": scen["id"], "thr": scen["thr"], "prio": scen["prio"], "setup": setup, "threads": th, "finish": finish + [{"o": "drain"}],
            "execs": rng.choice([1, 2, 2, 3]), "runs": runs, "dfs": dfs, "pb": pb, "seed": rng.randrange(1 << 30)}


# features that make sense with several threads
MTP = {
    "C01": dict(f={"msg", "chatty", "ctl", "via"}, ctlw=[3, 2, 0]),
    "C02": dict(f={"msg", "port", "trigd", "ctl", "chatty", "ask"}, ctlw=[3, 2, 0]),
    "C03": dict(f={"msg", "trigd", "ctl", "ctlin", "lifescript", "block", "spawn", "cold", "restart", "port"}, ctlw=[4, 4, 0], wctl=4),
    "C04": dict(f={"msg", "port", "trigd", "ctl", "fault", "suicide", "block", "spawn", "killall"}, ctlw=[3, 2, 3], pfault=0.15),
    "C05": dict(f={"msg", "block", "spawn", "ctl", "lifescript", "ask"}, ctlw=[3, 3, 1], pblock=0.5),
    "C06": dict(f={"msg", "fault", "recov", "block", "ctl", "lifescript"}, ctlw=[4, 1, 1], pfault=0.3,
                results=["panic", "recov", "panic", "recov", "benign", "unrec"]),
    "C07": dict(f={"msg", "ctl", "notify", "block", "lifescript", "killall", "cold"}, ctlw=[3, 3, 2], wctl=6),
    "C08": dict(f={"port", "trigd", "msg", "chatty", "ctl"}, ctlw=[4, 2, 1], chans=8),
    "C09": dict(f={"msg", "port", "trigd", "chatty", "ctl"}, ctlw=[3, 2, 0]),
    "C10": dict(f={"timer", "msg", "chatty"}, delays=[1, 1, 2, 3, 5]),
    "C11": dict(f={"ask", "msg", "ctl", "fault", "block", "killall"}, ctlw=[3, 1, 1], pfault=0.1),
    "C21": dict(f={"msg", "via", "held", "ctl", "killall"}, ctlw=[3, 1, 2]),
}


def mt(rng, pid, count, base, runs=0, dfs=0, pb=0):
    p = dict(MTP[pid])
    f = p.pop("f")
    out = []
    for i in range(count):
        g = coregen.Gen(rng, base + i + 1, f, budget=rng.choice([4, 6, 8, 12, 20]), **dict(p, len=rng.choice([3, 5, 8, 12])))
        s = g.scenario()
        if pid == "C10":
            out.append(timers(rng, s, runs, dfs, pb))
        else:
            out.append(split(rng, s, pid, runs=runs, dfs=dfs, pb=pb))
    return out


def timers(rng, s, runs, dfs, pb):
    """clock moved by one thread, while another sends messages whose handlers cancel timers; nothing is scheduled meanwhile"""
    n = rng.choice([1, 2])
    setup = [{"o": "new", "c": c} for c in range(1, n + 1)] + [{"o": "ctl", "to": c, "cmd": "start"} for c in range(1, n + 1)]
    tm = {}
    m = 0
    for c in range(1, n + 1):
        k = rng.randint(1, 4)
        ops = []
        for _ in range(k):
            t = len(tm) + 1
            tm[t] = c
            o = {"o": "sched", "t": t, "d": rng.choice([1, 1, 2, 3])}
            if rng.random() < 0.4:
                o["p"] = rng.choice([1, 2])
            ops.append(o)
        m += 1
        setup.append({"o": "send", "to": c, "m": m, "sc": {"ops": ops}})
    setup.append({"o": "drain"})
    th = [[{"o": "adv", "d": rng.choice([1, 2, 3])} for _ in range(rng.randint(1, 3))], []]
    for _ in range(rng.randint(1, 4)):
        c = rng.randint(1, n)
        mine = [t for t in tm if tm[t] == c]
        m += 1
        o = {"o": "send", "to": c, "m": m}
        if mine and rng.random() < 0.7:
            o["sc"] = {"ops": [{"o": "cancel", "t": rng.choice(mine)}]}
        th[1].append(o)
        if rng.random() < 0.2:
            th[1].append({"o": "ctl", "to": c, "cmd": rng.choice(["stop", "start"])})
    fin = [{"o": "drain"}] + [{"o": "ctl", "to": c, "cmd": "start"} for c in range(1, n + 1)] + [{"o": "drain"}, {"o": "adv", "d": 3}, {"o": "drain"}]
    return {"id": s["id"], "thr": s["thr"], "prio": 0.5, "setup": setup, "threads": th, "finish": fin, "execs": rng.choice([1, 2]),
            "runs": runs, "dfs": dfs, "pb": pb, "seed": rng.randrange(1 << 30)}


def systematic(base, pb, dfs):
    """Small fixed configurations, every schedule with at most pb deviations."""
    S = lambda to, m, **k: dict({"o": "send", "to": to, "m": m}, **k)
    C = lambda to, cmd, n=0: {"o": "ctl", "to": to, "cmd": cmd, "n": n}
    N = lambda c, **k: dict({"o": "new", "c": c}, **k)
    D = {"o": "drain"}
    T = lambda c, port, i, **k: dict({"o": "trigd", "c": c, "port": port, "i": i}, **k)
    blk = lambda f, p=0, **k: {"r": {"block": {"f": f, "fut": dict({"p": p}, **k) if p else dict(k)}}}
    one = [N(1), C(1, "start"), D]
    cases = [
        ("C01", one, [[S(1, 1), S(1, 2)], [S(1, 3), S(1, 4)]], []),
        ("C01", one, [[S(1, 1), S(1, 2)], [S(1, 3)], [T(1, 0, 1)]], []),
        ("C01", one, [[S(1, 1, via=6), S(1, 2)], [S(1, 3, via=6), S(1, 4, via=6)]], []),
        ("C01", [N(1)], [[S(1, 1), C(1, "start")], [S(1, 2)]], []),
        ("C01", [N(1), N(2), C(1, "start"), C(2, "start"), D], [[S(1, 1, sc={"ops": [S(2, 3), S(2, 4)]})], [S(2, 2), S(1, 5)]], []),
        ("C02", one, [[S(1, 1), T(1, 0, 1)], [T(1, 2, 2), S(1, 2)]], []),
        ("C02", one + [S(1, 9, sc=blk(1, 1))] , [[{"o": "fire", "p": 1}, S(1, 1)], [S(1, 2)]], []),
        ("C03", [N(1)], [[C(1, "start"), S(1, 1)], [S(1, 2), C(1, "stop"), S(1, 3)]], [C(1, "start"), D]),
        ("C03", one, [[C(1, "stop"), S(1, 1), C(1, "start")], [S(1, 2), S(1, 3)]], []),
        ("C03", [N(1, start=[blk(1, 1)]), D], [[C(1, "start"), S(1, 1)], [{"o": "fire", "p": 1}, S(1, 2)]], [C(1, "start"), D]),
        ("C04", one, [[S(1, 1), C(1, "kill"), S(1, 2)], [S(1, 3), S(1, 4)]], [S(1, 9), D]),
        ("C04", one, [[S(1, 1, sc={"ops": [{"o": "ctl", "to": 1, "cmd": "suicide"}]}), S(1, 2)], [T(1, 0, 3), C(1, "stop")]], [S(1, 9), D]),
        ("C05", one + [S(1, 9, sc=blk(1, 1)), D], [[{"o": "fire", "p": 1}, S(1, 1)], [S(1, 2), C(1, "stop")]], [C(1, "start"), D]),
        ("C05", one + [S(1, 9, sc=blk(1, 1, r={"block": {"f": 2, "fut": {"p": 2}}})), D], [[{"o": "fire", "p": 1}, S(1, 1)], [{"o": "fire", "p": 2}]], []),
        ("C05", one + [S(1, 9, sc={"ops": [{"o": "spawn", "f": 1, "fut": {"p": 1}}, {"o": "spawn", "f": 2, "fut": {"p": 2}}]}), D],
         [[{"o": "fire", "p": 1}, S(1, 1)], [{"o": "fire", "p": 2}, S(1, 2)]], []),
        ("C05", one + [S(1, 9, sc={"ops": [{"o": "spawn", "f": 1, "fut": {"p": 1, "r": {"block": {"f": 3, "fut": {"p": 3}}}}}]}), D],
         [[{"o": "fire", "p": 1}, S(1, 1)], [{"o": "fire", "p": 3}, S(1, 2)]], []),
        ("C06", one + [{"o": "setrec", "c": 1, "tag": 101}, D], [[S(1, 1, sc={"r": "panic"}), S(1, 2)], [S(1, 3), C(1, "kill")]], []),
        ("C06", one + [{"o": "setrec", "c": 1, "tag": 101}, S(1, 9, sc=blk(1, 1, r="panic")), D], [[{"o": "fire", "p": 1}], [S(1, 3), S(1, 4)]], []),
        ("C06", [N(1), N(2), C(1, "start"), C(2, "start"), {"o": "setrec", "c": 1, "tag": 101}, D],
         [[S(1, 1, sc={"ops": [S(2, 5)], "r": "recov"}), S(2, 2)], [S(1, 3), S(2, 4)]], []),
        ("C07", [N(1)], [[C(1, "start", 1), C(1, "stop", 2)], [C(1, "kill", 3)]], []),
        ("C07", [N(1)], [[C(1, "start", 1), S(1, 1)], [C(1, "start", 2), C(1, "stop", 3)]], [C(1, "kill", 4), D]),
        ("C07", [N(1), N(2)], [[C(1, "start", 1), C(2, "kill", 2)], [C(2, "start", 3), C(1, "kill", 4)]], []),
        ("C08", [N(1), N(2), N(3), {"o": "conn", "ch": 1, "a": 1, "b": 2, "port": 0}, {"o": "conn", "ch": 2, "a": 1, "b": 3, "port": 0},
                 C(1, "start"), C(2, "start"), C(3, "start"), D],
         [[S(1, 1, sc={"ops": [{"o": "trig", "port": 0, "i": 1}, {"o": "trig", "port": 0, "i": 2}]})], [T(2, 2, 3), S(3, 2)]], []),
        ("C08", [N(1), N(2), {"o": "conn", "ch": 1, "a": 1, "b": 2, "port": 0}, C(1, "start"), C(2, "start"), D],
         [[S(1, 1, sc={"ops": [{"o": "trig", "port": 0, "i": 1}]})], [S(2, 2, sc={"ops": [{"o": "trig", "port": 2, "i": 2}]})]], []),
        ("C09", one, [[S(1, 1), S(1, 2), S(1, 3)], [T(1, 0, 1), T(1, 2, 2)]], []),
        ("C11", one, [[{"o": "ask", "a": 1, "to": 1, "sc": {"ops": [{"o": "reply", "a": 1, "v": 11}]}}],
                      [{"o": "ask", "a": 2, "to": 1, "sc": {"ops": [{"o": "dropask", "a": 2}]}}, C(1, "kill")]], []),
        ("C21", [N(1, kind="held"), C(1, "start"), D], [[S(1, 1, via=1), S(1, 2, via=2)], [S(1, 3, via=3), C(1, "kill"), S(1, 4, via=5)]], []),
    ]
    out = []
    for thr in (1, 50):
        for pid, setup, th, fin in cases:
            out.append({"id": base + len(out) + 1, "pid": pid, "thr": thr, "prio": 0.5, "setup": setup, "threads": th,
                        "finish": fin + [D], "execs": 2, "dfs": dfs, "pb": pb})
    return out


def ending(rng, ops, n, st):
    """what races with the shutdown of the system: commands, components that end on their own, others that only start now"""
    mine = [o for o in ops if o["o"] == "new"]
    for o in mine:
        if rng.random() < 0.5:
            o["kill"] = {"ops": [{"o": "sleep", "ms": rng.choice([1, 5, 15, 30])}]}
            if rng.random() < 0.15:
                o["kill"]["r"] = rng.choice(["panic", "recov", "unrec", "benign"])
    extra = []
    for c in range(n + 1, n + 1 + rng.choice([0, 0, 1, 2])):
        ops.append({"o": "new", "c": c, "kind": rng.choice(["", "ded"])})
        extra.append(c)

    def some():
        r = []
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            c = rng.randint(1, n)
            x = rng.random()
            if x < 0.35:
                r.append({"o": "ctl", "to": c, "cmd": rng.choice(["stop", "stop", "kill", "start"])})
            elif extra and x < 0.6:
                r.append({"o": "ctl", "to": rng.choice(extra), "cmd": "start"})
            else:
                st["m"] += 1
                r.append({"o": "send", "to": c, "m": st["m"], "sc": {
                    "ops": [{"o": "sleep", "ms": rng.choice([1, 5, 15])}] if rng.random() < 0.7 else [],
                    "r": rng.choice(["ok", "panic", "panic", "recov", "unrec", "shutdown"])}})
            if rng.random() < 0.3:
                r.append({"o": "sleep", "ms": rng.choice([1, 2, 5])})
        return r
    return some(), [{"o": "sleep", "ms": rng.choice([1, 3, 8])}] + some()


def real(rng, pid, count, base, reps=1):
    """Free-running threads; every component is active, everything sent is handled."""
    out = []
    for i in range(count):
        n = rng.randint(1, 4)
        ops = []
        for c in range(1, n + 1):
            k = rng.choice(["ded", "ded", ""]) if pid == "C02" or rng.random() < 0.5 else ""
            ops.append({"o": "new", "c": c, "kind": k})
        seen = set()
        fan = {}
        ch = 0
        for _ in range(rng.randint(0, 4) if pid in ("C02", "C08", "C07") else 0):
            a, b, p = rng.randint(1, n), rng.randint(1, n), rng.randint(0, 1)
            if a == b or (a, b, p) in seen:
                continue
            seen.add((a, b, p))
            ch += 1
            kind = rng.choice(["two", "p2r", "r2p"])
            ops.append({"o": "conn", "ch": ch, "a": a, "b": b, "port": p, "kind": kind})
            if kind in ("two", "p2r"):
                fan[(a, p)] = fan.get((a, p), 0) + 1
            if kind in ("two", "r2p"):
                fan[(b, p + 2)] = fan.get((b, p + 2), 0) + 1
        nn = 0
        for c in range(1, n + 1):
            nn += 1
            ops.append({"o": "ctl", "to": c, "cmd": "start", "n": nn})
        st = {"m": 0, "i": 0, "f": 0, "p": 0, "hb": 0, "a": 0}
        proms = []

        def script(c, d):
            r = []
            if d > 2:
                return None
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                x = rng.random()
                if x < 0.6 or not (pid in ("C02", "C08", "C07") and fan):
                    r.append(send(d + 1))
                else:
                    st["i"] += 1
                    p = rng.randint(0, 3)
                    st["hb"] += fan.get((c, p), 0)
                    r.append({"o": "trig", "port": p, "i": st["i"]})
            sc = {"ops": r} if r else {}
            if pid in ("C05", "C02") and rng.random() < (0.3 if pid == "C05" else 0.1):
                st["f"] += 1
                fut = {}
                if rng.random() < 0.8:
                    st["p"] += 1
                    fut["p"] = st["p"]
                    proms.append(st["p"])
                sc["r"] = {"block": {"f": st["f"], "fut": fut}}
            elif pid in ("C05",) and rng.random() < 0.2:
                st["f"] += 1
                st["p"] += 1
                proms.append(st["p"])
                sc.setdefault("ops", []).append({"o": "spawn", "f": st["f"], "fut": {"p": st["p"]}})
            return sc or None

        def send(d):
            c = rng.randint(1, n)
            x = rng.random()
            if pid == "C11" and x < 0.5 and d == 0:
                st["a"] += 1
                st["hb"] += 1
                o = {"o": "ask", "a": st["a"], "to": c, "sc": {"ops": [{"o": "reply", "a": st["a"], "v": st["a"] * 7}]
                     if rng.random() < 0.8 else [{"o": "dropask", "a": st["a"]}]}}
                return o
            if x < 0.75 or d:
                st["m"] += 1
                st["hb"] += 1
                o = {"o": "send", "to": c, "m": st["m"]}
                if pid == "C21" or rng.random() < 0.2:
                    o["via"] = rng.randint(0, 7)
            else:
                st["i"] += 1
                st["hb"] += 1
                o = {"o": "trigd", "c": c, "port": rng.randint(0, 3), "i": st["i"]}
            sc = script(c, d)
            if sc:
                o["sc"] = sc
            return o
        th = [[send(0) for _ in range(rng.choice([3, 10, 30]))] for _ in range(rng.randint(1, 6))]
        # promises are resolved by a thread of their own
        if proms:
            fire = [{"o": "fire", "p": p} for p in proms]
            rng.shuffle(fire)
            th.append(fire)
        fin = []
        if pid == "C07" and rng.random() < 0.7:
            for c in range(1, n + 1):
                x = rng.random()
                nn += 1
                if x < 0.3:
                    fin.append({"o": "ctl", "to": c, "cmd": "stop", "n": nn})
                elif x < 0.5:
                    fin.append({"o": "ctl", "to": c, "cmd": "kill", "n": nn})
        late, during = ending(rng, ops, n, st) if pid == "C07" and rng.random() < 0.7 else ([], [])
        out.append({"id": base + i + 1, "thr": rng.choice([1, 2, 5, 50]), "prio": 0.5, "pool": rng.choice([1, 2, 3, 4]), "setup": ops,
                    "threads": th, "finish": fin, "hb": st["hb"], "started": n, "pace": rng.choice([0, 0, 200, 2000, 20000]), "reps": reps,
                    "late": late, "during": during})
    return out
