"""Scenario generators for the component runtime (world `core`)."""
import itertools

RESULTS = ["benign", "recov", "unrec", "shutdown", "panic"]


class Gen:
    """One random scenario. `f` is a set of features; see PROFILES."""

    def __init__(self, rng, sid, f, **kw):
        self.r, self.sid, self.f = rng, sid, f
        self.n = 0
        self.m = self.t = self.fu = self.p = self.a = self.nn = self.i = self.ch = 0
        self.conns = set()
        self.chans = {}
        self.timers = []        # (comp, id)
        self.asks = []
        self.proms = []
        self.kw = kw
        self.budget = kw.get("budget", 40)
        self.started = set()
        self.released = set()
        self.suicidal = False

    def one(self, **k):
        for x in k:
            setattr(self, x, getattr(self, x) + k[x])

    def has(self, x):
        return x in self.f

    # -------------------------------------------------------- scripts
    def script(self, me, depth=0, kinds=None):
        ops = []
        r = self.r
        n = 0 if depth > 2 else r.choice([0, 0, 0, 1, 1, 2, 3] if not self.has("chatty") else [0, 1, 2, 3, 5])
        for _ in range(n):
            o = self.op(me, depth + 1)
            if o:
                ops.append(o)
        res = self.result(me, depth)
        sc = {}
        if ops:
            sc["ops"] = ops
        if res != "ok":
            sc["r"] = res
        return sc

    def result(self, me, depth, allow=None):
        r = self.r
        x = r.random()
        if self.has("block") and x < self.kw.get("pblock", 0.2) and depth < 3:
            return {"block": self.future(me, depth)}
        if self.has("fault") and x > 1 - self.kw.get("pfault", 0.08):
            return r.choice(self.kw.get("results", RESULTS))
        if self.has("benign") and x > 0.7:
            return "benign"
        return "ok"

    def future(self, me, depth):
        r = self.r
        self.fu += 1
        f = self.fu
        fut = {}
        if r.random() < 0.8:
            self.p += 1
            self.proms.append(self.p)
            fut["p"] = self.p
        if depth < 2:
            for k in ("pre", "post"):
                if r.random() < 0.3:
                    o = self.op(me, depth + 1)
                    if o:
                        fut[k] = [o]
        x = r.random()
        if depth < 2 and self.has("block") and x < 0.15:
            fut["r"] = {"block": self.future(me, depth + 1)}
        elif self.has("fault") and x > 0.9:
            fut["r"] = r.choice(self.kw.get("results", RESULTS))
        elif x > 0.85:
            fut["r"] = "benign"
        return {"f": f, "fut": fut}

    # -------------------------------------------------------- ops (me: component, or 0 for the driver)
    def op(self, me, depth=0):
        r = self.r
        if self.budget <= 0:
            return None
        self.budget -= 1
        w = []

        def add(k, wt):
            w.append((k, wt))
        if self.has("msg"):
            add("send", 4)
        if self.has("port"):
            add("trig" if me else "trigd", 4)
            if me and self.has("trigd"):
                add("trigd", 1)
        if self.has("timer") and me:
            add("sched", 3)
            if any(c == me for c, _ in self.timers):
                add("cancel", 3)
        if self.has("spawn") and me:
            add("spawn", 2)
        if self.proms:
            add("fire", 2)
        if self.has("ask"):
            add("ask", 3)
            if me:
                add("answer", 3)
        if self.has("ctl"):
            add("ctl", self.kw.get("wctl", 2))
        if self.has("ctlin") and me:
            add("ctl", 1)
        if self.has("recov"):
            add("setrec", 1)
        if self.has("eq"):
            add("eq", 1)
        if not w:
            return None
        ks, ws = zip(*w)
        k = r.choices(ks, ws)[0]
        to = r.randint(1, self.n)
        if k == "send":
            self.m += 1
            o = {"o": "send", "to": to, "m": self.m}
            if self.has("via"):
                o["via"] = r.choice([0, 0, 1, 2, 3, 4, 5, 6, 6, 7])
            return self.sc(o, to, depth)
        if k == "trig":
            self.i += 1
            o = {"o": "trig", "port": r.choice(self.kw.get("ports", [0, 0, 1, 2, 2, 3])), "i": self.i}
            if not self.has("portscript"):
                return o
            return self.sc(o, to, depth + 1, plain=True)
        if k == "trigd":
            self.i += 1
            return self.sc({"o": "trigd", "c": to, "port": r.randint(0, 3), "i": self.i}, to, depth)
        if k == "sched":
            self.t += 1
            self.timers.append((me, self.t))
            o = {"o": "sched", "t": self.t, "d": r.choice(self.kw.get("delays", [1, 1, 2, 3, 5, 7]))}
            if r.random() < 0.4:
                o["p"] = r.choice([1, 2, 3, 5])
                return self.sc(o, me, depth, plain=True, me_cancel=[t for c, t in self.timers if c == me])
            return self.sc(o, me, depth)
        if k == "cancel":
            return {"o": "cancel", "t": r.choice([t for c, t in self.timers if c == me])}
        if k == "spawn":
            x = self.future(me, depth)
            return {"o": "spawn", "f": x["f"], "fut": x["fut"]}
        if k == "fire":
            p = self.proms.pop(r.randrange(len(self.proms)))
            return {"o": "fire" if r.random() < 0.85 else "dropp", "p": p}
        if k == "ask":
            self.a += 1
            self.asks.append(self.a)
            o = {"o": "ask", "a": self.a, "to": to}
            if r.random() < 0.3:
                o["via"] = 1
            sc = self.script(to, depth + 1)
            x = r.random()
            ops = sc.setdefault("ops", [])
            if x < 0.5:
                ops.append({"o": "reply", "a": self.a, "v": self.a * 10 + r.randint(0, 9)})
            elif x < 0.65:
                ops.append({"o": "dropask", "a": self.a})
            elif x < 0.85:
                d = r.randint(1, self.n)
                inner = {"ops": []}
                if r.random() < 0.7:
                    inner["ops"].append({"o": "reply", "a": self.a, "v": self.a * 10 + r.randint(0, 9)})
                if self.has("fault") and r.random() < 0.2:
                    inner["r"] = r.choice(self.kw.get("results", RESULTS))
                ops.append({"o": "fwd", "a": self.a, "to": d, "sc": inner})
            o["sc"] = sc
            return o
        if k == "answer":
            if not self.asks:
                return None
            a = r.choice(self.asks)
            if r.random() < 0.7:
                return {"o": "reply", "a": a, "v": a * 10 + r.randint(0, 9)}
            return {"o": "dropask", "a": a}
        if k == "ctl":
            cmd = r.choices(["start", "stop", "kill"], self.kw.get("ctlw", [3, 3, 1]))[0]
            if me and self.has("suicide") and r.random() < 0.3:
                return {"o": "ctl", "to": me, "cmd": "suicide"}
            o = {"o": "ctl", "to": to, "cmd": cmd}
            if self.has("notify") and r.random() < 0.6:
                self.nn += 1
                o["n"] = self.nn
            return o
        if k == "setrec":
            return {"o": "setrec", "c": me or to, "tag": 100 * (me or to) + r.randint(1, 9)}
        if k == "eq":
            return {"o": "eq", "c": to, "d": r.randint(1, self.n)}

    def sc(self, o, to, depth, plain=False, me_cancel=None):
        if plain:       # executed several times: only side effects that are fine more than once
            sc = {}
            if me_cancel and self.r.random() < 0.3:
                sc = {"ops": [{"o": "cancel", "t": self.r.choice(me_cancel)}]}
            if self.has("fault") and self.r.random() < 0.1:
                sc = {"r": self.r.choice(["benign", "panic", "recov"])}
        else:
            sc = self.script(to, depth)
        if sc:
            o["sc"] = sc
        return o

    # -------------------------------------------------------- the scenario
    def scenario(self):
        r = self.r
        ops = []
        self.n = self.kw.get("comps") or r.choice([1, 2, 2, 3, 3, 4])
        for c in range(1, self.n + 1):
            o = {"o": "new", "c": c}
            if self.has("lifescript"):
                o["start"] = [self.lifescript(c) for _ in range(r.randint(0, 2))]
                o["stop"] = [self.lifescript(c) for _ in range(r.randint(0, 2))]
                if r.random() < 0.5:
                    o["kill"] = self.lifescript(c)
            if self.has("held") and r.random() < 0.3:
                o["kind"] = "held"
            ops.append(o)
            if self.has("recov") and r.random() < 0.6:
                ops.append({"o": "setrec", "c": c, "tag": 100 * c})
        if self.has("port"):
            for _ in range(r.randint(1, self.kw.get("chans", 6))):
                o = self.conn()
                if o:
                    ops.append(o)
        if not self.has("cold"):
            for c in range(1, self.n + 1):
                if r.random() < 0.9:
                    o = {"o": "ctl", "to": c, "cmd": "start"}
                    if self.has("notify"):
                        self.nn += 1
                        o["n"] = self.nn
                    self.started.add(c)
                    ops.append(o)
            if r.random() < 0.7:
                ops.append({"o": "drain"})
        for _ in range(self.kw.get("len") or r.randint(4, 25)):
            x = r.random()
            if x < 0.30:
                ops.append({"o": "exec", "k": r.randint(0, 5)})
            elif x < 0.38:
                ops.append({"o": "drain"})
            elif x < 0.46 and self.has("timer"):
                ops.append({"o": "adv", "d": r.choice([1, 1, 2, 3, 4, 5, 8, 13])})
            elif x < 0.5 and self.has("port"):
                if self.chans and r.random() < 0.6:
                    ch = r.choice(list(self.chans))
                    self.conns.discard(self.chans.pop(ch))
                    ops.append({"o": "disc", "ch": ch})
                else:
                    o = self.conn()
                    if o:
                        ops.append(o)
            elif x < 0.53 and self.has("burst"):
                to = r.randint(1, self.n)
                for _ in range(r.randint(3, 12)):
                    if self.has("port") and r.random() < 0.6:
                        self.i += 1
                        ops.append({"o": "trigd", "c": to, "port": r.randint(0, 3), "i": self.i})
                    else:
                        self.m += 1
                        ops.append({"o": "send", "to": to, "m": self.m})
            elif x < 0.56 and self.has("rel") and self.started:
                c = r.choice(sorted(self.started))
                ops.append({"o": "ctl", "to": c, "cmd": "kill"})
                ops.append({"o": "drain"})
                ops.append({"o": "rel", "c": c})
                ops.append({"o": "drain"})
            else:
                o = self.op(0)
                if o:
                    ops.append(o)
        ops.append({"o": "drain"})
        if self.has("timer"):
            ops += [{"o": "adv", "d": 20}, {"o": "drain"}]
        while self.proms:
            ops.append({"o": "fire", "p": self.proms.pop(0)})
            if r.random() < 0.5:
                ops.append({"o": "drain"})
        ops.append({"o": "drain"})
        if self.has("restart"):
            for c in range(1, self.n + 1):
                ops.append({"o": "ctl", "to": c, "cmd": "start"})
            ops.append({"o": "drain"})
        if self.has("killall"):
            for c in range(1, self.n + 1):
                self.nn += 1
                ops.append({"o": "ctl", "to": c, "cmd": "kill", "n": self.nn})
            ops.append({"o": "drain"})
            for c in range(1, self.n + 1):
                self.m += 1
                ops.append({"o": "send", "to": c, "m": self.m})
            ops.append({"o": "drain"})
            if self.has("rel"):
                for c in range(1, self.n + 1):
                    ops.append({"o": "rel", "c": c})
                ops.append({"o": "drain"})
        return {"id": self.sid, "thr": r.choice(self.kw.get("thr", [1, 2, 3, 50])), "prio": r.choice(self.kw.get("prio", [0.5])),
                "ops": ops}

    def lifescript(self, c):
        return self.script(c, 1)

    def conn(self):
        r = self.r
        a, b, p = r.randint(1, self.n), r.randint(1, self.n), r.randint(0, 1)
        if a == b or (a, b, p) in self.conns:
            return None
        self.conns.add((a, b, p))
        self.ch += 1
        self.chans[self.ch] = (a, b, p)
        return {"o": "conn", "ch": self.ch, "a": a, "b": b, "port": p, "kind": r.choice(["two", "two", "two", "p2r", "r2p"])}


PROFILES = {
    "C01": dict(f={"msg", "chatty", "burst", "ctl", "via"}, ctlw=[3, 2, 0], thr=[1, 2, 3, 7, 50], prio=[0.01, 0.3, 0.5, 0.99]),
    "C03": dict(f={"msg", "port", "trigd", "timer", "ctl", "ctlin", "lifescript", "block", "spawn", "cold", "restart", "burst", "benign"},
                ctlw=[4, 4, 0], wctl=5),
    "C04": dict(f={"msg", "port", "timer", "ctl", "ctlin", "fault", "suicide", "block", "spawn", "killall", "restart", "burst", "lifescript", "ask"},
                pfault=0.15, ctlw=[3, 2, 3]),
    "C05": dict(f={"msg", "port", "timer", "ctl", "block", "spawn", "lifescript", "restart", "ask", "burst", "fault", "benign"},
                pblock=0.4, pfault=0.05, ctlw=[3, 3, 1]),
    "C06": dict(f={"msg", "port", "portscript", "timer", "fault", "recov", "block", "spawn", "ctl", "lifescript"}, pfault=0.25, ctlw=[4, 1, 1],
                results=["panic", "recov", "panic", "recov", "benign", "unrec"]),
    "C07": dict(f={"msg", "ctl", "ctlin", "notify", "block", "fault", "lifescript", "killall", "suicide", "cold"}, pfault=0.06, ctlw=[3, 3, 2], wctl=6),
    "C08": dict(f={"port", "portscript", "trigd", "msg", "ctl", "burst", "chatty", "rel"}, ctlw=[4, 2, 1], chans=10, thr=[1, 2, 50]),
    "C09": dict(f={"msg", "port", "trigd", "timer", "ctl", "burst", "chatty", "benign"}, ctlw=[3, 2, 0], thr=[1, 2, 3, 4, 5, 8], prio=[0.01, 0.1, 0.25, 0.5, 0.75, 0.99]),
    "C10": dict(f={"timer", "msg", "chatty", "ctl", "block"}, ctlw=[3, 2, 0], delays=[0, 1, 1, 2, 3, 5, 7], pblock=0.05),
    "C11": dict(f={"ask", "msg", "ctl", "fault", "block", "spawn", "killall", "rel"}, pfault=0.1, ctlw=[3, 1, 1]),
    "C21": dict(f={"msg", "via", "eq", "held", "ctl", "fault", "killall", "rel"}, pfault=0.05, ctlw=[3, 1, 2]),
}


def random_scenarios(rng, prof, count, base=0, **over):
    p = dict(PROFILES[prof])
    p.update(over)
    f = p.pop("f")
    return [Gen(rng, base + i + 1, f, budget=rng.choice([10, 20, 40, 60]), **p).scenario() for i in range(count)]


def histories(alphabet, maxlen, base=0, prefix=None, suffix=None, thr=50, minlen=1, uniq=True):
    """All sequences over an alphabet of op makers, up to a length; makers get a counter so that ids stay unique."""
    out = []
    n = base
    for k in range(minlen, maxlen + 1):
        for seq in itertools.product(range(len(alphabet)), repeat=k):
            n += 1
            ctr = [0]

            def fresh():
                ctr[0] += 1
                return ctr[0]
            ops = list(prefix(fresh) if prefix else [])
            for x in seq:
                ops += alphabet[x](fresh)
            ops += suffix(fresh) if suffix else []
            out.append({"id": n, "thr": thr, "ops": ops})
    return out
