"""Scenarios for the network world (C18, C19, C20): one system, scripted peers."""


def peers(rng, n, auto=.7, v6=False):
    """addresses: some share an ip, some a range"""
    base = [rng.randrange(1, 250) * 256 + rng.randrange(1, 250)]
    out = []
    for i in range(n):
        b = rng.choice(base)
        x = rng.choice([b, b, b ^ 1, b ^ 2, b ^ rng.randrange(1, 256), rng.randrange(1, 250) * 256 + rng.randrange(1, 250)])
        x = x if x & 255 not in (0, 255) and x >> 8 else b
        base.append(x)
        out.append({"x": x, "on": rng.random() < .85, "auto": rng.random() < auto})
    return out


class G:
    def __init__(self, rng, n, auto=.7, small=False):
        self.r = rng
        self.ps = peers(rng, n, auto)
        if small:
            for p in self.ps:
                p["small"] = True
        self.n, self.m, self.lo, self.hi = 0, 5000, 0, 0
        self.ops = []

    def p(self):
        return self.r.randrange(len(self.ps)) + 1

    def sid(self):
        if self.r.random() < .5:
            self.lo += 1
            return self.lo
        self.hi += 1
        return 2000 + self.hi

    def add(self, o, **k):
        k["o"] = o
        self.ops.append(k)

    def snd(self, p=None, z=None, many=1):
        p = p or self.p()
        for _ in range(many):
            self.n += 1
            self.add("snd", p=p, n=self.n, z=self.r.choice([0, 1, 10, 100, 1000]) if z is None else z, how=self.r.randrange(3))

    def f(self, k, p=None, d=None, i=None, **kw):
        p = p or self.p()
        f = {"k": k}
        if k == "data":
            self.m += 1
            f["n"] = self.m
            f["z"] = self.r.choice([0, 5, 50, 500, 3000, 70000])
        if k == "start":
            f["s"] = self.sid()
            if self.r.random() < .08:
                f["q"] = self.p()
        f.update(kw)
        o = {"p": p, "d": d or self.r.choice("oi"), "i": self.r.choice([0, 0, 0, 1, 2]) if i is None else i, "f": f}
        if self.r.random() < .12:
            o["cut"] = self.r.randrange(200)
            self.add("f", **o)
        self.add("f", **o)

    def dial(self, p=None):
        self.add("dial", p=p or self.p(), s=self.sid())

    def range(self):
        r = self.r
        x = r.choice(self.ps)["x"]
        if r.random() < .2:
            x ^= 1 << r.randrange(10)
        return x, r.choice([16, 17, 20, 24, 24, 28, 30, 31, 32, 32])

    def block(self):
        r = self.r
        k = r.choice(["bip", "aip", "bip", "bnet", "anet", "bnet", "bsys", "asys", "bsys", "asys"])
        if k in ("bsys", "asys"):
            self.add(k, p=self.p())
        else:
            x, l = self.range()
            self.add(k, x=x, l=l)

    def step(self, w):
        r = self.r
        k = r.choices(list(w), list(w.values()))[0]
        if k == "snd":
            self.snd(many=r.choice([1, 1, 1, 2, 3]))
        elif k == "dial":
            self.dial()
        elif k in ("conn", "disc"):
            self.add(k, p=self.p())
        elif k == "tick":
            self.add("tick")
        elif k == "block":
            self.block()
        elif k == "listen":
            self.add("listen", p=self.p(), on=r.random() < .6)
        elif k == "auto":
            self.add("auto", p=self.p(), on=r.random() < .6)
        elif k in ("fin", "rst"):
            self.add(k, p=self.p(), d=r.choice("oi"), i=r.choice([0, 0, 1]))
        elif k == "stall":
            self.add("stall", p=self.p(), d=r.choice("oi"), i=0)
        elif k == "flow":
            self.add("flow", p=self.p(), d=r.choice("oi"), i=0)
        elif k == "in":
            self.f("data")
        elif k == "hs":
            self.f(r.choice(["hello", "start", "ack", "bye", "data"]))
        elif k == "odd":
            self.f(r.choice(["hello", "start", "ack", "bye", "bad", "junk", "data"]))

    def done(self, **k):
        return dict(k, peers=self.ps, ops=self.ops, down=True)


COMMON = {"snd": 8, "in": 5, "dial": 2, "conn": 1, "disc": 1.5, "tick": 3, "listen": .7, "fin": 1, "rst": 1.2}


def scen(rng, mode):
    r = rng
    lim = {"max": r.choice([0, 1, 2, 2, 3]), "soft": 100, "hard": 100}
    n = r.choice([1, 2, 2, 3])
    w = dict(COMMON)
    auto, length, small = .9, r.randint(10, 26), False
    if mode == "raw":
        auto, w["hs"], w["auto"] = .25, 18, .5
    elif mode == "block":
        n = r.choice([2, 3, 4])
        w["block"] = 9
        auto = .8
    elif mode == "limits":
        n = r.choice([3, 4, 5])
        lim["soft"] = r.choice([1, 1, 2, 2, 3])
        lim["hard"] = max(lim["soft"], r.choice([1, 2, 3, 3, 4, 5]))
        w["dial"], w["conn"], w["auto"], w["snd"] = 5, 3, .5, 10
    elif mode == "odd":
        w["odd"] = 6
        auto = .7
    elif mode == "stall":
        small, auto = True, 1
        n = r.choice([1, 2])
        w.update({"stall": 0, "flow": 0})
    g = G(r, n, auto, small)
    if mode == "stall":
        for _ in range(r.choice([1, 2])):
            p = g.p()
            first = r.choice(["dial", "snd"])
            g.dial(p) if first == "dial" else g.snd(p)
            d = "i" if first == "dial" else "o"
            g.add("stall", p=p, d=d, i=0)
            for _ in range(r.randint(1, 7)):
                g.snd(p, z=r.choice([0, 100, 3000, 20000, 60000]))
                if r.random() < .1:
                    g.f("data", p, d, 0)
            for _ in range(r.randint(0, 3)):
                g.step({"fin": 1, "rst": 3, "disc": 1, "tick": 1, "dial": 1, "conn": 1, "snd": 1, "hs": 1})
            if r.random() < .7:
                g.add("flow", p=p, d=d, i=0)
            for _ in range(r.randint(1, 5)):
                g.step(w)
        return g.done(**lim)
    for _ in range(length):
        g.step(w)
    s = g.done(**lim)
    if r.random() < .15:
        s["v6"] = True
        for q in s["peers"]:
            # the only address of this machine
            q["x"] = 1
        for o in s["ops"]:
            if "x" in o:
                o["x"] = r.choice([1, 1, 1, 2, 3])
                o["l"] = r.choice([16, 24, 30, 31, 32, 32])
    return s


def several(rng, mode, n):
    return [scen(rng, mode) for _ in range(n)]
