"""Scenarios for the buffer world (C17)."""

WAYS = ["slice", "bytes1", "u64", "parts", "fill", "writer", "raw", "put"]


def cfg(rng, enc=True):
    cs = rng.choice([128, 128, 129, 150, 200, 256])
    mx = rng.choice([2, 2, 3, 3, 4, 5])
    return {"cs": cs, "init": rng.randint(1, mx), "max": mx, "free": rng.choice([0, 1, 5, 8, 9, 30, 64, cs - 1]), "seg": rng.choice([1, 1, 10, 60])}


class G:
    def __init__(self, rng, c):
        self.r, self.c, self.ops = rng, c, []
        self.h, self.n = [], 0        # handles of the encode buffer: [id, kind]
        self.ph, self.pn = [], 1000   # of the pool
        self.out, self.decs = 0, 0

    def size(self):
        r, cs = self.r, self.c["cs"]
        return r.choice([0, 1, 2, 8, 9, r.randrange(40), cs - 1, cs, cs + 1, cs - r.randrange(30), r.randrange(cs), r.randrange(2 * cs + 3),
                         2 * cs - r.randrange(3), r.randrange(self.c["max"] * cs + 40)])

    def enc(self):
        r = self.r
        self.n += 1
        api = r.choice(["put", "put", "put2", "msg", "msg", "pre", "pre", "embed", "withpre"])
        n = self.size()
        o = {"o": "enc", "id": self.n, "n": n, "seed": r.randrange(250), "way": r.choice(WAYS), "api": api,
             "hint": r.choice([-1, n, n, 0, n // 2, n + 30])}
        if r.random() < .05:
            o["way"] = "fail"
        refs = [h for h in self.h if h[1] == "r"]
        if api == "withpre" or (api == "embed" and r.random() < .5):
            if not refs:
                return
            o["of"] = r.choice(refs)[0]
            if r.random() < .5:
                o["n"] = 0
        self.ops.append(o)
        self.h.append([self.n, "l" if api in ("put", "put2", "msg") else "r"])

    def pick(self, p):
        hs = self.ph if p else self.h
        return self.r.choice(hs) if hs else None

    def handle(self, p):
        r = self.r
        h = self.pick(p)
        if not h:
            return
        hs = self.ph if p else self.h
        k = r.choice(["clone", "toref", "join", "read", "drop", "drop"])
        if k == "clone" and h[1] == "r":
            i = self.new(p)
            self.ops.append({"o": "clone", "id": i, "of": h[0]})
            hs.append([i, "r"])
        elif k == "toref" and h[1] == "l":
            self.ops.append({"o": "toref", "of": h[0]})
            h[1] = "r"
        elif k == "join":
            g = self.pick(p)
            if g[1] == "r" and h[1] == "l":
                i = self.new(p)
                self.ops.append({"o": "join", "a": h[0], "b": g[0], "id": i, "way": r.choice(["tail", "head"])})
                hs.remove(h)
                hs.remove(g)
                hs.append([i, "r"])
        elif k == "read":
            self.ops.append({"o": "read", "of": h[0], "k": r.choice([0, 1, 9, r.randrange(200), self.c["cs"], 5000])})
        elif k == "drop":
            self.ops.append({"o": "drop", "of": h[0]})
            hs.remove(h)

    def new(self, p):
        if p:
            self.pn += 1
            return self.pn
        self.n += 1
        return self.n

    def drop_all(self, p=False):
        hs = self.ph if p else self.h
        for h in hs:
            self.ops.append({"o": "drop", "of": h[0]})
        hs.clear()

    def pool(self):
        r = self.r
        k = r.choice(["get", "get", "lease", "ret", "ret", "lose", "sizes", "dnew", "dfeed", "dfeed", "dfeed", "dfeed", "dget", "dget", "dget", "dswap", "ddrop"])
        mx = self.c["max"]
        if k == "get" or k == "sizes":
            self.ops.append({"o": k})
        elif k == "lease":
            i = self.new(True)
            a = r.randrange(self.c["cs"] - 1)
            self.ops.append({"o": "lease", "id": i, "c": r.randint(1, mx), "a": a, "b": r.randint(a + 1, self.c["cs"])})
            self.ph.append([i, "l"])
        elif k == "ret" or (k == "lose" and r.random() < .15):
            self.ops.append({"o": k, "c": r.randint(1, mx)})
        elif k == "dnew":
            self.ops.append({"o": "dnew", "d": r.randrange(2), "c": r.randint(1, mx)})
        elif k == "ddrop":
            if r.random() < .15:
                self.ops.append({"o": "ddrop", "d": r.randrange(2)})
        elif k == "dfeed":
            n = r.choice([-1, 0, 1, 30, r.randrange(self.c["cs"] * 2)])
            d = r.randrange(2)
            self.ops.append({"o": "dfeed", "d": d, "n": n, "k": r.choice([1, 9, 40, 128, 1000]), "seed": r.randrange(250)})
            for _ in range(r.randrange(3)):
                self.ops.append({"o": "dget", "d": d, "id": self.new(True)})
                self.ph.append([self.pn, "l"])
                self.ops.append({"o": "dswap", "d": d})
                self.ops.append({"o": "dfeed", "d": d, "n": -1, "k": r.choice([9, 128, 1000]), "seed": 0})
        elif k == "dget":
            i = self.new(True)
            self.ops.append({"o": "dget", "d": r.randrange(2), "id": i})
            self.ph.append([i, "l"])
        elif k == "dswap":
            self.ops.append({"o": "dswap", "d": r.randrange(2)})

    def done(self):
        e = ["e", "p", "d", "c", "h"]
        self.r.shuffle(e)
        return {"cfg": self.c, "ops": self.ops, "end": e}


def encodes(rng, n):
    out = []
    for _ in range(n):
        g = G(rng, cfg(rng))
        greedy = rng.random()
        for _ in range(rng.randrange(3, 40)):
            x = rng.random()
            if x < .55:
                g.enc()
            elif x < .6:
                g.ops.append({"o": "eswap"})
            elif x < .63 + greedy * .1:
                g.drop_all()
            else:
                g.handle(False)
        if rng.random() < .2:
            g.ops.insert(rng.randrange(len(g.ops) + 1), {"o": "edrop"})
        out.append(g.done())
    return out


def pools(rng, n):
    out = []
    for _ in range(n):
        c = cfg(rng)
        c["free"] = min(c["free"], 40)
        g = G(rng, c)
        for d in range(rng.choice([0, 1, 2])):
            g.ops.append({"o": "get"})
            g.ops.append({"o": "dnew", "d": d, "c": c["init"] - d if c["init"] > d else d + 1})
        for _ in range(rng.randrange(5, 50)):
            g.pool()
            if rng.random() < .45:
                g.handle(True)
            if rng.random() < .06:
                g.drop_all(True)
        out.append(g.done())
    return out


def systematic(rng, deep):
    """One earlier write of p bytes, then one of n bytes, each way and interface, the first one kept or not; then it is done again
    until nothing is left, everything is given up, and it must work again."""
    out = []
    ns = [1, 8, 9, 60, 127, 128, 129, 256, 300] + ([2, 7, 10, 126, 255, 257, 384] if deep else [])
    for api in ["put", "put2", "msg", "pre", "embed"]:
        for way in WAYS if api == "put" or deep else ["slice", "writer", "u64"]:
            for free in (0, 8, 30):
                for p in rng.sample([1, 60, 119, 120, 121, 126, 127, 128], 3 if not deep else 6):
                    for keep in (0, 1):
                        n = rng.choice(ns)
                        mx = rng.choice([2, 3, 4])
                        ops = []
                        i = 0
                        for _ in range(4):
                            i += 1
                            ops.append({"o": "enc", "id": i, "n": p, "seed": i, "way": "slice", "api": "put", "hint": -1})
                            if not keep:
                                ops.append({"o": "drop", "of": i})
                            i += 1
                            ops.append({"o": "enc", "id": i, "n": n, "seed": i, "way": way, "api": api, "hint": rng.choice([-1, n, n // 2, n + 9])})
                            if keep == 0 and rng.random() < .3:
                                ops.append({"o": "drop", "of": i})
                        ops += [{"o": "drop", "of": k} for k in range(1, i + 1)]
                        ops += [{"o": "enc", "id": i + k, "n": 100, "seed": k, "way": "slice", "api": "put", "hint": -1} for k in range(1, mx)]
                        out.append({"cfg": {"cs": 128, "init": rng.randint(1, mx), "max": mx, "free": free, "seg": 1}, "ops": ops,
                                    "end": rng.choice([["h", "e", "p", "d", "c"], ["e", "p", "d", "c", "h"]])})
    return out


def systems(rng, n):
    out = []
    for i in range(n):
        c = cfg(rng)
        g = G(rng, c)
        ops = []
        k = 0
        gone = False
        for _ in range(rng.randrange(2, 9)):
            if not gone and rng.random() < .7:
                k += 1
                ops.append({"o": "enc", "id": k, "n": g.size(), "seed": rng.randrange(250)})
                g.h.append([k, "r"])
                g.n = k
            else:
                g.ops = []
                g.handle(False)
                k = max(k, g.n)
                ops += g.ops
            if not gone and rng.random() < .2:
                ops.append({"o": "kill"})
                gone = True
        if rng.random() < .5:
            ops.append({"o": "down"})
        out.append({"sys": True, "net": i % 3 == 2, "cfg": c, "ops": ops})
    return out
