"""Scenarios for the promise world (C11)."""

VIAS = ["fulfil", "reply", "of", "complete", "with", "withlate", "take"]
LOST = ["plain", "ask", "panic", "with"]
UNTIMED = ["wait", "fwait", "await"]
TIMED = ["timeout", "ftimeout", "until"]
CTIMED = ["expect", "timeout"]


class G:
    def __init__(self, rng):
        self.r, self.ops, self.n = rng, [], 0
        self.k, self.st, self.fut = {}, {}, {}

    def new(self, k=None):
        self.n += 1
        p = self.n
        self.k[p], self.st[p], self.fut[p] = k or self.r.choice("nr"), "pend", True
        self.ops.append({"o": "new", "p": p, "k": self.k[p]})
        return p

    def ful(self, p, thr=None, ok=None):
        r = self.r
        via = r.choice(VIAS + (["default"] if self.k[p] == "n" else []))
        if ok is None:
            ok = r.random() < 0.7
        o = {"o": "ful", "p": p, "via": via, "ok": self.k[p] == "n" or ok, "v": r.randrange(1, 1000)}
        self.st[p] = "res"
        if thr is not None:
            o["thr"], self.st[p] = thr, "later"
        self.ops.append(o)

    def drop(self, p, thr=None):
        o = {"o": "drop", "p": p, "via": self.r.choice(LOST)}
        self.st[p] = "res"
        if thr is not None:
            o["thr"], self.st[p] = thr, "later"
        self.ops.append(o)

    def resolve(self, p, lost=0.25, thr=0.3):
        t = self.r.choice([0, 3, 8, 20]) if self.r.random() < thr else None
        if self.r.random() < lost:
            self.drop(p, t)
        else:
            self.ful(p, t)

    def dropf(self, p):
        self.fut[p] = False
        self.ops.append({"o": "dropf", "p": p})

    def poll(self, p):
        self.ops.append({"o": "wait", "p": p, "how": "poll", "ms": 0})
        if self.st[p] != "pend":     # "later": it may or may not have been consumed
            self.fut[p] = False
        return p

    def wait(self, p):
        r = self.r
        pend = self.st[p] == "pend"
        how = r.choice(TIMED + ["until"] if pend else TIMED + UNTIMED)
        ms = r.choice([10, 15]) if pend or (how in TIMED and r.random() < 0.15) else 20000
        self.ops.append({"o": "wait", "p": p, "how": how, "ms": ms})
        self.fut[p] = pend and how == "until"

    def coll(self, ps):
        r = self.r
        hows = list(CTIMED)
        rs = self.k[ps[0]] == "r"
        if rs:
            hows += ["expectok", "oktimeout"]
        pend = any(self.st[p] == "pend" for p in ps)
        if not pend:
            hows += ["results"] + (["ok"] if rs else [])
        self.ops.append({"o": "coll", "ps": ps, "how": r.choice(hows), "ms": r.choice([10, 15]) if pend or r.random() < 0.1 else 20000})
        for p in ps:
            self.fut[p] = False

    def join(self):
        self.ops.append({"o": "join"})
        for p in self.st:
            if self.st[p] == "later":
                self.st[p] = "res"

    def woken(self, p):
        self.ops.append({"o": "woken", "p": p})


def one(rng):
    """a few promises, each resolved and waited for in some order"""
    g = G(rng)
    ps = [g.new() for _ in range(rng.choice([1, 1, 2, 3]))]
    for _ in range(rng.randrange(3, 9)):
        p = rng.choice(ps)
        x = rng.random()
        if g.st[p] == "pend" and x < 0.45:
            g.resolve(p)
        elif g.fut[p] and x < 0.55 and g.st[p] != "later":
            g.poll(p)
        elif g.fut[p] and x < 0.62:
            g.dropf(p)
        elif g.fut[p] and x < 0.95:
            g.wait(p)
        else:
            g.woken(p)
    for p in ps:
        if g.st[p] == "pend" and rng.random() < 0.8:
            g.resolve(p)
        if g.fut[p] and rng.random() < 0.8:
            g.wait(p)
    g.join()
    for p in ps:
        g.woken(p)
    return g.ops


def many(rng):
    """several futures waited for together"""
    g = G(rng)
    k = rng.choice("nr")
    ps = [g.new(k) for _ in range(rng.choice([1, 2, 2, 3, 4, 5]))]
    # mostly all but one are fine
    odd = rng.choice(ps + [0, 0])
    order = list(ps)
    rng.shuffle(order)
    for p in order:
        t = rng.choice([None, None, None, 0, 2, 6])
        if p == odd:
            x = rng.random()
            if x < 0.4:
                g.drop(p, t)
            elif x < 0.7:
                g.ful(p, t, ok=False)
        else:
            g.ful(p, t, ok=True)
    if rng.random() < 0.15:
        rng.shuffle(ps)
    g.coll(ps)
    for p in ps:
        if g.st[p] == "pend":
            g.resolve(p, thr=0)
    g.join()
    return g.ops


def lately(rng):
    """polled, resolved by another thread, woken"""
    g = G(rng)
    p = g.new()
    for _ in range(rng.choice([1, 2])):
        g.poll(p)
    if rng.random() < 0.4:
        g.wait(p)
    if g.fut[p] and rng.random() < 0.5:
        g.poll(p)
    g.resolve(p, lost=0.4, thr=0.7)
    if rng.random() < 0.6:
        g.join()
        g.woken(p)
    if g.fut[p]:
        g.wait(p)
    g.join()
    g.woken(p)
    return g.ops


def scenarios(rng, n, base):
    out = []
    for i in range(n):
        f = (one, many, many, lately)[i % 4]
        out.append({"id": base + i, "ops": f(rng)})
    return out
