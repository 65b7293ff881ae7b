"""Scenarios for the datagram world (C23)."""

TO = ["u", "u", "u", "v", "u#", "v#", "f", "nobody", "nobody#"]


class G:
    def __init__(self, rng, v6=False):
        self.r, self.n, self.ops, self.held = rng, 0, [], False

    def msg(self, size=None, to=None):
        r = self.r
        self.n += 1
        z = r.choice([0, 1, 5, 20, 60]) if size is None else size
        return {"n": self.n, "z": z, "to": to or r.choice(TO)}

    def good(self, **k):
        m = self.msg(**k)
        fwd = m["to"] in ("f", "f#")
        return {"p": self.r.randrange(2) + 1, "ms": [m], "want": [0 if fwd else 1, 1 if fwd else 0]}

    def bad(self):
        r = self.r
        d = {"p": r.randrange(2) + 1, "want": [0, 0]}
        k = r.randrange(14)
        m = self.msg(size=r.choice([1, 5, 20, 40]), to=r.choice(["u", "v", "u#", "nobody"]))
        if k == 0:
            d["ms"] = []
        elif k == 1:
            d["ms"] = [{"b": [r.randrange(256) for _ in range(r.choice([1, 3, 8, 9, 10, 30]))]}]
        elif k == 2:
            m["magic"] = r.randrange(4)
            d["ms"] = [m]
        elif k == 3:
            m["ty"] = r.choice([0, 1, 3, 4, 5, 6, 7, 8, 255])
            d["ms"] = [m]
        elif k in (4, 5, 6):
            m["cut"] = r.choice([0, 1, 2, r.randrange(60), r.randrange(120)])
            d["ms"] = [m]
        elif k == 7:
            m["flen"] = r.choice([1, 2, 100, 1000, 100000, 1 << 24])
            d["ms"] = [m]
        elif k == 8:
            m["flen"] = -r.choice([1, 2, 5, 20, 30, 60])
            d["ms"] = [m]
        elif k == 9:
            m["flip"] = r.randrange(40)
            d["ms"] = [m]
            d["want"] = [1, 0]
        elif k == 10:
            m["sid"] = r.choice([0, 7000, 7003])
            d["ms"] = [m]
            d["want"] = [1, 0]
        elif k == 11:
            d["ms"] = [m, r.choice([{"b": [1]}, {"b": [0xC0, 0xA1, 0xBA, 0x11, 0, 0]}, {"b": [0xC0, 0xA1, 0xBA, 0x11, 0, 0, 0, 90, 2]},
                                    {"b": [0] * 9}, self.msg(size=3, to="u")])]
            d["want"] = [0, 0]
        elif k == 12:
            ty = r.choice([4, 5, 6, 7])
            b = {4: [4, 127, 0, 0, 1, 1, 2], 5: [4, 127, 0, 0, 1, 1, 2] + [9] * 16, 6: [], 7: []}[ty]
            d["ms"] = [{"b": [0xC0, 0xA1, 0xBA, 0x11, 0, 0, 0, len(b), ty] + b}]
            if r.random() < .4:
                d["ms"].append(m)
        else:
            m["set"] = [[r.randrange(110), r.randrange(256)] for _ in range(r.randrange(1, 4))]
            d["ms"] = [m]
        return d

    def snd(self, size=None, p=None):
        r = self.r
        self.n += 1
        p = p if p is not None else r.choice([1, 2])
        z = r.choice([0, 1, 10, 100, 400]) if size is None else size
        return {"p": p, "n": self.n, "z": z, "how": r.randrange(3), "want": 1 if p > 0 and z < 65000 else 0}

    def burst(self, n, wi=4, wb=4, ws=3, wx=1, big=.08):
        r = self.r
        a = []
        room = 110000
        for _ in range(n):
            k = r.choices("ibsx", [wi, wb, ws, wx])[0]
            if k == "i":
                z = None
                if r.random() < big:
                    z = r.choice([1000, 1400, 9000, 30000, 65000])
                need = 900 + 2 * (z or 0) if z and z > 1400 else 2600
                if need > room:
                    z, need = None, 900
                room -= need
                a.append({"i": self.good(size=z)})
            elif k == "b":
                a.append({"i": self.bad()})
            elif k == "s":
                z = r.choice([1000, 9000, 30000, 65000]) if r.random() < big else None
                need = 900 + 2 * (z or 0)
                if need > room:
                    z, need = None, 900
                room -= need
                a.append({"s": self.snd(size=z)})
            else:
                a.append({"s": self.snd(p=r.choice([-1, -2]))} if r.random() < .6 else {"s": self.snd(size=r.choice([65600, 66000, 70000]))})
            if room < 3000:
                break
        self.ops.append({"o": "go", "a": a})


def several(rng, mode, n):
    out = []
    while sum(len(s["ops"]) for s in out) < n:
        g = G(rng)
        s = {"peers": 2, "v6": rng.random() < .25}
        if mode == "one":
            for _ in range(rng.randrange(6, 20)):
                g.burst(1)
        elif mode == "burst":
            for _ in range(rng.randrange(4, 12)):
                g.burst(rng.choice([2, 3, 4, 6, 10, 20]))
        elif mode == "bad":
            for _ in range(rng.randrange(4, 10)):
                g.burst(rng.choice([2, 3, 5]), 1, 4, 0, 0)
            g.burst(3, 1, 0, 1, 0)
        else:  # few and small buffers, receivers that hold on to what they got
            s["chunk"] = rng.choice([700, 1000, 2000])
            s["most"] = rng.choice([4, 6, 20])
            held = False
            for _ in range(rng.randrange(5, 14)):
                if rng.random() < .35:
                    held = not held
                    g.ops.append({"o": "hold", "on": held})
                g.burst(rng.choice([1, 2, 4, 8]), 6, 2, 1 if not held else 0, 0, 0)
            if held:
                g.ops.append({"o": "hold", "on": False})
            g.burst(2, 1, 0, 0, 0, 0)
        s["ops"] = g.ops
        out.append(s)
    return out
