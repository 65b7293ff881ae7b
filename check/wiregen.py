"""Scenarios for the wire world (C14, C15)."""
import itertools
import struct

NAMECH = ["a", "b", "x", "0", "9", "-", "_", ".", ":", " ", "*", "?", "ä", "€", "𝄞", "%", "\\", "[", "]", "@", "A", "\u0000", "\n"]
SEPS = ["/", "#"]


def b(s):
    return list(s.encode())


def seg_ok(s, last):
    return len(s) > 0 and "/" not in s and "#" not in s and (last or s not in ("*", "?"))


def lookup_ok(ss):
    return all(seg_ok(s, i == len(ss) - 1) for i, s in enumerate(ss))


class G:
    def __init__(self, rng):
        self.r = rng

    def ip(self):
        r = self.r
        k = r.random()
        if k < 0.5:
            return r.choice([[0, 0, 0, 0], [127, 0, 0, 1], [255, 255, 255, 255], [r.randrange(256) for _ in range(4)]])
        return r.choice([[0] * 16, [0] * 15 + [1], [0xfe, 0x80] + [0] * 13 + [1], [0] * 10 + [255, 255, 10, 0, 0, 1],
                         [r.randrange(256) for _ in range(16)], [r.randrange(2) * r.randrange(256) for _ in range(16)]])

    def name(self):
        return "".join(self.r.choice(NAMECH) for _ in range(self.r.choice([1, 1, 2, 3, 5, 12])))

    def segs(self):
        r = self.r
        while True:
            ss = [self.name() for _ in range(r.choice([0, 1, 1, 2, 2, 3, 6]))]
            if ss and r.random() < 0.15:
                ss[-1] = r.choice("*?")
            if lookup_ok(ss):
                return ss

    def path(self, named=None):
        r = self.r
        p = {"t": r.randrange(3), "ip": self.ip(), "port": r.choice([0, 1, 80, 255, 256, 8080, 65535, r.randrange(65536)])}
        if named is False or (named is None and r.random() < 0.5):
            p.update(k="u", id=[r.randrange(256) for _ in range(16)], segs=[])
        else:
            p.update(k="n", id=[], segs=[b(s) for s in self.segs()])
        return p

    def variant(self, p):
        """a path that differs a little"""
        r = self.r
        q = {k: (list(v) if isinstance(v, list) else v) for k, v in p.items()}
        k = r.randrange(6)
        if k == 0:
            return q
        if k == 1:
            q["t"] = (p["t"] + 1) % 3
        elif k == 2:
            q["port"] = (p["port"] + r.choice([1, 256])) % 65536
        elif k == 3:
            i = r.randrange(len(q["ip"]))
            q["ip"][i] = (q["ip"][i] + 1) % 256
        elif k == 4 and p["k"] == "n":
            ss = [bytes(x).decode() for x in p["segs"]]
            ss = r.choice([ss + ["a"], ss[:-1], ss[::-1], ["".join(ss)] if ss else ["z"], [s + "x" for s in ss]])
            if lookup_ok(ss):
                q["segs"] = [b(s) for s in ss]
        else:
            return self.path()
        return q

    def text(self, p):
        t = ["local", "tcp", "udp"][p["t"]]
        if len(p["ip"]) == 4:
            a = ".".join(map(str, p["ip"])) + ":%d" % p["port"]
        else:
            import ipaddress
            a = "[%s]:%d" % (ipaddress.IPv6Address(bytes(p["ip"])), p["port"])
        if p["k"] == "u":
            import uuid
            return "%s://%s#%s" % (t, a, uuid.UUID(bytes=bytes(p["id"])))
        return "/".join(["%s://%s" % (t, a)] + [bytes(s).decode() for s in p["segs"]])

    def mutate_text(self, s):
        r = self.r
        for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
            i = r.randrange(len(s) + 1)
            k = r.randrange(5)
            if k == 0:
                s = s[:i] + r.choice(["/", "#", ":", "*", "?", "://", "//", "", "a", "0", " ", "é", "[", "]", "."]) + s[i:]
            elif k == 1:
                s = s[:i] + s[i + 1:]
            elif k == 2:
                j = r.randrange(len(s) + 1)
                s = s[:min(i, j)] + s[max(i, j):]
            elif k == 3:
                s = s[:i]
            else:
                j = r.randrange(len(s) + 1)
                s = s[:i] + s[min(i, j):max(i, j)] + s[i:]
        return s

    def wire(self, p):
        h = (128 if p["k"] == "n" else 0) + (32 if len(p["ip"]) == 16 else 0) + p["t"]
        o = [h] + list(p["ip"]) + [p["port"] >> 8, p["port"] & 255]
        if p["k"] == "u":
            return o + list(p["id"])
        n = []
        for i, s in enumerate(p["segs"]):
            n += ([47] if i else []) + list(s)
        return o + [len(n) >> 8, len(n) & 255] + n

    def mutate_bytes(self, x):
        r = self.r
        x = list(x)
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            k = r.randrange(6)
            i = r.randrange(len(x) + 1)
            if k == 0:
                x = x[:i]
            elif k == 1 and x:
                x[min(i, len(x) - 1)] = r.randrange(256)
            elif k == 2:
                x.insert(i, r.choice([0, 1, 47, 35, 42, 128, 195, 255]))
            elif k == 3 and x:
                del x[min(i, len(x) - 1)]
            elif k == 4 and x:
                x[min(i, len(x) - 1)] ^= 1 << r.randrange(8)
            else:
                x += [r.randrange(256) for _ in range(r.randrange(4))]
        return x

    # ------------------------------------------------------------ values
    def serde(self, d=3):
        r = self.r
        k = r.choice([0, 1, 2, 3, 4, 4, 10, 12, 13] if d == 0 else list(range(14)))
        n = lambda m: [r.choice([0, 1, 127, 128, 255, r.randrange(256)]) for _ in range(m)]
        if k == 0:
            return [0]
        if k == 1:
            return [1, r.randrange(2)]
        if k == 2:
            return [2] + n(1)
        if k == 3:
            return [3] + n(8)
        if k == 4:
            s = b(self.name() if r.random() < 0.8 else "")
            return [4, len(s)] + s
        if k == 5:
            c = r.choice([0, 1, 2, 3])
            return [5, c] + sum((self.serde(d - 1) for _ in range(c)), [])
        if k == 6:
            ks = sorted(r.sample(range(256), r.choice([0, 1, 2, 3])))
            return [6, len(ks)] + sum(([q] + self.serde(d - 1) for q in ks), [])
        if k == 7:
            return [7, 0] if r.random() < 0.4 else [7, 1] + self.serde(d - 1)
        if k == 8:
            return [8] + n(2) + self.serde(d - 1)
        if k in (9, 11):
            return [k] + n(4) + self.serde(d - 1)
        if k == 10:
            return [10] + list(struct.pack(">I", ord(r.choice(["a", "\0", "é", "\ud7ff", "\ue000", "\U0010ffff"]))))
        if k == 12:
            return [12] + [r.randrange(256) for _ in range(21)] + list(struct.pack(">f", r.choice([0.0, -1.5, 1e30, float("inf")]))) + \
                   list(struct.pack(">d", r.choice([0.0, -0.0, 3.25, 1e300, float("-inf")])))
        return [13] + n(2)

    def val(self, bad=0.06, big=False):
        r = self.r
        if r.random() < bad:
            return {"ty": "bad", "b": [r.randrange(256) for _ in range(r.randrange(6))]}
        ty = r.choice(["str", "u64", "unit", "rawa", "rawb", "serde", "apath", "spath"])
        if ty == "str":
            x = b("".join(r.choice(NAMECH) for _ in range(r.choice([0, 1, 3, 20] + ([300, 1500] if big else [])))))
        elif ty == "u64":
            x = [r.choice([0, 1, 128, 255]) for _ in range(8)]
        elif ty == "unit":
            x = []
        elif ty == "serde":
            x = self.serde()
        elif ty == "apath":
            x = self.wire(self.path())
        elif ty == "spath":
            x = self.wire(self.path(False))[:-16]
        else:
            x = [r.randrange(256) for _ in range(r.choice([0, 1, 6, 7, 8, 40] + ([129, 500, 3000] if big else [])))]
        return {"ty": ty, "b": x}

    def encv(self, v):
        """for mutation only: some bytes of about the right shape"""
        if v["ty"] == "str":
            return list(struct.pack(">Q", len(v["b"]))) + v["b"]
        if v["ty"] == "serde":
            return self.enct(v["b"], [0])
        return v["b"]

    def enct(self, t, p):
        k = t[p[0]]
        p[0] += 1
        o = [0, 0, 0, k]

        def take(n):
            x = t[p[0]:p[0] + n]
            p[0] += n
            return x
        if k in (1, 2):
            o += take(1)
        elif k == 3:
            o += take(8)
        elif k == 4:
            n = take(1)[0]
            o += list(struct.pack(">Q", n)) + take(n)
        elif k in (5, 6):
            n = take(1)[0]
            o += list(struct.pack(">Q", n))
            for _ in range(n):
                if k == 6:
                    o += take(1)
                o += self.enct(t, p)
        elif k == 7:
            s = take(1)
            o += s
            if s[0]:
                o += self.enct(t, p)
        elif k == 8:
            o += take(2) + self.enct(t, p)
        elif k in (9, 11):
            o += take(4) + self.enct(t, p)
        elif k == 10:
            o += take(4)
        elif k == 12:
            o += take(33)
        elif k == 13:
            o += take(2)
        return o


def pack(ops, n=25, base=1, **kw):
    out = []
    for i in range(0, len(ops), n):
        out.append(dict({"id": base + len(out), "buf": None, "fresh": False, "tight": False, "ops": ops[i:i + n]}, **kw))
    return out


# ---------------------------------------------------------------- C14
def paths_systematic():
    ops = []
    ips = [[1, 2, 3, 4], [0] * 15 + [1], [0x20, 1, 0xd, 0xb8] + [0] * 10 + [255, 0]]
    segss = [[], ["a"], ["a", "b"], ["*"], ["?"], ["a", "*"], ["a", "?"], ["a*", "b?"], ["*a", "x"], ["ä€𝄞"], [":", ":"], ["tcp:"], ["a b"], ["%2F"]]
    for t in range(3):
        for ip in ips:
            for port in (0, 1, 256, 65535):
                for ss in segss:
                    p = {"t": t, "ip": ip, "port": port, "k": "n", "id": [], "segs": [b(s) for s in ss]}
                    ops.append({"o": "path", "p": p, "p2": p, "suf": [0, 1], "set": (t + port) % 4 - 1})
                for i in ([0] * 16, list(range(16)), [255] * 16):
                    p = {"t": t, "ip": ip, "port": port, "k": "u", "id": i, "segs": []}
                    ops.append({"o": "path", "p": p, "p2": dict(p, port=(port + 1) % 65536), "suf": [], "set": -1})
    return ops


def texts_systematic(n):
    """all short continuations of an address by separators, markers and letters"""
    ops = []
    heads = ["tcp://1.2.3.4:80", "local://[::1]:80"]
    toks = ["/", "#", "*", "?", "a", "://", "00000000-0000-0000-0000-000000000001"]
    for h in heads:
        for k in range(0, n + 1):
            for c in itertools.product(toks, repeat=k):
                ops.append({"o": "parse", "tx": b(h + "".join(c)), "how": "any"})
    parts = [["", "tcp", "udp", "local", "TCP", "http", " tcp"], ["", ":", "://", ":/", "//", "://://"],
             ["", "1.2.3.4:80", "1.2.3.4", "1.2.3.4:99999", "[::1]:80", "::1:80", "localhost:80", "[::1%1]:80", ":80"], ["", "/", "/a", "#", "#a", "/a#b"]]
    for c in itertools.product(*parts):
        for how in ("any", "named", "unique", "try"):
            ops.append({"o": "parse", "tx": b("".join(c)), "how": how})
    return ops


def bytes_systematic(n):
    ops = []
    for h in range(256):
        for body in ([], [0] * 5, [1, 2, 3, 4, 0, 80], [1, 2, 3, 4, 0, 80, 0, 0], [1, 2, 3, 4, 0, 80, 0, 1, 97], [7] * 18, [7] * 18 + [0, 1, 97], [0] * 22, [0] * 34):
            ops.append({"o": "dec", "by": [h] + body})
    for k in range(n + 1):
        for c in itertools.product([97, 47, 35, 42, 63, 195, 164], repeat=k):
            ops.append({"o": "dec", "by": [129, 1, 2, 3, 4, 0, 80, 0, k] + list(c)})
            if k <= 2:
                ops.append({"o": "dec", "by": [160, 1] + [0] * 15 + [0, 80, 0, max(0, k - 1)] + list(c)})
                ops.append({"o": "dec", "by": [130, 1, 2, 3, 4, 0, 80, 0, k + 1] + list(c)})
    return ops


def builds_systematic():
    ops = []
    base = {"t": 1, "ip": [1, 2, 3, 4], "port": 80, "k": "n", "id": [], "segs": []}
    names = ["", "a", "*", "?", "a*", "?b", "/", "a/b", "a/", "/a", "#", "a#b", "a/*/b", "a/?", "*/a", "//", ":", "ä"]
    for way in ("vec", "insert", "lookup"):
        for k in range(3):
            for c in itertools.product(names, repeat=k):
                ops.append({"o": "build", "way": way, "p": base, "segs": [b(x) for x in c], "arg": []})
    for x in names + [x + "/" + y for x in names for y in names]:
        ops.append({"o": "build", "way": "str", "p": base, "segs": [], "arg": b(x)})
        for ss in ([], ["a"], ["*"], ["?"], ["a", "*"], ["a", "b"]):
            for way in ("push", "append"):
                ops.append({"o": "build", "way": way, "p": dict(base, segs=[b(s) for s in ss]), "segs": [], "arg": b(x)})
    for n, k in ((1, 1), (255, 1), (256, 1), (65535, 1), (65536, 1), (32767, 2), (32768, 2), (100, 648), (100, 649), (70000, 1), (200, 400), (131072, 1), (131075, 1)):
        for ip in ([1, 2, 3, 4], [0] * 15 + [1]):
            ops.append({"o": "big", "p": dict(base, ip=ip), "n": n, "k": k})
    return ops


def c14_random(rng, n):
    g = G(rng)
    ops = []
    for _ in range(n):
        k = rng.random()
        if k < 0.35:
            p = g.path()
            ops.append({"o": "path", "p": p, "p2": g.variant(p), "suf": [rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 9]))], "set": rng.randrange(-1, 3)})
        elif k < 0.6:
            ops.append({"o": "parse", "tx": b(g.mutate_text(g.text(g.path()))), "how": rng.choice(["any", "any", "named", "unique", "try"])})
        elif k < 0.85:
            ops.append({"o": "dec", "by": g.mutate_bytes(g.wire(g.path()))})
        else:
            way = rng.choice(["vec", "str", "push", "append", "insert", "lookup"])
            nm = lambda: "".join(rng.choice(NAMECH[:4] + SEPS + ["*", "?", ""]) for _ in range(rng.choice([0, 1, 1, 2, 4])))
            ops.append({"o": "build", "way": way, "p": g.path(True), "segs": [b(nm()) for _ in range(rng.randrange(4))], "arg": b(nm())})
    return ops


# ---------------------------------------------------------------- C15
def values_systematic():
    g = None
    ops = []
    leaves = [[0], [1, 0], [1, 1], [2, 255], [3] + [128] + [0] * 7, [4, 0], [4, 1, 97], [5, 0], [6, 0], [7, 0], [10, 0, 0, 0, 97], [12] + [0] * 33, [12] + [1] * 33, [13, 1, 0]]
    wrap = [lambda a: [5, 1] + a, lambda a: [5, 2] + a + a, lambda a: [6, 1, 0] + a, lambda a: [6, 2, 3] + a + [255] + [0], lambda a: [7, 1] + a,
            lambda a: [8, 1, 2] + a, lambda a: [9, 1, 2, 3, 4] + a, lambda a: [11, 0, 0, 0, 1] + a]
    ts = list(leaves)
    for w in wrap:
        ts += [w(a) for a in leaves]
    for w in wrap:
        for w2 in wrap:
            ts += [w(w2(a)) for a in ([1, 1], [4, 2, 195, 164])]
    vals = [{"ty": "serde", "b": t} for t in ts]
    vals += [{"ty": "str", "b": b(s)} for s in ("", "a", "äöü", "x" * 100)] + [{"ty": "u64", "b": list(struct.pack(">Q", n))} for n in (0, 1, 2**63, 2**64 - 1)]
    vals += [{"ty": "unit", "b": []}] + [{"ty": t, "b": x} for t in ("rawa", "rawb", "bad") for x in ([], [0], list(range(50)))]
    a = [129, 1, 2, 3, 4, 0, 80]
    vals += [{"ty": "apath", "b": a + [0, 0]}, {"ty": "apath", "b": a + [0, 3, 97, 47, 42]}, {"ty": "apath", "b": [33] + [0] * 15 + [1, 255, 255] + [7] * 16},
             {"ty": "spath", "b": [1, 1, 2, 3, 4, 0, 80]}, {"ty": "spath", "b": [34] + [1] * 18}]
    return vals


def c15_content(rng, n):
    g = G(rng)
    ops = []
    vals = values_systematic()
    for v in vals:
        ops.append({"o": "val", "v": v})
        e = g.encv(v)
        if v["ty"] in ("str", "u64", "serde", "apath", "spath"):
            for i in range(len(e)):
                ops.append({"o": "vdec", "ty": v["ty"], "by": e[:i]})
    for k in (0, 1, 7, 8, 9, 15, 16):
        for x in (0, 1, 127, 255):
            for ty in ("str", "u64", "serde", "unit", "rawa"):
                ops.append({"o": "vdec", "ty": ty, "by": [x] * k})
    for _ in range(n):
        v = g.val(bad=0)
        k = rng.random()
        if k < 0.2:
            ops.append({"o": "val", "v": v})
        elif k < 0.65:
            ops.append({"o": "vdec", "ty": rng.choice([v["ty"], v["ty"], "serde", "str", "u64", "apath", "spath"]), "by": g.mutate_bytes(g.encv(v))})
        else:
            m = g.wire(g.path()) + g.wire(g.path()) + list(struct.pack(">Q", rng.choice([0, 1, 6, 7, 100, 2**31, 2**63])))
            if rng.random() < 0.3:
                m = m[:rng.randrange(len(m) + 1)]
            else:
                m = g.mutate_bytes(m + [rng.randrange(256) for _ in range(rng.randrange(9))])
            ops.append({"o": "mdec", "by": m[:116], "via": rng.choice(["lease", "ref", "bytes"])})
    for via in ("lease", "ref", "bytes"):
        p = {"t": 1, "ip": [1, 2, 3, 4], "port": 80, "k": "n", "id": [], "segs": [[97]]}
        m = g.wire(p) + g.wire(dict(p, k="u", id=[1] * 16, segs=[])) + [0, 0, 0, 0, 0, 0, 0, 7, 9]
        for i in range(len(m) + 1):
            ops.append({"o": "mdec", "by": m[:i], "via": via})
    return ops


TYPES = ["str", "u64", "unit", "rawa", "rawb", "serde", "apath", "spath"]


def one_message(g, m, way, then, v, rng, big=False):
    """send, deliver, read as everything"""
    np = {"t": 0, "ip": [0, 0, 0, 0], "port": 0, "k": "n", "id": [], "segs": []}
    ops = []
    if way == "tpre":
        ops.append({"o": "pre", "v": v, "slot": m})
    ops.append({"o": "msg", "m": m, "way": way, "dst": g.path(), "from": g.path() if rng.random() < 0.4 else None, "v": v, "slot": m, "src": 0, "then": then,
                "chunk": rng.choice([200, 256, 4000]), "ss": rng.choice([0, 0, 5, 9])})
    return ops


def finish(g, m, v, rng, how=None):
    ty = v["ty"]
    ops = []
    how = how or rng.choice(["read", "read", "match", "clone", "wrong", "drop"])
    if how == "clone":
        ops.append({"o": "clone", "m": m, "n": m + 500})
        ops += finish(g, m + 500, v, rng, rng.choice(["read", "match", "wrong"]))
        how = rng.choice(["read", "match", "wrong"])
    if how == "wrong":
        for t in rng.sample([t for t in TYPES if t != ty], 2):
            ops.append({"o": "read", "m": m, "ty": t, "via": rng.choice(["plain", "into", "data"])})
        how = rng.choice(["read", "match", "clonelate"])
    if how == "clonelate":
        ops.append({"o": "clone", "m": m, "n": m + 700})
        ops += finish(g, m + 700, v, rng, "read")
        how = "read"
    if how == "match":
        ops.append({"o": "match", "m": m, "list": rng.randrange(4)})
    elif how == "drop":
        ops.append({"o": "drop", "m": m})
    elif ty in TYPES:
        ops.append({"o": "read", "m": m, "ty": ty, "via": rng.choice(["plain", "into", "data"])})
    else:
        ops.append({"o": "drop", "m": m})
    return ops


def forward(g, src, m, rng):
    return [{"o": "fwd", "m": m, "way": "fwd", "src": src, "dst": g.path(), "from": g.path() if rng.random() < 0.4 else None,
             "then": rng.choice(["local", "wire", "udp"]), "v": {"ty": "unit", "b": []}, "slot": 0, "chunk": rng.choice([200, 4000]), "ss": rng.choice([0, 7])}]


def c15_messages(rng, n, base):
    g = G(rng)
    scen = []
    # every way, every outcome, every type
    ops = []
    m = 1
    for v in values_systematic()[::7] + [{"ty": t, "b": []} for t in ("unit", "rawa", "rawb", "bad")] + values_systematic()[-5:] + [{"ty": "str", "b": b("hello")}, {"ty": "u64", "b": [1] * 8}]:
        for way in ("tell", "tser", "tpre"):
            for then in ("local", "wire", "udp"):
                ops += one_message(g, m, way, then, v, rng)
                ops += finish(g, m, v, rng)
                m = m % 400 + 1
                if len(ops) > 25:
                    scen.append({"id": base + len(scen), "buf": None, "fresh": False, "tight": False, "ops": ops})
                    ops = []
    for i in range(n):
        k = rng.random()
        big = k < 0.5
        bufs = None
        tight = False
        if k < 0.25:
            bufs, tight = [rng.choice([128, 200]), 2, rng.choice([200, 400]), rng.choice([9, 20, 64])], True
        elif k < 0.33:
            bufs, tight = [128, 2, rng.choice([3, 4]), 16], True
        ops, live = [], {}
        for m in range(1, rng.choice([3, 8, 14])):
            x = rng.random()
            if live and x < 0.35:
                src = rng.choice(list(live))
                v = live.pop(src)
                ops += forward(g, src, m, rng)
                live[m] = v
            elif live and x < 0.55:
                q = rng.choice(list(live))
                ops += finish(g, q, live.pop(q), rng)
            else:
                v = g.val(big=big)
                ops += one_message(g, m, rng.choice(["tell", "tser", "tpre"]), rng.choice(["local", "wire", "udp"]), v, rng)
                live[m] = v
            if rng.random() < 0.1:
                ops.append({"o": "dropp", "slot": rng.randrange(1, 14)})
        for q, v in live.items():
            ops += finish(g, q, v, rng)
        scen.append({"id": base + len(scen), "buf": bufs, "fresh": tight, "tight": tight, "ops": ops})
    # scenarios that share a world come one after the other
    scen.sort(key=lambda s: (s["fresh"], str(s["buf"])))
    return scen
