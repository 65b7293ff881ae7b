"""Scenarios for the configuration world (C22)."""
import struct

RT = "kompact.runtime."
ENTRIES = {1: ("kv.str", "s"), 2: ("kv.int", "i"), 3: ("kv.deep.er.real", "r"), 4: ("kv.bool", "b"), 5: ("kv.bytes", "y"), 6: ("kv.dur", "u"),
           7: ("kv.us", "n"), 8: ("kv.f32", "f"), 9: ("kv.ints", "ai"), 10: ("top", "s"), 11: ("kv.deep.strs", "as"), 12: ("kv.durs", "au"),
           13: ("other.usz", "aan"), 14: (RT + "label", "s"), 15: (RT + "throughput", "n"), 16: (RT + "message-priority", "f"),
           17: (RT + "threads", "n"), 18: (RT + "scheduler", "s")}
DATES = ["1979-05-27T07:32:00Z", "1979-05-27", "07:32:00", "2026-11-19T03:05:01.5-07:00", "1979-05-27T07:32:00"]
SIZE_UNITS = ["", "B", "b", "KB", "kb", "KiB", "K", "Ki", "MB", "MiB", "M", "GB", "GiB", "TB", "TiB", "PB", "PiB", "EB", "EiB", "bit", "Kbit", "Mibit", "Gbits", "kib", "mIb"]
DUR_UNITS = ["nanos", "nsec", "ns", "usec", "us", "\u00b5s", "millis", "msec", "ms", "seconds", "second", "secs", "sec", "s", "minutes", "minute", "min", "mins", "m",
             "hours", "hour", "hr", "hrs", "h", "days", "day", "d", "weeks", "week", "wk", "wks", "w", "months", "month", "M", "years", "year", "yr", "yrs", "y"]
BAD_TOML = ["a = ", "= 5", "[kv\nint = 1", "kv = {", "a = 1\na = 2", "x = 99999999999999999999", "x = \"unterminated", "kv.int = 1\nkv = 2", "x = [1, 2", "x = 1 y = 2",
            "x = truth", "x = 1.", "[a]\n[a]\n", "x = 1979-13-45"]


def codes(s):
    return [ord(c) for c in s]


def nat(n):
    b = []
    while n:
        b.append(n & 255)
        n >>= 8
    return b


def S(s):
    return {"t": "s", "s": codes(s)}


def I(n):
    return {"t": "i", "n": n < 0, "m": nat(abs(n))}


def R(x):
    return {"t": "r", "r": list(struct.pack(">d", x))}


def B(b):
    return {"t": "b", "b": b}


def D(s):
    return {"t": "d", "d": codes(s)}


def A(xs):
    return {"t": "a", "a": xs}


def T(d):
    return {"t": "t", "k": [codes(k) for k in d], "v": [d[k] for k in d]}


def U(s, n):
    return {"t": "u", "s": nat(s), "n": nat(n)}


def Y(n):
    return {"t": "y", "m": nat(n)}


def f32(x):
    return struct.unpack(">f", struct.pack(">f", x))[0]


def keys(n):
    return ["".join(map(chr, k)) for k in n["k"]]


# ------------------------------------------------------------------ TOML
def qstr(cs):
    out = '"'
    for c in cs:
        if c in (34, 92):
            out += "\\" + chr(c)
        elif c < 32 or c == 127:
            out += "\\u%04X" % c
        else:
            out += chr(c)
    return out + '"'


def qkey(k):
    return k if k and all(c.isascii() and (c.isalnum() or c in "-_") for c in k) else qstr(codes(k))


def inline(n):
    t = n["t"]
    if t == "s":
        return qstr(n["s"])
    if t == "i":
        v = sum(b << (8 * i) for i, b in enumerate(n["m"]))
        return str(-v if n["n"] else v)
    if t == "r":
        x = struct.unpack(">d", bytes(n["r"]))[0]
        s = repr(x)
        if "e" in s and "." not in s.split("e")[0]:
            s = s.replace("e", ".0e")
        return s
    if t == "b":
        return "true" if n["b"] else "false"
    if t == "d":
        return "".join(map(chr, n["d"]))
    if t == "a":
        return "[" + ", ".join(inline(x) for x in n["a"]) + "]"
    return "{ " + ", ".join("%s = %s" % (qkey(k), inline(v)) for k, v in zip(keys(n), n["v"])) + " }"


def render(rng, n, path=()):
    """A table as a TOML document, in one of the ways in which it may be written."""
    lines, sub = [], []
    items = list(zip(keys(n), n["v"]))
    rng.shuffle(items)
    for k, v in items:
        if v["t"] == "t":
            w = rng.random()
            if w < 0.25 or not v["k"]:
                lines.append("%s = %s" % (qkey(k), inline(v)))
            elif w < 0.5:
                lines += dotted(k, v)
            else:
                sub.append((k, v))
        elif v["t"] == "a" and v["a"] and all(x["t"] == "t" for x in v["a"]) and rng.random() < 0.6:
            sub.append((k, v))
        else:
            lines.append("%s = %s" % (qkey(k), inline(v)))
    for k, v in sub:
        p = path + (k,)
        h = ".".join(qkey(x) for x in p)
        if v["t"] == "a":
            for x in v["a"]:
                lines.append("[[%s]]" % h)
                lines += ["%s = %s" % (qkey(a), inline(b)) for a, b in zip(keys(x), x["v"])]
        else:
            lines.append("[%s]" % h)
            lines.append(render(rng, v, p))
    return "\n".join(lines)


def dotted(prefix, n):
    out = []
    for k, v in zip(keys(n), n["v"]):
        p = (qkey(prefix) if not isinstance(prefix, tuple) else prefix[0]) + "." + qkey(k)
        if v["t"] == "t" and v["k"]:
            out += dotted((p,), v)
        else:
            out.append("%s = %s" % (p, inline(v)))
    return out


def put(tree, path, v):
    """tree: nested dict"""
    for k in path[:-1]:
        if not isinstance(tree.get(k), dict) or "t" in tree[k] and not isinstance(tree[k]["t"], dict):
            tree[k] = {}
        tree = tree[k]
    tree[path[-1]] = v


def leaf(x):
    return isinstance(x, dict) and isinstance(x.get("t"), str)


def tree_of(d):
    return T({k: v if leaf(v) else tree_of(v) for k, v in d.items()})


# ------------------------------------------------------------------ values
def rint(rng):
    return rng.choice([0, 1, -1, 2, 15, 16, 17, 50, 99, 100, 101, -100, -101, 127, 128, 255, 256, 65536, 2 ** 31, 2 ** 32 + 5, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, 2 ** 62 + 2 ** 9,
                       rng.randrange(-1000, 1000), rng.randrange(-2 ** 63, 2 ** 63)])


def rreal(rng):
    if rng.random() < 0.3:
        while True:
            x = struct.unpack(">d", bytes(rng.randrange(256) for _ in range(8)))[0]
            if x == x:
                return x
    return rng.choice([0.0, -0.0, 0.5, 1.0, 1.5, -2.25, 0.1, 0.999999999, 0.99999997, 0.25, 0.75, 1e-3, 16777217.0, 3.4028234e38, 3.5e38, -1e39, 1e300, 1e-300, float("inf"), float("-inf"),
                       rng.uniform(-1, 1), rng.uniform(0, 1), rng.uniform(-1e6, 1e6)])


def rsize(rng):
    w = rng.random()
    if w < 0.15:
        return rng.choice(["", " ", "-5B", "5.B", "1.5.5KB", "ten", "5 XB", "10 KBB", "1e3B", "18446744073709551616", "16EiB", "99999EB", "0x10", "5Bi", "10 bitz", "+1B", ".5KB", "5 K B", "12,5KB"])
    n = rng.choice([0, 1, 5, 15, 16, 64, 127, 128, 999, 1000, 1024, 4096, 18446744073709551615, rng.randrange(10 ** rng.randrange(1, 8))])
    u = rng.choice(SIZE_UNITS)
    f = "" if rng.random() < 0.6 else "." + "".join(rng.choice("0123456789") for _ in range(rng.choice([1, 1, 2, 3])))
    s = "%d%s%s%s" % (n, f, rng.choice(["", "", " ", "  "]), u)
    return rng.choice([s, s, s, " " + s + "\t"])


def rdur(rng):
    w = rng.random()
    if w < 0.15:
        return rng.choice(["", " ", "10", "-5s", "5.s", "1.5ns", "10 parsecs", "s", "ms 5", "5s 10", "99999999999999999999s", "18446744073709551615min", "1.0000000001s", "0.3333hours", "5,5s", "1e3s"])
    if w < 0.2:
        return "0"
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        n = rng.choice([0, 1, 2, 5, 59, 60, 100, 999, 1000, 1001, rng.randrange(10 ** 6)])
        f = "" if rng.random() < 0.7 else "." + rng.choice(["5", "25", "125", "05", "1", "50"])
        out.append("%d%s%s%s" % (n, f, rng.choice(["", "", " "]), rng.choice(DUR_UNITS)))
    return rng.choice(["", " "]).join(out)


def rstr(rng):
    return rng.choice(["", "x", "hello world", "a.b", "with \"quotes\" and \\", "tab\tnew\nline", "\u00e9\u4e16\U0001f600", "auto", "small", "5", "true", "1.5", "10 KB", "3s",
                       "".join(chr(rng.randrange(32, 127)) for _ in range(rng.randrange(12)))])


def value(rng, ty, right=0.75):
    if rng.random() > right:
        ty = rng.choice(["s", "i", "r", "b", "d", "y", "u", "n", "ai", "as", "au", "aan", "t", "at", "mix"])
    if ty == "s":
        return S(rstr(rng))
    if ty == "i":
        return I(rint(rng))
    if ty == "n":
        return I(abs(rint(rng)) % 2 ** 63)
    if ty in ("r", "f"):
        return R(rreal(rng)) if rng.random() < 0.8 else I(rint(rng))
    if ty == "b":
        return B(rng.random() < 0.5)
    if ty == "d":
        return D(rng.choice(DATES))
    if ty == "y":
        return S(rsize(rng)) if rng.random() < 0.7 else I(rint(rng))
    if ty == "u":
        return S(rdur(rng))
    if ty == "t":
        return T({rng.choice(["x", "y", "label", "er"]): value(rng, rng.choice(["i", "s"])) for _ in range(rng.randrange(3))})
    if ty == "at":
        return A([T({"alias": value(rng, "s"), "n": value(rng, "i")} if rng.random() < 0.8 else {"n": value(rng, "i")}) for _ in range(rng.randrange(4))])
    if ty == "mix":
        return A([value(rng, rng.choice(["i", "s", "b"])) for _ in range(rng.randrange(4))])
    return A([value(rng, ty[1:], 0.95) for _ in range(rng.randrange(4))])


def legal(rng, en):
    """a value with which the runtime's own entry may be set"""
    return {14: lambda: S(rng.choice(["mine", "other", ""])), 15: lambda: I(rng.choice([1, 2, 8, 50, 1000])),
            16: lambda: R(rng.choice([0.5, 0.25, 0.75, 0.125, 0.9, 0.1])), 17: lambda: I(rng.choice([1, 2, 3])),
            18: lambda: S(rng.choice(["auto", "small", "dynamic"]))}[en]()


def illegal(rng, en):
    return {14: lambda: rng.choice([I(5), B(True), A([]), T({})]), 15: lambda: rng.choice([I(0), I(-1), S("5"), R(5.0), B(True), T({"x": I(1)})]),
            16: lambda: rng.choice([R(0.0), R(1.0), R(-0.5), R(1.5), I(0), I(1), S("0.5"), R(0.99999999999), R(float("inf")), R(1e300), R(1e-60), R(-0.0)]),
            17: lambda: rng.choice([I(0), I(-3), S("1"), R(1.0), A([I(1)])]),
            18: lambda: rng.choice([S("automatic"), S("Auto"), S(""), I(1), B(False)])}[en]()


def coded(rng, en):
    """a value for setting entry en in code"""
    ty = ENTRIES[en][1]
    if en >= 14:
        if en == 18 and rng.random() < 0.3:
            return S("custom")
        if en == 16 and rng.random() < 0.85:
            return R(f32(rng.choice([0.5, 0.25, 0.75, 0.125, 0.9, 0.1])))
        return legal(rng, en) if en != 16 and rng.random() < 0.85 else {14: S("x"), 15: I(0), 16: R(rng.choice([0.0, 1.0, -1.0])), 17: I(0), 18: S("weird")}[en]
    if ty == "f":
        return R(struct.unpack(">f", struct.pack(">f", rng.choice([0.0, 0.5, -2.75, 0.1, 1e30, 16777216.0, 3.25])))[0])
    return made(rng, ty)


def made(rng, ty):
    if ty == "s":
        return S(rstr(rng))
    if ty == "i":
        return I(rint(rng))
    if ty == "n":
        return I(abs(rint(rng)) % 2 ** 63)
    if ty == "r":
        return R(rreal(rng))
    if ty == "b":
        return B(rng.random() < 0.5)
    if ty == "y":
        return Y(rng.choice([0, 1, 15, 16, 1000, 1024, 1536, 2 ** 40, 2 ** 63, 2 ** 64 - 1, rng.randrange(2 ** 64)]))
    if ty == "u":
        return U(rng.choice([0, 0, 1, 59, 60, 3661, 86400, 31557600, 31557600 * 3 + 2630016 + 5, 2 ** 40, 2 ** 64 - 1, rng.randrange(2 ** 34)]),
                 rng.choice([0, 0, 1, 999, 1000, 500000000, 999999999, 1001001, rng.randrange(10 ** 9)]))
    return A([made(rng, ty[1:]) for _ in range(rng.randrange(4))])


PATHS = [e[0] for e in ENTRIES.values() if not e[0].startswith(RT)] + ["kv", "kv.deep", "kv.deep.er", "other", "z", "z.y.x", "kv.extra", "kv.list", "a-b.c_d"]


def random_tree(rng, rt=0.3, bad=0.03, buf=0.15):
    d = {}
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
        if rng.random() < 0.75:
            en = rng.randrange(1, 14)
            path, ty = ENTRIES[en]
        else:
            path, ty = rng.choice(PATHS), "?"
        v = value(rng, ty if ty != "?" else rng.choice(["s", "i", "at", "t", "mix"]))
        put(d, path.split("."), v)
    if rng.random() < 0.15:
        d[rng.choice(["a.b", "", "k\u00e9y", "with space", "kv.int"])] = value(rng, "i")
    if rng.random() < rt:
        for en in range(14, 19):
            if rng.random() < 0.35:
                put(d, ENTRIES[en][0].split("."), legal(rng, en) if rng.random() > bad else illegal(rng, en))
        if rng.random() < bad / 2:
            put(d, rng.choice([["kompact"], ["kompact", "runtime"]]), rng.choice([I(5), S("x"), A([T({})])]))
    if rng.random() < buf:
        b = {}
        for k, vs in (("chunk_size", [I(128), I(1000), S("256KB"), S("1KiB"), S("junk"), I(-1), I(127), R(5.0)]), ("initial_chunk_count", [I(1), I(2), I(5), I(0), S("3"), R(3.0), I(1001)]),
                      ("max_chunk_count", [I(2), I(4), I(1000), I(7), S("4"), I(1)]), ("encode_min_remaining", [I(20), S("20B"), S("127B"), I(128), I(0), S("x"), S("1KB")])):
            if rng.random() < 0.5:
                b[k] = rng.choice(vs)
        put(d, ["buffer_config"], T(b) if rng.random() < 0.95 else I(3))
    return tree_of(d)


def source(rng, tree, k=None):
    k = k or rng.choice(["str", "str", "file"])
    return {"op": "src", "k": k, "text": render(rng, tree), "v": tree}


# ------------------------------------------------------------------ reading
def step(rng, n):
    """a step from n (None: unknown) and where it leads"""
    if n and n["t"] == "t" and n["k"] and rng.random() < 0.85:
        i = rng.randrange(len(n["k"]))
        return {"k": n["k"][i]}, n["v"][i]
    if n and n["t"] == "a" and n["a"] and rng.random() < 0.85:
        i = rng.randrange(len(n["a"]))
        return {"i": i}, n["a"][i]
    return rng.choice([{"k": codes("x")}, {"k": codes("alias")}, {"i": 0}, {"i": 1}, {"i": 17}]), None


def walk(n, path):
    for k in path:
        if not n or n["t"] != "t" or codes(k) not in n["k"]:
            return None
        n = n["v"][n["k"].index(codes(k))]
    return n


def look(rng, n, via):
    """some lookup in (about) tree n"""
    if rng.random() < 0.5:
        p = rng.choice(keys(n)) if n["k"] and rng.random() < 0.8 else rng.choice(["kv", "nope", "kompact"])
        op = {"op": "look", "start": "get", "p": codes(p)}
        cur = walk(n, [p])
        if p == "":
            op["steps"] = []
    else:
        p = rng.choice(PATHS + [RT + "threads", "kompact.runtime"])
        w = rng.random()
        if w < 0.08:
            p = rng.choice(["", ".", "kv.", ".kv", "kv..int", "kv.int.", "top..x", "kv.deep."])
        elif w < 0.2:
            p = p + "." + rng.choice(["x", "y", "int"])
        op = {"op": "look", "start": "sel", "p": codes(p)}
        cur = walk(n, p.split("."))
        if "" in p.split("."):
            op["steps"] = []
    if "steps" not in op:
        op["steps"] = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            s, cur = step(rng, cur)
            op["steps"].append(s)
    op["as"] = rng.choice(["s", "i", "r", "b", "y", "u", "d", "len", "any"])
    op["many"], op["each"] = False, []
    if rng.random() < 0.2 or (cur and cur["t"] == "a" and rng.random() < 0.5):
        op["many"], op["each"] = True, rng.choice([[], codes("alias"), codes("n")])
    op["via"] = via
    return op


def index(rng, n, via):
    p = rng.choice(keys(n)) if n["k"] and rng.random() < 0.85 else "nope"
    cur = walk(n, [p])
    st = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        s, cur = step(rng, cur)
        st.append(s)
    return {"op": "index", "p": codes(p), "steps": st, "as": rng.choice(["s", "i", "r", "b", "y", "u", "d", "len", "any"]), "via": via}


def read(rng, en, via):
    return {"op": "read", "en": en, "d": rng.random() < 0.5, "api": rng.randrange(2), "via": via}


def merged(a, b):
    if a is None or a["t"] != "t" or b["t"] != "t":
        return b
    out = dict(zip(keys(a), a["v"]))
    for k, v in zip(keys(b), b["v"]):
        out[k] = merged(out.get(k), v)
    return T(out)


def size_of(n):
    """generator's guess of a size (only to pick interesting candidates)"""
    if n["t"] == "i" and not n["n"]:
        return sum(b << (8 * i) for i, b in enumerate(n["m"]))
    if n["t"] == "s":
        s = "".join(map(chr, n["s"]))
        return {"256KB": 256000, "1KiB": 1024, "20B": 20, "127B": 127, "1KB": 1000}.get(s)
    return None


def buf(rng, n, via):
    base = [128000, 2, 1000, 64]
    b = walk(n, ["buffer_config"])
    for i, k in enumerate(["chunk_size", "initial_chunk_count", "max_chunk_count", "encode_min_remaining"]):
        v = walk(b, [k]) if b else None
        if v is not None:
            x = size_of(v) if (i in (0, 3) or v["t"] == "i") else None
            if x is not None:
                base[i] = x
    cands = [base]
    for i in range(4):
        c = list(base)
        c[i] = [128000, 2, 1000, 64][i] if c[i] != [128000, 2, 1000, 64][i] else c[i] + 1
        cands.append(c)
    return {"op": "buf", "cands": [[nat(x) for x in c] for c in cands], "via": via}


def doc(rng, tree):
    return {"op": "doc", "k": "ok", "file": rng.random() < 0.2, "text": render(rng, tree), "v": tree}


def docs(rng, n):
    out = []
    for _ in range(n):
        t = random_tree(rng, rt=0.2, bad=0.5)
        ops = [doc(rng, t)]
        for en in rng.sample(range(1, 19), 9):
            ops.append(read(rng, en, "doc"))
        ops += [look(rng, t, "doc") for _ in range(6)] + [index(rng, t, "doc") for _ in range(3)] + [buf(rng, t, "doc")]
        if rng.random() < 0.1:
            ops += [{"op": "doc", "k": "bad", "file": rng.random() < 0.5, "text": rng.choice(BAD_TOML)}]
        elif rng.random() < 0.03:
            ops += [{"op": "doc", "k": "nofile", "file": True, "text": ""}]
        out.append({"ops": ops})
    return out


def roundtrips(rng, n):
    out = []
    for _ in range(n):
        ops = []
        for _ in range(12):
            ty = rng.choice(["s", "i", "r", "b", "y", "u", "n", "f", "ai", "as", "au", "aan"])
            if ty == "f":
                v = R(struct.unpack(">f", struct.pack(">f", rng.choice([0.0, -0.0, 0.5, 0.1, 1e30, -3e38, 16777216.0, rng.uniform(-10, 10)])))[0])
            else:
                v = made(rng, ty)
            ops.append({"op": "rt", "ty": list(ty), "v": v})
        out.append({"ops": ops})
    return out


def system(rng, bad=0.06):
    ops, acc = [], T({})
    for _ in range(rng.choice([0, 1, 2, 2, 3, 4, 5])):
        w = rng.random()
        if w < 0.5:
            t = random_tree(rng, bad=bad)
            ops.append(source(rng, t))
            acc = merged(acc, t)
        elif w < 0.9:
            en = rng.randrange(1, 14) if rng.random() < 0.6 else rng.randrange(14, 19)
            v = coded(rng, en)
            if 14 <= en <= 17 and rng.random() < 0.4 and (en < 17 or v["m"]):
                ops.append({"op": "src", "k": "old", "en": en, "v": v})
            else:
                ops.append({"op": "src", "k": "set", "en": en, "v": v})
            d = {}
            put(d, ENTRIES[en][0].split("."), v)
            acc = merged(acc, tree_of(d))
        elif w < 0.96:
            ops.append({"op": "src", "k": "sched"})
        elif w < 0.975:
            ops.append({"op": "src", "k": rng.choice(["bad", "badfile"]), "text": rng.choice(BAD_TOML)})
        elif w < 0.98:
            ops.append({"op": "src", "k": "nofile"})
    ops.append({"op": "build"})
    via = lambda: rng.choice(["sys", "own", "comp"])
    for en in range(1, 19):
        if rng.random() < 0.6:
            ops.append(read(rng, en, via()))
    try:
        ops += [look(rng, acc, via()) for _ in range(4)] + [index(rng, acc, via())] + [buf(rng, acc, via())]
    except Exception:
        pass
    return ops + [{"op": "down"}]


def systems(rng, n):
    out = []
    for _ in range(n):
        ops = system(rng)
        if rng.random() < 0.2:
            ops += system(rng)
        out.append({"ops": ops})
    return out


def systematic(rng):
    out = []
    vals = ([I(x) for x in (0, 1, -1, 15, 16, 100, 101, -100, -101, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63)]
            + [R(x) for x in (0.0, 1.5, -2.0, 3.4028234663852886e38, 3.4028235677973362e38, 3.4028235677973366e38, 3.5e38, -1e300, 1e-300, float("inf"))]
            + [B(True), B(False), A([]), T({}), A([I(1), I(2)]), A([S("x")]), A([A([I(1)]), A([])]), A([A([I(-1)])]), A([S("1s"), S("2x")])]
            + [D(d) for d in DATES] + [S(s) for s in ("", "5", "1s", "10KB", "true", "1.5", "16B", "15B")])
    # every value under every entry, and through every accessor
    for en in range(1, 14):
        path = ENTRIES[en][0].split(".")
        ops = []
        for v in vals:
            d = {}
            put(d, path, v)
            t = tree_of(d)
            ops += [doc(rng, t)] + [{"op": "read", "en": en, "d": x, "api": 0, "via": "doc"} for x in (False, True)]
        out.append({"ops": ops})
    for en in range(14, 19):
        path = ENTRIES[en][0].split(".")
        for k in range(8):
            for v in (legal(rng, en), illegal(rng, en)):
                d = {}
                put(d, path, v)
                t = tree_of(d)
                out.append({"ops": [source(rng, t), {"op": "build"}, {"op": "read", "en": en, "d": k % 2 == 0, "api": 0, "via": "sys"}, {"op": "down"}]})
    ops = []
    for v in vals:
        ops.append(doc(rng, T({"v": v})))
        for a in ["s", "i", "r", "b", "y", "u", "d", "len", "any"]:
            ops.append({"op": "look", "start": "get", "p": codes("v"), "steps": [], "as": a, "many": False, "each": [], "via": "doc"})
            ops.append({"op": "index", "p": codes("v"), "steps": [], "as": a, "via": "doc"})
    out.append({"ops": ops})
    # sizes and durations
    for units, en, nums in ((SIZE_UNITS, 5, ["16", "1.5", "0", "1000.001", "18446744073709551615", "0.1"]), (DUR_UNITS, 6, ["1", "1.5", "0", "90", "0.001", "18446744073709551615"])):
        for u in units:
            ops = []
            for n in nums:
                for sp in ("", " "):
                    d = {}
                    put(d, ENTRIES[en][0].split("."), S(n + sp + u))
                    ops += [doc(rng, tree_of(d)), {"op": "read", "en": en, "d": False, "api": 0, "via": "doc"}]
            out.append({"ops": ops})
    # order of two or three sources over the same key, and over a key and its table
    kinds = ["str", "file", "set"]
    for a in kinds:
        for b in kinds:
            for x, y in ((("kv.int", 1), ("kv.int", 2)), (("kv.int", 3), ("kv", 4)), (("kv", 5), ("kv.int", 6)), (("kv.bool", 7), ("kv.int", 8)), (("kv.int", 9), ("kv.us", 10))):
                ops = []
                for k, (p, n) in ((a, x), (b, y)):
                    en = {"kv.int": 2, "kv.us": 7}.get(p)
                    if k == "set" and en:
                        ops.append({"op": "src", "k": "set", "en": en, "v": I(n)})
                    else:
                        d = {}
                        put(d, p.split("."), I(n))
                        ops.append(source(rng, tree_of(d), "file" if k == "file" else "str"))
                ops += [{"op": "build"}] + [{"op": "read", "en": en, "d": dd, "api": 0, "via": "sys"} for en in (2, 4, 7) for dd in (True, False)] + [{"op": "down"}]
                out.append({"ops": ops})
    # schedulers: chosen in code or by name, in both orders
    for first in ("sched", "name"):
        for name in ("auto", "small", "large", "dynamic", "custom"):
            s1 = {"op": "src", "k": "sched"}
            s2 = source(rng, tree_of({"kompact": {"runtime": {"scheduler": S(name), "threads": I(2)}}}))
            out.append({"ops": ([s1, s2] if first == "sched" else [s2, s1]) + [{"op": "build"}, {"op": "read", "en": 18, "d": False, "api": 0, "via": "sys"}, {"op": "down"}]})
    return out
