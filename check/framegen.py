"""Scenarios of the frame world: streams and the way they are cut."""
import itertools

MAGIC = [192, 161, 186, 17]
T = {"data": 2, "hello": 4, "start": 5, "ack": 6, "bye": 7}


def head(ty, n, magic=MAGIC):
    return list(magic) + [(n >> 24) & 255, (n >> 16) & 255, (n >> 8) & 255, n & 255, ty]


def addr(rng, six=False):
    return [6 if six else 4] + [rng.randrange(256) for _ in range(16 if six else 4)] + [rng.randrange(256), rng.randrange(256)]


def control(rng, k, six=False):
    c = addr(rng, six) + ([rng.randrange(256) for _ in range(16)] if k == "start" else [])
    return head(T[k], len(c)) + c


def small(rng, n):
    return head(2, n) + [rng.randrange(256) for _ in range(n)]


def frame(rng, sizes):
    """one well-formed frame as pieces"""
    k = rng.choice(["data", "data", "data", "data", "ack", "bye", "hello", "start"])
    if k in ("ack", "bye"):
        return [{"b": head(T[k], 0)}]
    if k in ("hello", "start"):
        return [{"b": control(rng, k, rng.random() < .5)}]
    n = sizes(rng)
    if n <= 24:
        return [{"b": small(rng, n)}]
    return [{"b": head(2, n)}, {"n": n, "seed": rng.randrange(1000)}]


def broken(rng):
    """bytes that are not a frame (or not quite)"""
    x = rng.randrange(9)
    if x == 0:
        m = list(MAGIC)
        m[rng.randrange(4)] ^= 1 << rng.randrange(8)
        return head(2, rng.randrange(4), m) + [1, 2, 3]
    if x == 1:
        return head(rng.choice([0, 1, 3, 8, 9, 127, 255]), n := rng.randrange(5)) + [9] * n
    if x == 2:      # control frame with the wrong amount of content
        k = rng.choice(["hello", "start"])
        c = control(rng, k, rng.random() < .5)[9:]
        c = c[:rng.randrange(len(c))] if rng.random() < .6 else c + [7] * rng.randrange(1, 20)
        return head(T[k], len(c)) + c
    if x == 3:      # unknown version
        k = rng.choice(["hello", "start"])
        c = control(rng, k, rng.random() < .5)[9:]
        c[0] = rng.choice([0, 1, 2, 3, 5, 7, 44, 46, 255])
        return head(T[k], len(c)) + c
    if x == 4:      # acks and byes with content, which itself looks like a frame
        c = rng.choice([small(rng, 3), head(7, 0), [1], [0] * 9, head(6, 0) + [4]])
        return head(rng.choice([6, 7]), len(c)) + c
    if x == 5:      # more announced than there is
        return head(rng.choice([2, 4, 5, 6]), rng.choice([50, 300, 65536, 1 << 24, (1 << 30) - 1, 0x7fffffff, 0xffffffff])) + [rng.randrange(256) for _ in range(rng.randrange(20))]
    if x == 6:
        return [rng.randrange(256) for _ in range(rng.randrange(1, 30))]
    if x == 7:
        b = frame(rng, lambda r: r.randrange(20))[0]["b"]
        b[rng.randrange(len(b))] = rng.randrange(256)
        return b
    return head(2, 12)[:rng.randrange(1, 9)]


def cfgs(rng, total):
    cs = rng.choice([128, 128, 129, 150, 200, 256, 400])
    free = rng.choice([0, 1, 7, 8, 9, 16, 64, 100, cs - 1])
    return {"cs": cs, "init": rng.randrange(1, 4), "max": 2 + total // 4 + 60, "free": free}


def systematic(rng, thorough):
    """short streams, cut once or twice at every place"""
    out = []
    kinds = [("data0", lambda: small(rng, 0)), ("data1", lambda: small(rng, 1)), ("data7", lambda: small(rng, 7)), ("ack", lambda: head(6, 0)),
             ("bye", lambda: head(7, 0)), ("hello4", lambda: control(rng, "hello")), ("hello6", lambda: control(rng, "hello", True)),
             ("start4", lambda: control(rng, "start")), ("start6", lambda: control(rng, "start", True))]
    for a, b in itertools.product(kinds, kinds):
        by = a[1]() + b[1]()
        for cut in range(0, len(by) + 1, 1 if thorough else 3):
            out.append(([{"b": by}], [["f", cut], ["h"], ["g"], ["G"], ["h"]], None))
    # the end of a chunk inside a head or a content, all overflow lengths
    for cs in (128, 137):
        for free in (0, 8, 20):
            for pre in range(cs - 24, cs + 6):
                for n in (0, 1, 30, 200):
                    ps = [{"b": head(2, pre - 9)}, {"n": pre - 9, "seed": pre}, {"b": head(2, n)}, {"n": n, "seed": n + 7}, {"b": head(6, 0)}]
                    out.append((ps, [["G"]] if (pre + n) % 2 else [["f", 50], ["G"], ["f", 500], ["G"]], {"cs": cs, "init": 1, "max": 30, "free": free}))
    # one long frame: what is unread exceeds the room left by every amount, a long read at a time
    for free in (0, 1, 7, 8, 9, 30):
        for pre in range(9, 40):
            ps = [{"b": head(2, pre - 9)}, {"n": pre - 9, "seed": pre}, {"b": head(2, 160)}, {"n": 160, "seed": 3}, {"b": head(7, 0)}]
            out.append((ps, [["f", 500], ["G"], ["f", 500], ["G"], ["f", 500]], {"cs": 128, "init": 2, "max": 30, "free": free}))
    # a content that started in an earlier chunk, the current chunk filled to every level
    for free in (0, 1, 5, 7, 8, 12):
        for k in range(1, 12):
            ps = [{"b": head(2, 400)}, {"n": 400, "seed": k}, {"b": head(6, 0)}]
            out.append((ps, [["f", 128], ["G"], ["f", k], ["G"], ["f", 500], ["G"], ["f", 3], ["G"], ["f", 500]], {"cs": 128, "init": 2, "max": 30, "free": free}))
    return [{"cfg": c or {"cs": 128, "init": 2, "max": 40, "free": 8}, "ps": ps, "ops": ops} for ps, ops, c in out]


def sizes(rng):
    return rng.choice([0, 0, 1, 2, 8, 9, rng.randrange(30), rng.randrange(110, 140), rng.randrange(300), rng.randrange(1500)])


def rand(rng, n, bad=0.0):
    out = []
    for _ in range(n):
        ps = []
        for _ in range(rng.randrange(1, 9)):
            ps += frame(rng, sizes)
            if rng.random() < bad:
                ps.append({"b": broken(rng)})
        total = sum(len(p["b"]) if "b" in p else p["n"] for p in ps)
        ops = []
        left = total
        style = rng.random()
        while left > 0 and len(ops) < 150:
            k = 1 if style < .15 else rng.choice([1, 2, 8, 9, 10, rng.randrange(1, 40), rng.randrange(1, 300), 2000])
            ops.append(["f", k])
            left -= k
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                ops.append(rng.choice([["g"], ["G"], ["h"], ["s"], ["d", rng.randrange(9)], ["c"]]))
        out.append({"cfg": cfgs(rng, total), "ps": ps, "ops": ops})
    return out


def encodes(rng, n):
    out = []
    for _ in range(n):
        ops = []
        for _ in range(6):
            k = rng.choice(["data", "data", "hello", "start", "ack", "bye"])
            f = {"k": k}
            if k in ("hello", "start"):
                f["ip"] = [rng.randrange(256) for _ in range(rng.choice([4, 16]))]
                f["port"] = rng.choice([0, 1, 255, 256, 65535, rng.randrange(65536)])
            if k == "start":
                f["id"] = [rng.randrange(256) for _ in range(16)]
            if k == "data":
                f["b"] = [rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 40, 130, 300]))]
                f["skip"] = rng.choice([0, 0, 1, 20, 130])
                f["pre"] = rng.choice([0, 60, 100])
            ops.append(["e", f])
        out.append({"cfg": {"cs": 128, "init": 2, "max": 40, "free": 0}, "ps": [], "ops": ops})
    return out
