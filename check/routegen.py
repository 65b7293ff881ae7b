"""Scenarios for the routing world (C12, C13): registrations, policies and messages over a small tree of names."""
NAMES = ["a", "b", "c"]
ODD = ["x y", "\u00e9", "a.b", "0", "a:b"]
BADTEXT = ["", "/a", "a/", "a//b", "a/*", "a/?", "*", "?", "a#b", "#", "a*", "?a", "a/*/b", "b?c/a", "/"]
# paths that are fine to send to, that look like a marker but are none, and that nothing can be registered under
ODDSEND = [["a", "*x"], ["a", "?x"], ["*x"], ["?a", "b"], ["a*"], ["b", "a?"], ["a", "**"], ["a", "??"], ["a*b", "*"], ["*a", "?"]]


def path(r, depth=3, odd=.06):
    d = r.choice([1, 1, 2, 2, 2, 3])
    return [r.choice(ODD) if r.random() < odd else r.choice(NAMES) for _ in range(min(d, depth))]


def send(r, known, comps, marks=0., rem=0., lp=0.):
    o = {"o": "snd", "s": r.randrange(4), "m": r.randrange(6)}
    if r.random() < rem:
        o["rem"] = 1
        o["m"] = r.randrange(4)
    elif r.random() < lp:
        o["lp"] = 1
    x = r.random()
    if comps and x < (.35 if marks == 0 else .08):
        o["c"] = r.choice(comps)
        return o
    p = list(r.choice(known)) if known and r.random() < .8 else path(r)
    if r.random() < .1 and p:
        p = p[:-1]
    if r.random() < .08:
        p = p + [r.choice(NAMES)]
    if r.random() < .06:
        p = list(r.choice(ODDSEND))
    elif r.random() < marks:
        p = p + [r.choice("*?")]
    o["p"] = p
    return o


def names(r, n, net=False, remote=False):
    """C12: names and unique paths"""
    out = []
    for _ in range(n):
        ops, known, comps, live = [], [], [], []
        rem = .4 if remote else 0.
        for _ in range(r.randrange(8, 30)):
            x = r.random()
            if x < .10 or not live:
                c = len(comps) + 1
                if c < 7:
                    comps.append(c)
                    live.append(c)
                    ops.append({"o": "new", "c": c} if r.random() < .5 else {"o": "uni", "c": c, "car": r.randrange(2)})
            elif x < .17:
                ops.append({"o": "uni", "c": r.choice(live)})
            elif x < .42:
                p = list(r.choice(known)) if known and r.random() < .5 else path(r)
                t = r.choice(BADTEXT) if r.random() < .08 else "/".join(p)
                if t == "/".join(p) and p not in known:
                    known.append(p)
                ops.append({"o": "ali", "c": r.choice(live), "x": t, "u": int(r.random() < .35)})
            elif x < .46 and len(live) > 1:
                p = list(r.choice(known)) if known and r.random() < .3 else path(r)
                known.append(p)
                ops.append({"o": "race", "x": "/".join(p), "cs": r.sample(live, r.randrange(2, min(4, len(live)) + 1))})
            elif x < .50 and len(live) > 1:
                c = r.choice(live)
                live.remove(c)
                ops.append({"o": "kill", "c": c})
            elif x < .53:
                ops.append({"o": "sync"})
            else:
                ops.append(send(r, known, comps, rem=rem, lp=.1 if net else 0.))
        out.append({"net": int(net), "remote": int(remote), "ops": ops})
    return out


def routes(r, n, net=False, remote=False):
    """C13: policies, broadcast and selection"""
    out = []
    for _ in range(n):
        ops, known, live = [], [], []
        comps = list(range(1, r.randrange(3, 7)))
        live = list(comps)
        rem = .4 if remote else 0.
        bases = [path(r, 2, 0) for _ in range(r.randrange(1, 3))]
        if r.random() < .1:
            bases.append([])
        kinds = r.sample(["rr", "hash", "fh", "bc", "both"], 2)
        for b in bases:
            if b and r.random() < .85:
                ops.append({"o": "pol", "k": r.choice(kinds), "x": "/".join(b), "u": 0})
            for _ in range(r.randrange(0, 5)):
                p = b + [r.choice(NAMES) for _ in range(r.choice([1, 1, 2]))]
                known.append(p)
                ops.append({"o": "ali", "c": r.choice(live), "x": "/".join(p), "u": int(r.random() < .2)})
        r.shuffle(ops)
        for _ in range(r.randrange(3, 9)):
            x = r.random()
            if x < .12:
                b = r.choice(bases + known)
                ops.append({"o": "pol", "k": r.choice(["rr", "hash", "fh", "bc", "both"]), "x": r.choice(BADTEXT) if r.random() < .1 else "/".join(b), "u": int(r.random() < .6)})
            elif x < .35:
                p = r.choice(bases) + path(r, 2) if r.random() < .7 else path(r)
                known.append(p)
                ops.append({"o": "ali", "c": r.choice(live), "x": "/".join(p), "u": int(r.random() < .4)})
            elif x < .40 and len(live) > 1:
                c = r.choice(live)
                live.remove(c)
                ops.append({"o": "kill", "c": c})
            else:
                b = r.choice(bases)
                mk = r.choice([[], ["*"], ["?"], ["?"]])
                for _ in range(r.randrange(1, 9)):
                    o = {"o": "snd", "s": r.randrange(3), "m": r.randrange(6), "p": b + (r.choice([[], ["*"], ["?"]]) if r.random() < .2 else mk)}
                    if r.random() < rem:
                        o["rem"], o["m"] = 1, r.randrange(4)
                    ops.append(o)
                    if r.random() < .15:
                        ops.append(send(r, known, comps, marks=.5, rem=rem, lp=.1 if net else 0.))
        out.append({"net": int(net), "remote": int(remote), "ops": ops})
    return out


def stores(r, n, routed):
    """an actor store alone: everything it can do, with copies in between as the dispatchers make them"""
    out = []
    for _ in range(n):
        ops, known, comps, live = [], [], list(range(1, r.randrange(3, 6))), None
        live = list(comps)
        for c in comps:
            ops.append({"o": "new", "c": c})
        for _ in range(r.randrange(10, 40)):
            x = r.random()
            p = list(r.choice(known)) if known and r.random() < .55 else path(r)
            if x < .25:
                how = r.randrange(3)
                if r.random() < .06 and how < 2:
                    p = r.choice(BADTEXT[2:]).split("/")
                    if "" in p or any("#" in s for s in p) or "*" in p[:-1] or "?" in p[:-1]:
                        continue        # no lookup path either
                else:
                    known.append(p)
                ops.append({"o": "ins", "c": r.choice(live), "p": p, "how": how, "uni": int(r.random() < .15)})
            elif x < (.38 if routed else .27):
                known.append(p)
                ops.append({"o": "setp", "p": p, "k": r.choice(["rr", "hash", "fh", "bc", "both"])})
            elif x < .43:
                ops.append({"o": "remn", "p": p})
            elif x < .46:
                ops.append({"o": "rem", "c": r.choice(live)})
            elif x < .48:
                ops.append({"o": "remu", "c": r.choice(live)})
            elif x < .51 and len(live) > 1:
                c = r.choice(live)
                live.remove(c)
                ops.append({"o": "kill", "c": c})
            elif x < .55:
                ops.append({"o": "clean"})
            elif x < .60:
                ops.append({"o": "copy"})
            else:
                for _ in range(r.randrange(1, 6 if routed else 2)):
                    o = send(r, known, comps, marks=.6 if routed else .05)
                    o["m"] %= 3
                    ops.append(o)
        out.append({"store": 1, "ops": ops})
    return out


def reaping(r, n):
    """ended components disappear from the network dispatcher's table, the others stay"""
    out = []
    for _ in range(n):
        ops = [{"o": "pol", "k": r.choice(["rr", "bc"]), "x": "a", "u": 0}]
        for c in (1, 2, 3, 4):
            ops.append({"o": "uni", "c": c, "car": 1})
            ops.append({"o": "ali", "c": c, "x": "a/%d" % c, "u": 0})
            ops.append({"o": "ali", "c": c, "x": "/".join(path(r)), "u": 0})
        dead = r.sample([1, 2, 3, 4], r.choice([1, 2, 4]))
        for c in dead:
            ops.append({"o": "kill", "c": c})
        ops.append({"o": "reap", "c": dead[-1]})
        for c in (1, 2, 3, 4):
            ops.append({"o": "snd", "s": 0, "m": 0, "c": c})
            ops.append({"o": "snd", "s": 0, "m": 1, "p": ["a", str(c)]})
        for _ in range(6):
            ops.append({"o": "snd", "s": 0, "m": 0, "p": ["a"]})
        ops.append({"o": "new", "c": 9})
        for c in (1, 2, 3, 4):
            ops.append({"o": "ali", "c": 9, "x": "a/%d" % c, "u": 0})
        for _ in range(6):
            ops.append({"o": "snd", "s": 0, "m": 0, "p": ["a"]})
        out.append({"net": 1, "ops": ops})
    return out


if __name__ == "__main__":
    import json
    import random
    import sys
    r = random.Random(int(sys.argv[2]))
    k = int(sys.argv[3]) if len(sys.argv) > 3 else 20
    f = {"n": lambda: names(r, k), "nn": lambda: names(r, k, True), "nr": lambda: names(r, k, True, True),
         "r": lambda: routes(r, k), "rn": lambda: routes(r, k, True), "rr": lambda: routes(r, k, True, True),
         "s": lambda: stores(r, k, True), "sn": lambda: stores(r, k, False), "p": lambda: reaping(r, k)}[sys.argv[1]]
    for i, s in enumerate(f()):
        s["id"] = i
        print(json.dumps(s))
