"""Shared machinery: build the harness from /repo's tree, run it, check with TLC, report."""
import json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(ROOT, "specs")
TARGET = os.path.join(ROOT, "target")
BIN = os.path.join(TARGET, "debug", "kverif")
IMPLICIT = ["--features", "implicit", "--bin", "kverif-implicit"]
WORK = os.path.join(ROOT, "work")
EVID = os.path.join(ROOT, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar"
CORES = 8


class Broken(Exception):
    """The machinery itself could not give an answer (exit 2)."""


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(WORK, "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = 0          # distinct states of design models
        self.trans = 0           # transitions (states generated)
        self.vstates = 0         # states of trace validation
        self.traces = 0
        self.events = 0
        self.impl_steps = 0
        self.samples = []
        self.models = []
        self.violations = []     # (description, replay path)
        self.known = []
        self.notes = []
        self.kinds = {}

    def rng(self, salt=""):
        return random.Random("%s/%s/%s" % (self.seed, self.pid, salt))

    @property
    def quick(self):
        return self.tier != "thorough"

    def path(self, name):
        return os.path.join(self.work, name)

    def sample(self, what):
        if len(self.samples) < 8:
            self.samples.append(what)

    def log(self, *a):
        print("[%s %.0fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------ violations
    def violate(self, what, payload):
        """payload: dict written as the replay file"""
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, "%s-%d.json" % (self.pid, len(self.violations)))
        payload = dict(payload, property=self.pid, what=what, seed=self.seed, tier=self.tier)
        known = match_known(self.pid, what, payload)
        if known:
            if known not in self.known:
                self.known.append(known)
            return
        with open(p, "w") as f:
            json.dump(payload, f, indent=1)
        self.violations.append((what, p))

    def finish(self, technique_detail):
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": self.states,
                "transitions": self.trans,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples,
                "trace_events": self.events,
                "trace_validation_states": self.vstates,
                "event_kinds": self.kinds,
                "models": self.models,
                "detail": technique_detail,
                "violations": [w for w, _ in self.violations],
                "known_findings": self.known,
                "notes": self.notes,
            },
            "wall_s": round(time.time() - self.t0, 1),
        }
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if self.violations:
            for w, p in self.violations[:20]:
                print("  violation: %s" % w[:400])
            print("VIOLATION property=%s replay=%s" % (self.pid, self.violations[0][1]))
            return 1
        self.log("held: %d model states, %d traces (%d events) validated" % (self.states, self.traces, self.events))
        return 0


# ---------------------------------------------------------------- known findings
def known_findings():
    out = []
    p = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                out.append(json.loads(l))
    return out


def match_known(pid, what, payload):
    for k in known_findings():
        if k.get("status") == "known" and k["property"] == pid and k["match"] in what:
            return k["what"]
    return None


# ---------------------------------------------------------------- build and run
def sh(cmd, timeout, env=None, cwd=None, out=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE if out is None else out,
                          stderr=subprocess.STDOUT, text=True)


def build(chk=None, more=()):
    """more: ["--features", "implicit", "--bin", "kverif-implicit"] for the build with implicit routing"""
    r = sh(["cargo", "build", "--offline", "--quiet"] + list(more), 800, cwd=os.path.join(ROOT, "harness"),
           env={"CARGO_TARGET_DIR": TARGET, "CARGO_TERM_COLOR": "never"})
    if r.returncode != 0:
        raise Broken("harness does not build against /repo:\n" + r.stdout[-4000:])
    if chk:
        chk.log("harness built")


def harness(chk, sub, scenarios, tag="s", shards=CORES, timeout=120, env=None, bin=None):
    """Run scenarios (list of dicts with 'id') through `kverif sub IN OUT` in parallel; returns {id: trace}.
    A process that dies is itself a finding: the scenario it died on is returned as missing in the dict."""
    shards = max(1, min(shards, len(scenarios)))
    parts = [scenarios[i::shards] for i in range(shards)]

    def one(i, part):
        got = {}
        dead = []
        todo = part
        rnd = 0
        while todo:
            inp, outp = chk.path("%s%d_%d.in" % (tag, i, rnd)), chk.path("%s%d_%d.out" % (tag, i, rnd))
            with open(inp, "w") as f:
                for s in todo:
                    f.write(json.dumps(s, separators=(",", ":")) + "\n")
            if os.path.exists(outp):
                os.remove(outp)
            try:
                r = sh([bin or BIN, sub, inp, outp], timeout, env=env)
                why = "exit %d: %s" % (r.returncode, r.stdout[-600:])
                code = r.returncode
            except subprocess.TimeoutExpired:
                why, code = "no answer within %ds" % timeout, -99
            n = 0
            if os.path.exists(outp):
                for l in open(outp):
                    if not l.endswith("\n"):
                        break
                    d = json.loads(l)
                    got[d["id"]] = d
                    n += 1
            os.remove(inp)
            if os.path.exists(outp):
                os.remove(outp)
            if n >= len(todo):
                break
            dead.append((todo[n], why))
            todo = todo[n + 1:]
            rnd += 1
            if rnd >= 3 or code == -99:
                break
        return got, dead

    res, dead = {}, []
    with ThreadPoolExecutor(shards) as ex:
        for g, d in ex.map(lambda a: one(*a), list(enumerate(parts))):
            res.update(g)
            dead += d
    return res, dead


# ---------------------------------------------------------------- TLC
def tlc(chk, module, cfg, env=None, workers=1, timeout=600, heap="3g", extra=None, tag="m", deadlock=False):
    meta = chk.path("meta-" + tag)
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", "-cp",
           ":".join([JARS] + community()), "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg] + ([] if deadlock else ["-deadlock"]) + (extra or []) + [module]
    try:
        r = sh(cmd, timeout, env=env, cwd=SPECS)
    except subprocess.TimeoutExpired as e:
        o = e.output if isinstance(e.output, str) else (e.output or b"").decode()
        shutil.rmtree(meta, ignore_errors=True)
        return {"code": -99, "out": o, "gen": 0, "dist": 0}
    shutil.rmtree(meta, ignore_errors=True)
    import re
    gen = dist = 0
    m = None
    for m in re.finditer(r"(\d[\d,]*) states generated[^,]*, (\d[\d,]*) distinct states found", r.stdout):
        pass
    if m:
        gen, dist = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    return {"code": r.returncode, "out": r.stdout, "gen": gen, "dist": dist}


_cm = None


def community():
    global _cm
    if _cm is None:
        import re
        txt = open(shutil.which("tlc")).read()
        _cm = [j for j in re.findall(r"[\w/.\-]+\.jar", txt) if j != JARS]
        d = os.path.dirname(JARS)
        for j in os.listdir(d):
            p = os.path.join(d, j)
            if j.endswith(".jar") and p not in _cm and p != JARS:
                _cm.append(p)
    return _cm


def design(chk, module, cfg, what, timeout=600, workers=CORES, heap="8g", complete=True, extra=None, deadlock=False):
    """Model-check a design model; a violation there is a fault of the specification, not of the code."""
    t = time.time()
    r = tlc(chk, module, cfg, workers=workers, timeout=timeout, heap=heap, tag="d", extra=extra, deadlock=deadlock)
    if r["code"] not in (0,):
        raise Broken("design model %s/%s: code %d\n%s" % (module, cfg, r["code"], r["out"][-3000:]))
    chk.states += r["dist"]
    chk.trans += r["gen"]
    chk.models.append({"model": "%s with %s" % (module, cfg), "what": what, "distinct": r["dist"], "generated": r["gen"],
                       "complete": complete, "seconds": round(time.time() - t, 1)})
    chk.log("design model %s/%s: %d states" % (module, cfg, r["dist"]))


def validate(chk, module, cfg, traces, scen=None, tag="v", shards=CORES, timeout=700, describe=None, env=None, header=None):
    """Trace validation in parallel shards. traces: list of {'id','t'}; returns the list of (trace, position) rejected."""
    if not traces:
        return []
    shards = max(1, min(shards, len(traces)))
    # balance by number of events
    order = sorted(traces, key=lambda d: -len(d["t"]))
    parts = [order[i::shards] for i in range(shards)]

    def one(i):
        f = chk.path("%s%d.ndjson" % (tag, i))
        with open(f, "w") as o:
            for d in parts[i]:
                o.write(json.dumps({"id": d["id"], "t": d["t"]}, separators=(",", ":")) + "\n")
        e = {"TRACEFILE": f}
        e.update(env or {})
        r = tlc(chk, module, cfg, env=e, workers=1, timeout=timeout, tag="%s%d" % (tag, i))
        os.remove(f)
        return r

    bad = []
    byid = {d["id"]: d for d in traces}
    import re
    with ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(one, range(shards)))
    for r in rs:
        if r["code"] != 0 or "No error has been found" not in r["out"]:
            raise Broken("trace validation %s failed to run: code %s\n%s" % (module, r["code"], r["out"][-3000:]))
        chk.vstates += r["dist"]
        for m in re.finditer(r'<<"REJECT", (\d+), (\d+)>>', r["out"]):
            bad.append((byid[int(m.group(1))], int(m.group(2))))
    chk.traces += len(traces)
    for d in traces:
        chk.events += len(d["t"])
        for e in d["t"]:
            k = e["e"] + (":" + str(e["k"]) if e["e"] in ("hb", "ctl") and e.get("k") else "")
            chk.kinds[k] = chk.kinds.get(k, 0) + 1
    return bad
