"""Obligations, verdicts, evidence and the command line of a check."""
import contextlib
import json
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback

from . import expr as X
from .model import Model
from .values import Abort, PyRaise

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROVED, REFUTED, UNKNOWN = X.PROVED, X.REFUTED, X.UNKNOWN


class Timeout(Exception):
    pass


class Ctx:
    """Collects the obligations of one scenario."""

    def __init__(self, prop, model, tier, name):
        self.prop, self.model, self.tier, self.name = prop, model, tier, name
        self.obs = []
        self.visited = set()
        self.opaque = set()
        self.assumptions = set()
        self.notes = []

    # verdicts ------------------------------------------------------
    def ob(self, key, verdict, where, rule, detail=""):
        self.obs.append({"key": "%s/%s" % (self.name, key), "verdict": verdict, "where": where, "rule": rule, "detail": detail})

    def zero(self, key, e, where, rule, assume=None, overrides=None, n=None, pair=None):
        try:
            v, w = X.is_zero(e, overrides, assume, n)
        except X.TooBig:
            v, w = UNKNOWN, None
        if v == UNKNOWN and pair:
            w = X.nan_against(*pair, overrides, assume)
            v = REFUTED if w else v
        self.ob(key, v, where, rule, X.witness_str(w) if v == REFUTED else ("" if v == PROVED else str(e)[:160]))
        return v

    def equal(self, key, a, b, where, rule, **kw):
        a, b = X.num(a), X.num(b)
        if a is b and not X.contains(a, lambda t: t.op == "unk"):
            self.ob(key, PROVED, where, rule)
            return PROVED
        return self.zero(key, a - b, where, rule, pair=(a, b), **kw)

    def nonneg(self, key, e, where, rule, assume=None, overrides=None, n=None):
        try:
            v, w = X.is_nonneg(e, overrides, assume, n)
        except X.TooBig:
            v, w = UNKNOWN, None
        self.ob(key, v, where, rule, X.witness_str(w) if v == REFUTED else ("" if v == PROVED else str(e)[:160]))
        return v

    def fact(self, key, ok, where, rule, detail=""):
        self.ob(key, PROVED if ok is True else REFUTED if ok is False else UNKNOWN, where, rule, detail)

    def unknown(self, key, where, rule, detail=""):
        self.ob(key, UNKNOWN, where, rule, detail)

    @contextlib.contextmanager
    def part(self, key, S=None, where="", rule="analysis", raises=False):
        """Contain failures of the analysis (undetermined) and definite errors of
        the analysed code (a violation when raises=True)."""
        try:
            yield
        except PyRaise as e:
            msg = "raises %s at %s" % (S.I.exc_name(e.exc) if S is not None else e.exc, e.loc)
            # names a driver misses are gaps of the driver (an earlier step may be undetermined)
            own = str(e.loc or "").startswith("<driver>") and S is not None and S.I.exc_name(e.exc) in ("NameError", "AttributeError", "ImportError")
            if raises and not own:
                self.ob(key + "/raises", REFUTED, e.loc or where, rule, msg)
            else:
                self.ob(key + "/raises", UNKNOWN, e.loc or where, rule, msg)
            if S is not None:
                S.reset()
        except Timeout:
            raise
        except Exception as e:  # analysis gap
            tb = traceback.extract_tb(sys.exc_info()[2])
            last = tb[-1]
            self.ob(key + "/gap", UNKNOWN, where, rule, "%s: %s (%s:%d)" % (type(e).__name__, str(e)[:120], os.path.basename(last.filename), last.lineno))
            if S is not None:
                S.reset()

    def absorb(self, S):
        I = S.I
        self.visited |= {q.qual if hasattr(q, "qual") else str(q) for q in I.visited}
        self.opaque |= set(map(str, I.opaque))


def _alarm(*_):
    raise Timeout()


JOBS = []


def run_scenario(idx):
    prop, name, fn, root, tier, limit = JOBS[idx]
    t = time.time()
    model = Model(root)
    c = Ctx(prop, model, tier, name)
    # processor time, so that the result does not depend on what else is running
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        fn(c)
    except Timeout:
        c.ob("timeout", UNKNOWN, "", "analysis", "time limit of %d s" % limit)
    except PyRaise as e:
        c.ob("raises", UNKNOWN, e.loc or "", "analysis", "raises %r" % (e.exc,))
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])[-1]
        c.ob("gap", UNKNOWN, "", "analysis", "%s: %s (%s:%d)" % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return {"name": name, "obs": c.obs, "visited": sorted(c.visited), "opaque": sorted(c.opaque), "assumptions": sorted(c.assumptions),
            "notes": c.notes, "s": round(time.time() - t, 2), "mb": resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024}


def available():
    """Memory left, in MB."""
    try:
        with open("/proc/meminfo") as f:
            for line in f:
                if line.startswith("MemAvailable"):
                    return int(line.split()[1]) // 1024
    except OSError:
        pass
    return 1 << 20


def spawn(idx):
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    code = 1
    try:
        os.close(r)
        data = pickle.dumps(run_scenario(idx))
        with os.fdopen(w, "wb") as f:
            f.write(data)
        code = 0
    finally:
        os._exit(code)


def run_all(jobs, procs, deadline):
    """Every scenario in a process of its own. One that dies (memory) is repeated
    once when it is alone; what is missing at the deadline is undetermined."""
    queue, again, results, running = list(jobs), [], {}, {}
    t0 = time.time()

    def lost(idx, why):
        prop, name = JOBS[idx][:2]
        c = Ctx(prop, None, JOBS[idx][4], name)
        c.ob("lost", UNKNOWN, "", "analysis", why)
        results[idx] = {"name": name, "obs": c.obs, "visited": [], "opaque": [], "assumptions": [], "notes": c.notes, "s": 0.0, "mb": 0}

    while queue or again or running:
        while queue and len(running) < procs and (not running or available() > 5000):
            idx = queue.pop(0)
            pid, fd = spawn(idx)
            running[fd] = (idx, pid, [], True)
        if not queue and not running and again:
            idx = again.pop(0)
            pid, fd = spawn(idx)
            running[fd] = (idx, pid, [], False)
        for fd in select.select(list(running), [], [], 1.0)[0]:
            idx, pid, got, first = running[fd]
            data = os.read(fd, 1 << 20)
            if data:
                got.append(data)
                continue
            os.close(fd)
            del running[fd]
            os.waitpid(pid, 0)
            try:
                results[idx] = pickle.loads(b"".join(got))
            except Exception:
                if first:
                    again.append(idx)
                else:
                    lost(idx, "the analysis ended early (memory)")
        if time.time() - t0 > deadline:
            for fd, (idx, pid, got, first) in running.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                lost(idx, "time limit")
            for idx in queue + again:
                lost(idx, "time limit")
            break
    return [results[j] for j in jobs]


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


def main(check, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    verbose = "-v" in argv
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    X.SEED = str(seed)
    if tier == "thorough":
        X.NSAMPLES = 240
    t0 = time.time()
    root = Model().root
    limit = getattr(check, "LIMIT", 150) * (3 if tier == "thorough" else 1)
    scen = [(n, f) for n, f in check.scenarios(tier) if only is None or only in n]
    JOBS[:] = [(check.ID, n, f, root, tier, limit) for n, f in scen]
    jobs = list(range(len(JOBS)))
    procs = min(8, os.cpu_count() or 1, max(1, len(jobs)))
    if "-1" in argv:
        procs = 1
    res = run_all(jobs, procs, 720 if tier != "thorough" else 7200)
    obs = [o for r in res for o in r["obs"]]
    kn = [k for k in known_findings() if k["property"] == check.ID]
    keys = {k["key"] for k in kn}
    bad = [o for o in obs if o["verdict"] == REFUTED]
    listed = [o for o in bad if o["key"] in keys]
    fresh = [o for o in bad if o["key"] not in keys]
    proved = sum(o["verdict"] == PROVED for o in obs)
    und = [o for o in obs if o["verdict"] == UNKNOWN]
    ev_dir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    visited = sorted({v for r in res for v in r["visited"]})
    rules = {}
    for o in obs:
        rules.setdefault(o["rule"], [0, 0, 0])[{PROVED: 0, REFUTED: 1, UNKNOWN: 2}[o["verdict"]]] += 1
    cov = {
        "explanation": check.EXPLANATION,
        "obligations": len(obs),
        "discharged": proved,
        "refuted": len(bad),
        "undetermined": len(und),
        "functions_analysed": len(visited),
        "functions": visited[:400],
        "rules": {k: {"discharged": v[0], "refuted": v[1], "undetermined": v[2]} for k, v in sorted(rules.items())},
        "scenarios": [{"name": r["name"], "obligations": len(r["obs"]), "seconds": r["s"], "megabytes": r["mb"]} for r in res],
        "opaque_externals": sorted({v for r in res for v in r["opaque"]})[:100],
        "undetermined_list": [{k: o[k] for k in ("key", "where", "detail")} for o in und[:60]],
        "samples": [{k: o[k] for k in ("key", "where", "rule", "verdict")} for o in obs[:12]],
        "source_digest": Model(root).digest(),
    }
    with open(os.path.join(ev_dir, check.ID + ".json"), "w") as f:
        json.dump({"property": check.ID, "tier": tier, "seed": seed, "level": check.LEVEL, "coverage": cov,
                   "assumptions": sorted(set(check.ASSUMPTIONS) | {a for r in res for a in r["assumptions"]}),
                   "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}, f, indent=1, default=str)
        f.write("\n")
    for o in listed:
        what = next(k["what"] for k in kn if k["key"] == o["key"])
        print("KNOWN-FINDING: property=%s %s [%s]" % (check.ID, what, o["key"]))
    print("%s: %d obligations, %d discharged, %d refuted (%d known), %d undetermined, %d functions, %.1f s" % (
        check.ID, len(obs), proved, len(bad), len(listed), len(und), len(visited), time.time() - t0))
    if "-g" in argv:
        groups = {}
        for r in res:
            for o in r["obs"]:
                if o["verdict"] != PROVED:
                    groups.setdefault((r["name"], o["rule"], o["verdict"]), []).append(o)
        for (n, rule, v), os_ in groups.items():
            print("  %s %s: %s x%d e.g. %s | %s" % (v, n, rule[:50], len(os_), os_[0]["key"][len(n):], os_[0]["detail"][:110]))
        print("  slow:", ", ".join("%s %.0f" % (r["name"], r["s"]) for r in sorted(res, key=lambda r: -r["s"])[:8]))
        return 0
    if verbose:
        for r in res:
            print("  scenario %-40s %6.2fs" % (r["name"], r["s"]))
        for o in obs:
            if o["verdict"] != PROVED or "-vv" in argv:
                print("   ", o["verdict"], o["key"], "|", o["where"], "|", o["rule"], "|", o["detail"][:300])
    if fresh:
        path = os.path.join(ev_dir, check.ID + ".violations.json")
        with open(path, "w") as f:
            json.dump(fresh, f, indent=1)
        for o in fresh[:40]:
            print("  violated: %s at %s: %s %s" % (o["key"], o["where"], o["rule"], o["detail"]))
        print("VIOLATION property=%s replay=%s" % (check.ID, path))
        return 1
    if not proved and not listed:
        print("%s: nothing could be analysed" % check.ID)
        return 2
    return 0
