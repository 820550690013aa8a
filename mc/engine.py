"""Bounded exhaustive explorer.

A property module (mc/props/cXX.py) exposes `spaces(tier)` -> list of Space.  A Space enumerates *every* case of a
finite, deterministic set (an operation history, as JSON-able data) and runs each on the real code of /repo, checking
against a reference model.  Nothing is sampled; the run is exhaustive within the bounds stated by the space.
"""
import hashlib
import itertools
import json
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_TIMEOUT = int(os.environ.get("VERIF_CASE_TIMEOUT", "180"))
NWORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or max(1, min(8, os.cpu_count() or 1))


class Violation(Exception):
    """The property does not hold in this case."""


class CaseTimeout(Exception):
    pass


class Ctx:
    """Counters of what was explored; `state` records canonical observations."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.outcomes = set()

    def step(self, n=1):
        self.transitions += n

    def state(self, obj):
        self.states.add(hashlib.blake2b(repr(obj).encode("utf8", "surrogatepass"), digest_size=8).digest())

    def check(self, cond, msg):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def eq(self, got, want, what):
        if not same(got, want):
            raise Violation(f"{what}: got {short(got)} expected {short(want)}")


class Space:
    def __init__(self, name, bounds, cases, run, reset=None):
        self.name = name
        self.bounds = bounds  # human-readable statement of alphabet and bound
        self.cases = cases  # callable -> iterator of JSON-able cases, deterministic
        self.run = run  # run(case, ctx)


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def isnan(x):
    try:
        return x != x
    except Exception:
        return False


def num(x):
    import numpy as np

    return isinstance(x, (int, float, np.integer, np.floating)) and not isinstance(x, (bool, np.bool_))


def same(a, b, rel=1e-7, abs_=1e-9):
    """Structural equality with float tolerance; NaN equals NaN."""
    import numpy as np

    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(b, np.ndarray):
        b = b.tolist()
    if num(a) and num(b):
        a, b = float(a), float(b)
        if a != a or b != b:
            return a != a and b != b
        if a == b:
            return True
        if a in (float("inf"), float("-inf")) or b in (float("inf"), float("-inf")):
            return False
        return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, rel, abs_) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        return all(k in b and same(v, b[k], rel, abs_) for k, v in a.items())
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return a == b
    if num(a) != num(b):
        return False
    try:
        r = a == b
        return bool(r)
    except Exception:
        return False


def diff_path(a, b, path=""):
    """First difference between two structures, as text (None if same)."""
    import numpy as np

    if same(a, b):
        return None
    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(b, np.ndarray):
        b = b.tolist()
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return f"{path}/{k}: only in first ({short(a[k], 100)})"
        for k in b:
            if k not in a:
                return f"{path}/{k}: only in second ({short(b[k], 100)})"
        for k in a:
            d = diff_path(a[k], b[k], f"{path}/{k}")
            if d:
                return d
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff_path(x, y, f"{path}[{i}]")
            if d:
                return d
    return f"{path}: {short(a, 160)} != {short(b, 160)}"


# ---------------------------------------------------------------- running
def _alarm(signum, frame):
    raise CaseTimeout(f"no answer within {CASE_TIMEOUT} s")


def seed_everything(n=0):
    import random

    import numpy as np

    random.seed(n)
    np.random.seed(n)


def run_case(space, case, ctx):
    """Returns None or a violation message."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        seed_everything(0)
        space.run(case, ctx)
        return None
    except Violation as e:
        return str(e)
    except CaseTimeout as e:
        return "TIMEOUT: " + str(e)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # an unexpected exception of the code under test
        tb = traceback.format_exc(limit=-6)
        return f"unexpected {type(e).__name__}: {e}\n{tb}"
    finally:
        signal.alarm(0)


def _quiet():
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)


def _worker(w, n, spaces, deadline, outpath, stoppath, known):
    _quiet()
    res = []
    for si, sp in enumerate(spaces):
        ctx = Ctx()
        t0 = time.time()
        traces = 0
        total = 0
        capped = False
        viol = []
        knownhits = []
        samples = []
        for i, case in enumerate(sp.cases()):
            total += 1
            # interleave space order between workers so that load is balanced
            if (i * 2654435761 >> 7) % n != w:
                continue
            if os.path.exists(stoppath):
                capped = True
                break
            if deadline and time.time() > deadline:
                capped = True
                break
            msg = run_case(sp, case, ctx)
            traces += 1
            if len(samples) < 1:
                samples.append(case)
            if msg is not None:
                kf = match_known(known, sp.name, case)
                if kf is not None:
                    knownhits.append(kf)
                    continue
                viol.append((i, case, msg))
                open(stoppath, "w").close()
                break
        res.append(
            dict(
                space=sp.name,
                traces=traces,
                total=total,
                transitions=ctx.transitions,
                states=ctx.states,
                outcomes=len(ctx.outcomes),
                capped=capped,
                viol=viol,
                known=knownhits,
                samples=samples,
                wall=time.time() - t0,
            )
        )
        with open(outpath + ".tmp", "wb") as f:
            pickle.dump(res, f)
        os.replace(outpath + ".tmp", outpath)
        if viol:
            break
    os._exit(0)


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            d = json.loads(line)
            if d.get("property") == prop and d.get("status") == "open":
                out.append(d)
    return out


def case_key(case):
    return json.dumps(case, sort_keys=True, default=str)


def match_known(known, space, case):
    key = case_key(case)
    for k in known:
        if k["space"] == space and key in [case_key(c) for c in k["cases"]]:
            return k["what"]
    return None


def explore(prop, module, tier, budget=None):
    """Run all spaces; write evidence; return the process's exit status."""
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = load_known(prop)
    spaces = module.spaces(tier)
    only = os.environ.get("VERIF_SPACE")
    if only:
        spaces = [s for s in spaces if s.name in only.split(",")]
    tmp = tempfile.mkdtemp(prefix=f"mc_{prop}_")
    os.environ["MC_TMP"] = tmp
    stop = os.path.join(tmp, "stop")
    deadline = t0 + budget if budget else None
    pids = {}
    crashed = []
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(NWORKERS):
        pid = os.fork()
        if pid == 0:
            try:
                os.environ["MC_WORKER"] = str(w)
                _worker(w, NWORKERS, spaces, deadline, os.path.join(tmp, f"out{w}"), stop, known)
            except BaseException:
                with open(os.path.join(tmp, f"err{w}"), "w") as f:
                    traceback.print_exc(file=f)
            os._exit(3)
        pids[pid] = w
    while pids:
        pid, status = os.wait()
        if pid not in pids:
            continue
        w = pids.pop(pid)
        if status != 0:
            err = os.path.join(tmp, f"err{w}")
            txt = open(err).read() if os.path.exists(err) else f"worker ended with status {status}"
            crashed.append((w, txt))
    parts = []
    for w in range(NWORKERS):
        p = os.path.join(tmp, f"out{w}")
        if os.path.exists(p):
            parts.append(pickle.load(open(p, "rb")))
    agg = {}
    for part in parts:
        for r in part:
            a = agg.setdefault(
                r["space"],
                dict(traces=0, total=0, transitions=0, states=set(), capped=False, viol=[], known=[], samples=[], wall=0),
            )
            a["traces"] += r["traces"]
            a["total"] = max(a["total"], r["total"])
            a["transitions"] += r["transitions"]
            a["states"] |= r["states"]
            a["capped"] |= r["capped"]
            a["viol"] += r["viol"]
            a["known"] += r["known"]
            a["samples"] += r["samples"]
            a["wall"] = max(a["wall"], r["wall"])
    viols = []
    for sp in spaces:
        if sp.name in agg:
            for i, case, msg in agg[sp.name]["viol"]:
                viols.append((sp.name, i, case, msg))
    viols.sort(key=lambda v: ([s.name for s in spaces].index(v[0]), v[1]))
    exhaustive = not crashed and not viols and all(
        sp.name in agg and not agg[sp.name]["capped"] and agg[sp.name]["traces"] == agg[sp.name]["total"] for sp in spaces
    )
    states = sum(len(a["states"]) for a in agg.values())
    transitions = sum(a["transitions"] for a in agg.values())
    traces = sum(a["traces"] for a in agg.values())
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=getattr(module, "LEVEL", "model_checking"),
        coverage=dict(
            states=states,
            transitions=transitions,
            traces_validated_against_impl=traces,
            samples=[dict(space=n, case=c) for n, a in agg.items() for c in a["samples"][:1]],
            exhaustive=bool(exhaustive),
            spaces=[
                dict(
                    name=sp.name,
                    bounds=sp.bounds,
                    histories=agg.get(sp.name, {}).get("traces", 0),
                    states=len(agg.get(sp.name, {}).get("states", ())),
                    transitions=agg.get(sp.name, {}).get("transitions", 0),
                    complete=sp.name in agg
                    and not agg[sp.name]["capped"]
                    and agg[sp.name]["traces"] == agg[sp.name]["total"],
                    wall_s=round(agg.get(sp.name, {}).get("wall", 0), 1),
                )
                for sp in spaces
            ],
        ),
        assumptions=getattr(module, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2),
        violations=len(viols) + len(crashed),
    )
    if ev["level"] != "model_checking":
        ev["coverage"].update(
            evaluations=traces,
            distinct_nontrivial=states,
            rule=getattr(module, "RULE", "every case of the enumerated spaces; distinct canonical outcomes counted"),
        )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for what in sorted({k for a in agg.values() for k in a["known"]}):
        print(f"KNOWN-FINDING: property={prop} {what}")
    rc = 0
    for sp in ev["coverage"]["spaces"]:
        print(
            f"[{prop}/{tier}] {sp['name']}: histories={sp['histories']} transitions={sp['transitions']} "
            f"states={sp['states']} complete={sp['complete']} {sp['wall_s']}s"
        )
    if viols or crashed:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        if viols:
            name, i, case, msg = viols[0]
            rec = dict(property=prop, space=name, index=i, case=case, message=msg, tier=tier)
            path = os.path.join(rd, f"{prop}.json")
        else:
            rec = dict(property=prop, space=None, case=None, message=crashed[0][1], tier=tier)
            msg = crashed[0][1]
            path = os.path.join(rd, f"{prop}.json")
        with open(path, "w") as f:
            json.dump(rec, f, indent=1, default=str)
        if viols:
            print(f"space {name}, case {short(case, 1000)}")
        print("  " + msg[:3000])
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    import shutil

    shutil.rmtree(tmp, ignore_errors=True)
    print(f"[{prop}/{tier}] total states={states} transitions={transitions} histories={traces} "
          f"exhaustive={exhaustive} wall={time.time()-t0:.1f}s exit={rc}")
    return rc


def compositions(n, maxparts):
    """Ordered splits of n into 1..maxparts parts, parts may be 0."""
    for k in range(1, maxparts + 1):
        for cuts in itertools.combinations_with_replacement(range(n + 1), k - 1):
            b = (0,) + cuts + (n,)
            yield tuple(b[i + 1] - b[i] for i in range(k))


def words(alphabet, maxlen, minlen=0):
    for n in range(minlen, maxlen + 1):
        yield from itertools.product(alphabet, repeat=n)
