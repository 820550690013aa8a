"""C12: a failing save or a torn profile file is never silent."""
import builtins
import errno
import io
import os
import random
import shutil
import tempfile

from mc.engine import Space, Violation, diff_path, short
from mc.props import c10, c11
from mc.sut import clean, dp, facts, frame, np, opts, pd

ASSUMPTIONS = [
    "writes reach the file in order, so the torn files of an interrupted save are the prefixes of the complete file",
    "faults are injected at the file object returned by open(): the open itself, the k-th write, the flush/close",
    "JSON writes are grouped: a fault is injected at every write call up to the 64th and at every 16th after it (quick)",
]


class Fault(OSError):
    pass


class FaultyFile:
    """wraps a real file; the k-th write (or the close) fails, optionally after part of the data went out"""

    def __init__(self, f, plan, log):
        self.f, self.plan, self.log = f, plan, log

    def write(self, data):
        self.log["writes"] += 1
        if self.plan[0] == "write" and self.log["writes"] == self.plan[1]:
            if self.plan[2] == "half":
                self.f.write(data[: len(data) // 2])
            raise Fault(errno.ENOSPC, "No space left on device")
        return self.f.write(data)

    def close(self):
        if not self.f.closed:
            self.f.close()
            self.log["closes"] += 1
            if self.plan[0] == "close":
                raise Fault(errno.EIO, "Input/output error")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __getattr__(self, k):
        return getattr(self.f, k)


class inject:
    """make every open-for-writing under `folder` return a FaultyFile"""

    def __init__(self, folder, plan):
        self.folder, self.plan = folder, plan
        self.log = {"opens": 0, "writes": 0, "closes": 0}

    def __enter__(self):
        real = self.real = builtins.open

        def fake(file, mode="r", *a, **k):
            if isinstance(file, (str, os.PathLike)) and os.fspath(file).startswith(self.folder) and set(mode) & set("wax+"):
                self.log["opens"] += 1
                if self.plan[0] == "open":
                    raise Fault(errno.EACCES, "Permission denied")
                return FaultyFile(real(file, mode, *a, **k), self.plan, self.log)
            return real(file, mode, *a, **k)

        builtins.open = fake
        return self.log

    def __exit__(self, *a):
        builtins.open = self.real
        return False


# ------------------------------------------------------------------ subjects
def subject(kind):
    if kind == "struct":
        return c11.build("n", "corr", "text")
    if kind == "one":
        return c11.build("one", "nodate", "text")
    if kind == "merged":
        return c11.build("n", "hll", "text") + c11.build("f", "hll", "text")
    if kind == "text":
        return c10.build(["ab the AB", "", "x'y"], "nocase")
    if kind == "labeler":
        o = opts({})
        dl = o.structured_options.data_labeler
        dl.is_enabled = True
        dl.data_labeler_dirpath = c11.regex_dir()
        return dp.Profiler(c11.df("n"), options=o, profiler_type="structured")
    if kind == "object":  # the labeler only lives in the profile and its options
        o = opts({})
        dl = o.structured_options.data_labeler
        dl.is_enabled = True
        dl.data_labeler_object = dp.DataLabeler.load_from_disk(c11.regex_dir())
        return dp.Profiler(c11.df("n"), options=o, profiler_type="structured")
    if kind == "graph":
        import networkx as nx

        g = nx.Graph()
        g.add_edge(1, 2, w=1.5, k=1)
        g.add_edge(2, 3, w=2.5, k=1)
        g.add_edge(3, 4, w=3.5, k=2)
        return dp.Profiler(g, profiler_type="graph")
    raise KeyError(kind)


def rep(p, kind):
    if kind == "text":
        return clean(p.report(), ("times",))
    if kind == "graph":
        return clean(p.report(), ("times",))
    return facts(p, approx=True)


def save(p, path, method, kind):
    if kind == "graph":
        return p.save(filepath=path)
    return p.save(filepath=path, save_method=method)


def load(path, kind, method=None):
    if kind == "graph":
        from dataprofiler.profilers.graph_profiler import GraphProfiler

        return GraphProfiler.load(path)
    return dp.Profiler.load(path) if method is None else dp.Profiler.load(path, load_method=method)


def go_on(p, kind):
    """the profile keeps working: update it and report"""
    random.seed(0)
    np.random.seed(0)
    if kind == "text":
        p.update_profile(pd.Series(["new words", ""], dtype=object))
    elif kind == "graph":
        return rep(p, kind)
    else:
        p.update_profile(c11.df("f", start=500))
    return rep(p, kind)


_base = {}


def baseline(kind):
    if kind not in _base:
        p = subject(kind)
        r = rep(p, kind)
        _base[kind] = (r, go_on(p, kind))
    return _base[kind]


def n_writes(kind, method):
    d = tempfile.mkdtemp(dir=os.environ.get("MC_TMP"))
    try:
        with inject(d, ("none",)) as log:
            save(subject(kind), os.path.join(d, "p"), method, kind)
        return log["writes"]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def faults(case, ctx):
    kind, method, plan, twice = case
    want, want2 = baseline(kind)
    d = tempfile.mkdtemp(dir=os.environ.get("MC_TMP"))
    try:
        path = os.path.join(d, "p")
        p = subject(kind)
        for _ in range(2 if twice else 1):
            with inject(d, tuple(plan)) as log:
                try:
                    save(p, path, method, kind)
                    raised = None
                except Exception as e:
                    raised = e
            ctx.step()
            if plan[0] == "write" and log["writes"] < plan[1]:
                ctx.check(raised is None, lambda: f"save failed without a fault: {raised!r}")
                ctx.state("beyond")
                return
            ctx.check(raised is not None, f"a save with the fault {plan} did not raise")
            dd = diff_path(want, rep(p, kind))
            ctx.check(dd is None, lambda: f"a failed save changed the profile: {dd}")
        # the torn file must not load
        if plan[0] == "write" and os.path.exists(path):
            try:
                q = load(path, kind)
            except Exception as e:
                ctx.state(type(e).__name__)
            else:
                raise Violation(f"the file left by a save that failed at {plan} loads as {q!r}")
        # a later save works and loads
        save(p, path, method, kind)
        q = load(path, kind)
        ctx.step()
        dd = diff_path(want, rep(q, kind))
        ctx.check(dd is None, lambda: f"after a failed and then a good save the loaded profile differs: {dd}")
        dd = diff_path(want2, go_on(p, kind))
        ctx.check(dd is None, lambda: f"after a failed save the profile goes on differently: {dd}")
        if kind != "object":  # an in-memory labeler is not part of the file
            dd = diff_path(want2, go_on(q, kind))
            ctx.check(dd is None, lambda: f"after a failed save the loaded profile goes on differently: {dd}")
        ctx.state((kind, method, plan[0]))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def unpicklable(case, ctx):
    """content that cannot be saved: the save raises and leaves the profile usable"""
    cfg, method = case
    d = tempfile.mkdtemp(dir=os.environ.get("MC_TMP"))
    try:
        for lab in (False, True):
            o = opts(c11.CONFIGS[cfg])
            if lab:
                o.structured_options.data_labeler.is_enabled = True
                o.structured_options.data_labeler.data_labeler_dirpath = c11.regex_dir()
            p = dp.Profiler(c11.df("n"), options=o, profiler_type="structured")
            want = rep(p, "s")
            try:
                p.save(filepath=os.path.join(d, "p"), save_method=method)
                q = dp.Profiler.load(os.path.join(d, "p"))
                dd = diff_path(want, rep(q, "s"))
                ctx.check(dd is None, lambda: f"loaded profile differs: {dd}")
                ctx.state((cfg, method, "saved"))
            except Violation:
                raise
            except Exception as e:
                ctx.state((cfg, method, type(e).__name__))
            ctx.step()
            dd = diff_path(want, rep(p, "s"))
            ctx.check(dd is None, lambda: f"a refused save changed the profile: {dd}")
            p.update_profile(c11.df("f", start=300))
            o2 = opts(c11.CONFIGS[cfg])
            if lab:
                o2.structured_options.data_labeler.is_enabled = True
                o2.structured_options.data_labeler.data_labeler_dirpath = c11.regex_dir()
            p2 = dp.Profiler(c11.df("n"), options=o2, profiler_type="structured")
            p2.update_profile(c11.df("f", start=300))
            dd = diff_path(rep(p2, "s"), rep(p, "s"))
            ctx.check(dd is None, lambda: f"after a refused save updates go differently: {dd}")
    finally:
        shutil.rmtree(d, ignore_errors=True)


_files = {}


def content(kind, method):
    if (kind, method) not in _files:
        d = tempfile.mkdtemp(dir=os.environ.get("MC_TMP"))
        path = os.path.join(d, "p")
        save(subject(kind), path, method, kind)
        with open(path, "rb") as f:
            _files[kind, method] = f.read()
        shutil.rmtree(d, ignore_errors=True)
    return _files[kind, method]


def torn(case, ctx):
    """a block of truncation points of one saved file"""
    kind, method, lo, hi, step = case
    data = content(kind, method)
    d = tempfile.mkdtemp(dir=os.environ.get("MC_TMP"))
    path = os.path.join(d, "p")
    try:
        with open(path, "wb") as f:
            f.write(data[: min(hi, len(data) - 1)])
        # longest prefix first, then cut the file
        last = min(hi, len(data) - 1)
        for n in range(last, lo - 1, -1):
            if (n - lo) % step and n != last:
                continue
            os.truncate(path, n)
            for lm in (None, "pickle", "json") if kind != "graph" and (n == last or n % 97 == 0) else (None,):
                try:
                    q = load(path, kind, lm)
                except Exception as e:
                    ctx.state((kind, method, type(e).__name__))
                    ctx.step()
                    continue
                raise Violation(f"a {method} file cut to {n} of {len(data)} bytes loads as {q!r}")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def formats(case, ctx):
    """a file of one format explicitly loaded as the other is refused; loaded as its own or unspecified it loads"""
    kind, method, lm = case
    d = tempfile.mkdtemp(dir=os.environ.get("MC_TMP"))
    path = os.path.join(d, "p")
    try:
        p = subject(kind)
        save(p, path, method, kind)
        ctx.step()
        try:
            q = load(path, kind, lm)
        except Exception as e:
            ctx.check(lm not in (None, method), lambda: f"loading {method} file as {lm} failed: {e!r}")
            ctx.state((method, lm, type(e).__name__))
            return
        ctx.check(lm in (None, method), f"a {method} file loaded as {lm}")
        dd = diff_path(rep(p, kind), rep(q, kind))
        ctx.check(dd is None, lambda: f"differs: {dd}")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def bad_paths(case, ctx):
    kind, method, where = case
    d = tempfile.mkdtemp(dir=os.environ.get("MC_TMP"))
    try:
        want, want2 = baseline(kind)
        p = subject(kind)
        path = {"nodir": os.path.join(d, "x", "p"), "isdir": d, "toolong": os.path.join(d, "n" * 300)}[where]
        try:
            save(p, path, method, kind)
        except Exception as e:
            ctx.state((where, type(e).__name__))
        else:
            raise Violation(f"saving to {where} did not raise")
        ctx.step()
        dd = diff_path(want, rep(p, kind)) or diff_path(want2, go_on(p, kind))
        ctx.check(dd is None, lambda: f"a failed save changed the profile: {dd}")
        try:
            load(path, kind)
        except Exception:
            pass
        else:
            raise Violation(f"loading from {where} did not raise")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def spaces(tier):
    big = tier == "thorough"
    KINDS = [("struct", "pickle"), ("struct", "json"), ("one", "json"), ("merged", "pickle"), ("text", "pickle"),
             ("labeler", "pickle"), ("object", "pickle"), ("graph", "pickle")]
    counts = {}

    def c_faults():
        for kind, m in KINDS:
            if (kind, m) not in counts:
                counts[kind, m] = n_writes(kind, m)
            n = counts[kind, m]
            yield [kind, m, ["open"], False]
            yield [kind, m, ["open"], True]
            yield [kind, m, ["close"], False]
            for k in range(1, n + 2):
                if not big and m == "json" and k > 64 and k % (97 if kind == "struct" else 48) and k < n:
                    continue
                for part in ("none", "half") if k < 8 or big else ("half",):
                    yield [kind, m, ["write", k, part], False]
            yield [kind, m, ["write", n, "half"], True]

    def c_torn():
        for kind, m in KINDS:
            if kind == "object" or (kind, m) == ("struct", "json") and not big:
                continue
            n = len(content(kind, m))
            # JSON parses the whole text each time: step in quick, every byte in thorough
            step = 1 if big or m == "pickle" else 61
            block = 1024 if m == "pickle" else 2048
            for lo in range(0, n, block):
                yield [kind, m, lo, min(lo + block, n) - 1, step]
            yield [kind, m, max(0, n - 40), n - 1, 1]

    def c_formats():
        for kind, m in [("struct", "pickle"), ("struct", "json"), ("one", "json"), ("text", "pickle")]:
            for lm in (None, "pickle", "json"):
                yield [kind, m, lm]

    def c_paths():
        for kind, m in KINDS:
            for w in ("nodir", "isdir", "toolong"):
                yield [kind, m, w]

    def c_unp():
        for cfg in ("cms", "hll", "default"):
            for m in ("pickle", "json"):
                yield [cfg, m]

    return [
        Space("faults", "8 saved profile kinds x a fault at open, close and every write call (nothing or half written), "
              "once or twice, then a good save, load and further updates", c_faults, faults),
        Space("torn", "every proper prefix of each saved pickle file; of JSON files "
              + ("every" if big else "every 61st and the last 40") + " prefix", c_torn, torn),
        Space("formats", "each file format x each load method", c_formats, formats),
        Space("paths", "8 profile kinds x unwritable destinations", c_paths, bad_paths),
        Space("refused", "profiles whose content cannot be saved, with and without labeler", c_unp, unpicklable),
    ]
