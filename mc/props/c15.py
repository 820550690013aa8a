"""C15: parallel profiling equals sequential profiling."""
import contextlib
import functools
import itertools
import multiprocessing
import multiprocessing.pool
import pickle
from unittest import mock

from mc.engine import Space, diff_path
from mc.sut import clean, dp, facts, frame, fresh, np, opts, pd

ASSUMPTIONS = [
    "the controlled pool replaces multiprocessing.pool.Pool: a task is pickled (at submission, or as late as when its "
    "result is first asked for), run on the unpickled copy, and its result pickled back, as in a real worker; every task "
    "can be refused at submission, fail before it ran, or fail after it ran (result lost)",
    "worker death (a killed process) is outside: multiprocessing.Pool itself then never answers",
    "data labeler off; the random sample shown in the report is not compared (each worker draws its own)",
    "space 'real' runs the same histories on real worker processes and binds the controlled pool to them",
]

OK, REFUSE, BEFORE, AFTER = "o", "s", "b", "a"


class TaskError(Exception):
    pass


class World:
    """One schedule: outcome, pickling time of each task by submission number, and the order tasks run in."""

    def __init__(self, outcome, late=frozenset(), order="get", pools=None, cpus=9):
        self.outcome, self.late, self.order = outcome, late, order
        self.pools = pools  # set of pool numbers whose creation fails
        self.cpus = cpus
        self.n = 0
        self.created = 0
        self.ran = 0
        self.pending = []


class Result:
    def __init__(self, world, i, func, args, kwds):
        self.w, self.i, self.call = world, i, (func, args, kwds)
        self.blob = None
        self.done = None
        if i not in world.late:
            self.freeze()

    def freeze(self):
        if self.blob is None:
            try:
                self.blob = pickle.dumps(self.call)
            except Exception as e:
                self.blob = b""
                self.done = (False, e)

    def run(self):
        self.freeze()
        if self.done is not None:
            return
        what = self.w.outcome(self.i)
        if what == BEFORE:
            self.done = (False, TaskError("lost"))
            return
        func, args, kwds = pickle.loads(self.blob)
        self.w.ran += 1
        try:
            out = pickle.dumps(func(*args, **kwds))
        except Exception as e:
            self.done = (False, e)
            return
        self.done = (False, TaskError("lost result")) if what == AFTER else (True, out)

    def get(self, timeout=None):
        if self.w.order == "rev":
            for r in reversed(self.w.pending):
                r.run()
            self.w.pending = []
        self.run()
        ok, v = self.done
        if not ok:
            raise v
        return pickle.loads(v)

    def ready(self):
        return self.done is not None

    def wait(self, timeout=None):
        self.run()

    def successful(self):
        return bool(self.done and self.done[0])


class FakePool:
    world = None

    def __init__(self, processes=None, *a, **k):
        w = self.w = FakePool.world
        w.created += 1
        if w.pools and (w.created - 1) in w.pools:
            raise OSError("cannot start workers")
        self.closed = False

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        i = self.w.n
        self.w.n += 1
        if self.w.outcome(i) == REFUSE or self.closed:
            raise ValueError("Pool not running")
        r = Result(self.w, i, func, args, kwds)
        self.w.pending.append(r)
        if self.w.order == "now":
            r.run()
        return r

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def map(self, func, it, chunksize=None):
        return [r.get() for r in [self.apply_async(func, (x,)) for x in it]]

    def starmap(self, func, it, chunksize=None):
        return [r.get() for r in [self.apply_async(func, x) for x in it]]

    def imap(self, func, it, chunksize=1):
        return iter(self.map(func, it))

    imap_unordered = imap

    def close(self):
        self.closed = True

    terminate = close

    def join(self):
        for r in self.w.pending:
            r.run()
        self.w.pending = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Mem:
    available = 10 ** 3
    total = 10 ** 9


@contextlib.contextmanager
def schedule(world, force=True):
    import psutil

    from dataprofiler.profilers import profiler_utils
    FakePool.world = world
    with contextlib.ExitStack() as st:
        st.enter_context(mock.patch.object(multiprocessing.pool, "Pool", FakePool))
        st.enter_context(mock.patch.object(psutil, "cpu_count", lambda *a, **k: world.cpus))
        st.enter_context(mock.patch.object(psutil, "virtual_memory", lambda: Mem))
        if force and hasattr(profiler_utils, "auto_multiprocess_toggle"):
            st.enter_context(mock.patch.object(profiler_utils, "auto_multiprocess_toggle", lambda *a, **k: True))
        yield
    FakePool.world = None


ON = {"structured_options.multiprocess.is_enabled": True}
CFG = {
    "": {},
    "corr": {"structured_options.correlation.is_enabled": True, "structured_options.null_replication_metrics.is_enabled": True},
    "null": {"structured_options.null_values": {"0": 0, "": 0}, "structured_options.column_null_values": {0: {"2": 0}, 2: {"b": 0}}},
}

TABLES = {
    "t3": [("i", ["1", "2", "", "4"]), ("f", ["0.5", "nan", "2", "2"]), ("s", ["b", "a", "b", ""])],
    "t1": [("x", ["3", "", "1", "3"])],
    "dup": [("a", ["1", "2", "3", ""]), ("a", ["9", "8", "", "7"]), ("d", ["1/2/2013", "", "3/4/2014", "1/2/2013"])],
    "nulls": [("n", ["", "nan", "", ""]), ("i", ["1", "1", "5", "1"])],
    "t4": [("i", ["1", "2", "", "4"]), ("f", ["0.5", "1.5", "2", "2"]), ("s", ["b", "a", "b", ""]), ("g", ["5", "-1", "0", "3"])],
}


def part(name, a, b, perm=None):
    cols = [(n, v[a:b]) for n, v in TABLES[name]]
    if perm:
        cols = [cols[i] for i in perm]
    return frame(cols, index=list(range(a, b)))


def norm(p):
    r = facts(p, approx=True, drop=("times", "samples", "memory_size", "file_type", "encoding"))
    return r


@functools.lru_cache(maxsize=None)
def sequential(name, splits, cfg, perm):
    p = None
    for k, (a, b) in enumerate(splits):
        df = part(name, a, b, perm if k else None)
        if p is None:
            p = fresh(df, CFG[cfg])
        else:
            p.update_profile(df)
    return norm(p), pickle.dumps(p)


def go(ctx, name, splits, cfg, perm, world, then=True):
    splits = tuple(map(tuple, splits))
    perm = tuple(perm) if perm else None
    want, blob = sequential(name, splits, cfg, perm)
    p = None
    with schedule(world):
        for k, (a, b) in enumerate(splits):
            df = part(name, a, b, perm if k else None)
            if p is None:
                p = fresh(df, {**CFG[cfg], **ON})
            else:
                p.update_profile(df)
            ctx.step()
    d = diff_path(norm(p), want)
    ctx.check(d is None, lambda: f"parallel differs from sequential: {d}")
    ctx.check(world.created > 0, "harness: no pool was created")
    if then and cfg == "":  # the profile's future is the same as well
        q = pickle.loads(blob)
        df = frame([(n, v) for n, v in TABLES[name]], index=range(50, 50 + len(TABLES[name][0][1])))
        p.options.multiprocess.is_enabled = False
        p.update_profile(df)
        q.update_profile(df)
        d = diff_path(norm(p), norm(q))
        ctx.check(d is None, lambda: f"a later update differs: {d}")
        ctx.step()
    ctx.state((want["global_stats"]["row_count"], world.n, world.ran, world.created))


ALL = [(0, 4)]
TWO = [(0, 2), (2, 4)]


def outcomes(case, ctx):
    """case: table, splits, cfg, perm, {task: outcome}, late tasks, order, failing pools, cpus"""
    name, splits, cfg, perm, out, late, order, pools, cpus = case
    out = {int(k): v for k, v in out.items()} if isinstance(out, dict) else dict(out)
    default = out.pop(-1, OK)
    w = World(lambda i: out.get(i, default), frozenset(late), order, set(pools), cpus)
    go(ctx, name, splits, cfg, perm, w)


def wide(case, ctx):
    """more than 20 columns: the automatic switch to parallel"""
    ncol, out, order, empty = case
    out = dict(out)
    df = frame([(f"c{i}", ["%d" % (i * 7 % 5), "", "a" if i % 3 == 0 else "2", "1.5" if i % 4 == 1 else "9"]) for i in range(ncol)])
    p0 = fresh(df, LIGHT)
    w = World(lambda i: out.get(i, OK), frozenset(), order)
    e = frame([(f"c{i}", []) for i in range(ncol)])
    with schedule(w, force=False):
        p = fresh(df, {**LIGHT, **ON})
        if empty:
            p.update_profile(e)
    if empty:
        p0.update_profile(e)
    d = diff_path(norm(p), norm(p0))
    ctx.check(d is None, lambda: f"parallel differs from sequential: {d}")
    ctx.step()
    ctx.state((ncol, w.n, w.created))


LIGHT = {"structured_options.datetime.is_enabled": False, "structured_options.chi2_homogeneity.is_enabled": False,
         "structured_options.order.is_enabled": False, "structured_options.text.is_enabled": False}


def real(case, ctx):
    """real worker processes"""
    kind, name, splits, cfg = case
    import psutil

    from dataprofiler.profilers import profiler_utils
    with contextlib.ExitStack() as st:
        st.enter_context(mock.patch.object(psutil, "cpu_count", lambda *a, **k: 4))
        st.enter_context(mock.patch.object(psutil, "virtual_memory", lambda: Mem))
        if kind == "wide":
            df = frame([(f"c{i}", ["%d" % (i % 5), "", "a" if i % 3 == 0 else "2", "9"]) for i in range(22)])
            p0 = fresh(df, LIGHT)
            p = fresh(df, {**LIGHT, **ON})
            want = norm(p0)
        else:
            st.enter_context(mock.patch.object(profiler_utils, "auto_multiprocess_toggle", lambda *a, **k: True))
            want, _ = sequential(name, tuple(map(tuple, splits)), cfg, None)
            p = None
            for a, b in splits:
                df = part(name, a, b)
                if p is None:
                    p = fresh(df, {**CFG[cfg], **ON})
                else:
                    p.update_profile(df)
    d = diff_path(norm(p), want)
    ctx.check(d is None, lambda: f"real workers differ from sequential: {d}")
    ctx.step()
    ctx.state((kind, name, cfg))


def spaces(tier):
    big = tier == "thorough"

    def c_clean():
        # tasks 0..2: cleaning of the 3 columns in the first update
        for name in ("t3", "dup"):
            for o in itertools.product((OK, REFUSE, BEFORE, AFTER), repeat=3):
                for order in ("get", "rev") if big or name == "t3" else ("rev",):
                    yield [name, ALL, "", None, list(enumerate(o)), [], order, [], 9]
        for o in itertools.product((OK, REFUSE, AFTER), repeat=3):
            yield ["t3", ALL, "corr", None, list(enumerate(o)), [], "get", [], 9]
            yield ["t3", ALL, "null", None, list(enumerate(o)), [], "get", [], 9]
        for o in itertools.product((OK, BEFORE), repeat=4):
            yield ["t4", ALL, "corr", None, list(enumerate(o)), [], "rev", [], 9]
        for o in itertools.product((OK, AFTER), repeat=2):
            yield ["nulls", ALL, "", None, list(enumerate(o)) , [], "get", [], 9]
        for late in itertools.chain.from_iterable(itertools.combinations(range(3), k) for k in range(1, 4)):
            for o in itertools.product((OK, AFTER), repeat=3):
                yield ["t3", ALL, "", None, list(enumerate(o)), list(late), "get", [], 9]

    def c_col():
        # t1 needs 3 workers: cpus 9 and one column would give a pool of 1; use dup's first column through the second pool
        # tasks after the cleaning tasks: analyses of each column
        for k in range(3, 3 + 18 if big else 3 + 12):
            for o in (REFUSE, BEFORE, AFTER):
                for late in ([], [k]):
                    yield ["t3", ALL, "", None, [(k, o)], late, "get", [], 9]
        rng = range(3, 9)
        for o in itertools.product((OK, AFTER) if not big else (OK, BEFORE, AFTER), repeat=6):
            yield ["t3", ALL, "", None, list(zip(rng, o)), [], "get", [], 9]
        for o in itertools.product((OK, REFUSE), repeat=6):
            yield ["t3", ALL, "", None, list(zip(rng, o)), [], "rev", [], 9]
        for late in itertools.combinations(range(3, 21), 2):
            if big or late[1] - late[0] < 3:
                yield ["t3", ALL, "", None, [], list(late), "get", [], 9]
        for d in (REFUSE, BEFORE, AFTER):
            for order in ("get", "rev", "now"):
                for n in TABLES:
                    for c in CFG:
                        if not (n == "nulls" and c == "null"):
                            yield [n, ALL, c if n in ("t3", "t4") else "", None, [(-1, d)], [], order, [], 9]

    def c_two():
        n = 42
        P = list(itertools.permutations(range(3)))
        for perm in P:
            for o in itertools.product((OK, BEFORE), repeat=3):
                # the second update's cleaning tasks follow the first's 3 + 18 tasks
                yield ["t3", TWO, "", perm, [(21 + i, x) for i, x in enumerate(o)], [], "get", [], 9]
                if big or perm == P[-1]:
                    yield ["t3", TWO, "corr", perm, [(21 + i, x) for i, x in enumerate(o)], [], "rev", [], 9]
        for k in range(n):
            for o in (BEFORE, AFTER, REFUSE) if big else (AFTER,):
                yield ["t3", TWO, "", None, [(k, o)], [], "get", [], 9]
        step = 1 if big else 5
        for i in range(0, n):
            for j in range(i + 1, n, step):
                yield ["t3", TWO, "", None, [(i, BEFORE), (j, REFUSE)], [], "rev", [], 9]

    def c_pools():
        for name in ("t3", "dup", "t4"):
            for splits in (ALL, TWO, [(0, 1), (1, 1), (1, 4)]):
                for cpus in (1, 2, 3, 4, 9):
                    for pools in itertools.chain.from_iterable(itertools.combinations(range(4), k) for k in range(3)):
                        if big or splits is TWO or len(pools) < 2:
                            if cpus < 4 and (pools or name == "dup"):
                                continue
                            yield [name, splits, "", None, [], [], "get", list(pools), cpus]

    def c_wide():
        for ncol in (20, 21, 22):
            for order in ("get", "rev"):
                for empty in (0, 1):
                    yield [ncol, [], order, empty]
        for i in range(21):
            for o in (REFUSE, BEFORE, AFTER) if big else (BEFORE if i % 2 else AFTER,):
                yield [21, [(i, o)], "get", 0]
        for i, j in itertools.combinations(range(21), 2):
            if big or (i + j) % 10 == 0:
                yield [21, [(i, BEFORE), (j, BEFORE)], "rev", 0]

    def c_real():
        for name in ("t3", "dup", "t4"):
            for splits in (ALL, TWO):
                for cfg in CFG if big and name == "t3" else ("",):
                    yield ["small", name, splits, cfg]
        yield ["wide", "", [], ""]

    return [
        Space("clean", "every assignment of {ok, refused, failed, result lost} to the cleaning task of each of 3 columns, "
              "tasks run in order of collection or reversed, pickled at submission or late", c_clean, outcomes),
        Space("columns", "every single failure of an analysis task, every subset of failing analysis tasks of a column, "
              "every table with all tasks failing", c_col, outcomes),
        Space("two-updates", "single and pairs of failures anywhere in a history of 2 updates; columns of the second update "
              "in every order", c_two, outcomes),
        Space("pools", "worker counts 1-9 and every set of up to 2 pools that cannot be started, 1-3 updates", c_pools, pools_run),
        Space("wide", "20-22 columns (automatic switch), failing subsets of up to 2 columns, empty update", c_wide, wide),
        Space("real", "the same histories on real worker processes", c_real, real),
    ]


def pools_run(case, ctx):
    name, splits, cfg, perm, out, late, order, pools, cpus = case
    w = World(lambda i: OK, frozenset(), order, set(pools), cpus)
    splits = tuple(map(tuple, splits))
    want, _ = sequential(name, splits, cfg, None)
    p = None
    with schedule(w):
        for a, b in splits:
            df = part(name, a, b)
            if p is None:
                p = fresh(df, {**CFG[cfg], **ON})
            else:
                p.update_profile(df)
            ctx.step()
    d = diff_path(norm(p), want)
    ctx.check(d is None, lambda: f"parallel differs from sequential: {d}")
    ctx.state((name, len(splits), w.created, w.n))
