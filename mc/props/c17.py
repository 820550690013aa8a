"""C17: sampling never miscounts."""
import contextlib
import itertools
import pickle
from unittest import mock

from mc.engine import Space
from mc.sut import clean, dp, frame, fresh, np, opts, pd

ASSUMPTIONS = [
    "the random generator is replaced by one whose draws are enumerated: every shuffle of the rows is explored; code that "
    "draws otherwise falls back to a seeded generator and is judged by the same conditions",
    "row i of a column holds 2**i, so that the reported sum and categories reveal exactly which rows were used",
    "row_count counts all rows given and samples_used the largest sample of a column (as documented); ratios of rows with "
    "nulls under sampling are not part of this property",
]


class Draws(np.random.Generator):
    """Generator answering from a list of decisions"""

    def __new__(cls, *a, **k):
        return super().__new__(cls, np.random.PCG64(0))

    def __init__(self, decisions):
        super().__init__(np.random.PCG64(0))
        self.d = list(decisions)
        self.i = 0

    def _next(self, width):
        if width <= 1:
            if self.i < len(self.d):
                self.i += 1
            return 0
        v = self.d[self.i % len(self.d)] % width if self.d else 0
        self.i += 1
        return int(v)

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None:
            low, high = 0, low
        lo, hi = np.broadcast_arrays(np.asarray(low), np.asarray(high) + (1 if endpoint else 0))
        if size is not None:
            lo, hi = np.broadcast_to(lo, size), np.broadcast_to(hi, size)
        out = [int(a) + self._next(int(b) - int(a)) for a, b in zip(lo.ravel(), hi.ravel())]
        r = np.array(out, dtype=dtype).reshape(lo.shape)
        return r if lo.shape else r[()]

    def permutation(self, x, axis=0):
        a = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
        self.shuffle(a)
        return np.array(a)

    def shuffle(self, a, axis=0):
        n = len(a)
        for i in range(n):
            j = i + self._next(n - i)
            a[i], a[j] = a[j], a[i]

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        b = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if size is None:
            return b[self._next(len(b))]
        size = int(np.prod(size))
        if replace:
            return np.array([b[self._next(len(b))] for _ in range(size)])
        self.shuffle(b)
        return np.array(b[:size])


@contextlib.contextmanager
def draws(decisions):
    made = []

    def mk(*a, **k):
        g = Draws(decisions)
        made.append(g)
        return g

    with mock.patch.object(np.random, "default_rng", mk):
        yield made


LIGHT = {"structured_options." + k: False for k in (
    "datetime.is_enabled", "chi2_homogeneity.is_enabled", "order.is_enabled", "float.is_enabled", "text.is_enabled")}


def bits(x):
    x = int(x)
    return {i for i in range(x.bit_length()) if x >> i & 1}


def used(col, ctx):
    """rows of the column the report is based on (global numbers), its non-null part, the sample size"""
    st = col["statistics"]
    null = set()
    for ids in (st["null_types_index"] or {}).values():
        ctx.check(not (null & set(ids)), "a null row is listed twice")
        null |= set(ids)
    good = set()
    if st["sample_size"] - st["null_count"] > 0:
        good = bits(st["sum"])
        cc = st["categorical_count"]
        ctx.check(sorted(cc) == sorted(str(2 ** i) for i in good) and set(cc.values()) == {1},
                  lambda: f"a row was used more than once: {cc}")
    ctx.eq(len(null), st["null_count"], "null count vs null positions")
    ctx.check(not (null & good), "row both null and not")
    ctx.eq(st["sample_size"], len(null) + len(good), "sample size vs rows used")
    return null | good, good


def judge(ctx, col, lo, n, s, m, nonnull, before):
    """one update of rows lo..lo+n-1 asked for s rows and m non-null; returns the rows used of it"""
    rows, good = used(col, ctx)
    new = rows - before
    ctx.check(before <= rows, "rows of an earlier update vanished")
    K = len(new)
    ctx.check(all(lo <= r < lo + n for r in new), lambda: f"rows {new} outside the data")
    g = good & new
    ctx.eq(g, {r for r in new if r in nonnull}, "non-null rows")
    s = min(s, n)
    if m in (None, 0):
        ctx.check(K == s, lambda: f"{K} rows used, {s} requested")
    else:
        ctx.check(K == n or K % s == 0 and K > 0, lambda: f"{K} rows used with chunks of {s} of {n} rows")
        ctx.check(len(g) >= m or K == n, lambda: f"only {len(g)} of {m} non-null rows requested were used although rows remain")
        ctx.check(K <= s or len(g) - min(s, K - s * ((K - 1) // s)) < m, lambda: f"{K} rows used: more than needed for {m} non-null rows")
    return new, g


_empty = {}


def empty(kw):
    key = repr(kw)
    if key not in _empty:
        _empty[key] = pickle.dumps(dp.Profiler(None, options=opts(LIGHT), profiler_type="structured", **kw))
    return pickle.loads(_empty[key])


def run_hist(case, ctx):
    n, hist, dec = case["n"], case["h"], case["d"]
    before = [set() for _ in case["p"]]
    p = None
    with draws(dec) as made:
        for k, (s, m, how) in enumerate(hist):
            lo = k * n
            cols, non = [], []
            for j, pat in enumerate(case["p"]):
                cols.append((f"c{j}", ["" if pat[i] == "-" else str(2 ** (lo + i)) for i in range(n)]))
                non.append({lo + i for i in range(n) if pat[i] != "-"})
            df = frame(cols, index=range(lo, lo + n))
            if p is None:
                kw = {}
                if how == "ctor":
                    kw = {"samples_per_update": s, "min_true_samples": m or 0}
                p = empty(kw)
                ctor = (s, m) if how == "ctor" else (None, None)
            if how == "call":
                p.update_profile(df, sample_size=s, min_true_samples=m)
                s_eff, m_eff = s or ctor[0] or n, m or ctor[1]
            else:
                p.update_profile(df)
                s_eff, m_eff = ctor[0] or n, ctor[1]
            ctx.step()
            r = p.report()
            got = []
            for j in range(len(cols)):
                new, g = judge(ctx, r["data_stats"][j], lo, n, s_eff, m_eff, non[j], before[j])
                got.append(new)
                before[j] |= new
            for a, b in itertools.combinations(range(len(cols)), 2):
                A, B = got[a], got[b]
                ctx.check(A <= B or B <= A, lambda: f"columns sampled different rows {A} {B}")
                if not m_eff:
                    ctx.check(A == B, lambda: f"columns sampled different rows {A} {B}")
                for X, Y, y in ((A, B, b), (B, A, a)):
                    if len(X) < len(Y):
                        ctx.check(len(non[y] & X) < m_eff, lambda: f"column {y} used {Y} although {X} has {m_eff} non-null values")
            ctx.eq(r["global_stats"]["samples_used"], max(len(b) for b in before), "samples_used")
            ctx.eq(r["global_stats"]["row_count"], (k + 1) * n, "row_count")
            ctx.state((n, k, s_eff, m_eff, tuple(sorted(b) for b in map(tuple, got))))
    return made, before


def one(case, ctx):
    run_hist(case, ctx)


def every(case, ctx):
    """over all shuffles, every row set of the requested size is used"""
    n, s = case
    seen, consulted = set(), 0
    for dec in itertools.product(*[range(n - i) for i in range(n)]):
        made, before = run_hist({"n": n, "h": [(s, None, "call")], "d": dec, "p": ["+" * n]}, ctx)
        consulted += any(g.i for g in made)
        seen.add(frozenset(before[0]))
    if consulted:
        ctx.eq(len(seen), len(list(itertools.combinations(range(n), s))), f"distinct samples of {s} of {n} rows over all shuffles")


def sizes(case, ctx):
    n, = case
    df = frame([("v", [str(i) for i in range(n)])])
    p = fresh(df, {**LIGHT, "structured_options.category.stop_condition_unique_value_ratio": None,
                   "structured_options.int.histogram_and_quantiles.is_enabled": False, "structured_options.int.median.is_enabled": False,
                   "structured_options.int.mode.is_enabled": False, "structured_options.int.median_abs_deviation.is_enabled": False})
    r = p.report()
    st = r["data_stats"][0]["statistics"]
    want = n if n <= 5000 else max(int(0.2 * n), 5000)
    ctx.eq(st["sample_size"], want, "sample size")
    ctx.eq(r["global_stats"]["samples_used"], want, "samples_used")
    ctx.eq(r["global_stats"]["row_count"], n, "row_count")
    ctx.eq(st["unique_count"], want, "distinct rows used")
    if want == n:
        ctx.eq(st["sum"], n * (n - 1) / 2, "sum of all rows")
    else:
        ctx.check(0 <= st["min"] < st["max"] < n, "values outside the data")
    ctx.step()
    ctx.state((n, want))


ALPHA = "abcdefghij"


def text(case, ctx):
    n, hist, pat, dec = case
    o = dp.ProfilerOptions()
    o.set({"*.data_labeler.is_enabled": False})
    p = None
    seen_used, seen_good = 0, set()
    with draws(dec):
        for k, (s, m, how) in enumerate(hist):
            lines = ["" if pat[i] == "-" else ALPHA[k * n + i] for i in range(n)]
            non = {ALPHA[k * n + i] for i in range(n) if pat[i] != "-"}
            ser = pd.Series(lines, dtype=object)
            if p is None:
                kw = {"samples_per_update": s, "min_true_samples": m or 0} if how == "ctor" else {}
                p = dp.Profiler(None, options=o, profiler_type="unstructured", **kw)
                ctor = (s, m) if how == "ctor" else (None, None)
            if how == "call":
                p.update_profile(ser, sample_size=s, min_true_samples=m)
                s_eff, m_eff = min(s or ctor[0] or n, n), m or ctor[1]
            else:
                p.update_profile(ser)
                s_eff, m_eff = min(ctor[0] or n, n), ctor[1]
            ctx.step()
            r = p.report()
            st = r["data_stats"]["statistics"]
            good = set(st["vocab"] or [])
            K = r["global_stats"]["samples_used"] - seen_used
            g = good - seen_good
            ctx.check(seen_good <= good and g <= non, "vocabulary outside the data")
            ctx.check(all(v == 1 for v in (st["vocab_count"] or {}).values()), "a line was used twice")
            empty = r["global_stats"]["empty_line_count"]
            ctx.eq(empty, seen_used + K - len(good), "empty lines")
            if not m_eff:
                ctx.eq(K, s_eff, "lines used")
            else:
                ctx.check(K == n or K % s_eff == 0, lambda: f"{K} lines used with chunks of {s_eff}")
                ctx.check(len(g) >= m_eff or K == n, lambda: f"only {len(g)} of {m_eff} lines requested were used")
                ctx.check(K <= s_eff or len(g) - s_eff < m_eff, lambda: f"{K} lines used: more than needed")
            if K == n:
                ctx.eq(g, non, "all lines used")
            seen_used += K
            seen_good = good
            ctx.state((n, k, s_eff, m_eff, tuple(sorted(g))))


def column(case, ctx):
    n, s, m, pat, dec = case
    ser = pd.Series(["" if pat[i] == "-" else str(2 ** i) for i in range(n)], dtype=object, name="v")
    from dataprofiler.profilers.profile_builder import StructuredColProfiler
    with draws(dec):
        c = StructuredColProfiler(ser, sample_size=s, min_true_samples=m, options=opts(LIGHT).structured_options)
        r = c.report()
    ctx.step()
    judge(ctx, r, 0, n, s or n, m, {i for i in range(n) if pat[i] != "-"}, set())
    ctx.state((n, s, m, pat))


def spaces(tier):
    big = tier == "thorough"

    def fy(n):
        return itertools.product(*[range(n - i) for i in range(n)])

    def pats(n):
        return ["".join(x) for x in itertools.product("+-", repeat=n)]

    def c_one():
        for n in (1, 2, 3):
            for dec in fy(n):
                for pat in pats(n):
                    for s in range(1, n + 2):
                        for m in [None] + list(range(1, n + 1)):
                            yield {"n": n, "h": [(s, m, "call")], "d": dec, "p": ["+" * n, pat]}
        n = 4
        for dec in fy(n):
            for pat in pats(n):
                if not big and pat.count("-") in (0, 4):
                    continue
                for s in (1, 2, 3):
                    for m in (1, 2, 3):
                        if big or (s, m) != (1, 1):
                            yield {"n": n, "h": [(s, m, "call")], "d": dec, "p": [pat, "+" * n, "-" + pat[:3]]}
        if big:
            n = 5
            for dec in fy(n):
                for pat in pats(n):
                    for s, m in ((2, 2), (2, 3), (3, 1), (3, 4)):
                        yield {"n": n, "h": [(s, m, "call")], "d": dec, "p": [pat, pat[::-1]]}

    def c_hist():
        n = 3
        H = [(None, None, "call"), (1, None, "call"), (2, None, "call"), (1, 2, "call"), (2, 2, "call"), (2, 1, "call"), (None, 1, "call")]
        for a, b in itertools.product(H, repeat=2):
            for dec in fy(n):
                for pat in ("+-+", "--+", "+++") if big else ("+-+", "--+"):
                    yield {"n": n, "h": [a, b], "d": dec, "p": ["+" * n, pat]}
        for s, m in itertools.product((1, 2, 4), (0, 1, 2)):
            for b in [(None, None, "ctor"), (3, None, "call"), (1, 2, "call")]:
                for dec in fy(n):
                    yield {"n": n, "h": [(s, m, "ctor"), b], "d": dec, "p": ["-++", "+-+"]}

    def c_every():
        for n in range(1, 5 + big):
            for s in range(1, n + 1):
                yield [n, s]

    def c_text():
        for n in range(1, 5 + big):
            for dec in fy(n):
                for pat in pats(n):
                    for s in range(1, n + 2):
                        for m in [None] + list(range(1, n + 1)):
                            yield [n, [(s, m, "call")], pat, dec]
        for a, b in itertools.product([(None, None, "call"), (1, None, "call"), (2, 1, "call"), (1, 2, "call"), (2, 2, "ctor")], repeat=2):
            for dec in fy(3):
                for pat in pats(3):
                    yield [3, [a, b], pat, dec]

    def c_col():
        for n in (1, 2, 3, 4):
            for dec in fy(n):
                for pat in pats(n):
                    for s in (None, 1, 2, 3):
                        for m in (0, 1, 2):
                            if big or n < 4 or (s in (2, 3) and m == 2):
                                yield [n, s, m, pat, dec]

    return [
        Space("one", f"every null pattern, shuffle, sample size and minimum of non-null values for up to {5 if big else 4} rows", c_one, one),
        Space("updates", "histories of 2 updates of 3 rows with every pair of 7 sampling arguments, every shuffle; constructor "
              "arguments and their override", c_hist, one),
        Space("every-row", "over all shuffles every set of rows of the requested size is drawn", c_every, every),
        Space("default-size", "default sample sizes around 5000 rows and 20 %",
              lambda: ([n] for n in (1, 4999, 5000, 5001, 24999, 25000, 25001, 25004, 25005, 26000)), sizes),
        Space("text", f"unstructured: every pattern of empty lines, shuffle, sample size and minimum for up to {4 + big} lines; pairs of updates",
              c_text, text),
        Space("column", "a single column profile: every null pattern, shuffle, sample size and minimum", c_col, column),
    ]
