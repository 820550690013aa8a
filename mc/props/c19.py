"""C19: correlation, chi-square and null-replication matrices equal those of all rows, however they were fed."""
import itertools
import math

from mc.engine import Space, compositions, same, short
from mc.sut import clean, dp, frame, fresh, np

ASSUMPTIONS = [
    "data labeler off; correlation over several batches is exact when each row is complete or all null (all-null rows "
    "are left out); rows with some nulls are imputed with the mean of their batch by design and checked for one batch",
    "a column that is constant, has one row or is not numeric has no correlation (NaN)",
    "chi-square p-values use scipy's chi2 survival function as the trusted kernel; a column pair with fewer than two "
    "categories has none",
    "null replication is checked for numeric columns (other columns only for the alignment of the lists)",
]
S = "structured_options."
CORR = {S + "correlation.is_enabled": True, S + "category.is_enabled": False, S + "chi2_homogeneity.is_enabled": False,
        S + "order.is_enabled": False, S + "datetime.is_enabled": False}
CHI = {S + "order.is_enabled": False, S + "datetime.is_enabled": False, S + "float.is_enabled": False,
       S + "int.is_enabled": False}
REPL = {S + "null_replication_metrics.is_enabled": True, S + "category.is_enabled": False,
        S + "chi2_homogeneity.is_enabled": False, S + "order.is_enabled": False, S + "datetime.is_enabled": False}


def table(rows, names, perm, start):
    cols = [(names[j], ["" if r[j] is None else str(r[j]) for r in rows]) for j in perm]
    return frame(cols, index=list(range(start, start + len(rows))))


def build(rows, split, mode, names, perms, cfg):
    """feed rows split into batches; mode 'u': updates, 'l': left merges, 'r': right-nested merges, 'um': update then merges"""
    bs, at = [], 0
    for k in split:
        bs.append((rows[at:at + k], at))
        at += k

    def mk(i):
        b, at = bs[i]
        return fresh(table(b, names, perms[i % len(perms)], at), cfg)

    def up(p, i):
        b, at = bs[i]
        p.update_profile(table(b, names, perms[i % len(perms)], at))
        return p

    n = len(bs)
    if mode == "u":
        p = mk(0)
        for i in range(1, n):
            up(p, i)
    elif mode == "l":
        p = mk(0)
        for i in range(1, n):
            p = p + mk(i)
    elif mode == "r":
        p = mk(n - 1)
        for i in range(n - 2, -1, -1):
            p = mk(i) + p
    else:  # merge the first two, update with the rest
        p = mk(0)
        if n > 1:
            p = p + mk(1)
        for i in range(2, n):
            up(p, i)
    return p


def pearson(x, y):
    n = len(x)
    if n < 2:
        return math.nan
    mx, my = sum(x) / n, sum(y) / n
    sxy = sum((a - mx) * (b - my) for a, b in zip(x, y))
    sxx, syy = sum((a - mx) ** 2 for a in x), sum((b - my) ** 2 for b in y)
    if sxx == 0 or syy == 0:
        return math.nan
    return sxy / math.sqrt(sxx * syy)


def isnum(v):
    return isinstance(v, (int, float))


def corr(case, ctx):
    rows, split, mode, perms, opt = case
    rows = [tuple(r) for r in rows]
    k = len(rows[0])
    names = [f"c{i}" for i in range(k)]
    cfg = dict(CORR)
    if opt == "sel":
        cfg[S + "correlation.columns"] = ["c0", "c2"]
    elif opt == "nobias":
        cfg["*.bias_correction.is_enabled"] = False
    elif opt == "repl":
        cfg[S + "null_replication_metrics.is_enabled"] = True
    p = build(rows, split, mode, names, perms, cfg)
    ctx.step(len(split))
    rep = p.report()
    got = clean(rep["global_stats"]["correlation_matrix"])
    order = [c["column_name"] for c in rep["data_stats"]]
    ids = [names.index(n) for n in order]
    use = [r for r in rows if any(v is not None for v in r)]
    if opt == "impute":  # nulls take the mean of the column in their batch
        use, at = [], 0
        for n in split:
            part = [r for r in rows[at:at + n] if any(v is not None for v in r)]
            at += n
            means = [0] * k
            for j in range(k):
                v = [r[j] for r in part if r[j] is not None]
                means[j] = sum(v) / len(v) if v else None
            use += [tuple(means[j] if r[j] is None else r[j] for j in range(k)) for r in part]
    numeric = [j for j in range(k) if all(isnum(r[j]) for r in use) and use]
    if opt == "sel":
        numeric = [j for j in numeric if j in (0, 2)]
    if not use:
        ctx.check(got is None or all(v != v for r in got for v in r), lambda: f"no data, correlation {got}")
        ctx.state("none")
        return
    want = [[pearson([r[a] for r in use], [r[b] for r in use]) if a in numeric and b in numeric else math.nan
             for b in ids] for a in ids]
    ctx.check(got is not None, "no correlation matrix")
    ok = len(got) == k and all(same(got[i][j], want[i][j], 1e-6, 1e-7) for i in range(k) for j in range(k))
    ctx.check(ok, lambda: f"columns {order}: correlation {short(got)} expected {short(want)}")
    ctx.state(repr(want))


def chi2(case, ctx):
    from scipy.stats import chi2 as C2

    rows, split, mode, perms = case
    k = len(rows[0])
    names = [f"c{i}" for i in range(k)]
    p = build([tuple(r) for r in rows], split, mode, names, perms, CHI)
    ctx.step(len(split))
    rep = p.report()
    got = clean(rep["global_stats"]["chi2_matrix"])
    ids = [names.index(c["column_name"]) for c in rep["data_stats"]]
    vals = [[r[j] for r in rows if r[j] is not None] for j in range(k)]
    cat = [bool(c["categorical"]) for c in rep["data_stats"]]
    want = [[math.nan] * k for _ in range(k)]
    for x, a in enumerate(ids):
        for y, b in enumerate(ids):
            if not (cat[x] and cat[y]):
                continue
            if x == y:
                want[x][y] = 1
                continue
            n1, n2 = len(vals[a]), len(vals[b])
            cs = sorted(set(vals[a]) | set(vals[b]))
            if len(cs) < 2:
                continue
            if not n1 or not n2:
                want[x][y] = 0
                continue
            st = 0
            for c in cs:
                f1, f2 = vals[a].count(c), vals[b].count(c)
                e1, e2 = n1 * (f1 + f2) / (n1 + n2), n2 * (f1 + f2) / (n1 + n2)
                st += (f1 - e1) ** 2 / e1 + (f2 - e2) ** 2 / e2
            want[x][y] = float(C2.sf(st, len(cs) - 1))
    ctx.check(got is not None and len(got) == k, lambda: f"chi2 matrix {got}")
    for i in range(k):
        for j in range(k):
            ctx.check(same(got[i][j], want[i][j], 1e-6, 1e-8), lambda: f"chi2[{i}][{j}] = {got[i][j]} expected {want[i][j]}")
    ctx.check(all(not v or cat[i] for i, v in enumerate(map(len, (vals[a] for a in ids)))), "small column not categorical")
    ctx.state(repr(want))


def repl(case, ctx):
    rows, split, mode, perms, extra = case
    rows = [tuple(r) for r in rows]
    k = len(rows[0])
    names = [f"c{i}" for i in range(k)]
    cfg = dict(REPL)
    if extra == "corr":
        cfg[S + "correlation.is_enabled"] = True
    p = build(rows, split, mode, names, perms, cfg)
    ctx.step(len(split))
    rep = p.report()
    ids = [names.index(c["column_name"]) for c in rep["data_stats"]]
    text = {j for j in range(k) if any(isinstance(r[j], str) for r in rows)}
    n = len(rows)
    for x, a in enumerate(ids):
        got = clean(rep["data_stats"][x].get("null_replication_metrics"))
        nulls = [r for r in rows if r[a] is None]
        if not nulls:
            ctx.check(got is None, lambda: f"column {names[a]} has no nulls but metrics {got}")
            continue
        ctx.check(got is not None, lambda: f"column {names[a]}: no null replication metrics")
        nn = [r for r in rows if r[a] is not None]
        others = [b for b in ids if b != a]
        ctx.eq(got["class_prior"], [len(nn) / n, len(nulls) / n], f"{names[a]} class_prior")
        for y, b in enumerate(others):
            if b in text:
                continue
            has = any(r[b] is not None for r in rows)
            s1 = sum(r[b] for r in nulls if r[b] is not None)
            s0 = sum(r[b] for r in nn if r[b] is not None) if has and nn else math.nan
            ctx.eq(got["class_sum"][1][y], s1, f"{names[a]} sum of {names[b]} over its null rows")
            ctx.eq(got["class_mean"][1][y], s1 / len(nulls), f"{names[a]} mean of {names[b]} over its null rows")
            ctx.eq(got["class_sum"][0][y], s0, f"{names[a]} sum of {names[b]} over its other rows")
            ctx.eq(got["class_mean"][0][y], s0 / len(nn) if nn else math.nan, f"{names[a]} mean of {names[b]} over its other rows")
        ctx.eq([len(v) for v in got["class_sum"] + got["class_mean"]], [k - 1] * 4, "list lengths")
    ctx.state((rows, len(split)))


ID3, ROT3, SW3 = [0, 1, 2], [1, 2, 0], [1, 0, 2]


def spaces(tier):
    big = tier == "thorough"
    A = [(0, 1), (1, 0), (2, 5), (-1.5, 1)]
    NUL = (None, None)

    def splits(n, parts):
        return [s for s in compositions(n, parts) if all(s)]

    def c_corr2():
        for n in range(1, 4 + big):
            for rows in itertools.product(A + [NUL], repeat=n):
                for sp in splits(n, 3 + big):
                    for mode in ("u", "l", "r", "um") if len(sp) > 2 else ("u", "l") if len(sp) == 2 else ("u",):
                        if not big and n == 3 and len(sp) == 3 and mode in ("r",) and NUL in rows:
                            continue
                        yield [rows, sp, mode, [[0, 1]], ""]

    T3 = [(1, 2.5, 4, "u"), (2, 0, 1, "v"), (5, 1.5, 0, "u"), (3, 2, 2, "w"), (4, 4, -3, "v")]
    CONST = [(1, 2, 4, "u"), (1, 0, 1, "v"), (1, 1.5, 0, "u"), (3, 1.5, 2, "w"), (0, 1.5, 5, "w")]
    ZERO = [(0, 0, 0, "u"), (0, 1, 0, "v"), (2, 0, 0, "u"), (-2, -1, 0, "u"), (1, 1, 4, "v")]

    def c_corr4():
        for t in (T3, CONST, ZERO):
            for rows in ([t] if not big else itertools.permutations(t)):
                for sp in splits(5, 5 if not big else 4):
                    for mode in ("u", "l", "r", "um") if big or len(sp) < 4 else ("u", "l"):
                        for opt in ("", "nobias", "sel", "repl") if not big else ("",):
                            if opt and len(sp) > 3:
                                continue
                            yield [list(rows), sp, mode, [[0, 1, 2, 3]], opt]

    def c_reorder():
        P = [list(x) for x in itertools.permutations(range(4 if big else 3))]
        for t in (T3, CONST):
            rows = [r[:4 if big else 3] for r in t]
            rows = [tuple(r[:2]) + (r[3],) + ((r[2],) if big else ()) for r in t] if t is CONST else rows
            for a, b in itertools.product(P, repeat=2):
                for sp in [(2, 3), (1, 2, 2), (4, 1)]:
                    for mode in ("u", "l") if len(sp) == 2 else ("um",):
                        yield [rows, sp, mode, [a, b], ""]

    def c_impute():
        for n in (2, 3):
            for rows in itertools.product([(0, 1), (1, None), (None, 3), (2, 5), NUL], repeat=n):
                if all(any(r[j] is not None for r in rows) for j in (0, 1)):
                    yield [rows, (n,), "u", [[0, 1]], "impute"]
        R = [(0, 1), (1, None), (None, 3), (2, 5), (7, 2), NUL]
        for sp in ((2, 2), (2, 3), (3, 2)) + (((3, 3),) if big else ()):
            # the order of the rows within a batch is enumerated by the thorough tier only
            parts = [[t for t in (itertools.permutations(R, m) if big and m < 3 else itertools.combinations(R, m))
                      if all(any(r[j] is not None for r in t) for j in (0, 1))] for m in sp]
            for x, y in itertools.product(*parts):
                for mode in ("u", "l") if big or sp != (2, 2) else ("u",):
                    yield [x + y, sp, mode, [[0, 1]], "impute"]

    C = [("a", "a"), ("a", "b"), ("b", "c"), (None, "a"), ("b", None)]

    def c_chi():
        for n in range(1, 4 + big):
            for rows in itertools.product(C, repeat=n):
                for sp in splits(n, 3):
                    for mode in ("u", "l") if len(sp) == 2 else ("um",) if len(sp) == 3 else ("u",):
                        yield [rows, sp, mode, [[0, 1]]]
        R3 = [("a", "b", "c"), ("b", "b", "c"), ("a", "c", "c"), (None, None, None), ("c", "a", None)]
        for a, b in itertools.product([list(x) for x in itertools.permutations(range(3))], repeat=2):
            for rows in (R3, R3[3:4] + R3[:3], R3[:3] + R3[3:4]):
                for sp in splits(len(rows), 2):
                    for mode in ("u", "l"):
                        yield [rows, sp, mode, [a, b]]

    R = [(1, 2), (None, 3), (4, None), (None, None), (0.5, -1)]

    def c_repl():
        for n in range(1, 4 + big):
            for rows in itertools.product(R, repeat=n):
                for sp in splits(n, 3):
                    for mode in ("u", "l") if len(sp) == 2 else (("um", "l") if big else ("um",)) if len(sp) == 3 else ("u",):
                        yield [rows, sp, mode, [[0, 1]], ""]
        R3 = [(1, 2, "x"), (None, 3, "y"), (4.5, None, None), (None, None, "z"), (2, 5, "x")]
        for rows in (R3, R3[2:] + R3[:2], R3[::-1]):
            for a, b in itertools.product([list(x) for x in itertools.permutations(range(3))], repeat=2):
                for sp in [(2, 3), (3, 1, 1), (1, 4)]:
                    for mode in ("u", "l") if len(sp) == 2 else ("um",):
                        yield [rows, sp, mode, [a, b], ""]
            for sp in splits(5, 3):
                for mode in ("u", "l"):
                    yield [rows, sp, mode, [[0, 1, 2]], "corr"]

    return [
        Space("corr2", f"every sequence of up to {3 + big} rows over 4 rows + an all-null row, every split into updates and "
              "merges (left, right, mixed)", c_corr2, corr),
        Space("corr4", "5-row tables with 3 numeric columns (constant stretches, zeros) and a text column: every split, "
              "bias correction off, selected columns", c_corr4, corr),
        Space("reorder", "columns arriving in every pair of orders, updates and merges", c_reorder, corr),
        Space("impute", "one or two batches (updates, merges) with partly null rows", c_impute, corr),
        Space("chi2", f"every sequence of up to {3 + big} rows over 5 rows with nulls, every split; 3-column tables in every "
              "pair of column orders", c_chi, chi2),
        Space("nullrep", f"every sequence of up to {3 + big} rows over 5 rows with nulls, every split; 3-column tables with "
              "text in every pair of column orders", c_repl, repl),
    ]
