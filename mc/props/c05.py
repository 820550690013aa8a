"""C05: unique / duplicate row accounting against a set of rows."""
import itertools

from mc.engine import Space, Violation, compositions, words
from mc.sut import ONLY_PRIMITIVE, fresh, frame

ASSUMPTIONS = [
    "cells are text or None, as the readers deliver them",
    "approximate method: 'accurate for small tables' is taken as within 1 up to 8 distinct rows and within 3% for the "
    "larger tables (default register count 2^15)",
]
ST = {**ONLY_PRIMITIVE, "structured_options.row_statistics.is_enabled": True,
      "structured_options.text.is_enabled": False, "structured_options.float.is_enabled": False}
R2 = [("1", "2"), ("2", "1"), ("12", ""), ("", "12"), ("1", None), (None, "1")]


def mk(method):
    st = dict(ST)
    if method == "hll":
        st["structured_options.row_statistics.unique_count.hashing_method"] = "hll"
    return st


def table(rows, names, order=None, dup=False):
    order = list(order) if order is not None else list(range(len(names)))
    return frame([(names[j], [r[j] for r in rows]) for j in order])


def check(p, rows, method, where, ctx, tol=None):
    g = p.report({"output_format": "serializable"})["global_stats"]
    n, u = len(rows), len(set(rows))
    if g["row_count"] != n:
        raise Violation(f"{where}: row_count {g['row_count']}, fed {n}")
    got_u = g["unique_row_ratio"] * n if n else 0
    got_d = g["duplicate_row_count"]
    if method == "full":
        if abs(got_u - u) > 1e-9 or got_d != n - u:
            raise Violation(f"{where}: unique {got_u}, duplicates {got_d}; the rows have {u} unique, {n - u} duplicates")
    else:
        t = tol if tol is not None else 1
        if abs(got_u - u) > t or abs(got_d - (n - u)) > t:
            raise Violation(f"{where}: estimates unique {got_u} duplicates {got_d}; true {u}, {n - u}")
    ctx.state((method, rows if n < 50 else n, round(got_u, 6), got_d))
    return round(got_u, 9), got_d


def build(rows, split, how, method, names, orders, ctx, tol=None):
    """fold the pieces: how[i] in 'u' (update) / 'm' (merge right) / 'M' (merge left)"""
    k = 0
    p = None
    seen = []
    for i, n in enumerate(split):
        part = rows[k : k + n]
        k += n
        if not part:
            continue
        df = table(part, names, orders[i] if orders else None)
        if p is None:
            p = fresh(df, mk(method))
        elif how[i - 1] == "u":
            p.update_profile(df)
        else:
            q = fresh(df, mk(method))
            a = p
            p = p + q if how[i - 1] == "m" else q + p
            check(a, seen, method, f"left operand after merging piece {i + 1}", ctx, tol)
            check(q, part, method, f"right operand after merging piece {i + 1}", ctx, tol)
        ctx.step()
        seen += part
        check(p, seen, method, f"after piece {i + 1}", ctx, tol)
    return p


def run(case, ctx):
    rows = [tuple(r) for r in case["rows"]]
    names = case.get("names") or ["a", "b", "c"][: len(rows[0])]
    build(rows, case["split"], case["how"], case["method"], names, case.get("orders"), ctx)


def run_hll(case, ctx):
    """estimates depend only on the set of rows."""
    rows = [tuple(r) for r in case["rows"]]
    names = ["a", "b"]
    one = fresh(table(sorted(set(rows), key=str), names), mk("hll"))
    base = round(one.report()["global_stats"]["unique_row_ratio"] * len(set(rows)), 9)
    p = build(rows, case["split"], case["how"], "hll", names, None, ctx)
    got = round(p.report()["global_stats"]["unique_row_ratio"] * len(rows), 9)
    if got != base:
        raise Violation(f"estimate {got} for the fed rows but {base} for their set fed at once")


def run_big(case, ctx):
    n, rep, method = case["n"], case["rep"], case["method"]
    rows = [(f"r{i % rep}", f"{i % rep * 7 % 11}") for i in range(n)]
    ests = []
    for split, how in case["ways"]:
        p = build(rows, split, how, method, ["a", "b"], None, ctx, tol=max(1, 0.03 * min(n, rep)))
        ests.append(p.report()["global_stats"]["unique_row_ratio"])
    if len(set(ests)) != 1:
        raise Violation(f"different unique ratios for different splits: {ests}")


def hist(alpha, maxlen, hows, method, minlen=1, maxparts=3):
    def gen():
        for w in words(alpha, maxlen, minlen):
            for s in compositions(len(w), min(maxparts, len(w))):
                if any(x == 0 for x in s):
                    continue
                for h in itertools.product(hows, repeat=len(s) - 1):
                    yield dict(rows=w, split=s, how=h, method=method)

    return gen


def orders():
    for w in words(R2[:4], 3, 2):
        for o in ([0, 1], [1, 0]):
            for m in ("full", "hll"):
                for h in "um":
                    yield dict(rows=w, split=[1, len(w) - 1], how=[h], orders=[[0, 1], o], method=m)
    R3 = [("1", "2", "3"), ("3", "2", "1"), ("2", "3", "1")]
    for w in words(R3, 2, 2):
        for o in itertools.permutations(range(3)):
            for m in ("full", "hll"):
                for h in "um":
                    yield dict(rows=w, split=[1, 1], how=[h], orders=[[0, 1, 2], o], method=m)
    for w in words(R2[:4], 2, 1):  # repeated column names
        for m in ("full", "hll"):
            yield dict(rows=w, split=[len(w)], how=[], names=["a", "a"], method=m)
            if len(w) == 2:
                yield dict(rows=w, split=[1, 1], how=["u"], names=["a", "a"], method=m)
                yield dict(rows=w, split=[1, 1], how=["m"], names=["a", "a"], method=m)


def big(th):
    def gen():
        for n in (2047, 2048, 2049, 4096, 4097) + ((6143, 6145, 8192) if th else ()):
            for rep in (n, n - 1, 2048, 7):
                for m in ("full", "hll"):
                    yield dict(n=n, rep=rep, method=m,
                               ways=[[[n], ""], [[2048, n - 2048] if n > 2048 else [5, n - 5], "u"],
                                     [[1, n - 1], "m"]])

    return gen


def spaces(tier):
    th = tier == "thorough"
    return [
        Space("full", "every row sequence up to length 3 over 5 (thorough 6) colliding rows, every split, update/merge folds",
              hist(R2 if th else R2[:5], 3, "umM" if th else "um", "full"), run),
        Space("full4", "every row sequence of length 4 over 3 rows, every split into updates/merges",
              hist(R2[:3] if not th else R2[:4], 4, "um", "full", 4, 4 if th else 2), run),
        Space("hll", "approximate counting: every row sequence up to length 3 over 4 rows, every split, updates/merges",
              hist(R2[:3] if not th else R2, 3, "um", "hll"), run_hll),
        Space("orders", "columns arriving reordered, repeated column names", orders, run),
        Space("big", "tables around the 2048-row hashing batch, exact and approximate", big(th), run_big),
    ]
