"""C08: order detection, against an explicit model of (piecewise) order."""
import itertools

from mc import ref
from mc.engine import Space, Violation, compositions, short, words
from mc.sut import ONLY_PRIMITIVE, dp, frame, opts, series
from dataprofiler.profilers import OrderColumn

ASSUMPTIONS = ["within one history values are either all numbers or all compared as text"]


# ---- reference model -------------------------------------------------------
def piece(vals, numeric):
    """(order, lo, hi, piecewise) of one batch."""
    if not vals:
        return None
    xs = [float(v) for v in vals] if numeric else list(vals)
    up = any(b > a for a, b in zip(xs, xs[1:]))
    down = any(b < a for a, b in zip(xs, xs[1:]))
    order = "random" if up and down else "ascending" if up else "descending" if down else "constant value"
    return (order, min(xs), max(xs), False)


def overlap(a, b):
    (_, l1, h1, _), (_, l2, h2, _) = a, b
    if (l1, h1) == (l2, h2):
        return True
    if l1 == h1:
        return l2 < l1 < h2
    if l2 == h2:
        return l1 < l2 < h1
    return max(l1, l2) < min(h1, h2)


def envelopes(a, b):
    return a[1] < b[1] and b[2] < a[2]


def merge(a, b):
    if a is None or b is None:
        return b if a is None else a
    lo, hi = min(a[1], b[1]), max(a[2], b[2])
    rnd = ("random", lo, hi, False)
    kinds = {a[0], b[0]}
    if "random" in kinds or kinds == {"ascending", "descending"}:
        return rnd
    if len(kinds) == 1:
        ok = (
            not overlap(a, b)
            or (a[3] and b[3])
            or (a[3] and envelopes(a, b))
            or (b[3] and envelopes(b, a))
            or a[0] == "constant value"
        )
        order = a[0]
    else:
        d = a if a[0] != "constant value" else b
        ok = not overlap(a, b) or d[3]
        order = d[0]
    if not ok:
        return rnd
    return (order, lo, hi, not (order == "constant value" and lo == hi))


def is_num(vals):
    return all(ref.is_float(v) for v in vals)


def run_col(case, ctx):
    """expr: nested ['u', [batches]] leaves (a column fed these batches) joined by ['+', l, r, more_batches]."""
    numeric = case["numeric"]

    def ev(e):
        if e[0] == "u":
            c, m = OrderColumn("a"), None
            rest = e[1]
        else:
            (c1, m1), (c2, m2) = ev(e[1]), ev(e[2])
            c, m = c1 + c2, merge(m1, m2)
            before = (c1.order, c2.order)
            ctx.step()
            chk(c, m, "after merge")
            rest = e[3]
        for b in rest:
            c.update(series(b))
            m = merge(m, piece(b, numeric)) if not (m and m[0] == "random") else m
            ctx.step()
            chk(c, m, f"after update {b}")
        return c, m

    def chk(c, m, where):
        want = m[0] if m else None
        if c.order != want or c.profile["order"] != want:
            raise Violation(f"{where}: order {c.order!r}, expected {want!r}")
        ctx.state((numeric, m))

    ev(case["expr"])


def run_single(case, ctx):
    v = case["vals"]
    c = OrderColumn("a")
    c.update(series(v))
    ctx.step()
    want = piece(v, is_num(v))
    if c.order != want[0]:
        raise Violation(f"order of {v}: {c.order!r}, expected {want[0]!r}")
    ctx.state(tuple(v))


ALPH = [["1", "2", "3"], ["a", "b", "ab"], ["9", "10", "-1"], ["9", "10", "x"], ["0.5", "1e1", "5"]]


def singles(n):
    def gen():
        for al in ALPH:
            for w in words(al, n, 1):
                yield dict(vals=list(w))

    return gen


def updates(alpha, maxlen, depth):
    def gen():
        for al in alpha:
            numeric = is_num(al)
            B = [list(w) for w in words(al, maxlen)]
            for h in itertools.product(B, repeat=depth):
                if any(h):
                    yield dict(numeric=numeric, expr=["u", [list(b) for b in h]])

    return gen


def pieces(al):
    """ascending / descending / constant / random / empty pieces"""
    a = list(al)
    out = [[]]
    out += [[x] for x in a]
    out += [[x, y] for x, y in itertools.permutations(a, 2)]
    return out


def trees(al):
    def gen():
        P = pieces(al)
        for h in itertools.product(P, repeat=3):
            a, b, c = (["u", [list(x)]] for x in h)
            yield dict(numeric=True, expr=["+", ["+", a, b, []], c, []])
            yield dict(numeric=True, expr=["+", a, ["+", b, c, []], []])
            yield dict(numeric=True, expr=["+", a, b, [list(h[2])]])

    return gen


def quads(al):
    def gen():
        P = [p for p in pieces(al) if len(p) == 2 or p in ([], [al[0]], [al[-1]])]
        for h in itertools.product(P, repeat=4):
            a, b, c, d = (["u", [list(x)]] for x in h)
            yield dict(numeric=True, expr=["+", ["+", a, b, []], ["+", c, d, []], []])

    return gen


def run_profile(case, ctx):
    o = opts({**ONLY_PRIMITIVE, "structured_options.order.is_enabled": True})
    m, p = None, None
    numeric = case["numeric"]
    for k, b in enumerate(case["batches"]):
        df = frame({"a": b})
        if case.get("index"):
            df.index = case["index"][k]
        if p is None:
            p = dp.Profiler(df, options=o, profiler_type="structured")
        else:
            p.update_profile(df)
        ctx.step()
        clean = [v for v in b if v is not None and not ref.is_default_null(v)]
        m = merge(m, piece(clean, numeric)) if not (m and m[0] == "random") else m
        got = p.report()["data_stats"][0]["order"]
        if got != (m[0] if m else None):
            raise Violation(f"after {b}: order {got!r}, expected {m}")
        ctx.state((numeric, m))


def profiles():
    for al, num in ((["1", "2", "nan"], True), (["b", "a", ""], False)):
        B = [list(w) for w in words(al, 2, 1)]
        for h in itertools.product(B, repeat=2):
            yield dict(numeric=num, batches=[list(b) for b in h])
        for w in words(al, 4, 3):
            yield dict(numeric=num, batches=[list(w)])


def indexed():
    """the same values under every order of row labels, repeated and other labels"""
    IX = [list(i) for i in itertools.permutations(range(3))] + [[0, 0, 1], [5, 5, 5], ["c", "a", "b"], [9, -3, 4], [10, 20, 15]]
    for al, num in ((["1", "2", "10"], True), (["b", "a", "nan"], False)):
        for w in words(al, 3, 3):
            for ix in IX:
                yield dict(numeric=num, batches=[list(w)], index=[ix])
    for ix in itertools.product(IX[:6:2] + IX[6:8], repeat=2):
        for w in ((["1", "2", "3"], ["4", "5", "6"]), (["3", "2", "2"], ["2", "1", "0"]), (["1", "1", "1"], ["1", "1", "2"])):
            yield dict(numeric=True, batches=[list(x) for x in w], index=list(ix))


def spaces(tier):
    th = tier == "thorough"
    return [
        Space("single", "every word of length <=6 over five 3-value alphabets in one update", singles(7 if th else 6), run_single),
        Space("updates2", "2 updates, words of length <=3 over 3 values",
              updates([["1", "2", "3"], ["a", "b", "c"]], 3, 2), run_col),
        Space("updates3", "3 updates, words of length <=2 over 4 values",
              updates([["1", "2", "3", "10"]], 2, 3), run_col),
        Space("trees3", "merge trees of 3 pieces, and merge then update, over 4 values", trees(["1", "2", "3", "10"]), run_col),
        Space("quads", "merge of two merged pairs", quads(["1", "2", "3"] if not th else ["1", "2", "3", "4"]), run_col),
        Space("profiles", "whole profiles with nulls", profiles, run_profile),
        Space("index", "every word of length 3 over 3 values (numbers; text with a null) x 11 row labelings; pairs of batches x labelings", indexed, run_profile),
    ]
