"""C04: null and row-completeness accounting."""
import itertools
import re

from mc import ref
from mc.engine import Space, Violation, diff_path, short, words
from mc.sut import ONLY_PRIMITIVE, dp, facts, frame, fresh, np, opts, pd

ASSUMPTIONS = [
    "cells are text, None or NaN as the readers deliver them (taken by their text form)",
    "row numbers: a batch whose integer index range overlaps earlier rows is renumbered after the largest row number so "
    "far (documented); non-integer or repeated labels have no such promise and only counts are checked",
]
ROWS = {**ONLY_PRIMITIVE, "structured_options.row_statistics.is_enabled": True}


def text(v):
    return str(v)


class Model:
    """Reference: what has been seen so far."""

    def __init__(self, ncols, isnull):
        self.n = 0
        self.isnull = isnull  # f(col, text)
        self.null_count = [0] * ncols
        self.nulls = [{} for _ in range(ncols)]  # token -> set(row ids)
        self.has = self.only = 0
        self.lo = self.hi = None
        self.ids_known = True

    def feed(self, cols, index):
        rows = len(cols[0])
        index = list(range(rows)) if index is None else list(index)
        ints = all(type(i) is int for i in index) and len(set(index)) == len(index)
        if not ints:
            self.ids_known = False
        if self.ids_known:
            lo, hi = min(index), max(index)
            if self.lo is not None and not (hi < self.lo or self.hi < lo):
                shift = self.hi + 1
                index = [i + shift for i in index]
                lo, hi = lo + shift, hi + shift
            self.lo = lo if self.lo is None else min(self.lo, lo)
            self.hi = hi if self.hi is None else max(self.hi, hi)
        for r in range(rows):
            flags = []
            for c, col in enumerate(cols):
                t = text(col[r])
                f = self.isnull(c, t)
                flags.append(f)
                if f:
                    self.null_count[c] += 1
                    self.nulls[c].setdefault(t, set()).add(index[r])
            self.has += any(flags)
            self.only += all(flags)
        self.n += rows


def check(p, m, ctx, where, rowstats=True):
    rep = p.report({"output_format": "serializable"})
    g = rep["global_stats"]
    if g["row_count"] != m.n or g["samples_used"] != m.n:
        raise Violation(f"{where}: row_count {g['row_count']}, samples_used {g['samples_used']}, fed {m.n}")
    if rowstats:
        for k, want in (("row_has_null_ratio", m.has), ("row_is_null_ratio", m.only)):
            if abs(g[k] - want / m.n) > 1e-12:
                raise Violation(f"{where}: {k} {g[k]}, expected {want}/{m.n}")
    for c, col in enumerate(rep["data_stats"]):
        st = col["statistics"]
        if st["sample_size"] != m.n:
            raise Violation(f"{where}: column {c} sample size {st['sample_size']}, fed {m.n}")
        if st["null_count"] != m.null_count[c]:
            raise Violation(f"{where}: column {c} null count {st['null_count']}, expected {m.null_count[c]}")
        if sorted(st["null_types"]) != sorted(m.nulls[c]):
            raise Violation(f"{where}: column {c} null types {st['null_types']}, expected {sorted(m.nulls[c])}")
        if m.ids_known:
            got = {k: sorted(int(x) for x in v) for k, v in st["null_types_index"].items()}
            want = {k: sorted(v) for k, v in m.nulls[c].items()}
            if got != want:
                raise Violation(f"{where}: column {c} null rows {got}, expected {want}")
    ctx.state((m.n, m.null_count, m.has, m.only, repr(m.nulls)))


def run(case, ctx):
    """batches: list of [columns, index|None]; nulls: None | {'all': {...}, 'col': {...}} patterns -> ignorecase"""
    st = dict(ROWS)
    cfg = case.get("nulls")
    o = opts(st)
    isnull = lambda c, t: ref.is_default_null(t)
    if cfg:
        pats = None
        if cfg.get("all") is not None:
            pats = {k: (re.IGNORECASE if v else 0) for k, v in cfg["all"].items()}
            o.structured_options.null_values = pats
        else:
            pats = {"": 0, "nan": re.I, "none": re.I, "null": re.I, "  *": 0, "--*": 0, "__*": 0}
        colp = {int(k): {a: (re.IGNORECASE if b else 0) for a, b in v.items()} for k, v in cfg.get("col", {}).items()}
        if colp:
            o.structured_options.column_null_values = colp

        def isnull(c, t):
            d = {**pats, **colp.get(c, {})}
            return any(re.fullmatch(k, t, flags=f) for k, f in d.items())

    p = None
    m = None
    for bi, (cols, index) in enumerate(case["batches"]):
        cols = [[np.nan if v == "<NaN>" else v for v in c] for c in cols]
        df = frame([(f"c{i}", c) for i, c in enumerate(cols)], index=index)
        snap = df.copy(deep=True)
        if p is None:
            m = Model(len(cols), isnull)
            p = dp.Profiler(df, options=o, profiler_type="structured", min_true_samples=case.get("mts", 0))
        else:
            p.update_profile(df, min_true_samples=case.get("mts", 0))
        ctx.step()
        m.feed(cols, index)
        check(p, m, ctx, f"after batch {bi + 1}")
        if not df.equals(snap):
            raise Violation("the given data frame was modified")


def run_tokens(case, ctx):
    """a column of tokens; additionally the nulls influence no other statistic."""
    col = case["col"]
    run(dict(batches=[[[col], None]]), ctx)
    kept = [v for v in col if not ref.is_default_null(text(v))]
    if not kept:
        return
    st = dict(ROWS)
    st.update({"structured_options.category.is_enabled": True, "structured_options.order.is_enabled": True,
               "structured_options.datetime.is_enabled": True})
    a = facts(fresh(frame({"a": col}), st), approx=True)["data_stats"][0]
    b = facts(fresh(frame({"a": kept}), st), approx=True)["data_stats"][0]
    for r in (a, b):
        for k in ("sample_size", "null_count", "null_types", "null_types_index"):
            r["statistics"].pop(k)
    d = diff_path(a, b)
    if d:
        raise Violation(f"nulls influence other statistics at {d}")


TOKENS = [None, "<NaN>", "nan", "NaN", "NAN", "none", "None", "NULL", "null", "", " ", "   ", "-", "--", "---", "_", "___",
          "nan ", " nan", "nanx", "nan.", "nul", "nulll", "non", "n/a", "NA", "-1", "- -", "-_", "_a", "0", "--a", " x",
          "nan|none", "N", "\t"]


def tokens():
    for t in TOKENS:
        yield dict(batches=[[[[t, "q"]], None]])
        yield dict(batches=[[[["5"]], None], [[[t]], None]])
    for t, u in itertools.product(TOKENS[:16:2] + TOKENS[17:30:3], repeat=2):
        yield dict(batches=[[[[t, u], ["1", t]], None]])


def influence(tier):
    def gen():
        for vals in (["3", "1", "2"], ["1.5", "x", "yy"], ["2020-01-01", "2021-02-03"], ["a", "a", "b"]):
            for toks in itertools.product(["nan", "--", None] if tier == "quick" else ["nan", "", "--", None], repeat=2):
                for pos in itertools.product(range(len(vals) + 1), repeat=2):
                    col = list(vals)
                    for t, i in zip(toks, sorted(pos, reverse=True)):
                        col.insert(i, t)
                    yield dict(col=col)

    return gen


def tables(alpha, rows, ncols, splits):
    def gen():
        for cells in itertools.product(alpha, repeat=rows * ncols):
            cols = [list(cells[i * rows : (i + 1) * rows]) for i in range(ncols)]
            for s in splits:
                b, k = [], 0
                for n in s:
                    b.append([[c[k : k + n] for c in cols], None])
                    k += n
                yield dict(batches=b)

    return gen


IDX = [None, [0, 1], [1, 2], [2, 3], [10, 11], [5, 9], [3, 2], [-4, -3]]
IDX_NOPOS = [[0, 0], ["r", "s"], [1.5, 2.5]]


def indices(tier):
    def gen():
        B = [[["nan", "1"], ["x", ""]], [["2", "nan"], ["nan", "y"]]]
        for i, j in itertools.product(IDX, repeat=2):
            for x, y in itertools.product(B, repeat=2):
                yield dict(batches=[[x, i], [y, j]])
        for i, j, k in itertools.product(IDX[1:7], repeat=3):
            yield dict(batches=[[B[0], i], [B[1], j], [B[0], k]])
            yield dict(batches=[[B[0], i], [B[1], j], [B[0], k]], mts=1)
        for i in IDX_NOPOS:
            for x in B:
                yield dict(batches=[[x, i]])
        # repeated labels (e.g. concatenated frames): counts must still be right
        for i in ([0, 0], [0, 1]):
            for x, y in itertools.product(B, repeat=2):
                yield dict(batches=[[x, [0, 0]], [y, i]])
        for cells in itertools.product(["1", "nan"], repeat=6):
            yield dict(batches=[[[list(cells[:3]), list(cells[3:])], [0, 1, 0]]])

    return gen


NULLCFG = [
    {"all": {"NA": 0, "x+": 1}},
    {"all": {"": 0}},
    {"all": {"a.": 0, "9": 0}},
    {"col": {"1": {"9": 0}}},
    {"col": {"0": {"na": 1}, "1": {"x": 0}}},
    {"all": {"NA": 0}, "col": {"0": {"9": 0}}},
    {"all": {}},
]


def configs(tier):
    def gen():
        vals = ["NA", "na", "x", "XX", "9", "ab", "", "nan"]
        for cfg in NULLCFG:
            for a, b in itertools.product(vals, repeat=2):
                yield dict(nulls=cfg, batches=[[[[a, "1"], [b, "9"]], None]])
                yield dict(nulls=cfg, batches=[[[["1"], ["2"]], None], [[[a, b], [b, a]], None]])

    return gen


def spaces(tier):
    th = tier == "thorough"
    return [
        Space("tokens", "each of 36 (near-)null tokens alone, in a later update, and in pairs", tokens, run),
        Space("influence", "nulls inserted at every pair of positions change no other statistic", influence(tier), run_tokens),
        Space("tables", "every 3x2 table over {1, nan, ''} in one update / split",
              tables(["1", "nan", ""], 3, 2, [(3,)] if not th else [(3,), (1, 2), (2, 1), (1, 1, 1)]), run),
        Space("tables-split", "every 2x2 table over {1, nan, '', None} fed row by row",
              tables(["1", "nan", "", None], 2, 2, [(1, 1)]), run),
        Space("index", "index variants over 2-3 updates", indices(tier), run),
        Space("configs", "custom and per-column null patterns with flags", configs(tier), run),
    ] + ([Space("tables3", "every 2x3 table over {1, nan, ''} in one update and row by row",
                tables(["1", "nan", ""], 2, 3, [(2,), (1, 1)]), run)] if th else [])
