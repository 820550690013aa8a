"""C02: merging profiles equals profiling the combined data."""
import itertools

from mc import ref
from mc.engine import Space, Violation, diff_path, short
from mc.sut import clean, dp, facts, frame, fresh, opts
from mc.engine import words
from mc.props import c01
from mc.props.c03 import check_profile
from mc.sut import series
from dataprofiler.profilers import CategoricalColumn, DateTimeColumn, FloatColumn, IntColumn, TextColumn

ASSUMPTIONS = [
    "order is piecewise by design: compared with the same data given as successive updates",
    "histogram-based estimates are compared with the data up to bin width (as in C03)",
    "samples shown in the report are unspecified",
]
EXTRA = {
    "structured_options.null_replication_metrics.is_enabled": False,
}


def build(cols, setd):
    return fresh(frame(cols), setd)


def without_order(r):
    r = {**r, "data_stats": [{k: v for k, v in c.items() if k != "order"} for c in r["data_stats"]]}
    return r


def numeric_values(col, kind):
    vals = [v for v in col if v is not None and not ref.is_default_null(v)]
    return [float(len(v)) if kind in ("string", "text") else float(v) for v in vals]


def compare(p, tables, setd, ctx, where, stages):
    """p must look like a profile of all rows of `tables`."""
    names = [n for n, _ in tables[0]]
    whole = [[n, sum((list(t[i][1]) for t in tables), [])] for i, n in enumerate(names)]
    q = build(whole, setd)
    seq = build(tables[0], setd)
    for t in tables[1:]:
        seq.update_profile(frame(t))
    got = facts(p)
    d = diff_path(without_order(got), without_order(facts(q)))
    if d:
        raise Violation(f"{where}: merged differs from profile of combined data at {d}")
    for i, n in enumerate(names):
        a, b = got["data_stats"][i].get("order"), facts(seq)["data_stats"][i].get("order")
        if a != b:
            raise Violation(f"{where}: order of {n} is {a!r}, {b!r} when given as updates")
    # histogram-based estimates
    for i, (n, col) in enumerate(whole):
        comp = p._profile[i].profiles["data_type_profile"]
        kind = comp.selected_data_type
        if kind in ("int", "float", "text"):
            prof = comp._profiles[kind].profile
            xs = numeric_values(col, "string" if kind == "text" else kind)
            check_profile(prof, kind, xs, stages + 1, 1, {}, ctx, f"{where}: column {n}")
    ctx.state(repr(clean(got)))


def run(case, ctx):
    """tree: leaf index | [l, r]; leaves are tables; 'then' = tables given as updates to the result."""
    tabs, setd = case["tables"], case.get("set", {})

    def ev(t):
        if isinstance(t, int):
            return build(tabs[t], setd), [tabs[t]]
        (a, ta), (b, tb) = ev(t[0]), ev(t[1])
        ctx.step()
        return a + b, ta + tb

    p, used = ev(case["tree"])
    n = len(used)
    compare(p, used, setd, ctx, "after merge", 2 * n)
    for t in case.get("then", []):
        p.update_profile(frame(t))
        used = used + [t]
        ctx.step()
        n += 1
        compare(p, used, setd, ctx, "after update of the merged profile", 2 * n)


COLS = [
    ["1", "2", "3"],
    ["0"],
    ["-5", "nan", "7"],
    ["1.5", "2", "0.25"],
    ["x", "yy", "x"],
    [None, ""],
    ["2020-01-01", "2019-06-30"],
    ["Mar 12 2013", "2/14/14"],
    ["4", "4", "4"],
    ["zz", "1", "--"],
    ["a", "a", "b", "c"],
    ["10", "20", "null", "1e1"],
]


def one(c):
    return [["a", list(c)]]


def pairs():
    for x, y in itertools.product(COLS, repeat=2):
        yield dict(tables=[one(x), one(y)], tree=[0, 1])


def then(cols):
    def gen():
        for x, y, z in itertools.product(cols, repeat=3):
            yield dict(tables=[one(x), one(y)], tree=[0, 1], then=[one(z)])

    return gen


def trees(cols):
    def gen():
        for x, y, z in itertools.product(cols, repeat=3):
            for t in ([[0, 1], 2], [0, [1, 2]]):
                yield dict(tables=[one(x), one(y), one(z)], tree=t)

    return gen


TABLES = [
    [["a", ["1", "2"]], ["b", ["x", "y"]]],
    [["a", ["1"]], ["b", ["x"]]],
    [["a", ["nan", "3"]], ["b", [None, "x"]]],
    [["a", ["", ""]], ["b", ["", "q"]]],
    [["a", ["2", "2", "2"]], ["b", ["y", "y", "z"]]],
]


def tables(tier):
    def gen():
        for x, y in itertools.product(TABLES, repeat=2):
            yield dict(tables=[x, y], tree=[0, 1])
        for x, y, z in itertools.product(TABLES, repeat=3):
            yield dict(tables=[x, y, z], tree=[[0, 1], 2], then=[])
            if tier == "thorough":
                yield dict(tables=[x, y, z], tree=[0, [1, 2]], then=[TABLES[2]])
                yield dict(tables=[x, y], tree=[0, 1], then=[z])

    return gen


SETS = [
    {"structured_options.*.bias_correction.is_enabled": False},
    {"structured_options.category.is_enabled": False, "structured_options.order.is_enabled": False,
     "structured_options.chi2_homogeneity.is_enabled": False},
    {"structured_options.int.is_enabled": False},
    {"structured_options.row_statistics.is_enabled": False},
    {"structured_options.text.vocab.is_enabled": False, "structured_options.float.precision.is_enabled": False},
    {"structured_options.null_replication_metrics.is_enabled": True},
]


def configs():
    for s in SETS:
        for x, y in itertools.product(TABLES[:4], repeat=2):
            if "structured_options.null_replication_metrics.is_enabled" in s:
                continue
            yield dict(tables=[x, y], tree=[0, 1], set=s, then=[TABLES[4]])


# ---------------------------------------------------------------- column level, deeper
def run_numeric(case, ctx):
    """leaves: batches; ((a + b) + c), (a + (b + c)) or (a + b) then update c; exact statistics at every node."""
    kind, bias = case["kind"], case["bias"]
    cls, ocls = c01.CLS[kind]

    def leaf(b):
        o = ocls()
        o.bias_correction.is_enabled = bias
        c = cls("a", options=o)
        c.update(series(b))
        return c, [s for s in b if c01.accepted(kind, s)]

    def add(x, y):
        c, v = x[0] + y[0], x[1] + y[1]
        ctx.step()
        c01.check_stats(c.profile, kind, v, bias, ctx, "after merge")
        if c.match_count != len(v) or c.sample_size != x[0].sample_size + y[0].sample_size:
            raise Violation(f"merged counts {c.match_count}/{c.sample_size} for {v}")
        check_profile(c.profile, kind, [c01.value(kind, s) for s in v], 6, 1, {}, ctx, "after merge")
        if kind == "text" and sorted(c.vocab) != sorted(set("".join(v))):
            raise Violation(f"vocabulary {sorted(c.vocab)} of {v}")
        return c, v

    a, b, c = (leaf(x) for x in case["leaves"])
    if case["shape"] == "L":
        add(add(a, b), c)
    elif case["shape"] == "R":
        add(a, add(b, c))
    else:
        m, v = add(a, b)
        m.update(series(case["leaves"][2]))
        v = v + c[1]
        c01.check_stats(m.profile, kind, v, bias, ctx, "after update of merged")
        check_profile(m.profile, kind, [c01.value(kind, s) for s in v], 6, 1, {}, ctx, "after update of merged")
        if kind == "text" and sorted(m.vocab) != sorted(set("".join(v))):
            raise Violation(f"vocabulary {sorted(m.vocab)} of {v}")


NALPHA = {"int": ["0", "-3", "8"], "float": ["0", "-2.5", "10.25"], "text": ["", "ab", "abcd"]}


def numeric(tier):
    def gen():
        for kind, al in NALPHA.items():
            B = [list(w) for w in words(al, 2)] + [["x", al[1]]]
            B1 = [[], [al[0]], [al[1], al[2]]] if tier == "quick" else B
            for bias in (True, False):
                for x, y in itertools.product(B, repeat=2):
                    for z in B1 if bias else B1[:1]:
                        for shape in "LRU":
                            yield dict(kind=kind, bias=bias, leaves=[x, y, z], shape=shape)

    return gen


def run_other(case, ctx):
    """categorical and datetime columns: every merge tree equals one update with everything."""
    cls = {"cat": CategoricalColumn, "date": DateTimeColumn}[case["kind"]]

    def leaf(b):
        c = cls("a")
        c.update(series(b))
        return c

    whole = leaf(sum(case["leaves"], []))
    a, b, c = (leaf(x) for x in case["leaves"])
    ctx.step(2)
    m = {"L": lambda: (a + b) + c, "R": lambda: a + (b + c), "U": lambda: (a + b).update(series(case["leaves"][2]))}[
        case["shape"]
    ]()
    if m is None:
        raise Violation("update returned nothing")
    x, y = other_facts(m, case["kind"]), other_facts(whole, case["kind"])
    d = diff_path(x, y)
    if d:
        raise Violation(f"merged differs from whole at {d}")
    ctx.state(repr(y))


def other_facts(c, kind):
    p = clean(c.profile)
    if kind == "date":
        return dict(min=p["min"], max=p["max"], format=sorted(p["format"]), n=c.sample_size, m=c.match_count,
                    ratio=c.data_type_ratio)
    st = p["statistics"]
    return dict(categorical=p["categorical"], n=c.sample_size,
                **{k: sorted(v) if k == "categories" and v is not None else v for k, v in st.items()})


def other(tier):
    def gen():
        for kind, al in (("cat", ["a", "b", "c"]), ("date", ["2020-01-05", "March 12 2013", "x"] + (["2019-12-31"] if tier != "quick" else []))):
            B = [list(w) for w in words(al, 2)]
            for x, y in itertools.product(B, repeat=2):
                for z in ([], [al[0]], [al[1], al[2]]) if tier == "quick" else B:
                    for shape in "LRU":
                        yield dict(kind=kind, leaves=[x, y, z], shape=shape)

    return gen


def spaces(tier):
    th = tier == "thorough"
    sp = [
        Space("pairs", "every ordered pair of 12 column contents", pairs, run),
        Space("tables", "two-column tables: pairs and left trees of 5 tables", tables(tier), run),
        Space("then-update", "merge of two then an update, over 5 contents",
              then([COLS[i] for i in ((0, 2, 4, 5, 6) if not th else range(0, 12))]), run),
        Space("trees", "both merge trees of three, over 4 contents",
              trees([COLS[i] for i in ((2, 3, 5, 10) if not th else range(0, 12, 2))]), run),
        Space("configs", "merges under option settings", configs, run),
        Space("numeric-columns", "int/float/text columns: merges of 3 batches (words of length <=2 over 3 values), 3 shapes",
              numeric(tier), run_numeric),
        Space("other-columns", "categorical and datetime columns: merges of 3 batches, 3 shapes", other(tier), run_other),
    ]
    return sp
