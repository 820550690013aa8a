"""C32: plots show what the profile says."""
import itertools
import math
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgba

from mc.engine import Space
from mc.sut import ONLY_PRIMITIVE, clean, dp, fresh, np, pd

from dataprofiler.reports import graphs

ASSUMPTIONS = [
    "plots are judged by the shapes on the axes: the topmost one at the middle of a cell, the bars of a histogram; layout and style are free",
    "row positions are those of the profile's own index of nulls (checked against the data under C04)",
]
S = "structured_options."
NULLS = {"_": "", "n": "nan", "N": "None", "s": " ", "d": "--"}


def boxes(ax):
    """(left, right, bottom, top, colour, label) of the shapes in drawing order"""
    out = []
    for p in sorted(ax.patches, key=lambda p: p.get_zorder()):
        x, y, w, h = p.get_x(), p.get_y(), p.get_width(), p.get_height()
        out.append((min(x, x + w), max(x, x + w), min(y, y + h), max(y, y + h), tuple(p.get_facecolor()), p.get_label(), w * h))
    return out


def missing(case, ctx):
    """every cell is drawn as its own null or as a value"""
    cols, split, how = case
    names = [f"c{i}" for i in range(len(cols))]
    rows = len(cols[0])
    df = pd.DataFrame({n: pd.Series([NULLS.get(x, x) for x in c], dtype=object) for n, c in zip(names, cols)})
    at, p = 0, None
    for n in split:
        part = df.iloc[at:at + n]
        at += n
        if p is None:
            p = fresh(part, ONLY_PRIMITIVE)
        else:
            p.update_profile(part)
    ax = None
    if how == "axes":
        ax = plt.figure().add_subplot(111)
    fig = (graphs.plot_missing_values_matrix(p, ax=ax, title="T") if how != "cols" else graphs.plot_col_missing_values(p.profile, title="T"))
    ctx.step()
    try:
        if ax is not None:
            ctx.check(fig is ax.figure, "the figure of the given axes is returned")
        ax = fig.axes[0]
        ctx.eq([t.get_text().strip('"') for t in ax.get_xticklabels()], names, "names of the columns")
        ctx.eq(ax.get_title(), "T", "title")
        bx = boxes(ax)
        leg = ax.get_legend()
        colour = {}
        if leg is not None:
            for t, h in zip(leg.get_texts(), leg.get_patches()):
                colour[t.get_text()] = tuple(h.get_facecolor())
        ticks = list(ax.get_xticks())
        shown = set()
        for j, c in enumerate(cols):
            null = {i: k for k, v in p.profile[j].null_types_index.items() for i in v}
            ctx.eq(null, {i: NULLS[x] for i, x in enumerate(c) if x in NULLS}, f"nulls of column {j} of {cols}")
            shown |= set(null.values())
            for r in range(-1, rows + 1):
                for y in (r - 0.4, r, r + 0.4):
                    hit = [b for b in bx if b[0] < ticks[j] < b[1] and b[2] < y < b[3]]
                    if r in (-1, rows):
                        ctx.check(not hit, lambda: f"{cols} {split}: something is drawn at row {r} of column {j}")
                        continue
                    ctx.check(hit, lambda: f"{cols} {split}: nothing is drawn at row {r} of column {j}")
                    lab, col = hit[-1][5], hit[-1][4]
                    if r in null:
                        ctx.check(lab == f'"{null[r]}"' and colour.get(lab) == col,
                                  lambda: f"{cols} {split}: row {r} of column {j} is drawn as {lab!r}, it is the null {null[r]!r}")
                    else:
                        ctx.check(lab not in colour and col not in colour.values(),
                                  lambda: f"{cols} {split}: row {r} of column {j} is drawn as null {lab!r}, it is a value")
        ctx.eq(set(colour), {f'"{x}"' for x in shown}, f"{cols}: legend")
        ctx.eq(len(set(colour.values())), len(colour), f"{cols}: nulls that share a colour")
        ctx.state((tuple(cols), tuple(split)))
    finally:
        plt.close("all")


TABLE = {"int": ["1", "5", "5", "-3"], "Text": ["a", "b", "c", "d"], "Flo": ["0.5", "2.5", "0.5", "9.25"], "const": ["7", "7", "7", "7"],
         "date": ["1/2/2021", "1/3/2021", "1/4/2021", "1/5/2021"], "null": ["", "nan", "", ""], "one": ["", "3", "", "nan"]}
NUMERIC = ["int", "Flo", "const", "one"]


def bars(case, ctx):
    """the numeric ones of the columns asked for, in the order of the profile, each with its own bars"""
    order, names, inds, bins = case
    cfg = dict(ONLY_PRIMITIVE)
    if bins:
        cfg[S + "float.histogram_and_quantiles.bin_count_or_method"] = bins
        cfg[S + "int.histogram_and_quantiles.bin_count_or_method"] = bins
    p = fresh(pd.DataFrame({n: pd.Series(TABLE[n], dtype=object) for n in order}), cfg)
    kw = {}
    asked = list(order)
    if names is not None:
        kw["column_names"], asked = [n.swapcase() if len(names) == 2 else n for n in names], list(names)  # case does not matter
    if inds is not None:
        kw["column_inds"], asked = list(inds), [order[i] for i in inds]
    keep = {k: list(v) for k, v in kw.items()}
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        fig = graphs.plot_histograms(p, **kw)
    ctx.step()
    try:
        ctx.eq(kw, keep, "the lists given")
        want = [n for n in order if n in asked and n in NUMERIC]
        if not want:
            ctx.check(fig is None and any("No plots" in str(x.message) for x in w), f"{case}: nothing to plot")
            return
        axs = [a for a in fig.axes if a.axison]
        ctx.eq([a.get_title() for a in axs], want, f"columns plotted of {order} asked for {kw}")
        rep = {c["column_name"]: c["statistics"].get("histogram") for c in p.report({"output_format": "serializable", "num_quantile_groups": 4})["data_stats"]}
        for a in axs:
            h = rep[a.get_title()]
            same_bars(a, h, f"{case} {a.get_title()}", ctx)
        ctx.state((tuple(order), tuple(want), bins))
    finally:
        plt.close("all")


def same_bars(a, h, what, ctx):
    edges, counts = list(map(float, h["bin_edges"])), list(map(float, h["bin_counts"]))
    got = sorted((b[0], b[1], b[3] - b[2]) for b in boxes(a) if b[3] - b[2])
    full = sorted((edges[i], edges[i + 1], c) for i, c in enumerate(counts) if c)
    ok = len(got) == len(full) and all(
        math.isclose(x[2], y[2], rel_tol=1e-6) and abs(x[0] - y[0]) < 1e-6 * (1 + abs(y[0])) and abs(x[1] - y[1]) < 1e-6 * (1 + abs(y[1]))
        for x, y in zip(got, full))
    ctx.check(ok, lambda: f"{what}: bars {got} expected {full}")


def column(case, ctx):
    """one column, any values"""
    vals, own, title = case
    p = fresh(pd.DataFrame({"c": pd.Series([str(v) for v in vals], dtype=object)}), ONLY_PRIMITIVE)
    c = p.profile[0].profiles["data_type_profile"]
    c = c._profiles[c.selected_data_type]
    ax = plt.figure().add_subplot(111) if own else None
    try:
        a = graphs.plot_col_histogram(c, ax=ax, **({"title": title} if title is not None else {}))
        ctx.step()
        ctx.check(ax is None or a is ax, "the axes given are used")
        ctx.eq(a.get_title(), title if title is not None else "c", "title")
        h = p.report({"output_format": "serializable", "num_quantile_groups": 4})["data_stats"][0]["statistics"]["histogram"]
        same_bars(a, h, f"{vals}", ctx)
        ctx.eq(sum(h["bin_counts"]), len(vals), "values in the histogram")
        ctx.state((tuple(vals),))
    finally:
        plt.close("all")


def refuse(case, ctx):
    kw, bad = case
    p = fresh(pd.DataFrame({"int": ["1", "2"], "t": ["a", "b"]}), ONLY_PRIMITIVE)
    kw = {k: tuple(v[1:]) if isinstance(v, list) and v and v[0] == "tuple" else v for k, v in kw.items()}
    try:
        r = graphs.plot_histograms(p, **kw)
        ctx.check(not bad, lambda: f"accepted {kw}")
    except ValueError:
        ctx.check(bad, lambda: f"refused {kw}")
    finally:
        plt.close("all")
    ctx.step()
    ctx.state(repr(kw))


def spaces(tier):
    big = tier == "thorough"

    def c_missing():
        for n in range(1, (8 if big else 7)):
            for t in itertools.product("v_n" if n < 6 or big else "v_", repeat=n):
                yield [["".join(t)], [n], "own"]
        for n in (1, 2, 3):  # two columns, two updates
            for a, b in itertools.product(itertools.product("v_n", repeat=n), repeat=2):
                for sp in [[n]] + [[k, n - k] for k in range(1, n)]:
                    for how in ("own", "axes", "cols") if n < 3 else ("own",):
                        if how == "own" or len(sp) == 1:
                            yield [["".join(a), "".join(b)], sp, how]
        for t in itertools.permutations("v_nNsd", 6) if big else itertools.permutations("_nNsd", 5):
            yield [["".join(t), "vvvvvv"[:len(t)]], [len(t)], "own"]

    def c_bars():
        O = list(TABLE)
        for k in (1, 2, 3, 7):
            for order in itertools.permutations(O, k) if k < 3 or big and k < 4 else itertools.combinations(O, k):
                order = list(order)
                yield [order, None, None, None]
                for m in range(1, min(k, 3) + 1):
                    for sel in itertools.permutations(range(k), m):
                        if k == 7 and not big and (m > 2 or m == 2 and sel[0] > sel[1] and sel[0] - sel[1] > 2):
                            continue
                        yield [order, None, list(sel), None]
                        yield [order, [order[i] for i in sel], None, None]
        for b in (1, 2, 5, "auto", "sturges", "sqrt", "rice"):
            yield [O, None, None, b]

    def c_col():
        for n in range(1, 5):
            for v in itertools.combinations_with_replacement([0, 1, 2, 7, -4] if n < 4 or big else [0, 1, 7, -4], n):
                yield [list(v), n % 2 == 0, None]
            for v in itertools.combinations_with_replacement([0.5, 1.25, 100000.5, -3.0] if n < 4 else [0.5, 1.25, -3.0], n):
                yield [list(v), n % 2 == 1, "given"]

    def c_refuse():
        for v in (-1, [{}, 1], {}, 3.2, [3.2], "int", ["int", 5], ["nope"], ["int", "nope"], ["tuple", "int"]):
            yield [{"column_names": v}, True]
        for v in (-1, [{}, 1], {}, 3.2, [3.2], ["int"], [0, "t"]):
            yield [{"column_inds": v}, True]
        yield [{"column_names": ["int"], "column_inds": [0]}, True]
        for v in (["int"], ["t", "int"], None):
            yield [{"column_names": v}, False]
        for v in ([0], [1, 0], None):
            yield [{"column_inds": v}, False]

    return [
        Space("missing", f"missing values: every column of up to {7 if big else 6} values and nulls, every pair of columns of up to 3 rows in every "
              "split into two updates, every order of 5 kinds of null", c_missing, missing),
        Space("histograms", "tables of numeric and other columns in every order x every selection by name and position x bin settings", c_bars, bars),
        Space("column", "every multiset of up to 4 values over 5 integers or 4 decimals", c_col, column),
        Space("refused", "selections that must be refused or accepted", c_refuse, refuse),
    ]
