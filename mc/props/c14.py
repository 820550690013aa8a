"""C14: a diff says exactly what the two reports differ in."""
import copy
import datetime
import itertools
import math
import re

from mc.engine import Space, diff_path, isnan, num, same, short
from mc.props import c10, c11, c13
from mc.sut import clean, dp, facts, frame, fresh, np, pd

ASSUMPTIONS = [
    "data labeler off; the expected difference is computed from the two reports (data types by their internal names: the "
    "report calls short text 'string'); the null ratio from null count / sample size",
    "columns are compared only when both profiles have the same columns in the same order (documented)",
    "the population stability index of numeric columns is a binned estimate: checked for 0 on copies and symmetry; for "
    "categorical columns it is checked exactly; t-tests and chi-square tests are recomputed (scipy distributions trusted)",
]


D = datetime.datetime
MEANING = {"1/2/2013": D(2013, 1, 2), "3/4/2014": D(2014, 3, 4), "2011-12-25": D(2011, 12, 25), "2014-03-04": D(2014, 3, 4),
           "2014-03-04 08:00:00": D(2014, 3, 4, 8)}


def d_num(a, b):
    if a is None and b is None:
        return "unchanged"
    if a is None or b is None:
        return [a, b]
    if isnan(a) and isnan(b) or a == b:
        return "unchanged"
    return a - b


def d_str(a, b):
    return "unchanged" if a == b else [a, b]


def d_set(a, b):
    if a is None and b is None:
        return "unchanged"
    if a is None or b is None:
        return [a, b]
    if sorted(map(repr, a)) == sorted(map(repr, b)):
        return "unchanged"
    b2, shared, only = list(b), [], []
    for x in a:
        if x in b2:
            b2.remove(x)
            shared.append(x)
        else:
            only.append(x)
    return [only, shared, b2]


def norm(x):
    """order-free image of a set split"""
    if isinstance(x, list) and len(x) == 3 and all(isinstance(v, (list, set, frozenset)) for v in x):
        return [sorted(map(repr, v)) for v in x]
    return x


def d_keys(a, b, f):
    a, b = a or {}, b or {}
    r = [{k: v for k, v in a.items() if k not in b}, {k: f(a[k], b[k]) for k in a if k in b},
         {k: v for k, v in b.items() if k not in a}]
    return "unchanged" if r == [{}, {}, {}] else r


def d_mat(a, b):
    if a is None or b is None or np.shape(a) != np.shape(b):
        return None
    a, b = np.array(a, dtype=float), np.array(b, dtype=float)
    if np.array_equal(a, b, equal_nan=True):
        return "unchanged"
    return (a - b).tolist()


def ttest(r1, n1, r2, n2):
    from scipy.stats import t as T

    none = {"t-statistic": None, "conservative": {"deg_of_free": None, "p-value": None}, "welch": {"deg_of_free": None, "p-value": None}}
    if n1 <= 1 or n2 <= 1:
        return none
    m1, v1, m2, v2 = r1["mean"], r1["variance"], r2["mean"], r2["variance"]
    if any(isnan(x) for x in (m1, v1, m2, v2)) or (not v1 and not v2):
        return none
    sd = v1 / n1 + v2 / n2
    t = (m1 - m2) / math.sqrt(sd)
    c, w = min(n1, n2) - 1, sd ** 2 / ((v1 / n1) ** 2 / (n1 - 1) + (v2 / n2) ** 2 / (n2 - 1))
    return {"t-statistic": t, "conservative": {"deg_of_free": c, "p-value": 2 * T.sf(abs(t), c)},
            "welch": {"deg_of_free": w, "p-value": 2 * T.sf(abs(t), w)}}


def chi2(c1, c2):
    from scipy.stats import chi2 as C2

    n1, n2 = sum(c1.values()), sum(c2.values())
    cs = set(c1) | set(c2)
    if len(cs) < 2:
        return {"chi2-statistic": None, "deg_of_free": None, "p-value": None}
    if not n1 or not n2:
        return {"chi2-statistic": math.inf, "deg_of_free": len(cs) - 1, "p-value": 0}
    st = 0
    for c in cs:
        f1, f2 = c1.get(c, 0), c2.get(c, 0)
        e1, e2 = n1 * (f1 + f2) / (n1 + n2), n2 * (f1 + f2) / (n1 + n2)
        st += (f1 - e1) ** 2 / e1 + (f2 - e2) ** 2 / e2
    return {"chi2-statistic": st, "deg_of_free": len(cs) - 1, "p-value": float(C2.sf(st, len(cs) - 1))}


def cpsi(c1, c2):
    n1, n2 = sum(c1.values()), sum(c2.values())
    t = 0.0
    for c in set(c1) | set(c2):
        a, b = c1.get(c, 0) / max(n1, 1), c2.get(c, 0) / max(n2, 1)
        if a and b:
            t += (b - a) * math.log(b / a)
    return t


NUMS = ["min", "max", "sum", "mean", "median", "variance", "stddev"]


def tname(c):
    return "text" if c["data_type"] == "string" else c["data_type"]


def tdelta(a, b):
    x, y = MEANING[a], MEANING[b]
    if x == y:
        return "unchanged"
    return span((x - y).total_seconds())


def span(sec):
    return f"{'+' if sec >= 0 else '-'}:{abs(sec)}"


def spans(s):
    """'+374 days, 0:00:00' or '-374 days 00:00:00' in a canonical form"""
    m = re.fullmatch(r"([+-])(?:(\d+) days?,? )?(\d+):(\d\d):(\d\d)(\.\d+)?", s)
    if not m:
        return s
    sec = int(m[2] or 0) * 86400 + int(m[3]) * 3600 + int(m[4]) * 60 + int(m[5]) + float(m[6] or 0)
    return span(sec if m[1] == "+" else -sec)


def check_col(ctx, got, a, b, full):
    """got: diff of the column; a, b: the two reports of the column; full: every category shown in the report"""
    def eq(name, g, w):
        ctx.check(same(norm(clean(g)), norm(clean(w)), 1e-6, 1e-9), lambda: f"{name}: diff says {short(g)}, the reports {short(w)}")

    sa, sb = a["statistics"], b["statistics"]
    ta, tb = tname(a), tname(b)
    eq("column_name", got["column_name"], a["column_name"])
    if ta is None and tb is None:
        ctx.check(got["data_type"] is None or got["data_type"] == "unchanged", lambda: f"data_type {got['data_type']}")
    else:
        eq("data_type", got["data_type"], d_str(ta, tb))
    if "categorical" in a and a["categorical"] is not None and b["categorical"] is not None:
        eq("categorical", got["categorical"], d_str(a["categorical"], b["categorical"]))
    if "order" in a and (a["order"] is not None or b["order"] is not None):
        eq("order", got["order"], d_str(a["order"], b["order"]))
    g = got["statistics"]
    for k in ("sample_size", "null_count"):
        eq(k, g[k], d_num(sa[k], sb[k]))
    if sa["sample_size"] and sb["sample_size"]:
        eq("null_ratio", g["null_ratio"], d_num(sa["null_count"] / sa["sample_size"], sb["null_count"] / sb["sample_size"]))
    eq("null_types", g["null_types"], d_set(sorted(sa["null_types"]), sorted(sb["null_types"])))
    want = d_keys({k: sorted(v) for k, v in sa["null_types_index"].items()}, {k: sorted(v) for k, v in sb["null_types_index"].items()}, d_set)
    gi = g["null_types_index"]
    if isinstance(gi, list):
        gi = [{k: sorted(v) for k, v in gi[0].items()}, {k: norm(clean(v)) for k, v in gi[1].items()}, {k: sorted(v) for k, v in gi[2].items()}]
        want = [want[0], {k: norm(v) for k, v in want[1].items()}, want[2]] if want != "unchanged" else want
    ctx.check(gi == want, lambda: f"null_types_index: diff {short(gi)}, reports {short(want)}")
    if (ta or tb) and "data_type_representation" in sa and "data_type_representation" in sb:
        ra, rb = ({"text" if k == "string" else k: v for k, v in x["data_type_representation"].items()} for x in (sa, sb))
        for k in ra:
            eq("data_type_representation " + k, g["data_type_representation"][k], d_num(ra[k], rb[k]))
    if "unique_count" in sa and "unique_count" in sb:
        for k in ("unique_count", "unique_ratio"):
            eq(k, g[k], d_num(sa[k], sb[k]))
    if a.get("categorical") and b.get("categorical"):
        for k in ("gini_impurity", "unalikeability"):
            eq(k, g[k], d_num(sa[k], sb[k]))
        eq("categories", g["categories"], d_set(list(sa["categories"]), list(sb["categories"])))
        if full:
            ca, cb = sa["categorical_count"], sb["categorical_count"]
            want = {k: d_num(ca.get(k, 0), cb.get(k, 0)) for k in set(ca) | set(cb)} or "unchanged"
            eq("categorical_count", g["categorical_count"], want)
            eq("chi2-test", g["chi2-test"], chi2(ca, cb))
            if ca or cb:
                eq("psi", g["psi"], cpsi(ca, cb))
    if ta is not None and ta == tb:
        if ta == "datetime":
            for k in ("min", "max"):
                eq(k, spans(g[k]), tdelta(sa[k], sb[k]))
            eq("format", g["format"], d_set(sa["format"], sb["format"]))
        else:
            for k in NUMS:
                eq(k, g[k], d_num(sa[k], sb[k]))
            eq("median_absolute_deviation", g["median_absolute_deviation"], d_num(sa["median_abs_deviation"], sb["median_abs_deviation"]))
            eq("mode", g["mode"], d_set(list(sa["mode"]), list(sb["mode"])) if sa["mode"] is not None else d_set(sa["mode"], sb["mode"]))
            n1 = (sa["sample_size"] - sa["null_count"]) * (sa["data_type_representation"] or {}).get(ta, 1)
            n2 = (sb["sample_size"] - sb["null_count"]) * (sb["data_type_representation"] or {}).get(tb, 1)
            if sa["variance"] is not None and sb["variance"] is not None:
                eq("t-test", g["t-test"], ttest(sa, round(n1), sb, round(n2)))
            if ta == "text":
                eq("vocab", g["vocab"], d_set(sa["vocab"], sb["vocab"]))
            if ta == "float":
                for k, v in sa["precision"].items():
                    if k != "confidence_level":
                        eq("precision " + k, g["precision"][k], d_num(v, sb["precision"][k]))
    else:
        extra = [k for k in NUMS + ["mode", "t-test", "vocab", "precision", "format"] if k in g]
        ctx.check(not extra, lambda: f"statistics {extra} compared for different data types {ta}, {tb}")


def check_struct(ctx, d, r1, r2, full=True):
    g, a, b = d["global_stats"], r1["global_stats"], r2["global_stats"]
    for k in ("samples_used", "column_count", "row_count", "row_has_null_ratio", "row_is_null_ratio", "unique_row_ratio",
              "duplicate_row_count"):
        ctx.eq(g[k], d_num(a[k], b[k]), f"diff of {k} for {a[k]}, {b[k]}")
    for k in ("file_type", "encoding"):
        ctx.eq(g[k], d_str(a[k], b[k]), f"diff of {k}")
    for k in ("correlation_matrix", "chi2_matrix"):
        ctx.eq(g[k], d_mat(a[k], b[k]), f"diff of {k}")
    n1, n2 = [c["column_name"] for c in r1["data_stats"]], [c["column_name"] for c in r2["data_stats"]]
    s1 = {n: [i for i, x in enumerate(n1) if x == n] for n in n1}
    s2 = {n: [i for i, x in enumerate(n2) if x == n] for n in n2}
    ctx.eq(clean(g["profile_schema"]), d_keys(s1, s2, d_set), "profile_schema")
    if n1 != n2:
        ctx.check(d["data_stats"] == [], "columns of different schemas were compared")
        return
    ctx.eq(len(d["data_stats"]), len(n1), "number of compared columns")
    for i in range(len(n1)):
        check_col(ctx, d["data_stats"][i], r1["data_stats"][i], r2["data_stats"][i], full)


def negate(x, path=()):
    """what the diff with swapped operands must say"""
    k = path[-1] if path else None
    if k in ("psi", "chi2-test", "p-value", "deg_of_free", "column_name"):
        return x
    if isinstance(x, dict):
        return {q: negate(v, path + (q,)) for q, v in x.items()}
    if isinstance(x, str):
        y = spans(x)
        return y if y == x else ("-" if y[0] == "+" else "+") + y[1:]
    if num(x):
        return -x
    if isinstance(x, (list, tuple)):
        x = list(x)
        if k in ("correlation_matrix", "chi2_matrix"):
            return [[-v for v in r] for r in x]
        if k == "data_stats":
            return [negate(v, path + (i,)) for i, v in enumerate(x)]
        if len(x) == 2:
            return x[::-1]
        if len(x) == 3:
            mid = x[1]
            if isinstance(mid, dict):
                mid = {q: negate(v, path + (q,)) for q, v in mid.items()}
            return [x[2], mid, x[0]]
    return x


def canon(x):
    if isinstance(x, dict):
        return {k: canon(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        x = [canon(v) for v in x]
        if len(x) == 3 and all(isinstance(v, list) for v in x):
            return [sorted(map(repr, v)) for v in x]
        return x
    if isinstance(x, (set, frozenset)):
        return sorted(map(repr, x))
    return spans(x) if isinstance(x, str) else x


def nothing(x, path=""):
    """first entry of a diff that claims a change"""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("t-test", "chi2-test", "column_name"):
                continue
            if k == "psi":
                if not (v is None or abs(v) < 1e-12):
                    return f"{path}/psi = {v}"
                continue
            r = nothing(v, f"{path}/{k}")
            if r:
                return r
        return None
    if isinstance(x, list):
        if path.endswith("data_stats"):
            for i, v in enumerate(x):
                r = nothing(v, f"{path}[{i}]")
                if r:
                    return r
            return None
        if len(x) == 3 and x[0] == {} and x[2] == {}:
            return nothing(x[1], path)
    if x is None or x == "unchanged":
        return None
    return f"{path} = {short(x)}"


def struct(case, ctx):
    pre, other, cfg = case
    p, q = c13.make(pre, cfg), c13.make(other, cfg)
    d = clean(p.diff(q))
    r1, r2 = p.report(), q.report()
    ctx.step()
    check_struct(ctx, d, r1, r2, full=cfg not in ("topk", "cms"))
    back = clean(q.diff(p))
    x = diff_path(canon(negate(d)), canon(back))
    ctx.check(x is None, lambda: f"swapped operands: {x}")
    for name, c in (("itself", p), ("a copy", copy.deepcopy(p) if cfg != "cms" else c13.make(pre, cfg))):
        x = nothing(clean(p.diff(c)))
        ctx.check(x is None, lambda: f"diff with {name}: {x}")
    for fmt in ("pretty", "serializable", "flat", "compact"):
        p.diff(q, options={"output_format": fmt})
        ctx.step()
    ctx.state(repr(canon(d))[:4000])


def values(case, ctx):
    """one column each, any values"""
    v1, v2 = case
    p, q = (fresh(frame({"a": list(v)})) for v in (v1, v2))
    r1, r2 = p.report(), q.report()
    d = clean(p.diff(q))
    ctx.step()
    check_struct(ctx, d, r1, r2)
    x = diff_path(canon(negate(d)), canon(clean(q.diff(p))))
    ctx.check(x is None, lambda: f"swapped operands: {x}")
    x = nothing(clean(p.diff(p)))
    ctx.check(x is None, lambda: f"diff with itself: {x}")
    ctx.state(repr(canon(d))[:4000])


def schema(case, ctx):
    n1, n2 = case
    p, q = (fresh(frame([(n, ["1", "2"]) for n in ns])) for ns in (n1, n2))
    d = clean(p.diff(q))
    ctx.step()
    check_struct(ctx, d, p.report(), q.report())
    ctx.state(repr(d["global_stats"]["profile_schema"]))


def text(case, ctx):
    bs1, c1, bs2, c2 = case

    def mk(bs, cfg):
        p = c10.build(bs[0], cfg)
        for b in bs[1:]:
            p.update_profile(pd.Series(list(b), dtype=object))
        return p

    p, q = mk(bs1, c1), mk(bs2, c2)
    d = clean(p.diff(q))
    ctx.step()
    r1, r2 = p.report(), q.report()
    for k in ("samples_used", "empty_line_count", "memory_size"):
        ctx.eq(d["global_stats"][k], d_num(r1["global_stats"][k], r2["global_stats"][k]), k)
    w1, w2 = ({"vocab": None, "vocab_count": None, "words": None, "word_count": None, **r["data_stats"]["statistics"]} for r in (r1, r2))
    g = d["data_stats"]["statistics"]
    ctx.eq(norm(g["vocab"]), norm(d_set(list(w1["vocab"] or []), list(w2["vocab"] or []))), "vocab")
    ctx.eq(g["vocab_count"], d_keys(dict(w1["vocab_count"] or {}), dict(w2["vocab_count"] or {}), d_num), "vocab_count")
    k1, k2 = dict(w1["word_count"] or {}), dict(w2["word_count"] or {})
    a1, a2 = list(w1["words"] or []), list(w2["words"] or [])
    if ("nocase" in c1) != ("nocase" in c2):
        def low(k):
            r = {}
            for x, n in k.items():
                r[x.lower()] = r.get(x.lower(), 0) + n
            return r
        k1, k2 = low(k1), low(k2)
        a1, a2 = sorted({x.lower() for x in a1}), sorted({x.lower() for x in a2})
    ctx.eq(norm(g["words"]), norm(d_set(a1, a2)), "words")
    ctx.eq(g["word_count"], d_keys(k1, k2, d_num), "word_count")
    x = diff_path(canon(negate(d)), canon(clean(q.diff(p))))
    ctx.check(x is None, lambda: f"swapped operands: {x}")
    x = nothing(clean(p.diff(p)))
    ctx.check(x is None, lambda: f"diff with itself: {x}")
    for fmt in ("pretty", "serializable", "flat", "compact"):
        p.diff(q, options={"output_format": fmt})
    ctx.state(repr(canon(d)))


def spaces(tier):
    big = tier == "thorough"
    PRE = list(c13.PRE)

    def c_pairs():
        for a, b in itertools.product(PRE, repeat=2):
            yield [a, b, "default"]

    def c_cfg():
        for cfg in c13.CFG:
            if cfg in ("default",):
                continue
            for a, b in [("nf", "n"), ("m:n+f", "0"), ("dd", "f"), ("sb", "0n"), ("f", "sb"), ("dd", "m:0+d")] if not big else itertools.product(PRE, repeat=2):
                yield [a, b, cfg]

    COLS = [["1"], ["0", "0"], ["-3", "5"], ["1.5", "2.25", "-1"], ["1e3", "0.001", "7"], ["a"], ["b", "ab", "a"], ["1/2/2013"],
            ["2014-03-04", "1/2/2013"], ["2014-03-04 08:00:00", "2014-03-04"], ["", "nan"], ["", "1"], ["2", "nan", "", "x"],
            ["a", "a", "b", "c", ""], ["10", "20", "30", "40", "50"], ["10", "10", "20", "20", "20"], ["0.1", "0.2", "0.2"],
            ["1", "x"]]

    def c_vals():
        for a, b in itertools.product(COLS, repeat=2):
            yield [a, b]
        if big:
            A = ["0", "2", "-1", "0.5", "", "nan", "a", "1/2/2013"]
            W = [list(w) for n in (1, 2) for w in itertools.product(A, repeat=n)]
            for a, b in itertools.product(W, repeat=2):
                yield [a, b]

    def c_schema():
        N = ["a", "b", 0, "A"]
        W = [list(w) for n in (1, 2, 3) for w in itertools.product(N[:3] if n == 3 else N, repeat=n)]
        W = W if big else [w for w in W if len(w) < 3 or len(set(map(str, w))) == 2]
        for a, b in itertools.product(W, repeat=2):
            if big or abs(len(a) - len(b)) < 2 and len(a) + len(b) != 5 and (len(a) < 3 or sorted(map(str, a)) == sorted(map(str, b))):
                yield [a, b]

    def c_text():
        U = [[["ab"]], [["AB the", ""], ["x'y ab", "ab"]], [[""]], [["ab AB Ab", "zz"]], [["q"], [""]]]
        C = ["plain", "nocase", "stop", "top", "top2", "novocab", "nowords"]
        for a, b in itertools.product(U, repeat=2):
            for c1, c2 in itertools.product(C, repeat=2):
                if c1 in ("novocab", "nowords") or c2 in ("novocab", "nowords"):
                    if c1 != c2:
                        continue
                yield [a, c1, b, c2]

    return [
        Space("pairs", f"every ordered pair of {len(PRE)} update/merge histories over 2 columns", c_pairs, struct),
        Space("configs", f"{len(c13.CFG) - 1} other configurations x pairs of histories", c_cfg, struct),
        Space("values", f"every ordered pair of {len(COLS)} columns (types, constants, nulls, one value)"
              + (" and of every column of up to 2 values over 8" if big else ""), c_vals, values),
        Space("schema", "every ordered pair of column-name tuples (repeated, reordered, different)", c_schema, schema),
        Space("text", "every ordered pair of unstructured histories and case/stop-word settings", c_text, text),
    ]
