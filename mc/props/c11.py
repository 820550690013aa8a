"""C11: a loaded profile is the saved profile, now and for every continuation."""
import itertools
import os
import pickle
import random
import re
import shutil
import tempfile

from mc.engine import Space, Violation, diff_path, short
from mc.sut import BASE, clean, dp, facts, frame, fresh, np, opts, pd, series

ASSUMPTIONS = [
    "data labeler off in most histories (on, with the shipped regex model, in space 'labeler')",
    "randomly drawn example values ('samples') are compared right after loading only",
    "JSON saving refuses configurations it does not support (approximate row counting / sketches, unstructured "
    "profiles): such a refusal must be an error at save time, never a wrong profile",
]
S = "structured_options."
CONFIGS = {
    "default": {},
    "corr": {S + "correlation.is_enabled": True},
    "nullrep": {S + "null_replication_metrics.is_enabled": True},
    "hll": {S + "row_statistics.unique_count.hashing_method": "hll"},
    "cms": {S + "category.cms": True, S + "category.cms_confidence": 0.95, S + "category.cms_relative_error": 0.01,
            S + "category.cms_max_num_heavy_hitters": 10},
    "topk": {S + "category.top_k_categories": 1},
    "bins": {"*.histogram_and_quantiles.bin_count_or_method": 3},
    "quantiles": {"*.num_quantiles": 4},
    "nobias": {"*.bias_correction.is_enabled": False},
    "nohist": {"*.histogram_and_quantiles.is_enabled": False, "*.median.is_enabled": False,
               "*.mode.is_enabled": False, "*.median_abs_deviation.is_enabled": False},
    "novar": {"*.variance.is_enabled": False, "*.skewness.is_enabled": False, "*.kurtosis.is_enabled": False},
    "nulls": {S + "null_values": {"1": 0, "X": re.IGNORECASE}},
    "colnulls": {S + "column_null_values": {0: {"2": 0}, 1: {"aa": 0}}},
    "stop": {S + "category.max_sample_size_to_check_stop_condition": 2,
             S + "category.stop_condition_unique_value_ratio": 0.5},
    "norows": {S + "row_statistics.is_enabled": False},
    "noorder": {S + "order.is_enabled": False},
    "nocat": {S + "category.is_enabled": False, S + "chi2_homogeneity.is_enabled": False},
    "nodate": {S + "datetime.is_enabled": False},
    "noprims": {S + "int.is_enabled": False, S + "float.is_enabled": False, S + "text.is_enabled": False},
    "spu": {"_kw": {"samples_per_update": 2, "min_true_samples": 1}},
}
NAMES = {"text": ["a", "b"], "ints": [0, 1], "digits": ["0", "1"], "same": ["a", "a"], "case": ["A", "a"],
         "mixed": ["x", 1], "gap": [10, 7]}
# batches: rows of (col0, col1); the second column sweeps the data types
B = {
    "n": [["1", "aa"], ["2", "b"], ["2", "aa"], ["", "c"]],
    "f": [["0", "1.5"], ["-3", "2.25"], ["7", ""]],
    "d": [["1", "1/2/2013"], ["2", "3/4/2014"]],
    "d2": [["5", "2011-12-25"], ["nan", "3/4/2014"]],
    "0": [["", ""], ["None", "nan"]],
    "one": [["5", "z"]],
    "s": [["x", "aa"], ["y", "bb"], ["x", "aa"]],
    "big": [["1e3", "-4"], ["0.125", "1000000"], ["3.5", "12"]],
}
_kw = {}


def df(b, names="text", start=0):
    rows = B[b]
    return frame([(n, [r[i] for r in rows]) for i, n in enumerate(NAMES[names])],
                 index=list(range(start, start + len(rows))))


def build(b, cfg, names):
    c = dict(CONFIGS[cfg])
    kw = c.pop("_kw", {})
    c = {k: v for k, v in c.items()}
    return fresh(df(b, names), c, **kw)


def full(p, samples=False):
    f = facts(p, approx=True, drop=("times",) if samples else ("times", "samples"))
    return f


def do(f):
    """outcome of an operation: its value, or the error's type"""
    random.seed(0)
    np.random.seed(0)
    try:
        return "ok", f()
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:
        return "error", type(e).__name__


def save_load(p, method, d, explicit):
    path = os.path.join(d, "p.bin")
    kind, v = do(lambda: p.save(filepath=path, save_method=method))
    if kind == "error":
        return kind, v
    kind, v = do(lambda: type(p).load(path, load_method=method) if explicit else dp.Profiler.load(path))
    os.remove(path)
    if kind == "error":
        raise Violation(f"loading a just saved {method} profile failed: {v}")
    return "ok", v


MAY_REFUSE = {"hll": ("json",), "cms": ("json", "pickle")}


def run(case, ctx):
    prefix, cfg, names, method, conts = case
    d = tempfile.mkdtemp(dir=os.environ.get("MC_TMP"))
    try:
        p = None
        for op in prefix:
            if op[0] == "u":
                if p is None:
                    p = build(op[1:], cfg, names)
                else:
                    p.update_profile(df(op[1:], names, 100))
            elif op[0] == "m":
                p = p + build(op[1:], cfg, names)
            ctx.step()
        before = full(p, True)
        sl = do(lambda: save_load(p, method, d, names != "text"))
        if sl[0] == "error":
            # let the violation surface
            sl = save_load(p, method, d, names != "text")
        kind, q = sl[1]
        ctx.step()
        after = full(p, True)
        dd = diff_path(before, after)
        ctx.check(dd is None, lambda: f"saving changed the profile: {dd}")
        if kind == "error":
            ctx.check(method in MAY_REFUSE.get(cfg, ()), lambda: f"saving failed: {q}")
            ctx.state(("refused", cfg))
            return
        got = full(q, True)
        dd = diff_path(before, got)
        ctx.check(dd is None, lambda: f"loaded profile reports differently: {dd}")
        other = None
        for op in conts:
            if op == "m" or op == "r" or op == "diff":
                other = build("n", cfg, names)
            o = {
                "u": lambda x: x.update_profile(df("f", names, 200)),
                "ud": lambda x: x.update_profile(df("d2", names)),
                "us": lambda x: x.update_profile(df("s", names, 50)),
                "ux": lambda x: x.update_profile(frame([("other", ["1"])])),
                "m": lambda x: x + other,
                "r": lambda x: other + x,
                "diff": lambda x: x.diff(other),
                "P": lambda x: save_load(x, "pickle", d, False),
                "J": lambda x: save_load(x, "json", d, False),
                "rep": lambda x: [clean(x.report({"output_format": f}), ("times", "samples"))
                                  for f in ("pretty", "compact", "flat", "serializable")],
            }[op]
            a, b = do(lambda: o(p)), do(lambda: o(q))
            ctx.step()
            ctx.check(a[0] == b[0] and (a[0] == "ok" or a[1] == b[1]), lambda: f"{op}: original {short(a)} loaded {short(b)}")
            if a[0] == "error":
                continue
            if op in ("m", "r"):
                p, q = a[1], b[1]
            elif op in ("P", "J"):
                ctx.check(a[1][0] == b[1][0], lambda: f"{op}: original {short(a)} loaded {short(b)}")
                if a[1][0] == "ok":
                    p, q = a[1][1], b[1][1]
            elif op in ("diff", "rep"):
                x, y = clean(a[1]), clean(b[1])
                if op == "diff":
                    x, y = norm(x), norm(y)
                dd = diff_path(x, y) if op == "diff" else diff_path(norm(x), norm(y))
                ctx.check(dd is None, lambda: f"{op} differs between original and loaded profile: {dd}")
                continue
            x, y = full(p), full(q)
            dd = diff_path(x, y)
            ctx.check(dd is None, lambda: f"after {op} original and loaded profile differ: {dd}")
            ctx.state(repr(x)[:3000])
        ctx.state(repr(before)[:3000])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def norm(x):
    """lists of texts (sets in disguise) without their order"""
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        y = [norm(v) for v in x]
        if y and all(isinstance(v, str) for v in y):
            y = sorted(y)
        return y
    if isinstance(x, str) and x[:1] in "[{":
        return "".join(sorted(x))
    return x


# ------------------------------------------------------------------ unstructured
def unstruct(case, ctx):
    batches, cfg, conts = case
    from mc.props.c10 import build as ubuild

    d = tempfile.mkdtemp(dir=os.environ.get("MC_TMP"))

    def rep(p):
        return clean(p.report(), ("times",))

    try:
        p = ubuild(batches[0], cfg)
        for b in batches[1:]:
            p.update_profile(pd.Series(list(b), dtype=object))
        before = rep(p)
        path = os.path.join(d, "u.pkl")
        p.save(filepath=path)
        q = dp.Profiler.load(path)
        ctx.step()
        for x, what in ((rep(p), "saving changed the profile"), (rep(q), "loaded profile reports differently")):
            dd = diff_path(before, x)
            ctx.check(dd is None, lambda: f"{what}: {dd}")
        ctx.eq(list(q.sample), list(p.sample), "sample")
        kind, v = do(lambda: p.save(filepath=os.path.join(d, "u.json"), save_method="json"))
        ctx.check(kind == "error", "JSON saving of an unstructured profile is not supported and must raise")
        for op in conts:
            if op == "u":
                for x in (p, q):
                    x.update_profile(pd.Series(["ab New", ""], dtype=object))
            elif op == "m":
                p, q = p + ubuild(["x y"], cfg), q + ubuild(["x y"], cfg)
            elif op == "r":
                p, q = ubuild(["x y"], cfg) + p, ubuild(["x y"], cfg) + q
            elif op == "P":
                p.save(filepath=path)
                p = dp.Profiler.load(path)
                q.save(filepath=path)
                q = dp.Profiler.load(path)
            ctx.step()
            dd = diff_path(rep(p), rep(q))
            ctx.check(dd is None, lambda: f"after {op}: {dd}")
        ctx.state(repr(rep(q)))
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ columns (JSON round trip of every column profile)
def columns(case, ctx):
    """column-level: encode/decode after a prefix, then continue with updates and a merge"""
    import json

    from dataprofiler.profilers.json_decoder import load_column_profile
    from dataprofiler.profilers.json_encoder import ProfileEncoder

    cls, vals, cont = case
    import dataprofiler.profilers as P
    from dataprofiler.profilers import (CategoricalColumn, DateTimeColumn, FloatColumn, IntColumn, OrderColumn,
                                        TextColumn)

    C = dict(cat=CategoricalColumn, date=DateTimeColumn, float=FloatColumn, int=IntColumn, order=OrderColumn,
             text=TextColumn)[cls]
    p = C("a")
    if vals:
        p.update(series(vals))
    before = norm(clean(p.profile))
    q = load_column_profile(json.loads(json.dumps(p, cls=ProfileEncoder)))
    ctx.step()
    for x, what in ((p, "encoding changed the profile"), (q, "decoded profile differs")):
        dd = diff_path(before, norm(clean(x.profile)))
        ctx.check(dd is None, lambda: f"{what}: {dd}")
    for b in cont:
        b = list(b)
        p.update(series(b))
        q.update(series(b))
        ctx.step()
        dd = diff_path(norm(clean(p.profile)), norm(clean(q.profile)))
        ctx.check(dd is None, lambda: f"after update {b}: {dd}")
    o = C("a")
    o.update(series(["3", "1/2/2013", "b"] if cls in ("date", "cat", "order", "text") else ["3", "-2"]))
    for l, r in (((p, o), (q, o)), ((o, p), (o, q))):
        dd = diff_path(norm(clean((l[0] + l[1]).profile)), norm(clean((r[0] + r[1]).profile)))
        ctx.check(dd is None, lambda: f"after merge: {dd}")
    ctx.state(repr(clean(q.profile)))


# ------------------------------------------------------------------ with a data labeler
_rdir = []


def regex_dir():
    """a column labeler made of the shipped regex model, saved once per process"""
    if not _rdir:
        from dataprofiler.labelers.data_processing import StructRegexPostProcessor

        d = tempfile.mkdtemp(dir=os.environ.get("MC_TMP"))
        l = dp.DataLabeler.load_from_library("regex_model")
        l.set_postprocessor(StructRegexPostProcessor(random_state=0))
        l.save_to_disk(d)
        _rdir.append(d)
    return _rdir[0]


def labeler(case, ctx):
    which, method, prefix, conts = case
    d = tempfile.mkdtemp(dir=os.environ.get("MC_TMP"))

    def mk(b):
        o = opts({})
        dl = o.structured_options.data_labeler
        dl.is_enabled = True
        if which == "dirpath":
            dl.data_labeler_dirpath = regex_dir()
        return dp.Profiler(df(b), options=o, profiler_type="structured")

    def rep(p):
        return full(p, False)

    try:
        p = None
        for op in prefix:
            if p is None:
                p = mk(op[1:])
            elif op[0] == "u":
                p.update_profile(df(op[1:], start=100))
            else:
                if which == "dirpath":
                    continue
                p = p + mk(op[1:])
        before = rep(p)
        path = os.path.join(d, "p")
        p.save(filepath=path, save_method=method)
        q = dp.Profiler.load(path)
        ctx.step()
        for x, what in ((p, "saving changed the profile"), (q, "loaded profile reports differently")):
            dd = diff_path(before, rep(x))
            ctx.check(dd is None, lambda: f"{what}: {dd}")
        for op in conts:
            if op == "u":
                r = do(lambda: p.update_profile(df("f", start=300))), do(lambda: q.update_profile(df("f", start=300)))
            elif op == "m":
                o = mk("n")
                r = do(lambda: p + o), do(lambda: q + o)
                if r[0][0] == r[1][0] == "ok":
                    p, q = r[0][1], r[1][1]
            else:
                r = do(lambda: p.save(filepath=path, save_method=method)), do(lambda: q.save(filepath=path, save_method=method))
            ctx.step()
            # two separately loaded random states are never equal, so regex labelers refuse to merge: both must refuse
            ctx.check(r[0][0] == r[1][0] and (r[0][0] == "ok" or (op == "m" and which == "dirpath")),
                      lambda: f"{op}: {short(r)}")
            dd = diff_path(rep(p), rep(q))
            ctx.check(dd is None, lambda: f"after {op}: {dd}")
        ctx.state(repr(rep(q))[:3000])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def spaces(tier):
    big = tier == "thorough"
    PRE = [["u" + b] for b in B] + [["un", "uf"], ["ud", "ud2"], ["u0", "un"], ["un", "mf"], ["u0", "mn"], ["uone", "ms"]]
    CONT1 = ["u", "ud", "ux", "m", "r", "diff", "P", "J", "rep"]

    def c_configs():
        for cfg in CONFIGS:
            for m in ("pickle", "json"):
                for pre in ([["un"], ["un", "mf"], ["uone"], ["u0", "uf"]] if not big else PRE):
                    for c in ([["u", "m"], ["r", "ud"]] if not big else
                              [list(x) for x in itertools.permutations(["u", "m", "r", "J", "P"], 2)]):
                        yield [pre, cfg, "text", m, c]

    def c_hist():
        for pre in PRE:
            for m in ("pickle", "json"):
                for c in CONT1:
                    yield [pre, "default", "text", m, [c]]
                    if big:
                        for c2 in CONT1:
                            yield [pre, "default", "text", m, [c, c2]]
                yield [pre, "corr", "text", m, ["rep", "u", "m"]]
                yield [pre, "nullrep", "text", m, ["rep", "u"]]

    def c_names():
        for nm in NAMES:
            for m in ("pickle", "json"):
                for pre in [["un"], ["uf", "ms"]] + (PRE if big else []):
                    for c in [["u", "us"], ["m", "u"], ["diff", "J"], ["J", "r"]]:
                        for cfg in ("default", "colnulls") + (("corr", "nullrep") if nm != "same" else ()):
                            if not big and cfg in ("corr", "nullrep") and (pre != ["un"] or c[0] in ("diff", "J")):
                                continue
                            yield [pre, cfg, nm, m, c]

    def c_unstruct():
        U = [["ab"], ["AB the", ""], [""], ["x'y ab", "ab"]]
        for cfg in ("plain", "nocase", "stop", "top", "nowords"):
            for k in (1, 2):
                for bs in itertools.product(U, repeat=k):
                    for c in itertools.product(["u", "m", "r", "P"], repeat=2 if big else 1):
                        yield [list(bs), cfg, list(c)]
                    yield [list(bs), cfg, ["P", "u", "m"]]

    def c_labeler():
        for which, m in (("dirpath", "pickle"), ("default", "json"), ("default", "pickle")):
            for pre in (["un"], ["un", "uf"], ["us", "mn"], ["u0", "ud"], ["uone"]) if which == "dirpath" or big else (["us"],):
                for c in (["u", "m"], ["s", "u"], ["m", "s"]):
                    yield [which, m, pre, c]

    V = {"int": ["0", "3", "-2"], "float": ["0", "1.5", "-2.25"], "text": ["a", "bb", "7"], "cat": ["a", "b", "c"],
         "order": ["1", "2", "b"], "date": ["1/2/2013", "2014-03-04", "zz"]}

    def c_columns():
        for cls, al in V.items():
            n = 3 if big else 2
            for k in range(0, n + 1):
                for v in itertools.product(al, repeat=k):
                    for cont in [[], [[al[0]]], [[al[2]]], [[al[1], al[2]], [al[0]]]]:
                        yield [cls, list(v), cont]

    DATES = ["2013-03-05 15:43:30", "2013-03-06T15:43:30", "2013-03-06T15:43:30.123456Z", "2013-03-06t15:43:30.123456z", "03/10/13 15:43",
             "3/8/2013 15:43", "20130306T154330", "2013-03-07", "3/8/2013", "03/11/13", "Mar 11, 2013", "March 9, 2013", "12Mar13", "Mar-13-13",
             "03142013", "05:46:30.258509"]

    def c_dates():
        # every written form of dates in the saved profile x every form after it (also earlier and later dates of both)
        for a, b in itertools.product(DATES, repeat=2):
            for v in ([a], [a, b]) if not big else ([a], [a, b], [b, a, a.replace("3", "4", 1)], [a.replace("3", "2", 1)]):
                for cont in ([[b]], [[a.replace("13", "15")], [b.replace("13", "11")]]):
                    yield ["date", list(v), cont]

    return [
        Space("dates", "each pair of the 16 written forms of dates: JSON round trip, continued by updates and merges", c_dates, columns),
        Space("configs", f"{len(CONFIGS)} configurations x pickle/json x prefixes of updates and merges x continuations",
              c_configs, run),
        Space("histories", f"{len(PRE)} prefixes x pickle/json x every continuation of length {2 if big else 1} over "
              f"{len(CONT1)} operations", c_hist, run),
        Space("names", "7 column-name shapes (integers, digit texts, repeated, mixed) x methods x continuations", c_names, run),
        Space("unstructured", "unstructured profiles x 5 configurations x continuations (pickle; JSON must refuse)",
              c_unstruct, unstruct),
        Space("labeler", "profiles with a data labeler (shipped regex model; default model) x save method x continuations", c_labeler, labeler),
        Space("columns", f"every value sequence up to {3 if big else 2} for each of 6 column profile classes, JSON round trip, "
              "continued by updates and merges", c_columns, columns),
    ]
