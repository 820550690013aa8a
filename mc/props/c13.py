"""C13: reading, combining and saving never change their operands or the caller's objects."""
import copy
import itertools
import os
import pickle
import random
import shutil
import tempfile

from mc.engine import Space, diff_path, short
from mc.props import c10, c11
from mc.sut import clean, dp, facts, frame, np, opts, pd

ASSUMPTIONS = [
    "data labeler off; state is observed through the full serializable report (all statistics, quantiles and histogram) "
    "and through a continuation (update, merge, report), compared with a twin profile on which nothing was read",
    "lazily computed caches may change as long as no report or continuation shows it; timings are ignored",
    "changing a report after it was returned, and options objects with an enabled data labeler (the loaded labeler is "
    "stored in them by design), are out of scope",
]
CFG = c11.CONFIGS
PRE = {"n": ["n"], "f": ["f"], "nf": ["n", "f"], "dd": ["d", "d2"], "0": ["0"], "0n": ["0", "n"], "sb": ["s", "big"],
       "m:n+f": ["n", "+f"], "m:0+d": ["0", "+d"], "one": ["one"], "m:one+one": ["one", "+one"]}


def seed():
    random.seed(0)
    np.random.seed(0)


def make(pre, cfg):
    seed()
    p = None
    for b in PRE[pre]:
        if b[0] == "+":
            p = p + c11.build(b[1:], cfg, "text")
        elif p is None:
            p = c11.build(b, cfg, "text")
        else:
            p.update_profile(c11.df(b, start=100))
    return p


def snap(p):
    return facts(p, approx=True, drop=("times",))


REPORTS = {
    "rep": None,
    "pretty": {"output_format": "pretty"},
    "compact": {"output_format": "compact"},
    "compactomit": {"output_format": "compact", "omit_keys": ["global_stats.times"]},
    "flat": {"output_format": "flat", "omit_keys": ["data_stats.a.statistics.histogram"]},
    "ser7": {"output_format": "serializable", "num_quantile_groups": 7, "omit_keys": []},
    "nodis": {"output_format": "serializable", "remove_disabled_flag": True},
    "omit": {"output_format": "pretty", "omit_keys": ["*", "data_stats.*.samples"]},
}
OPS = list(REPORTS) + ["diff", "rdiff", "dself", "add", "radd", "pkl", "json", "look", "copy", "dopt"]
LIGHT = ["rep", "compactomit", "ser7", "diff", "rdiff", "add", "radd", "pkl", "json", "look"]


def op(o, p, q, d):
    """perform read-only operation o on p (q is the other profile); returns (what, before, after) of the arguments used"""
    seed()
    if o in REPORTS:
        r = REPORTS[o]
        arg = copy.deepcopy(r)
        p.report(arg) if arg is not None else p.report()
        return "report options", r, arg
    if o == "diff":
        p.diff(q)
    elif o == "rdiff":
        q.diff(p)
    elif o == "dself":
        p.diff(p)
    elif o == "dopt":
        r = {"output_format": "compact", "omit_keys": ["global_stats.times"]}
        arg = copy.deepcopy(r)
        p.diff(q, options=arg)
        return "diff options", r, arg
    elif o in ("add", "radd"):
        p + q if o == "add" else q + p
    elif o in ("pkl", "json"):
        try:
            p.save(filepath=os.path.join(d, o), save_method="pickle" if o == "pkl" else "json")
        except Exception:
            pass  # configurations that cannot be saved refuse (C11, C12); the profile must still be unchanged
    elif o == "look":
        for c in p.profile:
            c.profile, c.report(), c.sample, c.null_types_index
            for comp in c.profiles.values():
                comp.profile, comp.report(), getattr(comp, "selected_data_type", None)
                for x in comp._profiles.values():
                    x.profile, x.report()
        p._max_col_samples_used, p.total_samples, len(p.profile)
    elif o == "copy":
        copy.deepcopy(p)
        pickle.dumps(p)
    return None


def cont(p, k):
    seed()
    if k == "u":
        p.update_profile(c11.df("big", start=300))
    elif k == "m":
        p = p + c11.build("s", cont.cfg, "text")
    elif k == "r":
        p = c11.build("f", cont.cfg, "text") + p
    elif k == "uu":
        p.update_profile(c11.df("0", start=300))
        seed()
        p.update_profile(c11.df("n", start=400))
    return p


def run(case, ctx):
    pre, other, cfg, seq, ks = case
    p, twin = make(pre, cfg), make(pre, cfg)
    q, qtwin = make(other, cfg), make(other, cfg)
    fp, fq = snap(twin), snap(qtwin)
    d = tempfile.mkdtemp()
    try:
        for o in seq:
            a = op(o, p, q, d)
            ctx.step()
            if a:
                ctx.check(a[1] == a[2], lambda: f"{o} changed the caller's {a[0]}: {a[1]} -> {a[2]}")
            x = diff_path(fp, snap(p))
            ctx.check(x is None, lambda: f"{o} changed the profile: {x}")
            x = diff_path(fq, snap(q))
            ctx.check(x is None, lambda: f"{o} changed the other profile: {x}")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    cont.cfg = cfg
    for who, x, y in (("profile", p, twin), ("other", q, qtwin)):
        for k in ks:
            x, y = cont(x, k), cont(y, k)
            ctx.step()
            dd = diff_path(snap(y), snap(x))
            ctx.check(dd is None, lambda: f"after {seq} the {who}'s continuation {k} differs from that of an untouched one: {dd}")
    ctx.state((pre, cfg, repr(snap(p))))


def sharing(case, ctx):
    """r = a + b; then any of the three is updated (twice); the others never change"""
    pre, other, cfg, order = case
    a, b = make(pre, cfg), make(other, cfg)
    r = a + b
    objs = {"a": a, "b": b, "r": r}
    if "s" in order:  # and a second sum from the same operands
        seed()
        objs["s"] = b + a
    snaps = {k: snap(v) for k, v in objs.items()}
    for i, k in enumerate(order):
        seed()
        objs[k].update_profile(c11.df(("big", "0", "n", "d")[i % 4], start=1000 + 10 * i))
        ctx.step()
        snaps[k] = snap(objs[k])
        for j, v in objs.items():
            x = diff_path(snaps[j], snap(v))
            ctx.check(x is None, lambda: f"updating {k} changed {j}: {x}")
    # each also continues as if it were alone
    ctx.state(repr(snaps["r"]))


# ------------------------------------------------------------------ the caller's data and options
def obj(vals, index=None):
    return frame(vals, index=index)


DATA = {
    "str": lambda: frame({"a": ["1", " 2", "", "nan"], "b": ["x", "x", "None", "y "]}),
    "idx": lambda: frame({"a": ["1", "2", "", "4"], "b": ["x", "y", "x", "y"]}, index=[7, 7, 3, 40]),
    "sidx": lambda: frame({"a": ["1", "2", "", "4"]}, index=["p", "q", "r", "s"]),
    "typed": lambda: pd.DataFrame({"i": [1, 2, 3], "f": [0.5, np.nan, 2.0], "b": [True, False, True]}),
    "dates": lambda: pd.DataFrame({"d": pd.to_datetime(["2013-01-02", "2014-03-04"]), "s": ["u", None]}),
    "cat": lambda: pd.DataFrame({"c": pd.Categorical(["u", "v", "u"]), "n": [None, "", "3"]}),
    "multi": lambda: frame([("a", ["1", "2"]), ("a", ["3", "nan"]), (0, ["x", "y"])]),
    "empty": lambda: frame({"a": [], "b": []}),
    "series": lambda: pd.Series(["1", "", "3"], name="zz", index=[5, 1, 9]),
    "noname": lambda: pd.Series([1.5, None, 3]),
    "list": lambda: ["1", "", "3"],
}


def image(x):
    if isinstance(x, pd.DataFrame):
        return ([repr(c) for c in x.columns], [str(t) for t in x.dtypes], [repr(i) for i in x.index], type(x.index).__name__,
                [[repr(v) for v in x.iloc[:, j].tolist()] for j in range(x.shape[1])], x.index.name)
    if isinstance(x, pd.Series):
        return (repr(x.name), str(x.dtype), [repr(i) for i in x.index], [repr(v) for v in x.tolist()])
    return repr(x)


def oimage(o):
    """plain image of an options object"""
    if isinstance(o, dict):
        return {repr(k): oimage(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [oimage(v) for v in o]
    if hasattr(o, "__dict__") and type(o).__module__.startswith("dataprofiler"):
        return {k: oimage(v) for k, v in vars(o).items()}
    return repr(o)


def caller(case, ctx):
    """profiling (first, update, sampled) never changes the data or the options given; a shared options object is harmless"""
    kind, cfg, mode = case
    c = dict(CFG[cfg])
    kw = c.pop("_kw", {})
    o = opts(c)
    oi = oimage(o)
    data = DATA[kind]()
    im = image(data)
    kw = dict(kw)
    if mode == "sample":
        kw["samples_per_update"] = 2
    seed()
    p = dp.Profiler(data, options=o, profiler_type="structured", **kw)
    ctx.step()
    ctx.check(image(data) == im, lambda: f"profiling changed the data: {im} -> {image(data)}")
    ctx.check(oimage(o) == oi, lambda: f"profiling changed the options: {diff_path(oi, oimage(o))}")
    s1 = snap(p)
    if mode == "update":
        p.update_profile(data)
        ctx.check(image(data) == im, "updating changed the data")
    if mode == "args":
        p.update_profile(data, sample_size=2, min_true_samples=1)
        ctx.check(image(data) == im, "updating with a sample size changed the data")
    # the same options object gives the next profile the same start
    seed()
    p2 = dp.Profiler(data, options=o, profiler_type="structured", **kw)
    x = diff_path(s1, snap(p2))
    ctx.check(x is None, lambda: f"a second profile from the same options object differs: {x}")
    # the caller's later changes of the data do not reach the profile
    if isinstance(data, pd.DataFrame) and len(data):
        s2 = snap(p)
        data.iloc[:, :] = data.iloc[::-1].values
        x = diff_path(s2, snap(p))
        ctx.check(x is None, lambda: f"changing the data afterwards changed the profile: {x}")
    ctx.state(repr(s1))


# ------------------------------------------------------------------ unstructured
UOPS = ["rep", "pretty", "compactomit", "flat", "nodis", "diff", "rdiff", "add", "radd", "pkl", "copy"]


def usnap(p):
    return clean(p.report({"output_format": "serializable"}), ("times",))


def ustr(case, ctx):
    bs, other, cfg, seq, k = case

    def mk(bb):
        p = c10.build(bb[0], cfg)
        for b in bb[1:]:
            p.update_profile(pd.Series(list(b), dtype=object))
        return p

    p, twin, q, qt = mk(bs), mk(bs), mk(other), mk(other)
    fp, fq = usnap(twin), usnap(qt)
    d = tempfile.mkdtemp()
    try:
        for o in seq:
            seed()
            if o in REPORTS:
                arg = copy.deepcopy(REPORTS[o])
                p.report(arg) if arg is not None else p.report()
                ctx.check(arg == REPORTS[o], f"{o} changed the caller's report options: {arg}")
            elif o == "diff":
                p.diff(q)
            elif o == "rdiff":
                q.diff(p)
            elif o == "add":
                p + q
            elif o == "radd":
                q + p
            elif o == "pkl":
                p.save(filepath=os.path.join(d, "x"))
            elif o == "copy":
                copy.deepcopy(p)
            ctx.step()
            x = diff_path(fp, usnap(p)) or diff_path(fq, usnap(q))
            ctx.check(x is None, lambda: f"{o} changed an operand: {x}")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for x, y in ((p, twin), (q, qt)):
        if k == "u":
            x.update_profile(pd.Series(["AB zz", ""], dtype=object))
            y.update_profile(pd.Series(["AB zz", ""], dtype=object))
        elif k == "share":
            r = p + q
            s = usnap(r)
            x.update_profile(pd.Series(["AB zz", ""], dtype=object))
            y.update_profile(pd.Series(["AB zz", ""], dtype=object))
            dd = diff_path(s, usnap(r))
            ctx.check(dd is None, lambda: f"updating an operand changed the sum: {dd}")
            s = usnap(p), usnap(q)
            r.update_profile(pd.Series(["qq AB"], dtype=object))
            dd = diff_path(s, (usnap(p), usnap(q)))
            ctx.check(dd is None, lambda: f"updating the sum changed an operand: {dd}")
        else:
            z = c10.build(["the mm", ""], cfg)
            x, y = x + z, y + z
        dd = diff_path(usnap(y), usnap(x))
        ctx.check(dd is None, lambda: f"after {seq}, {k}: {dd}")
    ctx.state(repr(fp))


# ------------------------------------------------------------------ column profiles
def columns(case, ctx):
    """single column profile classes: reading between updates and adding leave the operands alone"""
    cls, batches, reads = case
    sketch = cls == "cms"
    cls = "cat" if sketch else cls
    from dataprofiler.profilers import (CategoricalColumn, DateTimeColumn, FloatColumn, IntColumn, OrderColumn,
                                        TextColumn)

    C = dict(cat=CategoricalColumn, date=DateTimeColumn, float=FloatColumn, int=IntColumn, order=OrderColumn,
             text=TextColumn)[cls]

    def mk(bs):
        c = C("a")
        if sketch:
            o = opts({"structured_options.category.cms": True, "structured_options.category.cms_confidence": 0.95,
                      "structured_options.category.cms_relative_error": 0.01, "structured_options.category.cms_max_num_heavy_hitters": 5})
            c = C("a", o.structured_options.category)
        for b in bs:
            c.update(pd.Series(list(b), dtype=object, name="a"))
        return c

    def look(c):
        x = dict(c.profile)
        x.pop("times", None)
        return clean(x, ("times",))

    p, t = mk(batches[:-1]), mk(batches[:-1])
    q, qt = mk(batches[-1:]), mk(batches[-1:])
    for r in reads:
        try:
            if r == "profile":
                p.profile
            elif r == "report":
                p.report()
                p.report(True)
            elif r == "diff":
                p.diff(q)
            elif r == "add":
                p + q
            elif r == "radd":
                q + p
        except Exception:
            if r in ("diff",):
                continue
            raise
        ctx.step()
    for x, y in ((p, t), (q, qt)):
        dd = diff_path(look(y), look(x))
        ctx.check(dd is None, lambda: f"{reads}: {dd}")
        x.update(pd.Series(list(batches[0]), dtype=object, name="a"))
        y.update(pd.Series(list(batches[0]), dtype=object, name="a"))
        dd = diff_path(look(y), look(x))
        ctx.check(dd is None, lambda: f"{reads} then update: {dd}")
    ctx.state(repr(look(p)))


def spaces(tier):
    big = tier == "thorough"

    def c_ops():
        for pre, other in ([("nf", "dd"), ("dd", "nf"), ("m:n+f", "0"), ("0n", "m:one+one")] if not big else
                           list(itertools.product(PRE, repeat=2))):
            for o in OPS:
                yield [pre, other, "default", [o], ["u", "m"] if not big else ["u", "m", "r", "uu"]]

    def c_pairs():
        for pre, other in [("nf", "dd")] + ([("m:n+f", "0n"), ("dd", "m:0+d"), ("one", "nf")] if big else []):
            for s in itertools.product(OPS if big else LIGHT, repeat=2):
                yield [pre, other, "default", list(s), ["u"]]
            if big:
                for s in itertools.product(LIGHT, repeat=3):
                    yield [pre, other, "default", list(s), ["u"]]

    def c_cfg():
        for cfg in CFG:
            for pre, other in [("nf", "m:n+f")] + ([("dd", "0n"), ("m:0+d", "sb"), ("one", "0")] if big else []):
                for s in [["rep", "pretty", "flat", "look"], ["diff", "rdiff", "compactomit"], ["add", "radd"], ["pkl", "json", "ser7"]]:
                    yield [pre, other, cfg, s, ["u", "m"]]

    def c_share():
        for cfg in (["default", "corr", "nullrep", "hll", "bins", "cms", "topk"] if not big else CFG):
            for pre, other in [("n", "f"), ("nf", "0"), ("0", "nf"), ("m:n+f", "one")] if not big else itertools.product(
                    ["n", "f", "nf", "0", "0n", "dd", "m:n+f", "m:0+d"], repeat=2):
                for order in ([["r", "a", "b"], ["a", "b", "r"], ["b", "r", "a"]] if not big else
                              list(itertools.permutations("abr")) + [tuple("rsab"), tuple("arbs"), tuple("rarb")]):
                    yield [pre, other, cfg, list(order)]

    def c_caller():
        for k in DATA:
            for cfg in ["default", "corr", "nullrep", "hll", "nulls", "colnulls", "norows"] if not big else CFG:
                for mode in ("plain", "update", "sample", "args"):
                    if k == "empty" and cfg == "nullrep":
                        continue
                    yield [k, cfg, mode]

    def c_un():
        U = [[["ab"]], [["AB the", ""], ["x'y ab", "ab"]], [[""]]]
        for cfg in ("plain", "nocase", "top", "nowords", "novocab"):
            for a in U:
                for b in U if big else U[1:2]:
                    for k in ("u", "m", "share"):
                        for s in [[x] for x in UOPS] + [list(x) for x in itertools.product(UOPS, repeat=2)] * (1 if big or cfg in ("plain", "top") else 0):
                            yield [a, b, cfg, s, k]

    V = {"int": ["0", "3", "-2"], "float": ["0", "1.5", "-2.25"], "text": ["a", "bb", "7"], "cat": ["a", "b", "c"],
         "order": ["1", "2", "b"], "date": ["1/2/2013", "2014-03-04", "zz"], "cms": ["a", "b", "c"]}

    def c_cols():
        for cls, al in V.items():
            for bs in [[[al[0]], [al[1]]], [[al[2], al[0]], [al[1], al[1]], [al[0]]], [[], [al[0], al[1]]], [[al[0], al[1], al[2]], []]]:
                for r in itertools.product(["profile", "report", "diff", "add", "radd"], repeat=2 if not big else 3):
                    yield [cls, bs, list(r)]

    return [
        Space("ops", f"each of {len(OPS)} read-only operations on {'4 pairs' if not big else 'every pair'} of {len(PRE)} histories, "
              "then updates/merges, against an untouched twin", c_ops, run),
        Space("pairs", f"every sequence of {'2 (and 3)' if big else '2'} read-only operations between updates", c_pairs, run),
        Space("configs", f"{len(CFG)} configurations x 4 sequences of read-only operations x continuations", c_cfg, run),
        Space("sharing", "sum and operands updated in every order: updating one never changes the others", c_share, sharing),
        Space("caller", f"{len(DATA)} kinds of input x configurations x ways of profiling: data and options unmodified", c_caller, caller),
        Space("unstructured", "unstructured profiles: read-only operations (all pairs) x continuations", c_un, ustr),
        Space("columns", "6 column profile classes (and the categories' sketch) x all pairs of reads", c_cols, columns),
    ]
