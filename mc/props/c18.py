"""C18: options remove exactly what they name; report formats agree."""
import itertools
import json
import math

from mc.engine import Space, diff_path, isnan, same
from mc.sut import clean, dp, facts, frame, fresh, np, opts, pd

import dataprofiler.profilers.profiler_options as po

ASSUMPTIONS = [
    "data labeler off; a disabled statistic still shows an empty placeholder (None, nan, 0, empty) unless the report is asked "
    "to remove disabled ones, then its key is gone; the mean goes with the sum, the standard deviation with the variance, the "
    "histogram with the quantiles",
    "pretty shortens long lists and rounds floats to 4 digits; compact is pretty without times, label details, null positions "
    "and histogram; flat joins the keys with '_' (empty dictionaries vanish)",
    "turning a data type's analysis off removes it from the type detection; the reported type is then the next one that fits",
]
SO = "structured_options."
NUM = ["min", "max", "mode", "median", "sum", "variance", "skewness", "kurtosis", "median_abs_deviation", "num_zeros",
       "num_negatives", "histogram_and_quantiles"]
GONE = {"sum": ["sum", "mean"], "variance": ["variance", "stddev"], "histogram_and_quantiles": ["histogram", "quantiles"]}


def valid(off):
    on = set(NUM) - set(off)
    if "variance" in on and "sum" not in on:
        return False
    if "skewness" in on and not {"sum", "variance"} <= on:
        return False
    if "kurtosis" in on and not {"sum", "variance", "skewness"} <= on:
        return False
    if "histogram_and_quantiles" not in on and on & {"mode", "median", "median_abs_deviation"}:
        return False
    return True


def gone(off):
    return {k for o in off for k in GONE.get(o, [o])}


def empty(v):
    if v is None or isnan(v):
        return True
    if isinstance(v, (int, float)) and v == 0:
        return True
    if isinstance(v, dict):
        return all(empty(x) or k == "confidence_level" for k, x in v.items())
    if isinstance(v, (list, tuple, set, frozenset)):
        return all(empty(x) for x in v)
    return False


DATA = {
    "int": [["3", "0", "-2", "3", ""], ["7", "0", "nan"]],
    "float": [["1.5", "-0.25", "0", "1.5"], ["10.125", ""]],
    "text": [["ab", "c", "", "ab"], ["xyz", "c"]],
}


def stats(kind, setdict, rm, mode):
    bs = DATA[kind]
    mk = [frame([("x", b)], index=range(i * 10, i * 10 + len(b))) for i, b in enumerate(bs)]
    p = fresh(mk[0], setdict)
    if mode == "m":
        p = p + fresh(mk[1], setdict)
    else:
        p.update_profile(mk[1])
    r = clean(p.report({"remove_disabled_flag": True}) if rm else p.report())
    for c in r["data_stats"]:
        c.pop("samples")
    r["global_stats"].pop("file_type")
    return r


_base = {}
LIGHT = {SO + "datetime.is_enabled": False, SO + "chi2_homogeneity.is_enabled": False}


def base(kind, rm, mode):
    if (kind, rm, mode) not in _base:
        _base[kind, rm, mode] = stats(kind, LIGHT, rm, mode)
    return _base[kind, rm, mode]


def untyped(x):
    if isinstance(x, dict):
        return {("text" if k == "string" else k): untyped(v) for k, v in x.items()}
    if isinstance(x, list):
        return [untyped(v) for v in x]
    return "text" if isinstance(x, str) and x == "string" else x


def numeric(case, ctx):
    kind, off, extra, mode = case
    off = [o for o in off if not (kind == "text" and o in ("num_zeros", "num_negatives"))]
    sd = {SO + f"{kind}.{o}.is_enabled": False for o in off}
    names = gone(off)
    if extra:
        sd[SO + f"{kind}.{extra}.is_enabled"] = False
        names |= {extra}
    sd.update(LIGHT)
    for rm in (True, False):
        b, g = base(kind, rm, mode), stats(kind, sd, rm, mode)
        ctx.step()
        if kind == "text" and "max" in off:  # "string" means text of known length of up to 255
            g, b = untyped(g), untyped(b)
        gs, bs = g["data_stats"][0]["statistics"], b["data_stats"][0]["statistics"]
        for k in names:
            if rm:
                ctx.check(k not in gs, lambda: f"{kind}: {k} is disabled but still in the report")
            elif k in gs:
                ctx.check(empty(gs[k]), lambda: f"{kind}: {k} is disabled but reported as {gs[k]}")
        a = {k: v for k, v in gs.items() if k not in names}
        w = {k: v for k, v in bs.items() if k not in names}
        d = diff_path(a, w)
        ctx.check(d is None, lambda: f"{kind} without {off}{extra} changes other statistics (removed={rm}): {d}")
        x = {**g, "data_stats": [{k: v for k, v in g["data_stats"][0].items() if k != "statistics"}]}
        y = {**b, "data_stats": [{k: v for k, v in b["data_stats"][0].items() if k != "statistics"}]}
        d = diff_path(x, y)
        ctx.check(d is None, lambda: f"{kind} without {off}{extra} changes the rest of the report: {d}")
    ctx.state((kind, tuple(sorted(names))))


OPT = {"int": po.IntOptions, "float": po.FloatOptions, "text": po.TextOptions}


def validate(case, ctx):
    """inconsistent combinations are refused when the options are used"""
    kind, mask = case
    off = [k for i, k in enumerate(NUM) if mask >> i & 1]
    if kind == "text":
        off = [o for o in off if o not in ("num_zeros", "num_negatives")]
    if len(off) < 3:
        o = opts({SO + f"{kind}.{x}.is_enabled": False for x in off})
    else:
        o = OPT[kind]()
        o.set({f"{x}.is_enabled": False for x in off})
    try:
        o.validate()
        ok = True
    except ValueError:
        ok = False
    ctx.step()
    if kind == "text":
        want = valid(set(off) | {"num_zeros", "num_negatives"})
    else:
        want = valid(off)
    ctx.check(ok == want, lambda: f"{kind} options without {off}: {'accepted' if ok else 'refused'}")
    ctx.state((kind, ok))


TYPES = ["datetime", "int", "float", "text"]
TCOLS = [("i", ["1", "2", "2", ""]), ("f", ["1.5", "2", "-1", "0"]), ("s", ["ab", "c", "nan", "1"]),
         ("d", ["1/2/2013", "3/4/2014", "", "1/2/2013"]), ("n", ["", "", "nan", ""])]
_only = {}


def table_report(sd, mode="u", rm=False):
    a = frame([(n, v[:2]) for n, v in TCOLS], index=range(2))
    b = frame([(n, v[2:]) for n, v in TCOLS], index=range(2, 4))
    p = fresh(a, sd)
    if mode == "m":
        p = p + fresh(b, sd)
    else:
        p.update_profile(b)
    r = clean(p.report({"remove_disabled_flag": rm}))
    for c in r["data_stats"]:
        c.pop("samples")
    return r


def types(case, ctx):
    off, mode = case
    chi = {SO + "chi2_homogeneity.is_enabled": False}
    on = [t for t in TYPES if t not in off]
    g = table_report({**chi, **{SO + f"{t}.is_enabled": False for t in off}}, mode)
    if mode not in _only:
        _only[mode] = {t: table_report({**chi, **{SO + f"{u}.is_enabled": False for u in TYPES if u != t}}, mode) for t in TYPES}
        _only[mode][""] = table_report(chi, mode)
    full = _only[mode][""]
    ctx.step()
    d = diff_path(g["global_stats"], full["global_stats"])
    ctx.check(d is None, lambda: f"types off {off}: {d}")
    nm = {"text": "string"}
    for c, f in zip(g["data_stats"], full["data_stats"]):
        for k in ("categorical", "order", "column_name"):
            ctx.eq(c.get(k), f.get(k), f"types off {off}: column {c['column_name']} {k}")
        name = c["column_name"]
        rep = full["data_stats"][[x for x, _ in TCOLS].index(name)]["statistics"].get("data_type_representation")
        if rep is None:  # all null
            ctx.eq(c["data_type"], None, f"data type of {name}")
            continue
        rep = {k: v for k, v in rep.items() if k in [nm.get(t, t) for t in on] or k in on}
        fit = [t for t in on if rep.get(nm.get(t, t), rep.get(t)) == 1.0]
        want = fit[0] if fit else None
        got = c["data_type"]
        ctx.check(got == want or got == nm.get(want), lambda: f"types off {off}: column {name} is {got}, expected {want}")
        if want:
            ctx.eq(c["statistics"]["data_type_representation"], rep, f"types off {off}: representation of {name}")
            w = dict(_only[mode][want]["data_stats"][[x for x, _ in TCOLS].index(name)]["statistics"])
            w["data_type_representation"] = rep
            d = diff_path(c["statistics"], w)
            ctx.check(d is None, lambda: f"types off {off}: statistics of {name}: {d}")
    ctx.state((tuple(off), mode))


GLOBAL = {
    "order": ({SO + "order.is_enabled": False}, ["order"], [], []),
    "category": ({SO + "category.is_enabled": False, SO + "chi2_homogeneity.is_enabled": False}, ["categorical"],
                 ["unique_count", "unique_ratio", "categories", "gini_impurity", "unalikeability", "categorical_count"], ["chi2_matrix"]),
    "chi2": ({SO + "chi2_homogeneity.is_enabled": False}, [], [], ["chi2_matrix"]),
    "rows": ({SO + "row_statistics.is_enabled": False}, [], [],
             ["row_has_null_ratio", "row_is_null_ratio", "unique_row_ratio", "duplicate_row_count"]),
    "unique": ({SO + "row_statistics.unique_count.is_enabled": False}, [], [], ["unique_row_ratio", "duplicate_row_count"]),
    "nullrows": ({SO + "row_statistics.null_count.is_enabled": False}, [], [], ["row_has_null_ratio", "row_is_null_ratio"]),
    "vocab": ({SO + "text.vocab.is_enabled": False}, [], ["vocab"], []),
    "precision": ({SO + "float.precision.is_enabled": False}, [], ["precision"], []),
}
_full = {}


def whole(case, ctx):
    flags, mode, rm = case
    sd, ck, sk, gk = {}, set(), set(), set()
    for f in flags:
        s, a, b, c = GLOBAL[f]
        sd.update(s)
        ck |= set(a)
        sk |= set(b)
        gk |= set(c)
    if (mode, rm) not in _full:
        _full[mode, rm] = table_report({}, mode, rm)
    b, g = _full[mode, rm], table_report(sd, mode, rm)
    ctx.step()
    for k in gk:
        ctx.check(g["global_stats"].get(k) is None, lambda: f"without {flags}: {k} is {g['global_stats'][k]}")
    d = diff_path({k: v for k, v in g["global_stats"].items() if k not in gk},
                  {k: v for k, v in b["global_stats"].items() if k not in gk})
    ctx.check(d is None, lambda: f"without {flags}: {d}")
    for c, f in zip(g["data_stats"], b["data_stats"]):
        for k in ck:
            ctx.check(c.get(k) is None, lambda: f"without {flags}: {k} is {c[k]}")
        for k in sk:
            ctx.check(empty(c["statistics"].get(k)), lambda: f"without {flags}: {k} is {c['statistics'][k]}")
        d = diff_path({k: v for k, v in c.items() if k not in ck and k != "statistics"},
                      {k: v for k, v in f.items() if k not in ck and k != "statistics"})
        ctx.check(d is None, lambda: f"without {flags}: column {c['column_name']} {d}")
        d = diff_path({k: v for k, v in c["statistics"].items() if k not in sk},
                      {k: v for k, v in f["statistics"].items() if k not in sk})
        ctx.check(d is None, lambda: f"without {flags}: statistics of {c['column_name']} {d}")
    ctx.state((tuple(flags), mode, rm))


# ------------------------------------------------------------------ formats
def profiles(name):
    if name == "table":
        p = fresh(frame([(n, v) for n, v in TCOLS]), {SO + "correlation.is_enabled": True})
    elif name == "dup":
        p = fresh(frame([("a", ["1", "2"]), ("a", ["3", "3"]), (0, ["x", "y"])]))
    elif name == "merged":
        p = fresh(frame([(n, v[:2]) for n, v in TCOLS])) + fresh(frame([(n, v[2:]) for n, v in TCOLS]))
    elif name == "long":
        p = fresh(frame([("v", [str(i * 3 % 17) for i in range(40)]), ("t", ["w%d" % (i % 30) for i in range(40)])]))
    elif name == "repl":
        p = fresh(frame([("a", ["1", "", "3"]), ("b", ["4", "5", ""])]), {SO + "null_replication_metrics.is_enabled": True})
    elif name == "alike":
        p = fresh(frame([("id", ["1", "2"]), ("paid", ["3", "3"]), ("i", ["x", "y"]), ("statistics", ["1.5", "2"]), ("min", ["7", "8"])]))
    elif name == "dots":
        p = fresh(frame([("a.b", ["1", "2"]), ("*", ["x", ""]), ("x y", ["1.5", "2"])]))
    elif name == "text":
        o = dp.ProfilerOptions()
        o.set({"*.data_labeler.is_enabled": False})
        p = dp.Profiler(pd.Series(["Ab ab cd", "", "zz 1.5"]), options=o, profiler_type="unstructured")
    return p


_prof = {}


def prof(name):
    if name not in _prof:
        _prof[name] = profiles(name)
    return _prof[name]


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (set, frozenset)):
        return sorted(plain(v) for v in x)
    if isinstance(x, np.generic):
        return x.item()
    return x


def keyed(x):
    """keys as their text"""
    if isinstance(x, dict):
        return {str(k): keyed(v) for k, v in x.items()}
    if isinstance(x, list):
        return [keyed(v) for v in x]
    return x


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    else:
        yield "_".join([str(p).replace(" ", "_") for p in path[:-1]] + [str(path[-1])]) if path else "", x


def pretty_ok(a, p, path=""):
    """p is the pretty image of a"""
    if isinstance(a, dict):
        if not isinstance(p, dict) or [str(k) for k in a] != [str(k) for k in p]:
            return f"{path}: keys {list(a)} != {list(p) if isinstance(p, dict) else p}"
        for (k, v), w in zip(a.items(), p.values()):
            d = pretty_ok(v, w, f"{path}/{k}") if k != "profile_schema" else (None if keyed(plain(v)) == keyed(plain(w)) else f"{path}/{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple, set, frozenset, np.ndarray)):
        if isinstance(p, list):  # list of dictionaries
            if len(a) != len(p):
                return f"{path}: {len(a)} entries, {len(p)} shown"
            for i, (x, y) in enumerate(zip(a, p)):
                d = pretty_ok(x, y, f"{path}[{i}]") if isinstance(x, dict) else (None if same(plain(x), plain(y)) else f"{path}[{i}]")
                if d:
                    return d
            return None
        if not isinstance(p, str):
            return f"{path}: list shown as {p!r}"
        v = plain(a)
        full = np.array2string(np.array(v), separator=", ")
        if p == full:
            return None
        if len(v) <= 5 or len(full) <= 50 or ", ... , " not in p:
            return f"{path}: {v} shown as {p}"
        head, tail = p.split(", ... , ")
        if isinstance(v[0], str):
            hs, ts = [x.strip().strip("'") for x in head.strip("[").split(",")], [x.strip().strip("'") for x in tail.strip("]").split(",")]
            if hs != [str(x) for x in v[:len(hs)]] or ts != [str(x) for x in v[-len(ts):]]:
                return f"{path}: shown as {p}"
        elif not isinstance(v[0], list):
            hs, ts = [float(x) for x in head.strip("[").split(",")], [float(x) for x in tail.strip("]").split(",")]
            if not same(hs, v[:len(hs)], 1e-5, 1e-5) or not same(ts, v[-len(ts):], 1e-5, 1e-5):
                return f"{path}: shown as {p}"
        return None
    if isinstance(a, float) and not isnan(a):
        return None if isinstance(p, (int, float)) and abs(p - a) <= 0.5000001e-4 else f"{path}: {a} shown as {p}"
    return None if same(plain(a), plain(p)) else f"{path}: {a!r} shown as {p!r}"


def drop(x, omit):
    """reference for omit_keys: list of dotted patterns"""
    pats = [o.split(".") for o in omit]
    return _drop(x, pats)


def _drop(x, pats):
    if not isinstance(x, dict):
        return x
    out = {}
    for k, v in x.items():
        if any(len(p) == 1 and p[0] in ("*", str(k)) for p in pats):
            continue
        nxt = [p[1:] for p in pats if len(p) > 1 and p[0] in ("*", str(k))]
        if k == "data_stats" and isinstance(v, list):
            cols = []
            for c in v:
                n = str(c["column_name"])
                if any(len(p) == 1 and p[0] in ("*", n) for p in nxt):
                    cols.append(None)
                else:
                    cols.append(_drop(c, [p[1:] for p in nxt if len(p) > 1 and p[0] in ("*", n)]))
            out[k] = cols
        elif k == "profile_schema":
            out[k] = v
        else:
            out[k] = _drop(v, nxt)
    return out


COMPACT = ["times", "avg_predictions", "data_label_representation", "null_types_index", "histogram"]


def formats(case, ctx):
    name, groups = case
    p = prof(name)
    ro = {"num_quantile_groups": groups} if groups else {}
    r = p.report({"output_format": None, **ro})
    s = p.report({"output_format": "serializable", **ro})
    d = diff_path(keyed(plain(s)), keyed(plain(r)))
    ctx.check(d is None, lambda: f"serializable differs: {d}")
    if name != "text" or True:
        try:
            json.dumps(s)
        except TypeError as e:
            ctx.check(False, f"the serializable report is not JSON serializable: {e}")
    for fmt in ("pretty", "PRETTY"):
        d = pretty_ok(r, p.report({"output_format": fmt, **ro}))
        ctx.check(d is None, lambda: f"pretty: {d}")
    c = p.report({"output_format": "compact", **ro})
    w = drop(r, ["data_stats.*.statistics." + k for k in COMPACT] if name != "text" else ["data_stats.*.statistics." + k for k in COMPACT])
    if name == "text":
        w = drop(r, ["data_stats.*.statistics." + k for k in COMPACT])
    d = pretty_ok(w, c)
    ctx.check(d is None, lambda: f"compact: {d}")
    f = p.report({"output_format": "flat", **ro})
    want = {}
    n = 0
    for k, v in r.items():
        if k == "data_stats" and isinstance(v, list):
            got = f["data_stats"]
            ctx.eq(len(got), len(v), "columns in the flat report")
            for gc, wc in zip(got, v):
                wl = list(leaves(wc))
                ctx.check(len(dict(wl)) == len(wl), lambda: f"flat keys collide: {[k for k, _ in wl]}")
                d = diff_path(plain(gc), plain(dict(wl)))
                ctx.check(d is None, lambda: f"flat: column {wc['column_name']}: {d}")
        else:
            for kk, vv in leaves(v, (k,)):
                want[kk] = vv
    d = diff_path(plain({k: v for k, v in f.items() if k != "data_stats"}), plain(want))
    ctx.check(d is None, lambda: f"flat: {d}")
    if groups and name != "text":
        for i, col in enumerate(r["data_stats"]):
            q = col["statistics"].get("quantiles")
            if isinstance(q, dict):
                ctx.eq(sorted(q), list(range(groups - 1)) if groups > 1 else [], f"quantile keys for {groups} groups")
                if 1 < groups <= 1000:
                    fine = p.profile[i].profiles["data_type_profile"].report()["statistics"]["quantiles"]
                    for j in range(groups - 1):
                        t = math.ceil((j + 1) * 1000 / groups) - 1
                        ctx.eq(q[j], fine[t], f"quantile {j} of {groups} groups")
    ctx.step(6)
    ctx.state((name, groups))


def omits(case, ctx):
    name, omit, fmt = case
    p = prof(name)
    r = p.report({"output_format": None})
    given = list(omit)
    g = p.report({"output_format": fmt, "omit_keys": given})
    ctx.eq(given, list(omit), "caller's list")
    ctx.step()
    w = drop(r, omit)
    if fmt == "pretty":
        d = None
        for k in set(w) | set(g):
            if k not in w or k not in g:
                d = f"key {k}"
                break
        if d is None and "data_stats" in w and isinstance(w["data_stats"], list):
            for x, y in zip(w["data_stats"], g["data_stats"]):
                if (x is None) != (y is None):
                    d = "column omitted in one only"
                elif x is not None:
                    d = d or pretty_ok(x, y)
        if d is None:
            d = pretty_ok({k: v for k, v in w.items() if k != "data_stats" or isinstance(v, dict)},
                          {k: v for k, v in g.items() if k != "data_stats" or isinstance(v, dict)})
    else:
        d = diff_path(keyed(plain(g)), keyed(plain(w)))
    ctx.check(d is None, lambda: f"omit_keys {omit}: {d}")
    ctx.state((name, tuple(omit)))


def unstructured(case, ctx):
    off, rm = case
    o = dp.ProfilerOptions()
    o.set({"*.data_labeler.is_enabled": False})
    for k in off:
        o.set({f"unstructured_options.text.{k}.is_enabled": False})
    o0 = dp.ProfilerOptions()
    o0.set({"*.data_labeler.is_enabled": False})
    rs = []
    for x in (o, o0):
        p = dp.Profiler(pd.Series(["Ab ab cd", ""]), options=x, profiler_type="unstructured")
        p.update_profile(pd.Series(["zz"]))
        rs.append(clean(p.report({"remove_disabled_flag": rm})))
    g, b = rs
    ctx.step()
    names = set()
    if "vocab" in off:
        names |= {"vocab", "vocab_count"}
    if "words" in off:
        names |= {"words", "word_count"}
    gs, bs = g["data_stats"].pop("statistics"), b["data_stats"].pop("statistics")
    for k in names:
        ctx.check(k not in gs if rm else empty(gs[k]), lambda: f"{k} is disabled but reported: {gs}")
    d = diff_path({k: v for k, v in gs.items() if k not in names}, {k: v for k, v in bs.items() if k not in names}) or diff_path(g, b)
    ctx.check(d is None, lambda: f"without {off}: {d}")
    ctx.state((tuple(off), rm))


def spaces(tier):
    big = tier == "thorough"

    def c_num():
        V = [[k for i, k in enumerate(NUM) if m >> i & 1] for m in range(1 << len(NUM))]
        V = [v for v in V if valid(v)]
        for kind in DATA:
            for v in V:
                if not big and kind == "int" and not (len(v) < 4 or len(v) > 8):
                    continue
                if kind == "text" and {"num_zeros", "num_negatives"} & set(v):
                    continue
                if not big and kind != "int" and not (len(v) < 3 or len(v) > 10 or len(v) == 5):
                    continue
                yield [kind, v, "", "u" if len(v) % 2 else "m"]
                if len(v) < 3 or big:
                    yield [kind, v, "", "m" if len(v) % 2 else "u"]
                    if kind != "int":
                        yield [kind, v, {"float": "precision", "text": "vocab"}[kind], "u"]

    def c_val():
        for kind in ("int", "float", "text"):
            for m in range(1 << len(NUM)):
                if kind == "text" and m & (1 << NUM.index("num_zeros") | 1 << NUM.index("num_negatives")):
                    continue
                yield [kind, m]

    def subsets(x):
        return [list(s) for n in range(len(x) + 1) for s in itertools.combinations(x, n)]

    def c_types():
        for off in subsets(TYPES):
            for mode in "um":
                yield [off, mode]

    def c_whole():
        for fl in subsets(list(GLOBAL)):
            if big or len(fl) < 4 or len(fl) > 6:
                for mode in "um" if big or len(fl) < 3 else "u":
                    for rm in (False, True):
                        yield [fl, mode, rm]

    def c_fmt():
        for n in ("table", "dup", "merged", "long", "repl", "dots", "text"):
            for g in (None, 1, 2, 3, 4, 10, 999, 1000):
                yield [n, g]

    def c_omit():
        K = ["global_stats", "data_stats", "*", "*.*", "global_stats.*", "global_stats.times", "data_stats.*", "data_stats.i",
             "*.i", "data_stats.*.statistics", "data_stats.*.statistics.min", "data_stats.i.statistics.*", "*.*.statistics.max",
             "*.*.*.sum", "data_stats.f.order", "*.profile_schema", "global_stats.profile_schema", "nothing", "data_stats.zz",
             "global_stats.row_count.x", "data_stats.*.statistics.times.*", "*.*.order", "*.*.statistics.quantiles"]
        for fmt in (None, "serializable", "pretty"):
            for k in K:
                for n in ("table", "dup", "text"):
                    if n == "text" and k.startswith("data_stats.") and k.split(".")[1] in ("i", "f", "zz"):
                        continue
                    yield [n, [k], fmt]
            for a, b in itertools.combinations(K, 2):
                if fmt is None or big:
                    yield ["table", [a, b], fmt]
        for n in ("id", "paid", "i", "d", "statistics", "min", "ID"):
            for k in ("data_stats.%s", "*.%s", "data_stats.%s.samples", "*.%s.order", "data_stats.%s.statistics.min", "data_stats.%s.statistics",
                      "*.%s.statistics.*", "*.*.%s", "*.*.%s.min", "*.*.*.%s"):
                yield ["alike", [k % n], None]
                yield ["alike", [k % n, "data_stats.paid.statistics.max"], "pretty"]
        for k in ["data_stats.a", "*.a", "data_stats.0", "data_stats.a.order", "data_stats.0.statistics.vocab"]:
            yield ["dup", [k], None]
        for k in ["statistics.words", "data_stats.statistics.words", "data_stats.statistics", "*.statistics.vocab", "*.data_label"]:
            yield ["text", [k], None]

    return [
        Space("numeric", "every valid combination of disabled numeric statistics"
              + ("" if big else " of up to 3 or over 8 (int), under 3, 5 or over 10 (float, text)")
              + ", after updates and merges, with and without removal of disabled keys", c_num, numeric),
        Space("validity", "every combination of 12 numeric switches for int, float and text: refused exactly when inconsistent", c_val, validate),
        Space("types", "every subset of disabled type analyses", c_types, types),
        Space("analyses", f"{'every subset' if big else 'subsets of up to 3 or over 6'} of 8 other analyses disabled", c_whole, whole),
        Space("formats", "7 profiles x 8 quantile group numbers: every format", c_fmt, formats),
        Space("omit", "23 omission patterns, alone and in pairs; 10 patterns naming each of columns whose names contain one another or equal keys of the report", c_omit, omits),
        Space("unstructured", "disabled text analyses of an unstructured profile",
              lambda: ([o, rm] for o in subsets(["vocab", "words"]) for rm in (False, True)), unstructured),
    ]
