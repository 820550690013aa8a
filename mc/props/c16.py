"""C16: updates and merges match columns by name or fail cleanly."""
import itertools
import pickle

from mc.engine import Space, diff_path
from mc.sut import clean, dp, facts, frame, fresh, np, opts, pd

ASSUMPTIONS = [
    "data labeler off; columns are compatible when every name occurs equally often in both, repeated names (compared "
    "ignoring case, as the code does) at identical positions; otherwise the operation must raise",
    "'exactly as it was' = same full report (incl. histogram and quantiles) and same report after a further update and merge",
]

KINDS = {"a": ["1", "2", "", "7"], "b": ["x", "y", "x", "nan"], "A": ["1.5", "", "2.5", "0"], "0": ["9", "8", "7", "6"],
         0: ["q", "", "", "r"], "c": ["-4", "-4", "3", "3"], "": ["u", "v", "w", ""]}


def table(names, k, n=3):
    """k-th batch: values depend on the name and its occurrence"""
    seen, cols = {}, []
    for x in names:
        o = seen[x] = seen.get(x, -1) + 1
        v = KINDS[x]
        vals = [v[(i * (k + 1) + k + o) % 4] for i in range(n)]
        if o and vals[0].isdigit():
            vals = [t + "0" if t.isdigit() else t for t in vals]
        cols.append((x, vals))
    return cols


def compatible(n1, n2):
    low = [[x.lower() if isinstance(x, str) else x for x in n] for n in (n1, n2)]
    pos = [{}, {}]
    for p, l in zip(pos, low):
        for i, x in enumerate(l):
            p.setdefault(x, []).append(i)
    if set(pos[0]) != set(pos[1]):
        return None
    m = {}  # position in n1 -> position in n2
    for x, a in pos[0].items():
        b = pos[1][x]
        if len(a) != len(b) or len(a) > 1 and a != b:
            return None
        for i, j in zip(a, b):
            if n1[i] != n2[j]:
                return None
            m[i] = j
    return m


def full(p):
    return facts(p, approx=True, drop=("times", "samples", "file_type", "encoding"))


def untouched(ctx, p, before, blob, df, what):
    d = diff_path(full(p), before)
    ctx.check(d is None, lambda: f"{what}: the profile changed: {d}")
    q = pickle.loads(blob)
    p.update_profile(df)
    q.update_profile(df)
    d = diff_path(full(p), full(q))
    ctx.check(d is None, lambda: f"{what}: a later update gives another result: {d}")
    d = diff_path(full(p + q), full(q + q))
    ctx.check(d is None, lambda: f"{what}: a later merge gives another result: {d}")


CFG = {"": {}, "corr": {"structured_options.correlation.is_enabled": True},
       "light": {"structured_options.datetime.is_enabled": False, "structured_options.chi2_homogeneity.is_enabled": False,
                 "structured_options.float.is_enabled": False, "structured_options.order.is_enabled": False},
       "hll": {"structured_options.row_statistics.unique_count.hashing_method": "hll"}}


def names(case, ctx):
    n1, n2, op, cfg = case
    t1, t2 = table(n1, 0), table(n2, 1, 2)
    m = compatible(n1, n2)
    p = fresh(frame(t1, index=range(3)), CFG[cfg])
    before, blob = full(p), pickle.dumps(p)
    df2 = frame(t2, index=range(3, 5))
    try:
        if op == "u":
            p.update_profile(df2)
            r = p
        else:
            q = fresh(df2, CFG[cfg])
            r = p + q
        raised = None
    except Exception as e:
        raised = e
    ctx.step()
    if m is None:
        ctx.check(raised is not None, lambda: f"columns {n2} accepted by a profile of {n1}")
        ctx.check(isinstance(raised, (ValueError, TypeError)), lambda: f"raised {raised!r}")
        untouched(ctx, p, before, blob, frame(table(n1, 2), index=range(10, 13)), f"{op} with {n2}")
        ctx.state(("raise", type(raised).__name__))
        return
    if raised is not None:
        ctx.check(False, f"columns {n2} refused by a profile of {n1}: {raised!r}")
    order = [m[i] for i in range(len(n1))]
    t3 = [t2[j] for j in order]
    ref = fresh(frame(t1, index=range(3)), CFG[cfg])
    if op == "u":
        ref.update_profile(frame(t3, index=range(3, 5)))
    else:
        ref = ref + fresh(frame(t3, index=range(3, 5)), CFG[cfg])
    want, got = full(ref), full(r)
    if op == "u" and order != sorted(order) and "hll" not in cfg:
        pass
    d = diff_path(got, want)
    ctx.check(d is None, lambda: f"columns {n2} into {n1}: {d}")
    ctx.check([c["column_name"] for c in got["data_stats"]] == list(n1), "column names/order changed")
    # once more in the profile's own order
    t4 = frame(table(n1, 2), index=range(20, 23))
    r.update_profile(t4)
    ref.update_profile(t4)
    d = diff_path(full(r), full(ref))
    ctx.check(d is None, lambda: f"later update after {n2} into {n1}: {d}")
    ctx.state(("ok", repr(order)))


def perms(case, ctx):
    """several updates/merges, each in its own column order"""
    base, seq, ops, cfg = case
    p = ref = None
    n = 0
    for k, (perm, op) in enumerate(zip(seq, ops)):
        cols = table(base, k, 2)
        idx = range(n, n + 2)
        n += 2
        df, dr = frame([cols[i] for i in perm], index=idx), frame(cols, index=idx)
        if p is None:
            p, ref = fresh(df, CFG[cfg]), fresh(dr, CFG[cfg])
        elif op == "u":
            p.update_profile(df)
            ref.update_profile(dr)
        elif op == "l":
            p, ref = p + fresh(df, CFG[cfg]), ref + fresh(dr, CFG[cfg])
        else:
            p, ref = fresh(df, CFG[cfg]) + p, fresh(dr, CFG[cfg]) + ref
        ctx.step()
    a = {(c["column_name"]): c for c in full(p)["data_stats"]}
    b = {(c["column_name"]): c for c in full(ref)["data_stats"]}
    d = diff_path(a, b)
    ctx.check(d is None, lambda: f"column orders {seq}: {d}")
    ga, gb = full(p)["global_stats"], full(ref)["global_stats"]
    for k in ("samples_used", "column_count", "row_count", "row_has_null_ratio", "row_is_null_ratio", "unique_row_ratio",
              "duplicate_row_count"):
        ctx.eq(ga[k], gb[k], k)
    ctx.state((repr(seq), repr(ops)))


class Odd:
    pass


def bad_data(kind):
    if kind == "int":
        return 5
    if kind == "none":
        return None
    if kind == "str":
        return "1,2"
    if kind == "dict":
        return {"a": ["1"], "b": ["2"]}
    if kind == "ndarray":
        return np.array([["1", "2"]])
    if kind == "tuple":
        return (["1"], ["2"])
    if kind == "odd":
        return Odd()
    if kind == "text":
        return dp.Data(data=["some text", "more"], data_type="text") if False else _text()
    if kind == "series-other":
        return pd.Series(["1", "2"], name="zz")
    if kind == "series-a":
        return pd.Series(["1", "2"], name="a")
    if kind == "series-noname":
        return pd.Series(["1", "2"])
    if kind == "list1":
        return ["1", "2"]
    if kind == "list2":
        return [["1", "2"], ["3", "4"]]
    if kind == "list3":
        return [["1", "2", "3"]]
    if kind == "upper":
        return frame([("A", ["5"]), ("b", ["k"])])
    if kind == "nocols":
        return pd.DataFrame(index=range(3))
    if kind == "multi":
        df = frame([("a", ["5"]), ("b", ["k"])])
        df.columns = pd.MultiIndex.from_tuples([("a", "x"), ("b", "y")])
        return df
    if kind == "nonecol":
        df = frame([("a", ["5"]), ("b", ["k"])])
        df.columns = ["a", None]
        return df
    if kind == "extra":
        return frame([("a", ["5"]), ("b", ["k"]), ("c", ["1"])])
    if kind == "missing":
        return frame([("a", ["5"])])
    if kind == "twice":
        return frame([("a", ["5"]), ("a", ["k"])])
    if kind == "twice3":
        return frame([("a", ["5"]), ("b", ["k"]), ("b", ["k"])])
    if kind == "spaces":
        return frame([("a ", ["5"]), ("b", ["k"])])
    raise KeyError(kind)


def _text():
    from dataprofiler.data_readers.text_data import TextData
    return TextData(data="1,2\n3,4\n5,6")


BAD = ["int", "none", "str", "dict", "ndarray", "tuple", "odd", "series-other", "series-a", "series-noname", "list1", "list2",
       "list3", "upper", "nocols", "multi", "nonecol", "extra", "missing", "twice", "twice3", "spaces", "text"]


def wrong(case, ctx):
    kinds, hist, cfg = case
    n1 = ["a", "b"]
    p = fresh(frame(table(n1, 0), index=range(3)), CFG[cfg])
    if hist == "m":
        p = p + fresh(frame(table(n1, 1), index=range(3, 6)), CFG[cfg])
    elif hist == "u":
        p.update_profile(frame(table(n1, 1), index=range(3, 6)))
    before, blob = full(p), pickle.dumps(p)
    for kind in kinds:
        try:
            data = bad_data(kind)
            p.update_profile(data)
            ok = True
        except Exception as e:
            ok = False
            ctx.state((kind, type(e).__name__))
        ctx.step()
        ctx.check(not ok, lambda: f"update with {kind} accepted by a profile of columns a, b")
    untouched(ctx, p, before, blob, frame(table(n1, 2), index=range(10, 13)), f"refused updates {kinds}")


def args(case, ctx):
    """bad arguments next to good data"""
    n1 = ["a", "b"]
    p = fresh(frame(table(n1, 0), index=range(3)))
    before, blob = full(p), pickle.dumps(p)
    df = frame(table(n1, 1), index=range(3, 6))
    kw = {"mts": {"min_true_samples": "2"}, "mtf": {"min_true_samples": 1.5}, "ss": {"sample_size": "2"}}[case]
    try:
        p.update_profile(df, **kw)
        ok = True
    except Exception as e:
        ok = False
        ctx.state((case, type(e).__name__))
    ctx.step()
    ctx.check(not ok, lambda: f"accepted {kw}")
    untouched(ctx, p, before, blob, frame(table(n1, 2), index=range(10, 13)), f"refused {kw}")


def operands(case, ctx):
    """adding things that are not compatible profiles"""
    kind, = case
    n1 = ["a", "b"]
    p = fresh(frame(table(n1, 0), index=range(3)))
    before, blob = full(p), pickle.dumps(p)
    if kind == "empty":
        q = dp.Profiler(None, options=opts(), profiler_type="structured")
    elif kind == "unstructured":
        o = dp.ProfilerOptions()
        o.set({"*.data_labeler.is_enabled": False})
        q = dp.Profiler(pd.Series(["some text"]), options=o, profiler_type="unstructured")
    elif kind == "int":
        q = 5
    elif kind == "none":
        q = None
    elif kind == "column":
        q = p.profile[0]
    elif kind == "report":
        q = p.report()
    for swap in (0, 1):
        try:
            r = q + p if swap else p + q
            ok = True
        except Exception as e:
            ok = False
            ctx.state((kind, type(e).__name__))
        ctx.step()
        ctx.check(not ok, lambda: f"a profile plus {kind} gave a profile")
    untouched(ctx, p, before, blob, frame(table(n1, 2), index=range(10, 13)), f"adding {kind}")


SO = "structured_options."
FLAGS = ["int.is_enabled", "float.is_enabled", "text.is_enabled", "datetime.is_enabled", "order.is_enabled",
         "row_statistics.is_enabled", "row_statistics.unique_count.is_enabled", "row_statistics.null_count.is_enabled",
         "int.min.is_enabled", "int.max.is_enabled", "int.sum.is_enabled", "int.num_zeros.is_enabled", "float.precision.is_enabled",
         "int.histogram_and_quantiles", "text.vocab.is_enabled", "hll", "hllseed", "category", "correlation.is_enabled",
         "chi2_homogeneity.is_enabled", "null_replication_metrics.is_enabled", "cms", "int.variance.is_enabled"]


def flagset(f):
    if f == "hll":
        return {SO + "row_statistics.unique_count.hashing_method": "hll"}
    if f == "hllseed":
        return {SO + "row_statistics.unique_count.hashing_method": "hll", SO + "row_statistics.unique_count.hll.seed": 7}
    if f == "category":
        return {SO + "category.is_enabled": False, SO + "chi2_homogeneity.is_enabled": False}
    if f == "cms":
        return {SO + "category.cms": True, SO + "category.cms_confidence": 0.9, SO + "category.cms_relative_error": 0.1}
    if f == "int.histogram_and_quantiles":
        return {SO + "int.histogram_and_quantiles.is_enabled": False, SO + "int.median.is_enabled": False,
                SO + "int.mode.is_enabled": False, SO + "int.median_abs_deviation.is_enabled": False}
    if f == "int.variance.is_enabled":
        return {SO + "int.variance.is_enabled": False, SO + "int.skewness.is_enabled": False, SO + "int.kurtosis.is_enabled": False}
    if f == "int.sum.is_enabled":
        return {SO + f: False, **flagset("int.variance.is_enabled")}
    if f in ("correlation.is_enabled", "null_replication_metrics.is_enabled"):
        return {SO + f: True}
    return {SO + f: False}


def configs(case, ctx):
    """operands with different options: a merge or a clean error, never a changed operand"""
    f1, f2 = case
    n1 = ["a", "b"]
    s1 = flagset(f1) if f1 else {}
    s2 = flagset(f2) if f2 else {}
    p = fresh(frame(table(n1, 0), index=range(3)), s1)
    q = fresh(frame(table(n1, 1), index=range(3, 6)), s2)
    bp, bq = full(p), full(q)
    err = r = None
    try:
        r = p + q
    except Exception as e:  # refused
        err = e
    ctx.step()
    if r is not None:
        r.report()
    d = diff_path(full(p), bp) or diff_path(full(q), bq)
    ctx.check(d is None, lambda: f"merging options {f1} / {f2} changed an operand: {d}")
    nxt = frame(table(n1, 2), index=range(10, 13))
    for x, s, t in ((p, s1, table(n1, 0)), (q, s2, table(n1, 1))):
        y = fresh(frame(t, index=range(3) if x is p else range(3, 6)), s)
        x.update_profile(nxt)
        y.update_profile(nxt)
        d = diff_path(full(x), full(y))
        ctx.check(d is None, lambda: f"after merging options {f1} / {f2}, a later update differs: {d}")
    ctx.state((f1, f2, type(err).__name__))


def unstructured(case, ctx):
    kind, hist = case
    o = dp.ProfilerOptions()
    o.set({"*.data_labeler.is_enabled": False})
    p = dp.Profiler(pd.Series(["ab cd", "", "x"]), options=o, profiler_type="unstructured")
    if hist == "m":
        p = p + pickle.loads(pickle.dumps(p))
    before, blob = clean(p.report()), pickle.dumps(p)
    try:
        if kind == "frame2":
            p.update_profile(frame([("a", ["x"]), ("b", ["y"])]))
        elif kind == "int":
            p.update_profile(5)
        elif kind == "none":
            p.update_profile(None)
        elif kind == "dict":
            p.update_profile({"a": "b"})
        elif kind == "+structured":
            p + fresh(frame([("a", ["x"])]))
        elif kind == "+int":
            p + 5
        elif kind == "+none":
            p + None
        ok = True
    except Exception as e:
        ok = False
        ctx.state((kind, type(e).__name__))
    ctx.step()
    ctx.check(not ok, lambda: f"{kind} accepted by an unstructured profile")
    d = diff_path(clean(p.report()), before)
    ctx.check(d is None, lambda: f"{kind} changed the profile: {d}")
    q = pickle.loads(blob)
    for x in (p, q):
        x.update_profile(pd.Series(["new ab", ""]))
    d = diff_path(clean(p.report()), clean(q.report()))
    ctx.check(d is None, lambda: f"after {kind} a later update differs: {d}")


def spaces(tier):
    big = tier == "thorough"

    def tuples(nmax):
        for n in range(1, nmax + 1):
            yield from itertools.product(["a", "b", "A", "0", 0] if n < 3 or big else ["a", "b", 0], repeat=n)

    def c_names():
        W = [list(w) for w in tuples(3)]
        for a, b in itertools.product(W, repeat=2):
            if len(a) == 3 and len(b) == 3 and not big:
                if sorted(map(repr, a)) != sorted(map(repr, b)):
                    continue
            elif len(a) != len(b) and not big:
                if max(len(a), len(b)) == 3 and (len(a) + len(b) != 5 or b[0] != "a" or a[0] != "a"):
                    continue
                if "0" in a + b or "A" in a + b:
                    continue
            for op in ("u", "+"):
                if not big and len(a) == 2 and len(b) == 2 and ("A" in a + b) + ("0" in a + b) + (0 in a + b) > 1 + (op == "u" and a[0] != a[1]):
                    continue
                yield [a, b, op, "" if big else "light"]

    def c_perms():
        P3 = [list(x) for x in itertools.permutations(range(3))]
        for cfg in CFG:
            for s in itertools.product(P3, repeat=2):
                for op in ("u", "l", "r"):
                    if cfg == "light":
                        continue
                    if big or cfg == "" or s[0] == P3[4]:
                        yield [["a", "b", "c"], list(s), ["", op], cfg]
        for s in itertools.product(P3, repeat=3):
            for op in itertools.product("ulr", repeat=2) if big else ["ul", "ru"]:
                if big or s[0] == P3[3]:
                    yield [["a", "b", "c"], list(s), ["", *op], ""]

    def c_wrong():
        for k in BAD:
            for h in ("", "u", "m"):
                for cfg in CFG:
                    if big or cfg in ("", "hll"):
                        yield [[k], h, cfg]
        for a, b in itertools.product(BAD, repeat=2) if big else zip(BAD, BAD[1:]):
            yield [[a, b], "", ""]

    def c_configs():
        for f in FLAGS:
            yield ["", f]
            yield [f, ""]
        if big:
            for a, b in itertools.product(FLAGS, repeat=2):
                yield [a, b]
        else:
            for a, b in zip(FLAGS, FLAGS[1:]):
                yield [a, b]

    def c_un():
        for k in ("frame2", "int", "none", "dict", "+structured", "+int", "+none"):
            for h in ("", "m"):
                yield [k, h]

    return [
        Space("names", "every ordered pair of column-name tuples of up to " + ("3" if big else "2 (3 for permutations)")
              + " columns over a, b, A, '0', 0; update and merge", c_names, names),
        Space("orders", "3 columns in every order in each of 2-3 updates/merges", c_perms, perms),
        Space("wrong-data", f"{len(BAD)} kinds of incompatible data after each history, alone and in sequence", c_wrong, wrong),
        Space("bad-arguments", "invalid min_true_samples and sample_size", lambda: iter(["mts", "mtf", "ss"]), args),
        Space("operands", "adding an empty, unstructured or non-profile operand on either side",
              lambda: ([k] for k in ("empty", "unstructured", "int", "none", "column", "report")), operands),
        Space("options", f"profiles with different options ({len(FLAGS)} switches)", c_configs, configs),
        Space("unstructured", "incompatible data and operands for an unstructured profile", c_un, unstructured),
    ]
