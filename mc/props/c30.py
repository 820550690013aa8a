"""C30: options are set exactly as named, and invalid ones are refused."""
import copy
import itertools
import json
import re
import warnings

from mc.engine import Space
from mc.sut import dp, frame, pd

from dataprofiler.profilers.json_decoder import load_option
from dataprofiler.profilers.json_encoder import ProfileEncoder
from dataprofiler.profilers.profiler_options import BaseOption

ASSUMPTIONS = [
    "names are those of documented options; a wildcard or shortened name which matches nothing is ignored by design and not claimed to be refused",
    "setting several options of which one is unknown may set those before it",
    "booleans given for whole numbers are not claimed to be refused",
]

STATS = ["min", "max", "mode", "median", "sum", "variance", "skewness", "kurtosis", "median_abs_deviation", "histogram_and_quantiles"]
NUM = ["num_zeros", "num_negatives"]
ALL = "is_numeric_stats_enabled"


def on(v=True):
    return {"is_enabled": v}


def numeric(text=False):
    d = {k: on() for k in STATS + ["bias_correction"]}
    d["mode"] = {"is_enabled": True, "top_k_modes": 5}
    d["histogram_and_quantiles"] = {"is_enabled": True, "bin_count_or_method": "auto", "num_quantiles": 1000}
    for k in NUM:
        d[k] = on(not text)
    return {**d, "is_enabled": True}


def labeler():
    return {"is_enabled": True, "data_labeler_dirpath": None, "max_sample_size": None, "data_labeler_object": None}


def start():
    """the documented options and their defaults"""
    return {
        "structured_options": {
            "multiprocess": on(), "int": numeric(), "float": {**numeric(), "precision": {"is_enabled": True, "sample_ratio": None}},
            "datetime": on(), "text": {**numeric(True), "vocab": on()}, "order": on(),
            "category": {"is_enabled": True, "top_k_categories": None, "max_sample_size_to_check_stop_condition": None,
                         "stop_condition_unique_value_ratio": None, "cms": False, "cms_confidence": 0.95, "cms_relative_error": 0.01,
                         "cms_max_num_heavy_hitters": 5000},
            "data_labeler": labeler(), "correlation": {"is_enabled": False, "columns": None}, "chi2_homogeneity": on(),
            "null_replication_metrics": on(False),
            "row_statistics": {"is_enabled": True, "null_count": on(),
                               "unique_count": {"is_enabled": True, "hashing_method": "full", "hll": {"seed": 0, "register_count": 15}}},
            "null_values": None, "column_null_values": None, "sampling_ratio": 0.2},
        "unstructured_options": {
            "text": {"is_enabled": True, "is_case_sensitive": True, "stop_words": None, "top_k_chars": None, "top_k_words": None,
                     "vocab": on(), "words": on()}, "data_labeler": labeler()},
    }


def paths(t, pre=""):
    for k, v in t.items():
        if isinstance(v, dict) and k not in ("null_values", "column_null_values"):
            yield from paths(v, pre + k + ".")
            if ALL in virtual(v):
                yield pre + k + "." + ALL
        else:
            yield pre + k


def virtual(node):
    return [ALL] if "kurtosis" in node else []


def read(o):
    """the values an options object holds"""
    out = {}
    for k in start() if isinstance(o, dp.ProfilerOptions) else [x for x in vars(o)]:
        v = getattr(o, k)
        out[k] = read(v) if isinstance(v, BaseOption) else v
    return out


def put(node, name, value):
    """the model of setting: the first name found on each branch"""
    parts = name.split(".")
    if parts[0] == "*":
        parts = parts[1:]
    if parts[0] == ALL and ALL in virtual(node):
        for k in STATS + (NUM if "vocab" not in node else []):
            node[k]["is_enabled"] = value
    elif parts[0] in node:
        if isinstance(node[parts[0]], dict) and len(parts) > 1:
            put(node[parts[0]], ".".join(parts[1:]), value)
        elif len(parts) == 1 and not isinstance(node[parts[0]], dict):
            node[parts[0]] = value
        else:
            raise KeyError(name)
    elif name[0] == "*" or len(parts) > 1:
        for k, v in node.items():
            if isinstance(v, dict) and k not in ("null_values", "column_null_values"):
                put(v, name, value)
    else:
        raise KeyError(name)


def ambiguous(name):
    return name.split(".")[0] not in ("*", "structured_options", "unstructured_options") and any(
        x in name for x in ("data_labeler_object", "data_labeler_dirpath", "text.is_enabled", "text.vocab"))


def forms():
    """every way to name an option: in full, shortened, by wildcard"""
    seen = {}
    for p in paths(start()):
        parts = p.split(".")
        for i in range(len(parts)):
            s = ".".join(parts[i:])
            if i == 0 or len(parts) - i > 1:
                seen[s] = p
            seen["*." + s] = p
            if i > 1:
                seen[parts[0] + ".*." + s] = p
    return sorted(seen)


FORMS = forms()


def fits(todo):
    """names which stop at a group without that option are not claimed (they are refused by design)"""
    m = start()
    try:
        for n, v in todo:
            put(m, n, v)
    except KeyError:
        return False
    return True


def setting(case, ctx):
    todo, together = case
    if not fits(todo):
        return
    o, other = dp.ProfilerOptions(), dp.ProfilerOptions()
    before = copy.deepcopy(o)
    model = start()
    ctx.eq(read(o), model, "default options")
    what = f"{todo}"
    arg = dict(map(tuple, todo))
    keep = dict(arg)
    if together and any(ambiguous(n) for n in arg):
        try:
            o.set(arg)
            ctx.check(False, lambda: f"{what}: set although structured or unstructured is not said")
        except ValueError:
            pass
        ctx.step()
    else:
        for n, v in [(None, None)] if together else todo:
            if n is not None and ambiguous(n):
                try:
                    o.set({n: v})
                    ctx.check(False, lambda: f"{n}: set although structured or unstructured is not said")
                except ValueError:
                    pass
            else:
                o.set(arg if together else {n: v})
                for m, w in arg.items() if together else [(n, v)]:
                    put(model, m, w)
            ctx.step()
            ctx.eq(read(o), model, f"after setting {what}")
    ctx.eq(arg, keep, f"{what}: the caller's dict")
    ctx.eq(read(o), model, f"after setting {what}")
    ctx.eq(read(other), start(), f"{what}: options made before")
    ctx.eq(read(dp.ProfilerOptions()), start(), f"{what}: options made afterwards")
    ctx.eq(read(before), start(), f"{what}: the copy made before")
    same = model == start()
    ctx.eq(o == before, same, f"{what}: equality with the default options")
    twin = copy.deepcopy(o)
    ctx.check(twin == o and read(twin) == model, lambda: f"{what}: a copy differs")
    twin.set({"*.is_enabled": "other"})
    ctx.eq(read(o), model, f"{what}: after setting a copy")
    for k in ("structured_options", "unstructured_options"):
        d = getattr(o, k).properties
        for v in d.values():
            if isinstance(v, BaseOption) and hasattr(v, "is_enabled"):
                v.is_enabled = "other"
        d.clear()
    ctx.eq(read(o), model, f"{what}: after changing what was read from them")
    ctx.state(json.dumps(model, sort_keys=True, default=repr))


def unknown(case, ctx):
    name, = case
    o = dp.ProfilerOptions()
    try:
        o.set({name: True})
        ok = True
    except Exception:
        ok = False
    ctx.step()
    ctx.check(not ok, lambda: f"unknown option {name} accepted")
    ctx.eq(read(o), start(), f"options after refusing {name}")
    ctx.state(name)


NOBOOL = ["yes", 3, None]
POS = ([1, 7, None], [0, -1, 1.5, "3"])


def table(p):
    """valid and invalid values of the option with path p"""
    k = p.rsplit(".", 1)[-1]
    if k in ("is_enabled", "is_case_sensitive"):
        return [True, False], NOBOOL
    if k in ("top_k_modes", "top_k_categories", "num_quantiles", "top_k_chars", "top_k_words", "max_sample_size"):
        return POS
    if k == "bin_count_or_method":
        return ["auto", "fd", "doane", "scott", "rice", "sturges", "sqrt", ["auto", "fd"], ["sqrt"], 1, 10, None], ["other", [], [3], ["auto", "other"], 0, -2, 1.5]
    if k == "sample_ratio":
        return [None, 0.5, 1, 1.0, 0.01], ["x", 1.1, -0.1, 2]
    if k in ("cms_confidence", "cms_relative_error"):
        return [0.5, 0.9, None], ["x", 1.1, -0.1, 2]
    if k == "cms_max_num_heavy_hitters":
        return [10, None], []
    if k == "cms":
        return [True, False], []
    if k == "data_labeler_dirpath":
        return [None], [3, ["a"]]
    if k == "data_labeler_object":
        return [None], [3, "labeler"]
    if k == "columns":
        return [None, ["a", "b"], ["a", "b", "c"]], ["ab", [], ["a"], [1, 2], ["a", 3], ("a", "b")]
    if k == "hashing_method":
        return ["full", "hll"], ["other", 3, None]
    if k == "seed":
        return [0, 5], ["x", 1.5, None]
    if k == "register_count":
        return [1, 15], [0, -1, "x", 1.5, None]
    if k == "stop_words":
        return [None, [], ["a", "b"]], ["a", [1], {"a": 1}]
    if k == "null_values":
        return [None, {}, {"": 0, "x": re.IGNORECASE}], ["x", ["a"], {1: 0}, {"a": "b"}, {"a": 0, "b": 7}]
    if k == "column_null_values":
        return [None, {}, {0: {"": 0}, 1: {"x": re.IGNORECASE}}], [{"0": {}}, {0: []}, {0: {1: 0}}, {0: {"a": "b"}}, ["a"]]
    if k == "sampling_ratio":
        return [0.1, 1, 1.0, 0.999], [0, 0.0, -0.5, 1.01, 2, "x", None]
    return None


LEAVES = [p for p in paths(start()) if not p.endswith(ALL) and table(p)]


def get(m, p):
    for k in p.split("."):
        m = m[k]
    return m


def conflicts(m):
    """combinations which contradict each other"""
    out = []
    s = m["structured_options"]
    for k in ("int", "float", "text"):
        d = {x: bool(s[k][x]["is_enabled"]) for x in STATS + NUM}
        bad = (d["variance"] and not d["sum"], d["skewness"] and not (d["sum"] and d["variance"]),
               d["kurtosis"] and not (d["sum"] and d["variance"] and d["skewness"]),
               not d["histogram_and_quantiles"] and (d["mode"] or d["median"] or d["median_abs_deviation"]), k == "text" and (d["num_zeros"] or d["num_negatives"]))
        if any(bad):
            out.append(k)
    c = s["category"]
    if (c["max_sample_size_to_check_stop_condition"] is None) != (c["stop_condition_unique_value_ratio"] is None):
        out.append("category")
    if c["cms"] and not isinstance(c["cms_max_num_heavy_hitters"], int):
        out.append("category")
    if not c["is_enabled"] and s["chi2_homogeneity"]["is_enabled"]:
        out.append("Categorical")
    return out


def errors(o):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return o.validate(raise_error=False) or []


def judge(ctx, o, model, bad, what, use=False):
    errs = errors(o)
    ctx.step()
    clash = conflicts(model)
    ctx.check(bool(errs) == bool(bad or clash), lambda: f"{what}: {'refused: ' + str(errs) if errs else 'accepted'}")
    for p in bad:
        stem = p.rsplit(".", 1)[0]
        ctx.check(any(p in e or (stem + ".") in e for e in errs), lambda: f"{what}: no error mentions {p}: {errs}")
    for c in clash:
        ctx.check(any(c in e for e in errs), lambda: f"{what}: no error mentions {c}: {errs}")
    ctx.eq(read(o), model, f"{what}: options after validation")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            o.validate()
        ok = True
    except ValueError:
        ok = False
    ctx.eq(ok, not errs, f"{what}: validate() raises")
    if use and errs:
        data = frame({"a": ["1", "2"], "b": ["x", "y"]})
        for kind, d in (("structured", data), ("unstructured", pd.Series(["a b"], dtype=object))):
            if not any(kind == e.split("_", 1)[0] for e in bad + (["structured_"] if clash else [])):
                continue
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    dp.Profiler(d, options=o, profiler_type=kind)
                ok = True
            except ValueError:
                ok = False
            ctx.check(not ok, lambda: f"{what}: a {kind} profile was made with invalid options {errs}")
    ctx.state(what)


def valid(case, ctx):
    ps, few = case[1:], case[0]
    tabs = [[(v, True) for v in table(p)[0][-few:]] + [(v, False) for v in table(p)[1][:few]] for p in ps]
    for combo in itertools.product(*tabs):
        o, model = dp.ProfilerOptions(), start()
        bad = []
        for p, (v, good) in zip(ps, combo):
            o.set({p: copy.deepcopy(v)})
            put(model, p, copy.deepcopy(v))
            if not good:
                bad.append(p)
        judge(ctx, o, model, bad, f"{[(p, v) for p, (v, _) in zip(ps, combo)]}", use=len(ps) == 1)


def depends(case, ctx):
    kind, bits = case
    o, model = dp.ProfilerOptions(), start()
    names = STATS + NUM
    for k, b in zip(names, bits):
        for t in (o.set, lambda d: put(model, *next(iter(d.items())))):
            t({f"structured_options.{kind}.{k}.is_enabled": bool(b)})
    judge(ctx, o, model, [], f"{kind} {[k for k, b in zip(names, bits) if b]}")
    x = getattr(o.structured_options, kind)
    ctx.eq(x.is_numeric_stats_enabled, any(bits if kind != "text" else bits[:len(STATS)]), f"{kind} {bits}: numeric statistics on")
    for k in names:
        ctx.eq(x.is_prop_enabled(k), get(model, f"structured_options.{kind}.{k}.is_enabled"), f"{kind} {bits}: {k} on")


def category(case, ctx):
    mx, ratio, cms, hh, cat, chi = case
    o, model = dp.ProfilerOptions(), start()
    c = "structured_options.category."
    for k, v in ((c + "max_sample_size_to_check_stop_condition", mx), (c + "stop_condition_unique_value_ratio", ratio), (c + "cms", cms),
                 (c + "cms_max_num_heavy_hitters", hh), (c + "is_enabled", cat), ("structured_options.chi2_homogeneity.is_enabled", chi)):
        o.set({k: v})
        put(model, k, v)
    bad = []
    if mx is not None and not (isinstance(mx, int) and mx >= 0):
        bad.append(c + "max_sample_size_to_check_stop_condition")
    if ratio is not None and not (isinstance(ratio, float) and 0 <= ratio <= 1):
        bad.append(c + "stop_condition_unique_value_ratio")
    judge(ctx, o, model, bad, f"category {case}")


def enabled(case, ctx):
    o, model = dp.ProfilerOptions(), start()
    for which in ("structured_options", "unstructured_options"):
        names = [k for k, v in model[which].items() if isinstance(v, dict)]
        for off in itertools.chain(itertools.combinations(names, 1), itertools.combinations(names, case[0])):
            o = dp.ProfilerOptions()
            model = start()
            for k in off:
                v = not model[which][k]["is_enabled"]
                o.set({f"{which}.{k}.is_enabled": v})
                model[which][k]["is_enabled"] = v
            ctx.eq(sorted(getattr(o, which).enabled_profiles), sorted(k for k in names if model[which][k]["is_enabled"]), f"{which} without {off}: enabled profiles")
            ctx.eq(read(o), model, f"{which} without {off}: options after asking")
            ctx.step()
            ctx.state((which, off))


PRESETS = {
    "complete": [("*.is_enabled", True)],
    "data_types": [("*.is_enabled", False), ("*.data_labeler.is_enabled", True)],
    "numeric_stats_disabled": [("*.int." + ALL, False), ("*.float." + ALL, False), ("structured_options.text." + ALL, False)],
    "lower_memory_sketching": [("structured_options.row_statistics.unique_count.hashing_method", "hll"),
                               ("structured_options.category.max_sample_size_to_check_stop_condition", 5000),
                               ("structured_options.category.stop_condition_unique_value_ratio", 0.5)],
    None: [],
}


def preset(case, ctx):
    name, then = case
    if name not in PRESETS:
        try:
            dp.ProfilerOptions(presets=name)
            ok = True
        except ValueError:
            ok = False
        ctx.step()
        return ctx.check(not ok, lambda: f"unknown preset {name} accepted")
    o, model = dp.ProfilerOptions(presets=name), start()
    for n, v in PRESETS[name]:
        put(model, n, v)
    ctx.eq(read(o), model, f"preset {name}")
    ctx.eq(errors(o), [], f"preset {name}: errors")
    if then:
        o.set({then: False})
        put(model, then, False)
        ctx.eq(read(o), model, f"preset {name}, then {then}")
    ctx.eq(read(dp.ProfilerOptions()), start(), f"default options after preset {name}")
    ctx.step()
    ctx.state((name, then))


def stored(case, ctx):
    ps = case
    tabs = [table(p)[0] for p in ps]
    for combo in itertools.product(*tabs):
        o, model = dp.ProfilerOptions(), start()
        for p, v in zip(ps, combo):
            o.set({p: copy.deepcopy(v)})
            put(model, p, copy.deepcopy(v))
        text = json.dumps(o.structured_options, cls=ProfileEncoder)
        q = load_option(json.loads(text))
        ctx.step()
        what = f"{list(zip(ps, combo))}: options after JSON"
        ctx.check(type(q) is type(o.structured_options), lambda: f"{what}: {type(q)}")
        ctx.eq(read(q), model["structured_options"], what)
        ctx.check(q == o.structured_options, lambda: f"{what}: not equal")
        ctx.eq(read(o), model, f"{what}: options saved")
        ctx.state(what)


def spaces(tier):
    big = tier == "thorough"
    FEW = ["*.is_enabled", "structured_options.int.min.is_enabled", "*.int.is_enabled", "*.histogram_and_quantiles.is_enabled", "text.mode.is_enabled",
           "*.text.is_enabled", "int." + ALL, "*." + ALL, "structured_options.text." + ALL, "*.vocab.is_enabled", "*.max_sample_size",
           "unstructured_options.*.is_enabled", "structured_options.*.unique_count.is_enabled", "data_labeler.is_enabled", "text.vocab.is_enabled"]

    def c_set():
        for n in FORMS:
            for v in (True, False, "text", 17):
                yield [[[n, v]], False]
        for a, b in itertools.product(FEW, repeat=2):
            for v, w in ((True, False), (False, True)):
                yield [[[a, v], [b, w]], False]
                if a != b:
                    yield [[[a, v], [b, w]], True]
        few = FEW[::2] if not big else FEW
        for a, b, c in itertools.permutations(few, 3):
            yield [[[a, False], [b, True], [c, False]], big]
        if big:
            for a in FORMS:
                for b in FEW:
                    yield [[[a, 1], [b, 2]], False]
                    yield [[[b, 1], [a, 2]], True]

    def c_unk():
        groups = {"": start()}
        for p in paths(start()):
            parts = p.split(".")
            for i in range(1, len(parts)):
                if ALL not in parts:
                    groups[".".join(parts[:i])] = 1
            if ALL not in parts:
                yield [p + ".nothing"]
        for g in groups:
            yield [(g + "." if g else "") + "nothing"]
            yield [g + ".enabled" if g else "enabled"]

    def c_valid():
        for p in LEAVES:
            yield [99, p]
        some = LEAVES if big else [p for p in LEAVES if p.count(".") < 3 or any(x in p for x in (".int.mode.top", "float.precision", "unique_count", "text.vocab", "text.words",
                                                                                               "int.histogram_and_quantiles"))]
        for a, b in itertools.combinations(some, 2):
            yield [2 if big else 1, a, b]

    def c_dep():
        n = len(STATS) + len(NUM)
        for kind in ("int", "float", "text"):
            for bits in itertools.product((1, 0), repeat=n):
                if not big and (bits[0] != bits[1] or len(set(bits[:-2])) > 1 and bits[-2:] != ((0, 0) if kind == "text" else (1, 1))):
                    continue
                yield [kind, list(bits)]

    def c_cat():
        yield from map(list, itertools.product([None, 0, 5, -1, "x"], [None, 0.5, 0.0, 1.0, 1.5, -0.5, "x"], [False, True], [10, None, "x"], [True, False], [True, False]))

    def c_en():
        yield [2]
        if big:
            yield [3]

    def c_pre():
        for n in list(PRESETS) + ["nothing", "Complete", "data_types "]:
            for then in [None] + FEW:
                if n in PRESETS and (then is None or not ambiguous(then)):
                    yield [n, then]
                elif then is None:
                    yield [n, None]

    def c_json():
        st = [p for p in LEAVES if p.startswith("structured")]
        for p in st:
            yield [p]
        for a, b in itertools.combinations([p for p in st if big or p.count(".") < 3], 2):
            yield [a, b]

    return [
        Space("set", f"each of {len(FORMS)} ways to name an option (in full, shortened, by wildcard) x 4 values; pairs and triples of {len(FEW)} of them, "
              "one after the other and at once: options, other instances, copies and equality", c_set, setting),
        Space("unknown", "unknown names in and below every group of options", c_unk, unknown),
        Space("validate", f"valid and invalid values of {len(LEAVES)} options, alone (also given to a profile) and in pairs", c_valid, valid),
        Space("depends", "every combination of numeric statistics turned on and off (quick: some tied) for int, float and text", c_dep, depends),
        Space("category", "every combination of stop conditions, sketch, categories and chi-square test", c_cat, category),
        Space("enabled", "every pair (thorough: triple) of groups toggled: the enabled profiles", c_en, enabled),
        Space("presets", "every preset, alone and changed", c_pre, preset),
        Space("json", "options through JSON: every valid value, pairs of options", c_json, stored),
    ]
