"""C24: rule-based labelling."""
import itertools
import random
import re
import warnings

import rapidfuzz

from mc.engine import Space, same
from mc.sut import np, pd

from dataprofiler.labelers import data_processing as D
from dataprofiler.labelers.base_data_labeler import BaseDataLabeler
from dataprofiler.labelers.column_name_model import ColumnNameModel
from dataprofiler.labelers.data_labelers import DataLabeler
from dataprofiler.labelers.regex_model import RegexModel

ASSUMPTIONS = [
    "a pattern's matches are those of Python's re.finditer, with the encapsulators around it and the configured case rule",
    "cells given to the structured regex labeler are not empty; priority orders name every label",
    "column-name scores are those of rapidfuzz token_sort_ratio of the lower-cased names; names without a label are left out of the answer",
]

MAP = {"UNKNOWN": 0, "A": 1, "B": 2, "C": 3}
PATS = ["a", "b+", "ab", "a.", "^b", "[ab]1", "1$", "(?=a)b*", "A"]


def votes(text, patterns, enc, ignore, mapping=MAP, default="UNKNOWN"):
    d = mapping[default]
    n = max(mapping.values()) + 1
    out = [[0] * n for _ in text]
    flags = re.IGNORECASE if ignore else 0
    for lab, ps in patterns.items():
        for p in ps:
            for m in re.finditer(enc[0] + p + enc[1], text, flags):
                for i in range(m.start(), m.end()):
                    out[i][mapping[lab]] = 1
    for v in out:
        if not any(v):
            v[d] = 1
    return out


def make(patterns, enc, ignore, post):
    m = RegexModel(dict(MAP), {"regex_patterns": {k: list(v) for k, v in patterns.items()},
                               "encapsulators": {"start": enc[0], "end": enc[1]}, "ignore_case": ignore})
    return BaseDataLabeler.load_with_components(preprocessor=D.DirectPassPreprocessor(), model=m, postprocessor=post)


def judge(ctx, rule, order, v, got, what):
    """got: labels of one text under the rule; v: votes"""
    ctx.eq(len(got), len(v), f"{what}: number of characters")
    for i, x in enumerate(v):
        s = sum(x)
        if rule == "split":
            ctx.check(same(list(got[i]), [k / s for k in x]), lambda: f"{what}: character {i}: {got[i]}, expected {[k / s for k in x]}")
        elif rule == "priority":
            w = next(k for k in order if x[k])
            ctx.check(int(got[i]) == w, lambda: f"{what}: character {i}: {got[i]}, expected {w}")
        else:
            ctx.check(x[int(got[i])] == 1, lambda: f"{what}: character {i}: {got[i]}, which has no vote of {x}")


def regex(case, ctx):
    patterns, enc, ignore, rule, order, texts = case
    what = f"{patterns} {enc} ignore {ignore} {rule} {order} on {texts}"
    kw = {} if rule is None else {"aggregation_func": rule}
    if rule == "priority":
        kw["priority_order"] = order
    lab = make(patterns, enc, ignore, D.RegexPostProcessor(random_state=random.Random(3), **kw))
    rule = rule or "split"
    vs = [votes(t, patterns, enc, ignore) for t in texts]
    for conf in (False, True):
        r = lab.predict(np.array(texts, dtype=object), predict_options={"show_confidences": conf}, verbose=False)
        ctx.step()
        ctx.eq(len(r["pred"]), len(texts), f"{what}: number of answers")
        chosen = {}
        for t, v, g in zip(texts, vs, r["pred"]):
            judge(ctx, rule, order, v, g, f"{what}: {t!r}")
            if rule == "random":
                # one order for the whole answer
                for x, k in zip(v, g):
                    key = tuple(x)
                    ctx.check(chosen.setdefault(key, int(k)) == int(k), lambda: f"{what}: the same votes {x} gave {k} and {chosen[key]}")
        if conf:
            for t, v, g in zip(texts, vs, r["conf"]):
                judge(ctx, "split", None, v, g, f"{what}: confidences of {t!r}")
    ctx.state(tuple(repr(v) for v in vs))


def cells(case, ctx):
    patterns, texts, box = case
    lab = make(patterns, ["", ""], True, D.StructRegexPostProcessor())
    what = f"{patterns} on {texts}"
    arg = {"array": np.array(texts, dtype=object), "list": list(texts), "series": pd.Series(texts, dtype=object),
           "frame": pd.DataFrame({"x": texts}, dtype=object)}[box]
    for conf in (False, True):
        r = lab.predict(arg, predict_options={"show_confidences": conf}, verbose=False)
        ctx.step()
        ctx.eq(len(r["pred"]), len(texts), f"{what}: number of answers")
        for i, t in enumerate(texts):
            v = votes(t, patterns, ["", ""], True)
            share = [sum(x[k] / sum(x) for x in v) / len(v) for k in range(4)]
            top = {k for k in range(4) if share[k] > max(share) - 1e-9}
            ctx.check(int(r["pred"][i]) in top, lambda: f"{what}: {t!r} is {r['pred'][i]}, shares {share}")
            if conf:
                ctx.check(same(list(r["conf"][i]), share), lambda: f"{what}: confidences of {t!r} {r['conf'][i]}, expected {share}")
    ctx.state((what, repr(r["pred"])))


def many(case, ctx):
    n, rule = case
    texts = [("ab1", "b", "", "1a")[i % 4] for i in range(n)]
    regex(({"A": ["a"], "B": ["b", "1$"]}, ["", ""], False, rule, [2, 1, 0, 3], texts), ctx)


_lib = {}


def library(case, ctx):
    texts, order = case
    if "r" not in _lib:
        _lib["r"] = DataLabeler.load_from_library("regex_model")
        _lib["p"] = _lib["r"].model.get_parameters()
    lab, p = _lib["r"], _lib["p"]
    mp = lab.label_mapping
    enc = (p["encapsulators"]["start"], p["encapsulators"]["end"])
    texts = [texts[i] for i in order]
    r = lab.predict(texts, verbose=False)
    ctx.step()
    post = lab.postprocessor.get_parameters()
    for t, g in zip(texts, r["pred"]):
        v = votes(t, p["regex_patterns"], enc, p["ignore_case"], mp, p["default_label"])
        judge(ctx, post["aggregation_func"], post["priority_order"], v, g, f"library labeler on {t!r}")
    ctx.state(tuple(texts))


NAMES = ["ssn", "SSN", "my ssn", "ssn my", "social_security", "account number", "number account", "acct", "pan", "pin", "", "zzz"]


def columns(case, ctx):
    pos, neg, pt, nt, names, box = case
    par = {"true_positive_dict": [{"attribute": a, "label": l} for a, l in pos],
           "false_positive_dict": [{"attribute": a, "label": "x"} for a in neg] if neg else None,
           "negative_threshold_config": nt if neg else None, "positive_threshold_config": pt, "include_label": True}
    mp = {l: i for i, l in enumerate(["UNKNOWN"] + sorted({l for _, l in pos}))}
    m = ColumnNameModel(mp, par)
    lab = BaseDataLabeler.load_with_components(preprocessor=D.DirectPassPreprocessor(), model=m, postprocessor=D.ColumnNameModelPostprocessor())
    what = f"{case}"
    sc = lambda a, b: rapidfuzz.fuzz.token_sort_ratio(a.lower(), b.lower())
    want, confs = [], []
    for n in names:
        if neg and max(sc(n, a) for a in neg) >= nt:
            continue
        ss = [sc(n, a) for a, _ in pos]
        if max(ss) > pt:
            want.append({l for (a, l), s in zip(pos, ss) if s > max(ss) - 1e-4})
            confs.append(max(ss))
    arg = {"list": list(names), "array": np.array(names, dtype=object), "series": pd.Series(names, dtype=object)}[box]
    for conf in (False, True):
        r = lab.predict(arg, predict_options={"show_confidences": conf}, verbose=False)
        ctx.step()
        ctx.eq(len(r["pred"]), len(want), f"{what}: number of labels")
        ctx.check(all(g in w for g, w in zip(r["pred"], want)), lambda: f"{what}: {list(r['pred'])}, expected {want}")
        if conf:
            ctx.check(same(list(map(float, r["conf"])), confs, 1e-4, 1e-3), lambda: f"{what}: scores {r['conf']}, expected {confs}")
    ctx.state((what, repr(want)))


def spaces(tier):
    thorough = tier != "quick"
    texts = ["".join(p) for k in range(0, 5 if thorough else 4) for p in itertools.product("ab1", repeat=k)]
    texts += ["aA", "Ab1", "a b", "xab1x", "a\nb"]
    sets = [{}] + [{l: [p]} for p in PATS for l in "AC"] + [{"A": [p], "B": [q]} for p in PATS for q in PATS] + [{"A": [p, q]} for p, q in itertools.combinations(PATS, 2)]
    sets += [{"C": [p], "A": [q], "B": ["b"]} for p in PATS[:5] for q in PATS[3:]]
    orders = list(itertools.permutations(range(4))) if thorough else [[0, 1, 2, 3], [3, 2, 1, 0], [2, 1, 3, 0], [1, 3, 0, 2]]

    def c_re():
        for s in sets:
            for enc in (["", ""], ["(?<![a])", ""], ["", "(?!1)"], ["a", ""]):
                for ig in (False, True):
                    for rule, order in [(None, None), ("split", None), ("random", None)] + [("priority", list(o)) for o in orders]:
                        if rule == "split" and (enc[0] or ig):
                            continue
                        yield s, enc, ig, rule, order, texts
        for s in sets[:40]:
            for t in texts:
                for rule, order in ((None, None), ("priority", [3, 1, 2, 0]), ("random", None)):
                    yield s, ["", ""], True, rule, order, [t]
        yield sets[3], ["", ""], True, "split", None, []
        yield sets[3], ["", ""], True, "priority", [3, 1, 2, 0], []

    def c_ce():
        for s in sets:
            ts = [t for t in texts if t]
            for box in ("array", "list", "series", "frame"):
                yield s, ts, box
            if thorough or len(s) < 2:
                for t in ts:
                    yield s, [t], "list"
                for a, b in itertools.product(ts[:12], repeat=2):
                    yield s, [a, b], "array"

    def c_li():
        ts = ["123-45-6789", "a@b.co", "2020-01-02", "5,000", "http://x.org", "", "plain words", "4111 1111 1111 1111", "10:30:00", "192.168.0.1", "(555) 123-4567", "12345"]
        for i in range(len(ts)):
            yield ts, [i]
            for j in range(len(ts)):
                yield ts, [i, j]
        yield ts, list(range(len(ts)))
        yield ts, list(range(len(ts)))[::-1]

    def c_co():
        poss = [[("ssn", "S")], [("ssn", "S"), ("account number", "N")], [("acct", "N"), ("social security", "S"), ("pin", "P")]]
        negs = [[], ["pan"], ["ssn my", "acct"]]
        groups = [[n] for n in NAMES] + [list(g) for g in itertools.permutations(NAMES, 2)] + [NAMES, NAMES[::-1], []]
        if thorough:
            groups += [list(g) for g in itertools.permutations(NAMES[:8], 3)]
        for pos in poss:
            for neg in negs:
                for pt in (50, 85, 99):
                    for nt in (60, 100) if neg else (0,):
                        for k, g in enumerate(groups):
                            yield pos, neg, pt, nt, g, ("list", "array", "series")[k % 3]

    return [
        Space("regex", f"{len(sets)} pattern sets x encapsulators x case rule x aggregation (4 priority orders) on every text of <=3 characters over "
              "a, b, 1, together and alone, with and without confidences", c_re, regex),
        Space("cells", "the same pattern sets as labels of cells", c_ce, cells),
        Space("many", "0..250 texts around the sizes at which the answer's storage grows", lambda: ((n, r) for n in (1, 99, 100, 101, 199, 200, 201, 399, 400, 401) for r in ("split", "priority")), many),
        Space("library", "the shipped regex labeler on texts, pairs and all", c_li, library),
        Space("columns", "names alone, in pairs and all x references x exclusions x thresholds", c_co, columns),
    ]
