"""C25: data label votes of a column, entity counts of texts."""
import itertools
import random
import re

from mc.engine import Space, same
from mc.props.c23 import Tensor
from mc.sut import dp, frame, np, opts, pd

from dataprofiler.labelers import data_processing as D
from dataprofiler.labelers.base_data_labeler import BaseDataLabeler
from dataprofiler.labelers.character_level_cnn_model import CharacterLevelCnnModel
from dataprofiler.labelers.regex_model import RegexModel
from dataprofiler.profilers.data_labeler_column_profile import DataLabelerColumn
from dataprofiler.profilers.profiler_options import DataLabelerOptions
from dataprofiler.profilers.unstructured_labeler_profile import UnstructuredLabelerProfile

ASSUMPTIONS = [
    "the model is controlled: the confidence of a label for a value is the share of its characters which have that label",
    "a value votes for its most confident label if that is above 0.2; where two are equally confident either may get the vote",
    "fewer values than the labeling sample limit, except in the space 'limit'",
    "texts: words of two or more characters of one label, followed by a separator (how words are smoothed and that an unfinished last "
    "background word is not counted are fixed by existing tests)",
]

LABELS = ["UNKNOWN", "A", "B", "C"]
CHAR = {"a": "A", "b": "B", "c": "C"}


class Net2:
    def __init__(self, n, mp):
        self.n, self.mp = n, mp

    def __call__(self, batch):
        batch = batch.numpy()
        k = max(self.mp.values()) + 1
        conf, pred = np.zeros((len(batch), self.n, k)), np.zeros((len(batch), self.n))
        for i, row in enumerate(batch):
            for j, c in enumerate(row[0].decode("utf8")):
                pred[i, j] = self.mp[CHAR.get(c, "UNKNOWN")]
            for j in range(self.n):
                conf[i, j, int(pred[i, j])] = 1
        return Tensor(conf), Tensor(pred)


_lab = {}


def labeler(kind):
    if kind not in _lab:
        if kind == "regex":
            m = RegexModel({l: i for i, l in enumerate(LABELS)}, {"regex_patterns": {v: [k] for k, v in CHAR.items()}})
            _lab[kind] = BaseDataLabeler.load_with_components(D.DirectPassPreprocessor(), m, D.StructRegexPostProcessor(random_state=0))
        else:
            mp = {"PAD": 0, **{l: i + 1 for i, l in enumerate(LABELS)}}
            m = CharacterLevelCnnModel(mp, {"max_length": 16})
            m._model, m._model_num_labels, m._model_default_ind = Net2(16, mp), m.num_labels, 1
            pre, post = (D.StructCharPreprocessor, D.StructCharPostprocessor) if kind == "cells" else (D.CharPreprocessor, D.CharPostprocessor)
            _lab[kind] = BaseDataLabeler.load_with_components(pre(max_length=16), m, post())
    return _lab[kind]


def share(cell):
    return [sum(CHAR.get(c, "UNKNOWN") == l for c in cell) / len(cell) for l in LABELS]


def check(ctx, what, sample, label, avg, rep, values):
    ctx.eq(sample, len(values), f"{what}: values labelled")
    if not values:
        ctx.check(label is None and avg is None and rep is None, lambda: f"{what}: no values, but {label} {avg} {rep}")
        return
    sh = [share(v) for v in values]
    want = {l: sum(s[i] for s in sh) / len(sh) for i, l in enumerate(LABELS)}
    ctx.check(same(dict(avg), want), lambda: f"{what}: average confidences {avg}, expected {want}")
    opts_ = {}
    for s in sh:
        top = tuple(i for i in range(4) if s[i] > max(s) - 1e-9) if max(s) > 0.2 else ()
        opts_[top] = opts_.get(top, 0) + 1
    # every way in which equally confident labels may have got the votes
    worlds = [[0] * 4]
    for top, k in opts_.items():
        if not top:
            continue
        new = []
        for split in itertools.combinations_with_replacement(top, k):
            for w in worlds:
                w = list(w)
                for i in split:
                    w[i] += 1
                new.append(w)
        worlds = new
    ok = []
    for w in worlds:
        t = sum(w)
        r = {l: w[i] / max(1, t) for i, l in enumerate(LABELS)}
        if same(dict(rep), r):
            ok.append((w, r))
    ctx.check(ok, lambda: f"{what}: shares of the votes {rep}, expected one of {worlds}")
    w, r = ok[0]
    labels = set()
    for order in itertools.permutations(range(4)):
        o = sorted(order, key=lambda i: -w[i])[:3]
        if not sum(w) or r[LABELS[o[0]]] < 0.35:
            labels.add(("could not determine",))
        else:
            labels.add(tuple(sorted(LABELS[i] for i in o if r[LABELS[o[0]]] - r[LABELS[i]] <= 0.2 + 1e-9)))
    # on the edge of 0.2 either is accepted
    edge = set()
    for order in itertools.permutations(range(4)):
        o = sorted(order, key=lambda i: -w[i])[:3]
        if sum(w) and r[LABELS[o[0]]] >= 0.35:
            edge.add(tuple(sorted(LABELS[i] for i in o if r[LABELS[o[0]]] - r[LABELS[i]] <= 0.2 - 1e-9)))
    got = tuple(sorted(label.split("|")))
    ctx.check(got in labels | edge, lambda: f"{what}: label {label!r}, expected one of {labels} for the votes {r}")


def column(case, ctx):
    kind, parts, fold = case
    o = DataLabelerOptions()
    o.data_labeler_object = labeler(kind)
    ps = []
    for batches in parts:
        p = DataLabelerColumn("x", o)
        vals = []
        for b in batches:
            p.update(pd.Series(list(b), dtype=object, index=range(len(vals), len(vals) + len(b))))
            vals += b
            ctx.step()
            r = p.report()
            check(ctx, f"{kind} {parts}", p.sample_size, r["data_label"], r["avg_predictions"], r["data_label_representation"], vals)
        ps.append((p, vals))
    while len(ps) > 1:
        i = 0 if fold == "left" else len(ps) - 2
        (p, a), (q, b) = ps[i], ps[i + 1]
        m = p + q
        ctx.step()
        ps[i:i + 2] = [(m, a + b)]
        for x, vals, n in ((m, a + b, "merged"), (p, a, "left operand"), (q, b, "right operand")):
            r = x.report()
            check(ctx, f"{kind} {parts} {fold} {n}", x.sample_size, r["data_label"], r["avg_predictions"], r["data_label_representation"], vals)
    # going on after the merge
    if len(parts) > 1:
        p, vals = ps[0]
        p.update(pd.Series(["b", "b"], dtype=object))
        r = p.report()
        check(ctx, f"{kind} {parts} {fold} then b, b", p.sample_size, r["data_label"], r["avg_predictions"], r["data_label_representation"], vals + ["b", "b"])
    ctx.state((kind, repr(parts), repr(r["data_label"])))


def limit(case, ctx):
    cells, n = case
    o = DataLabelerOptions()
    o.data_labeler_object = labeler("regex")
    o.max_sample_size = n
    p = DataLabelerColumn("x", o)
    p.update(pd.Series(cells, dtype=object))
    ctx.step()
    k = min(n, len(cells))
    ctx.eq(p.sample_size, k, f"{case}: values labelled")
    avg = p.report()["avg_predictions"]
    for sub in itertools.combinations(cells, k):
        if same(dict(avg), {l: sum(share(v)[i] for v in sub) / k for i, l in enumerate(LABELS)}):
            break
    else:
        ctx.check(False, f"{case}: {avg} is the average of no {k} of the values")
    ctx.state(repr(case))


def table(case, ctx):
    """through the profiler: columns with nulls, updates, merge, save"""
    kind, parts = case
    ps = []
    for batches in parts:
        o = opts()
        o.structured_options.data_labeler.is_enabled = True
        o.structured_options.data_labeler.data_labeler_object = labeler(kind)
        p, vals, start = None, ([], []), 0
        for b in batches:
            rows = [[None if c == "" else c for c in b], [None if c == "" else c for c in reversed(b)]]
            df = frame([("u", rows[0]), ("v", rows[1])], index=range(start, start + len(b)))
            start += len(b)
            if p is None:
                p = dp.Profiler(df, options=o, profiler_type="structured")
            else:
                p.update_profile(df)
            ctx.step()
            for v, r in zip(vals, rows):
                v.extend(c for c in r if c is not None)
            judge(ctx, p, vals, f"{kind} {parts}")
        ps.append((p, vals))
    if len(ps) > 1:
        (p, a), (q, b) = ps
        m = p + q
        ctx.step()
        judge(ctx, m, (a[0] + b[0], a[1] + b[1]), f"{kind} {parts} merged")
    ctx.state(repr(case))


def judge(ctx, p, vals, what):
    rep = p.report()
    for i in (0, 1):
        c = rep["data_stats"][i]
        st = c["statistics"]
        raw = p.profile[i].profiles["data_label_profile"]
        if not vals[i]:
            ctx.check(c["data_label"] is None, lambda: f"{what}: column {i} has no values but the label {c['data_label']}")
            continue
        check(ctx, f"{what}: column {i}", len(vals[i]), c["data_label"], st["avg_predictions"], st["data_label_representation"], vals[i])


def texts(case, ctx):
    parts, how = case
    ps = []
    for batches in parts:
        done = []
        if how == "profile":
            o = DataLabelerOptions()
            o.data_labeler_object = labeler("text")
            p = UnstructuredLabelerProfile(options=o)
        else:
            p = None
        for b in batches:
            if how == "profile":
                p.update(pd.Series(b, dtype=object))
            elif p is None:
                o = dp.ProfilerOptions()
                o.unstructured_options.data_labeler.data_labeler_object = labeler("text")
                p = dp.Profiler(pd.Series(b, dtype=object), options=o, profiler_type="unstructured")
            else:
                p.update_profile(pd.Series(b, dtype=object))
            done += b
            ctx.step()
            entities(ctx, p, done, how, f"{parts}")
        ps.append((p, done))
    while len(ps) > 1:
        (p, a), (q, b) = ps[:2]
        m = p + q
        ctx.step()
        ps[:2] = [(m, a + b)]
        entities(ctx, m, a + b, how, f"{parts} merged")
        entities(ctx, p, a, how, f"{parts} left operand")
        entities(ctx, q, b, how, f"{parts} right operand")
    ctx.state(repr(case))


def entities(ctx, p, done, how, what):
    rep = p.report() if how == "profile" else p.report()["data_stats"]["data_label"]
    chars, words, post = {}, {}, {}
    for t in done:
        for c in t:
            l = CHAR.get(c, "UNKNOWN")
            chars[l] = chars.get(l, 0) + 1
            post[l] = post.get(l, 0) + 1
        for w in re.findall(r"[^ ,.]+", t):
            l = CHAR.get(w[0], "UNKNOWN")
            words[l] = words.get(l, 0) + 1
    for level, want in (("true_char_level", chars), ("postprocess_char_level", post), ("word_level", words)):
        got = {k: v for k, v in rep["entity_counts"][level].items() if v}
        ctx.check(same(got, want), lambda: f"{what}: {level} counts {got}, expected {want}")
        n = sum(want.values())
        per = {k: v for k, v in (rep["entity_percentages"][level] or {}).items() if v}
        ctx.check(same(per, {k: v / n for k, v in want.items()}), lambda: f"{what}: {level} percentages {per} of {want}")


def spaces(tier):
    thorough = tier != "quick"
    cells = ["a", "b", "x", "aab", "ab", "abcx", "xxxxxa"]
    small = ["a", "b", "abcx"]

    def c_col():
        for kind in ("regex", "cells"):
            for n in range(0, 5 if thorough else 4):
                for c in itertools.product(cells, repeat=n):
                    for k in range(n + 1):
                        yield kind, [[list(c[:k]), list(c[k:])]], "left"
                        if 0 < n < 4:
                            yield kind, [[list(c[:k])], [list(c[k:])]], "left"
            for a, b, c in itertools.product([[], ["a"], ["b", "abcx"], ["x", "x", "a"], ["abcx"]], repeat=3):
                for f in ("left", "right"):
                    yield kind, [[a], [b], [c]], f
                    yield kind, [[a, b], [c]], f
                    yield kind, [[], [b], [c]], f
            # long columns around the thresholds
            for na, nb, nx in itertools.product(range(0, 9 if thorough else 7), repeat=3):
                if na + nb + nx > 3:
                    yield kind, [[["a"] * na + ["b"] * nb + ["x"] * nx]], "left"

            for t in itertools.product((0, 1, 2, 5, 9, 10, 11, 20) + ((99, 100, 101) if thorough else (100,)), repeat=3):
                if max(t) > 8:
                    yield kind, [[sum(([v] * k for v, k in zip("abx", t)), [])]], "left"

    def c_lim():
        for n in (1, 2, 3, 5):
            for k in range(1, 5):
                for c in itertools.product(["a", "b", "xa"], repeat=k):
                    yield list(c), n

    def c_tab():
        vs = ["a", "b", "", "aab"]
        for kind in ("regex", "cells"):
            for n in range(1, 4):
                for c in itertools.product(vs, repeat=n):
                    c = list(c)
                    if n < 3:
                        yield kind, [[c]]
                        yield kind, [[c, ["a", "", "b"]]]
                    if n > 1:
                        yield kind, [[c[:1], c[1:]]]
                        yield kind, [[c[:1]], [c[1:]]]
                    if thorough:
                        yield kind, [[c], [c[::-1], ["", "x"]]]

    def c_txt():
        ws = ["aa ", "bb,", "xx ", "aa xx ", "xx. bb bb ", "ccc,xxxx ", "aa bb xx "]
        for how in ("profile", "profiler"):
            for n in range(1, 4 if how == "profile" or thorough else 3):
                for c in itertools.product(ws, repeat=n):
                    c = list(c)
                    yield [[c]], how
                    for k in range(1, n):
                        yield [[c[:k], c[k:]]], how
                        yield [[c[:k]], [c[k:]]], how
            if how == "profile":
                for c in itertools.product(ws, repeat=2):
                    yield [[[], list(c)]], how
                    yield [[], [list(c)]], how
                    yield [[list(c)], []], how

    return [
        Space("column", "a regex and a network labeler x every column of <=3 of 7 values x every split into two updates or two merged profiles; three-way "
              "merges with empty operands both ways; vote counts around the thresholds", c_col, column),
        Space("limit", "labeling sample limit 1, 2, 3, 5 on <=4 values", c_lim, limit),
        Space("table", "through the profiler: two columns with nulls x updates x merge", c_tab, table),
        Space("texts", "<=3 texts x updates x merges: characters, words, percentages", c_txt, texts),
    ]
