"""C29: data labelers keep their settings, labels and answers."""
import copy
import itertools
import json
import os
import random
import shutil
import tempfile
import warnings

from mc.engine import Space, same
from mc.sut import np, pd

from dataprofiler.labelers import base_data_labeler as B
from dataprofiler.labelers import data_processing as D
from dataprofiler.labelers.base_model import BaseTrainableModel
from dataprofiler.labelers.column_name_model import ColumnNameModel
from dataprofiler.labelers.data_labelers import DataLabeler
from dataprofiler.labelers.regex_model import RegexModel

ASSUMPTIONS = [
    "labels are only replaced by sets which keep those the patterns and references of the model use",
    "in the kinds 'text' and 'cell' the network is replaced by a model of the harness (own save and load), labeler and processors are real; "
    "the kind 'network' uses a real small network, whose answers are only compared with those of its saved copy",
]

LABELS = {"UNKNOWN": 0, "D": 1, "L": 2}
NET = {"PAD": 0, "UNKNOWN": 1, "D": 2, "L": 3}
DATA = ["a1", "7", "xX y", "12 ab 3", "b"]
NAMES = ["phone", "e-mail", "Phone no", "zzz"]


class StandIn(BaseTrainableModel):
    """labels digits D and letters L"""

    requires_zero_mapping = False

    def __init__(self, label_mapping, parameters=None):
        parameters = dict(parameters or {})
        parameters.setdefault("max_length", 8)
        parameters.setdefault("default_label", "UNKNOWN")
        self.seen = []
        BaseTrainableModel.__init__(self, label_mapping, parameters)

    def _validate_parameters(self, parameters):
        for k in parameters:
            if k not in ("max_length", "default_label"):
                raise ValueError(k)
        if not isinstance(parameters.get("max_length", 1), int):
            raise ValueError("max_length")

    def _need_to_reconstruct_model(self):
        return False

    def _construct_model(self):
        pass

    _reconstruct_model = reset_weights = _construct_model

    def predict(self, data, batch_size=32, show_confidences=False, verbose=True):
        mp, n = self._label_mapping, self._parameters["max_length"]
        k = max(mp.values()) + 1
        pred, conf = [], []
        for batch in data:
            for row in np.array(batch).reshape(-1):
                s = row.decode("utf8") if isinstance(row, bytes) else str(row)
                p = [mp["D"] if c.isdigit() else mp["L"] if c.isalpha() else mp["UNKNOWN"] for c in s]
                if len(s) > n:
                    raise ValueError("sample too long")
                pred.append(p)
                conf.append([[0.5 + 0.5 * (j == x) for j in range(k)] for x in p])
        r = {"pred": pred}
        if show_confidences:
            r["conf"] = conf
        return r

    def fit(self, train_data, val_data=None, **kw):
        self.seen.append((train_data, val_data))
        return len(self.seen)

    def save_to_disk(self, dirpath):
        with open(os.path.join(dirpath, "standin.json"), "w") as f:
            json.dump([self._label_mapping, self._parameters], f)

    @classmethod
    def load_from_disk(cls, dirpath):
        with open(os.path.join(dirpath, "standin.json")) as f:
            return cls(*json.load(f))


START = {
    "regex": (D.DirectPassPreprocessor, RegexModel, D.RegexPostProcessor,
              dict(pre={}, model={"regex_patterns": {"D": ["[0-9]"], "L": ["[a-z]"]}, "encapsulators": {"start": "", "end": ""}, "ignore_case": True,
                                  "default_label": "UNKNOWN"}, post={"aggregation_func": "split", "priority_order": None}, labels=LABELS)),
    "regexcell": (D.DirectPassPreprocessor, RegexModel, D.StructRegexPostProcessor,
                  dict(pre={}, model={"regex_patterns": {"D": ["[0-9]"], "L": ["[a-z]"]}, "encapsulators": {"start": "", "end": ""}, "ignore_case": False,
                                      "default_label": "UNKNOWN"}, post={}, labels=LABELS)),
    "column": (D.DirectPassPreprocessor, ColumnNameModel, D.ColumnNameModelPostprocessor,
               dict(pre={}, model={"true_positive_dict": [{"attribute": "phone", "label": "D"}, {"attribute": "email", "label": "L"}],
                                   "false_positive_dict": None, "include_label": True, "negative_threshold_config": None,
                                   "positive_threshold_config": 60}, post={}, labels=LABELS)),
    "text": (D.CharPreprocessor, StandIn, D.CharPostprocessor,
             dict(pre={"max_length": 8, "default_label": "UNKNOWN", "pad_label": "PAD", "flatten_split": 0, "flatten_separator": " ",
                       "is_separate_at_max_len": False},
                  model={"max_length": 8, "default_label": "UNKNOWN"},
                  post={"default_label": "UNKNOWN", "pad_label": "PAD", "flatten_separator": " ", "use_word_level_argmax": False,
                        "output_format": "character_argmax", "separators": [" ", ",", ";"], "word_level_min_percent": 0.75}, labels=NET)),
    "cell": (D.StructCharPreprocessor, StandIn, D.StructCharPostprocessor,
             dict(pre={"max_length": 8, "default_label": "UNKNOWN", "pad_label": "PAD", "flatten_separator": "\x01",
                       "is_separate_at_max_len": False},
                  model={"max_length": 8, "default_label": "UNKNOWN"},
                  post={"default_label": "UNKNOWN", "pad_label": "PAD", "flatten_separator": "\x01", "is_pred_labels": True}, labels=NET)),
}


def P(**kw):
    return ["set", kw]


OPS = {
    "regex": [P(model={"ignore_case": False}), P(model={"encapsulators": {"start": "(?<!x)", "end": ""}}),
              P(model={"regex_patterns": {"D": ["1"], "L": ["[0-9]", "b"]}, "default_label": "L"}),
              P(post={"aggregation_func": "random"}), P(post={"aggregation_func": "priority", "priority_order": [2, 1, 0]}),
              P(model={"ignore_case": True}, post={"aggregation_func": "split"})],
    "regexcell": [P(model={"ignore_case": True}), P(model={"encapsulators": {"start": "", "end": "(?=.)"}}),
                  P(model={"regex_patterns": {"L": ["[0-9]"]}})],
    "column": [P(model={"include_label": False}), P(model={"positive_threshold_config": 95}),
               P(model={"true_positive_dict": [{"attribute": "zzz", "label": "L"}], "include_label": False}),
               P(model={"false_positive_dict": [{"attribute": "phone", "label": "D"}], "negative_threshold_config": 80})],
    "text": [P(pre={"max_length": 5}, model={"max_length": 5}), P(pre={"is_separate_at_max_len": True, "flatten_split": 1}),
             P(post={"output_format": "NER"}), P(post={"use_word_level_argmax": True, "word_level_min_percent": 0.4}),
             P(pre={"flatten_separator": ",,"}, post={"flatten_separator": ",,"}), P(post={"separators": ["x", " "]}),
             P(pre={"max_length": 6})],
    "cell": [P(pre={"max_length": 5}, model={"max_length": 5}), P(pre={"is_separate_at_max_len": True}), P(post={"is_pred_labels": False}),
             P(pre={"flatten_separator": "\x01\x01"}, post={"flatten_separator": "\x01\x01"}), P(post={"flatten_separator": "!"})],
}
LABEL_OPS = [["add", "NEW", None], ["add", "TWIN", "D"], ["labels", "more"]]
BAD = [["add", "", None], ["add", 5, None], ["add", "NEW3", "nowhere"], ["add", "D", None], ["labels", []], ["labels", "text"],
       P(model={"nonsense": 1}), P(post={"nonsense": 1}), P(pre={"nonsense": 1}), ["set", {}], ["set", {"other": {}}], ["set", {"mode": {"x": 1}}]]
BAD_KIND = {
    "regex": [P(model={"ignore_case": "yes"}), P(model={"ignore_case": False, "regex_patterns": {"D": ["["]}}), P(post={"aggregation_func": "first"}),
              P(model={"regex_patterns": {"Q": ["a"]}}), P(model={"ignore_case": False}, post={"aggregation_func": 3})],
    "regexcell": [P(model={"ignore_case": True}, post={"aggregation_func": "random"}), P(model={"encapsulators": {"start": ""}})],
    "column": [P(model={"include_label": 3}), P(model={"include_label": False}, post={"x": 1})],
    "text": [P(pre={"max_length": 0}), P(pre={"flatten_split": 2}), P(pre={"max_length": 5}, model={"max_length": "5"}),
             P(pre={"max_length": 5}, model={"max_length": 5}, post={"output_format": "other"}), P(post={"word_level_min_percent": -1})],
    "cell": [P(pre={"max_length": -1}), P(pre={"max_length": 5}, post={"is_pred_labels": 1}), P(post={"pad_label": 4})],
}
FULL = dict(pre="preprocessor", model="model", post="postprocessor")


def build(kind, state, trainable=False):
    pre, model, post, _ = START[kind]
    s = copy.deepcopy(state)
    if kind in ("regex", "regexcell"):
        s["post"] = dict(s["post"], random_state=random.Random(5))
    if kind == "cell":
        s["post"] = dict(s["post"], random_state=random.Random(5))
    m = model(s["labels"], s["model"])
    return (DataLabeler.load_with_components(pre(**s["pre"]), m, post(**s["post"]), trainable=trainable))


def rng_of(lab):
    p = lab.postprocessor._parameters
    if "regex_processor" in p:
        p = p["regex_processor"]._parameters
    return p.get("random_state")


def settings(lab):
    out = {}
    for k, c in (("pre", lab.preprocessor), ("model", lab.model), ("post", lab.postprocessor)):
        d = c.get_parameters()
        for x in ("random_state", "regex_processor", "label_mapping"):
            d.pop(x, None)
        out[k] = json.loads(json.dumps(d))
    if type(lab.preprocessor) is D.StructCharPreprocessor:
        out["pre"].pop("flatten_split", None)
    out["labels"] = dict(lab.label_mapping)
    return out


def answers(lab, kind):
    data = np.array(NAMES if kind == "column" else DATA, dtype=object)
    keep = data.copy()
    out = []
    for conf in (False, True):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = lab.predict(data, predict_options={"show_confidences": conf}, verbose=False)
        out.append({k: [np.asarray(x).tolist() if not isinstance(x, (list, dict)) else x for x in v] for k, v in r.items()})
    if data.tolist() != keep.tolist():
        return "the data were changed"
    return json.loads(json.dumps(out, default=str))


def outcome(lab, kind):
    try:
        return answers(lab, kind)
    except Exception as e:  # the same failure is expected of a new labeler with the same settings
        return f"{type(e).__name__}"


def expected(op, state):
    """the state after a valid operation; None if it must be refused"""
    s = copy.deepcopy(state)
    if op[0] == "add":
        if op[1] in s["labels"]:
            return s
        s["labels"][op[1]] = s["labels"][op[2]] if op[2] else max(s["labels"].values()) + 1
    elif op[0] == "labels":
        s["labels"] = {**{k: v + 1 if k not in ("PAD", "UNKNOWN") else v for k, v in s["labels"].items()}, "EXTRA": max(s["labels"].values()) + 3}
    elif op[0] == "set":
        for k, v in op[1].items():
            s[k].update(copy.deepcopy(v))
    return s


def do(lab, op, state):
    if op[0] == "add":
        lab.add_label(op[1], op[2])
    elif op[0] == "labels":
        lab.set_labels(expected(op, state)["labels"] if op[1] == "more" else op[1])
    elif op[0] == "set":
        lab.set_params({FULL.get(k, k): copy.deepcopy(v) for k, v in op[1].items()})


def reload_(lab, trainable=False):
    with tempfile.TemporaryDirectory(prefix="c29") as d:
        lab.save_to_disk(d)
        return DataLabeler.load_from_disk(d, trainable=trainable)


def agree(ctx, lab, kind, state, what):
    ctx.eq(settings(lab), json.loads(json.dumps(state)), f"{what}: settings and labels")
    mp = state["labels"]
    ctx.eq(lab.model.num_labels, max(mp.values()) + 1, f"{what}: number of labels")
    inv = lab.reverse_label_mapping
    ctx.check(set(inv) == set(mp.values()) and all(mp[v] == k for k, v in inv.items()), lambda: f"{what}: reverse mapping {inv} of {mp}")
    ctx.eq(lab.labels, [inv[k] for k in sorted(inv)], f"{what}: labels in order")
    twin = build(kind, state)
    if rng_of(lab) is not None:
        rng_of(twin).setstate(rng_of(lab).getstate())
    got, want = outcome(lab, kind), outcome(twin, kind)
    ctx.check(got == want or same(got, want), lambda: f"{what}: answers {got}, a new labeler with the same settings gives {want}")
    ctx.eq(settings(lab), json.loads(json.dumps(state)), f"{what}: settings after predicting")
    if rng_of(lab) is not None:
        ctx.check(rng_of(lab).getstate() == rng_of(twin).getstate(), lambda: f"{what}: random state after predicting differs")
    ctx.state((kind, json.dumps(state, sort_keys=True)))


def history(case, ctx):
    kind, ops = case
    state = copy.deepcopy(START[kind][3])
    lab = build(kind, state)
    other = build(kind, state)
    what = f"{kind}"
    for op in ops:
        what += f", {op}"
        bad = op in BAD or op in BAD_KIND[kind]
        ctx.step()
        if op[0] == "load":
            r = rng_of(lab).getstate() if rng_of(lab) is not None else None
            old = lab
            lab = reload_(lab)
            ctx.check(rng_of(lab) is None or rng_of(lab).getstate() == r, lambda: f"{what}: random state not kept")
            for a, b in ((old.preprocessor, lab.preprocessor), (old.model, lab.model), (old.postprocessor, lab.postprocessor)):
                ctx.check(type(a) is type(b), lambda: f"{what}: {type(b)} instead of {type(a)}")
            ctx.eq(settings(old), json.loads(json.dumps(state)), f"{what}: settings of the saved labeler")
        elif bad and op != ["add", "D", None]:
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    do(lab, op, state)
            except (ValueError, TypeError):
                pass
            else:
                ctx.check(False, lambda: f"{what}: accepted")
        else:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                do(lab, op, state)
            state = expected(op, state)
        agree(ctx, lab, kind, state, what)
    ctx.eq(settings(other), json.loads(json.dumps(START[kind][3])), f"{what}: settings of another labeler")
    ctx.eq(outcome(other, kind), outcome(build(kind, START[kind][3]), kind), f"{what}: answers of another labeler")


def shared(case, ctx):
    """labelers made of the same parameter objects; parameters read from a labeler; values given to it"""
    kind, op = case
    pre, model, post, start = START[kind]
    mp, par = copy.deepcopy(start["labels"]), copy.deepcopy(start["model"])
    a, b = model(mp, par), model(mp, par)
    ctx.eq(par, start["model"], f"{kind}: the caller's parameters after making models")
    extra = {k: np.random} if False else {}
    la, lb = (B.BaseDataLabeler.load_with_components(pre(**copy.deepcopy(start["pre"])), m, post(**copy.deepcopy(start["post"]), **extra)) for m in (a, b))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        do(la, op, start)
    ctx.step()
    ctx.eq(settings(la), json.loads(json.dumps(expected(op, start))), f"{kind} {op}: settings")
    ctx.eq(settings(lb), json.loads(json.dumps(start)), f"{kind} {op}: settings of a labeler made of the same values")
    ctx.eq((mp, par), (start["labels"], start["model"]), f"{kind} {op}: the caller's values")
    for c in (la.preprocessor, la.model, la.postprocessor):
        d = c.get_parameters()
        d.clear()
    for d in (la.label_mapping, la.reverse_label_mapping, la.model.label_mapping):
        d.clear()
    la.labels.clear()
    ctx.eq(settings(la), json.loads(json.dumps(expected(op, start))), f"{kind} {op}: settings after changing what was read")
    ctx.state((kind, json.dumps(op)))


def mismatch(case, ctx):
    """parts which disagree on a shared parameter are reported"""
    kind, pre, mod, post = case
    state = copy.deepcopy(START[kind][3])
    for k, v in (("pre", pre), ("model", mod), ("post", post)):
        state[k].update(v)
    lab = build(kind, state)
    parts = [state["pre"], state["model"], state["post"]]
    differ = sorted({k for x, y in itertools.combinations(parts, 2) for k in x if k in y and x[k] != y[k]})
    what = f"{kind} {pre} {mod} {post}"
    for err in (False, True):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                lab.check_pipeline(error_on_mismatch=err)
                raised = ""
            except RuntimeError as e:
                raised = str(e)
        ctx.step()
        told = raised + "\n".join(str(x.message) for x in w if issubclass(x.category, RuntimeWarning))
        ctx.eq(bool(raised), bool(err and differ), f"{what}: refused")
        ctx.eq(sorted(k for k in set(parts[0]) | set(parts[1]) | set(parts[2]) if f"`{k}`" in told), differ, f"{what}: reported parameters")
        if err:
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    lab.predict(["a"], error_on_mismatch=True, verbose=False)
                bad = False
            except RuntimeError:
                bad = True
            ctx.eq(bad, bool(differ), f"{what}: prediction refused")
    ctx.state((what,))


def training(case, ctx):
    """fit under every shuffle: pairs, division, epochs"""
    n, split, epochs, perms, kind = case
    x, y = ["x%d" % i for i in range(n)], [["D", "L"][i % 2] + str(i) for i in range(n)]
    m = StandIn(dict(NET))
    lab = DataLabeler.load_with_components(D.DirectPassPreprocessor(), m, D.ColumnNameModelPostprocessor(), trainable=True)
    todo = [list(p) for p in perms]
    old = np.random.permutation

    def permutation(k):
        if todo and len(todo[0]) == k:
            return np.array(todo.pop(0))
        return old(k)

    give = {"list": lambda v: list(v), "array": lambda v: np.array(v, dtype=object), "series": lambda v: pd.Series(v, index=range(5, 5 + n))}[kind]
    xs, ys = give(x), give(y)
    np.random.permutation = permutation
    try:
        res = lab.fit(xs, ys, validation_split=split, epochs=epochs, labels={**NET, **{v: 4 + i for i, v in enumerate(y)}})
    finally:
        np.random.permutation = old
    ctx.step()
    what = f"{n} samples, validation {split}, {epochs} epochs, shuffles {perms}"
    ctx.eq((list(xs), list(ys)), (x, y), f"{what}: the caller's samples")
    ctx.eq(len(res), epochs, f"{what}: results")
    ctx.eq(len(m.seen), epochs, f"{what}: rounds of training")
    ctx.eq(lab.label_mapping, {**NET, **{v: 4 + i for i, v in enumerate(y)}}, f"{what}: labels")
    pairs = set(zip(x, y))
    first = None
    for i, (tr, cv) in enumerate(m.seen):
        t = list(zip(*[list(map(str, v)) for v in tr]))
        c = list(zip(*[list(map(str, v)) for v in cv])) if cv is not None else []
        ctx.check(len(set(t)) == len(t) and len(set(c)) == len(c), lambda: f"{what}: epoch {i}: repeated samples {t} {c}")
        ctx.check(set(t) | set(c) <= pairs, lambda: f"{what}: epoch {i}: samples with other labels: {sorted((set(t) | set(c)) - pairs)}")
        ctx.check(not set(t) & set(c), lambda: f"{what}: epoch {i}: samples in both parts")
        k = max(1, int(n * (1 - split)))
        ctx.eq(len(t), k, f"{what}: epoch {i}: samples trained on")
        ctx.eq(len(c), n - k if split and k >= 2 else 0, f"{what}: epoch {i}: samples to validate with")
        if first is None:
            first = set(t), set(c)
        ctx.eq((set(t), set(c)), first, f"{what}: epoch {i}: division")
    ctx.state((n, split, epochs, tuple(map(tuple, perms))))


def refused(case, ctx):
    n, k, split = case
    m = StandIn(dict(NET))
    lab = DataLabeler.load_with_components(D.DirectPassPreprocessor(), m, D.ColumnNameModelPostprocessor(), trainable=True)
    try:
        lab.fit(["x"] * n, ["D"] * k, validation_split=split, labels={"PAD": 0, "Z": 1})
        ok = True
    except ValueError:
        ok = False
    ctx.step()
    ctx.eq(ok, n == k and n > 0 and 0 <= split < 1, f"{n} samples, {k} labels, validation {split}: accepted")
    if not ok:
        ctx.eq((lab.label_mapping, m.seen), (NET, []), f"{n} samples, {k} labels, validation {split}: labeler after refusal")
    ctx.state(tuple(case))


def inputs(case, ctx):
    """the same values in every kind of container give the same answers"""
    kind, vals = case
    lab = build(kind, START[kind][3])
    ref = None
    n = len(vals)
    for what, d in (("array", np.array(vals, dtype=object)), ("list", list(vals)), ("series", pd.Series(vals, index=range(9, 9 + n), dtype=object)),
                    ("frame", pd.DataFrame({"q": vals})), ("text array", np.array(vals)), ("wide", pd.DataFrame([vals])), ("column array", np.array([[v] for v in vals], dtype=object))):
        r = lab.predict(d, verbose=False)
        ctx.step()
        r = [np.asarray(v).tolist() if not isinstance(v, (list, dict)) else v for v in r["pred"]]
        if ref is None:
            ref = r
            ctx.eq(len(r), len(vals), f"{kind} {vals}: number of answers") if kind != "column" else None
        ctx.eq(r, ref, f"{kind} {vals} as {what}: answers")
    for n in range(1, len(vals)):
        parts = [np.asarray(v).tolist() for d in (vals[:n], vals[n:]) for v in lab.predict(list(d), verbose=False)["pred"]]
        if kind != "column":
            ctx.eq(parts, ref, f"{kind} {vals}: answers in two calls, {n} first")
    for b in (1, 2, 3):
        r = lab.predict(list(vals), batch_size=b, verbose=False)["pred"]
        ctx.eq([np.asarray(v).tolist() if not isinstance(v, (list, dict)) else v for v in r], ref, f"{kind} {vals}: answers with batches of {b}")
    ctx.state((kind, tuple(vals)))


def network(case, ctx):
    """the embedding table is rewritten whenever a network is made: in a folder of this case"""
    from dataprofiler.labelers import character_level_cnn_model as C

    home = getattr(C, "_file_dir", None)
    with tempfile.TemporaryDirectory(prefix="c29e") as d:
        if isinstance(home, str):
            shutil.copytree(os.path.join(home, "embeddings"), os.path.join(d, "embeddings"))
            C._file_dir = d
        try:
            network_(case, ctx, C)
        finally:
            if isinstance(home, str):
                C._file_dir = home


def network_(case, ctx, C):
    """a real network: saved and loaded"""
    import tensorflow as tf

    ops = case
    tf.random.set_seed(3)
    par = {"max_length": 6, "max_char_encoding_id": 127, "dim_embed": 64, "size_fc": [4], "size_conv": 3, "num_fil": [4], "dropout": 0.0}
    m = C.CharacterLevelCnnModel(dict(NET), par)
    lab = DataLabeler.load_with_components(D.CharPreprocessor(max_length=6), m, D.CharPostprocessor(), trainable=True)
    labels = dict(NET)
    m.reset_weights()
    what, dirty = "network", False

    def ask(l):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = l.predict(list(DATA), predict_options={"show_confidences": True}, verbose=False)
        return [[np.asarray(v, dtype=float) for v in r[k]] for k in ("pred", "conf")]

    for op in ops:
        what += f", {op}"
        ctx.step()
        if op == "add":
            lab.add_label("NEW%d" % len(labels))
            labels["NEW%d" % len(labels)] = max(labels.values()) + 1
            dirty = True
        elif op == "twin":
            lab.add_label("TWIN%d" % len(labels), "D")
            labels["TWIN%d" % len(labels)] = labels["D"]
        elif op == "set":
            dirty = dirty and max(labels.values()) == 5 or max(labels.values()) != 5
            labels = {**NET, "X": 4, "Y": 5}
            lab.set_labels(dict(labels))
        elif op == "fit":
            y = [[(0, 1, "D")], [(0, 1, "L")], [(0, 2, "D")]]
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ds = np.empty(3, dtype=object)
                for i, v in enumerate(y):
                    ds[i] = v
                dirty = False
                lab.fit(np.array(["1a", "ab", "12"], dtype=object), ds, validation_split=0, epochs=1, batch_size=2)
        elif op == "load":
            before = None if dirty else ask(lab)
            old, lab = lab, reload_(lab, trainable=True)
            dirty = False
            for k, (x, z) in zip(("labels", "confidences"), zip(before or ask(old), ask(lab))):
                ctx.check(len(x) == len(z) and all(p.shape == q.shape and np.allclose(p, q, atol=1e-5) for p, q in zip(x, z)),
                          lambda: f"{what}: the loaded labeler gives other {k}")
            ctx.eq(settings(lab), settings(old), f"{what}: settings")
        ctx.eq(lab.label_mapping, labels, f"{what}: labels")
        try:
            r = ask(lab)
        except RuntimeError:
            r = None
        ctx.eq(r is None, dirty, f"{what}: prediction refused until the model is trained for its labels")
        for s, p, c in zip(DATA, *(r or ([], []))):
            ctx.check(p.shape == (len(s),) and c.shape == (len(s), max(labels.values()) + 1), lambda: f"{what}: {s!r}: shapes {p.shape} {c.shape}")
            ctx.check(np.all(c >= -1e-6) and np.allclose(c.sum(axis=1), 1, atol=1e-4), lambda: f"{what}: {s!r}: confidences do not sum to 1")
        ctx.state((what,))


def spaces(tier):
    thorough = tier != "quick"

    def c_hist():
        for kind in START:
            good = OPS[kind] + LABEL_OPS + [["load"]]
            bad = BAD + BAD_KIND[kind]
            for n in (1, 2, 3) if not thorough else (1, 2, 3, 4):
                for ops in itertools.product(good, repeat=n):
                    if n > 3 and ["load"] not in ops:
                        continue
                    yield [kind, list(ops)]
            for b in bad:
                yield [kind, [b]]
                for g in good:
                    yield [kind, [g, b]]
                    yield [kind, [b, g]]
                    if thorough:
                        for h in good:
                            yield [kind, [g, b, h]]

    def c_shared():
        for kind in START:
            for op in OPS[kind] + LABEL_OPS:
                yield [kind, op]

    def c_mis():
        for kind in ("text", "cell"):
            for ml, mm in itertools.product((5, 8), repeat=2):
                for d in itertools.product(("UNKNOWN", "L"), repeat=3):
                    for sp in itertools.product(("!", "?"), repeat=2):
                        for pad in itertools.product(("PAD", "D"), repeat=2):
                            yield [kind, {"max_length": ml, "default_label": d[0], "flatten_separator": sp[0], "pad_label": pad[0]},
                                   {"max_length": mm, "default_label": d[1]}, {"default_label": d[2], "flatten_separator": sp[1], "pad_label": pad[1]}]

    def c_train():
        for n in range(1, 5 if not thorough else 6):
            for split in (0, 0.2, 0.25, 0.5, 0.75, 0.9):
                for p in itertools.permutations(range(n)):
                    yield [n, split, 1, [p], "list"]
                    k = max(1, int(n * (1 - split)))
                    if n < 5:
                        for q in itertools.permutations(range(k)):
                            yield [n, split, 2, [p, q], "series" if k % 2 else "array"]
                    else:
                        yield [n, split, 3, [p, tuple(range(k))[::-1]], "series"]

    def c_ref():
        for n in (0, 1, 2):
            for k in (0, 1, 2):
                for split in (-0.1, 0, 0.5, 0.99, 1, 1.5):
                    yield [n, k, split]

    def c_in():
        for kind in START:
            al = NAMES if kind == "column" else ["a", "1bb", "x y", "1234567 89"]
            for n in (1, 2, 3):
                for v in itertools.product(al, repeat=n):
                    yield [kind, list(v)]

    def c_net():
        al = ["add", "twin", "set", "fit", "load"]
        for n in (1, 2, 3):
            for ops in itertools.product(al, repeat=n):
                if n == 3 and ("load" not in ops[1:] or not thorough and ops[0] == "load"):
                    continue
                yield list(ops)

    return [
        Space("histories", "5 kinds of labelers: every sequence of up to 3 (thorough 4) of 4-8 parameter changes, 3 label changes and save-and-load (4 with a "
              "save), and each of 14-17 invalid changes before and after each of them", c_hist, history),
        Space("shared", "each change on one of two labelers made of the same values", c_shared, shared),
        Space("mismatch", "every combination of equal and different shared parameters", c_mis, mismatch),
        Space("training", "every shuffle of up to 4 (thorough 5) samples x validation share x epochs", c_train, training),
        Space("refused", "invalid training calls", c_ref, refused),
        Space("inputs", "up to 3 values in 7 containers, divided, in batches", c_in, inputs),
        Space("network", "a real network: every sequence of up to 2 (3 ending in a save) of label changes, training, save-and-load", c_net, network),
    ]
