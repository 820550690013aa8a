"""C23: character labelling stays aligned with the text."""
import itertools
import random
import warnings

from mc.engine import Space, same
from mc.sut import np, pd

from dataprofiler.labelers import data_processing as D
from dataprofiler.labelers.base_data_labeler import BaseDataLabeler
from dataprofiler.labelers.character_level_cnn_model import CharacterLevelCnnModel

ASSUMPTIONS = [
    "the network is replaced by one whose answer for a character depends on that character only (every character of a case has its "
    "own label), everything around it is the real code: labeler, preprocessor, model.predict, postprocessor",
    "the flatten separator is shorter than the maximum length (else refused); a text is what str() of the value gives",
    "word-level smoothing is judged by: same length, and inside a word one label, which is one of its characters' labels or the default",
]

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
BREAKS = " ,;\t\n\r\x00\x01"
CHARS = LETTERS + BREAKS + "0123456789.-é"
MAP = {"PAD": 0, "UNKNOWN": 1}
MAP.update({f"L{i}": i + 2 for i in range(len(CHARS))})
CODE = {c: i + 2 for i, c in enumerate(CHARS)}
NAME = {v: k for k, v in MAP.items()}


class Tensor:
    def __init__(self, a):
        self.a = a

    def numpy(self):
        return self.a


class Net:
    """a network which names every character"""

    def __init__(self, max_length, code):
        self.n, self.code = max_length, code

    def __call__(self, batch):
        batch = batch.numpy()
        conf = np.zeros((len(batch), self.n, len(MAP)))
        pred = np.zeros((len(batch), self.n))
        for i, row in enumerate(batch):
            s = row[0].decode("utf8")
            if len(s) > self.n:
                raise AssertionError(f"a sample of {len(s)} characters was given to a network of length {self.n}")
            for j in range(self.n):
                k = self.code(s[j]) if j < len(s) else 0
                pred[i, j] = k
                conf[i, j, k] = 0.75
                conf[i, j, 1] += 0.25
        return Tensor(conf), Tensor(pred)


_made = {}


def labeler(kind, max_length, sep, split, at_max, fmt="character_argmax", code=None):
    key = (kind, max_length, sep, split, at_max, fmt)
    if code is None and key in _made:
        return _made[key]
    m = CharacterLevelCnnModel(dict(MAP), {"max_length": max_length})
    m._model = Net(max_length, code or CODE.__getitem__)
    m._model_num_labels, m._model_default_ind = m.num_labels, 1
    if kind == "text":
        pre = D.CharPreprocessor(max_length=max_length, flatten_split=split, flatten_separator=sep, is_separate_at_max_len=at_max)
        post = D.CharPostprocessor(flatten_separator=sep, output_format=fmt)
    else:
        pre = D.StructCharPreprocessor(max_length=max_length, flatten_separator=sep, is_separate_at_max_len=at_max)
        post = D.StructCharPostprocessor(flatten_separator=sep, random_state=random.Random(0))
    lab = BaseDataLabeler.load_with_components(preprocessor=pre, model=m, postprocessor=post)
    if code is None:
        _made[key] = lab
    return lab


def spell(pats):
    """texts of x (own letter each) and _ (a character where texts may be split)"""
    n, b, out = 0, 0, []
    for p in pats:
        s = ""
        for c in p:
            if c == "x":
                s += LETTERS[n]
                n += 1
            else:
                s += BREAKS[b % len(BREAKS)]
                b += 1
        out.append(s)
    return out


def unstructured(case, ctx):
    pats, max_length, sep, split, at_max, batch = case
    texts = spell(pats)
    lab = labeler("text", max_length, sep, split, at_max)
    what = f"{texts} max {max_length} sep {sep!r} split {split} at_max {at_max} batch {batch}"
    want = [[CODE[c] for c in t] for t in texts]
    for conf in (False, True):
        r = lab.predict(np.array(texts, dtype=object), batch_size=batch, predict_options={"show_confidences": conf}, verbose=False)
        ctx.step()
        ctx.check(same([list(map(int, x)) for x in r["pred"]], want), lambda: f"{what}: labels {r['pred']}, expected {want}")
        ctx.check(("conf" in r) == conf, f"{what}: confidences")
        if conf:
            for t, w, c in zip(texts, want, r["conf"]):
                ctx.check(len(c) == len(t) and all(abs(row[k] - 0.75) < 1e-6 and abs(sum(row) - 1) < 1e-6 for row, k in zip(c, w)),
                          lambda: f"{what}: confidences of {t!r}")
    ner = labeler("text", max_length, sep, split, at_max, "NER")
    r = ner.predict(texts, batch_size=batch, verbose=False)
    ctx.step()
    exp = []
    for w in want:
        e = []
        for i, k in enumerate(w):
            if e and e[-1][1] == i and e[-1][2] == NAME[k]:
                e[-1] = (e[-1][0], i + 1, NAME[k])
            else:
                e.append((i, i + 1, NAME[k]))
        exp.append(e)
    ctx.check(same(r["pred"], exp), lambda: f"{what}: entities {r['pred']}, expected {exp}")
    ctx.state((tuple(texts), max_length, sep, split, at_max, batch))


def structured(case, ctx):
    cells, max_length, sep, at_max, batch, shape = case
    # the network: letters by case -> A, B; digits -> default; - -> PAD
    codes = {"a": 2, "b": 3, "0": 1, "-": 0, " ": 1, "\x00": 3}
    lab = labeler("cell", max_length, sep, 1, at_max, code=lambda c: codes.get(c, 5))
    data = np.array(cells, dtype=object)
    if shape == "series":
        arg = pd.Series(cells, dtype=object)
    elif shape == "frame":
        arg = pd.DataFrame({"x": pd.Series(cells, dtype=object)})
    else:
        arg = data
    what = f"{cells} max {max_length} sep {sep!r} at_max {at_max} batch {batch} as {shape}"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = lab.predict(arg, batch_size=batch, predict_options={"show_confidences": True}, verbose=False)
    ctx.step()
    ctx.eq(len(r["pred"]), len(cells), f"{what}: number of labels")
    for i, t in enumerate(map(str, cells)):
        cnt = {}
        for c in t:
            k = codes[c]
            if k:
                cnt[k] = cnt.get(k, 0) + 1
        top = {k for k in cnt if cnt[k] == max(cnt.values())}
        if len(top) > 1:
            top -= {1}
        ok = {NAME[k] for k in top} or {None}
        ctx.check(r["pred"][i] in ok, lambda: f"{what}: label of {t!r} is {r['pred'][i]}, expected one of {ok}")
        share = [cnt.get(k, 0) / sum(cnt.values()) if cnt else 0 for k in range(len(MAP))]
        ctx.check(same(list(r["conf"][i]), share), lambda: f"{what}: confidences of {t!r}: {r['conf'][i][:4]}, expected {share[:4]}")
    ctx.state((tuple(cells), max_length, sep, at_max, batch))


def training(case, ctx):
    """what the network is trained on: the samples and the label of each of their characters"""
    pats, max_length, sep, split, at_max, batch, kind = case
    texts = spell(pats)
    what = f"{kind} {texts} max {max_length} sep {sep!r} split {split} at_max {at_max} batch {batch}"
    if kind == "text":
        pre = D.CharPreprocessor(max_length=max_length, flatten_split=split, flatten_separator=sep, is_separate_at_max_len=at_max)
        labels = [[(i, i + 1, NAME[CODE[c]]) for i, c in enumerate(t) if c not in BREAKS] for t in texts]
        given = np.empty(len(labels), dtype=object)
        given[:] = labels
        lab = {c: CODE[c] for c in LETTERS}
    else:
        pre = D.StructCharPreprocessor(max_length=max_length, flatten_separator=sep, is_separate_at_max_len=at_max)
        given = np.array([f"L{i}" for i in range(len(texts))], dtype=object)
        lab = None
    got = list(pre.process(np.array(texts, dtype=object), labels=given, label_mapping=MAP, batch_size=batch))
    ctx.step()
    X = [str(s[0]) for x, _ in got for s in x]
    Y = [y for _, b in got for y in b]
    ctx.check(len(X) == len(Y), f"{what}: {len(X)} samples, {len(Y)} labels")
    for x, _ in got[:-1]:
        ctx.check(len(x) == batch, f"{what}: a batch of {len(x)}")
    ctx.check(all(len(s) <= max_length for s in X), lambda: f"{what}: samples {X}")
    # walk over the samples: they are the texts in order, with separators between flattened ones
    pos = [(i, j) for i, t in enumerate(texts) for j in range(len(t))]
    p = 0
    for s, y in zip(X, Y):
        y = np.array(y)
        ctx.check(y.shape == (max_length, max(MAP.values()) + 1) and bool((y.sum(1) == 1).all()), lambda: f"{what}: labels of {s!r} have the form {y.shape}")
        y = y.argmax(1)
        j = 0
        while j < len(s):
            ctx.check(p < len(pos), lambda: f"{what}: samples {X} have more than the texts")
            ti, tj = pos[p]
            if tj == 0 and j > 0 and s[j:j + len(sep)] == sep and sep:
                for q in range(len(sep)):
                    ctx.check(y[j + q] in (0, 1), lambda: f"{what}: separator in {s!r} has the label {NAME[y[j + q]]}")
                j += len(sep)
                ctx.check(j < len(s), lambda: f"{what}: sample {s!r} ends with a separator")
            ctx.check(s[j] == texts[ti][tj], lambda: f"{what}: samples {X}")
            w = (lab.get(s[j], 1) if lab else MAP[f"L{ti}"])
            ctx.check(y[j] == w, lambda: f"{what}: label of {s[j]!r} in {s!r}: {NAME[y[j]]}, expected {NAME[w]}")
            p += 1
            j += 1
        ctx.check(all(k == 0 for k in y[len(s):]), lambda: f"{what}: padding of {s!r} has labels {y}")
    ctx.check(p == len(pos), lambda: f"{what}: samples {X} miss {texts}")
    ctx.state((tuple(X), tuple(tuple(np.array(y).argmax(1)) for y in Y)))


def entities(case, ctx):
    seqs, word = case
    texts = ["".join("ab cd,e"[i % 7] for i in range(len(s))) for s in seqs]
    post = D.CharPostprocessor(use_word_level_argmax=word, output_format="NER" if not word else "character_argmax", flatten_separator=" ")
    res = {"pred": [np.array(s, dtype=float) for s in seqs]}
    out = post.process(np.array(texts, dtype=object), res, {"PAD": 0, "UNKNOWN": 1, "A": 2, "B": 3})
    ctx.step()
    for t, s, o in zip(texts, seqs, out["pred"]):
        if not word:
            exp = []
            for i, k in enumerate(s):
                if k in (0, 1):
                    continue
                if exp and exp[-1][1] == i and s[i - 1] == k:
                    exp[-1] = (exp[-1][0], i + 1, exp[-1][2])
                else:
                    exp.append((i, i + 1, {2: "A", 3: "B"}[k]))
            ctx.check(same(o, exp), lambda: f"entities of {s}: {o}, expected {exp}")
        else:
            ctx.eq(len(o), len(t), f"labels of {t!r}")
            i = 0
            words = []
            for j, c in enumerate(t + " "):
                if c in " ,":
                    words.append((i, j))
                    i = j + 1
            seps = post.get_parameters(["separators"])["separators"]
            ctx.check(" " in seps and "," in seps, "separators")
            for w0, w1 in words[:-1]:
                ls = {int(k) for k in o[w0:w1]}
                ctx.check(len(ls) <= 1 and ls <= set(map(int, s[w0:w1])) | {1}, lambda: f"word {t[w0:w1]!r} of {t!r} labelled {s}: {o}")
    ctx.state((repr(seqs), word))


def spaces(tier):
    thorough = tier != "quick"
    w = lambda n: ["".join(p) for k in range(n + 1) for p in itertools.product("x_", repeat=k)]
    lens = lambda n, k: [["x" * i for i in c] for m in range(1, k + 1) for c in itertools.product(range(n + 1), repeat=m)]
    one = [[p] for p in w(9 if thorough else 8)]
    two = [list(p) for p in itertools.product(w(4 if thorough else 3), repeat=2)] + [[a, b] for a in w(1) for b in w(6 if thorough else 5)]
    three = [list(p) for p in itertools.product(w(2), repeat=3)] + lens(5 if thorough else 4, 3)
    many = [["x" * i] * 8 for i in range(1, 5)] + [["x", "x" * i] * 5 for i in range(0, 5)] + [list("x" * 40)]
    texts = one + two + three + many
    maxs = [2, 3, 4, 5, 7, 12] if thorough else [3, 4, 6]
    seps = ["", " ", "\x01\x01", "\x01" * 5] if thorough else [" ", "\x01\x01"]

    def c_un():
        for t in texts:
            for m in maxs:
                for sep in seps:
                    if len(sep) >= m:
                        continue
                    for split in (0, 0.5, 1):
                        for at_max in (False, True):
                            for b in ((1, 2, 3, 32) if thorough else (2, 32) if t in many or len(t) == 3 else (2,)):
                                yield t, m, sep, split, at_max, b

    ws = ["", "a", "b0", "aab", "ab0", "a00-", "--", "aabb", "a0 b", "0-0-0-0", "aaaaaa bb", "aa\x00"]

    def c_st():
        for n in (1, 2, 3):
            for cells in itertools.product(ws if n < 3 or thorough else ws[:7] + ws[-1:], repeat=n):
                for m in ((4, 7, 12) if thorough else (4, 7)):
                    for sep in ("\x01", "\x01\x01\x01"):
                        for at_max in (False, True):
                            yield list(cells), m, sep, at_max, 2, ("array", "series", "frame")[(len("".join(cells)) + n) % 3]
        for n in (31, 32, 33, 64, 65, 100):
            for m in (4, 7, 40, 3400):
                for at_max in (False, True):
                    for b in (1, 8, 32):
                        yield [ws[(i * i + i) % len(ws)] for i in range(n)], m, "\x01", at_max, b, "array"
        for m in (4, 7):
            yield [0, 0, 0], m, "\x01", True, 2, "series"

    def c_tr():
        for t in (one[:200] + two[:400] + three if not thorough else texts):
            if not any(t):
                continue
            for m in ((3, 5) if not thorough else (3, 4, 6)):
                for sep in ([" ", "\x01\x01"] if not thorough else ["", " ", "\x01\x01"]):
                    for split in (0, 0.5, 1):
                        for at_max in (False, True):
                            yield t, m, sep, split, at_max, 2, "text"
                    for at_max in (False, True):
                        yield t, m, sep, 1, at_max, 2, "cell"

    def c_en():
        for n in range(0, 6 if thorough else 5):
            for s in itertools.product(range(4), repeat=n):
                yield [list(s)], False
                yield [list(s), [2, 2, 1, 3]], False
        for n in range(1, 8 if thorough else 7):
            for s in itertools.product((1, 2, 3) if n > 5 else range(4), repeat=n):
                yield [list(s)], True

    return [
        Space("unstructured", "texts (one of <=8, two, three, many; letters and break characters in every arrangement) x max length x separator x flatten "
              "share x split rule x batch size, with and without confidences, as labels and as entities", c_un, unstructured),
        Space("structured", "1..3 cells of 12 contents x max length x separator x split rule x container; 31..100 cells x batch sizes", c_st, structured),
        Space("training", "samples and labels prepared for training, character by character", c_tr, training),
        Space("entities", "every label sequence of <=4 characters (spans) and <=6 (word level) over 4 labels", c_en, entities),
    ]
