"""C10: unstructured text profile counts."""
import collections
import io
import itertools
import os
import pickle
import string

from mc.engine import Space, compositions, words
from mc.sut import dp, np, pd

ASSUMPTIONS = [
    "data labeler off (its part is C25); text lines of up to ~12 characters, at most 4 lines and 3 batches per history",
    "a word is a maximal run of non-blank characters without leading and trailing punctuation; a stop word is matched "
    "after lower-casing; user stop words are given in lower case",
    "of equally frequent entries a top-k list may show any",
    "the result of merging profiles of different case sensitivity is case-insensitive (documented warning) and applies "
    "the union of both stop-word lists; top-k of a merge is the larger of the two, or none if either has none",
    "a profile which never received data has no report (by design) and is not an operand",
]

# the whitespace between words is deliberately uneven, the punctuation inside/around words, case mixed
LINES = ["", " \t", "ab", "AB ab", "the ab.", "x'y -- \"Ab\"", "\n"]
DEF_STOP = ["the", "and", "a"]
CONFIGS = {
    "plain": {},
    "nocase": {"text.is_case_sensitive": False},
    "stop": {"text.stop_words": ["ab"]},
    "nocase-stop": {"text.is_case_sensitive": False, "text.stop_words": ["ab", "zz"]},
    "nostop": {"text.stop_words": []},
    "top": {"text.top_k_chars": 2, "text.top_k_words": 1},
    "top2": {"text.top_k_words": 2},
    "novocab": {"text.vocab.is_enabled": False},
    "nowords": {"text.words.is_enabled": False},
}
_cache = {}


def empty(cfg):
    if cfg not in _cache:
        o = dp.ProfilerOptions()
        o.set({"unstructured_options.data_labeler.is_enabled": False})
        for k, v in CONFIGS[cfg].items():
            o.set({"unstructured_options." + k: v})
        _cache[cfg] = pickle.dumps(dp.Profiler(None, options=o, profiler_type="unstructured"))
    return pickle.loads(_cache[cfg])


def build(lines, cfg):
    p = empty(cfg)
    p.update_profile(pd.Series(list(lines), dtype=object))
    return p


class Model:
    """lines seen, case sensitivity, stop words, top-k."""

    def __init__(self, cfg):
        c = CONFIGS[cfg]
        self.case = c.get("text.is_case_sensitive", True)
        sw = c.get("text.stop_words")
        self.stop = set(DEF_STOP) if sw is None else set(sw)
        self.kc = c.get("text.top_k_chars")
        self.kw = c.get("text.top_k_words")
        self.vocab = c.get("text.vocab.is_enabled", True)
        self.words = c.get("text.words.is_enabled", True)
        self.lines = []

    def merge(self, o):
        m = Model("plain")
        m.case = self.case and o.case
        m.stop = self.stop | o.stop
        m.kc = max(self.kc, o.kc) if self.kc and o.kc else None
        m.kw = max(self.kw, o.kw) if self.kw and o.kw else None
        m.vocab = self.vocab and o.vocab
        m.words = self.words and o.words
        m.lines = self.lines + o.lines
        return m

    def check(self, ctx, p):
        r = p.report()
        g, st = r["global_stats"], r["data_stats"]["statistics"]
        full = [l for l in self.lines if l.strip()]
        ctx.eq(g["samples_used"], len(self.lines), "samples_used")
        ctx.eq(g["empty_line_count"], len(self.lines) - len(full), "empty_line_count")
        chars = collections.Counter(c for l in full for c in l) if self.vocab else {}
        wc = collections.Counter()
        if self.words:
            for l in full:
                for w in l.split():
                    w = w.strip(string.punctuation)
                    w = w if self.case else w.lower()
                    if w and w.lower() not in self.stop:
                        wc[w] += 1
        for name, k, cnt in (("vocab", self.kc, chars), ("words", self.kw, wc)):
            got = st[name]
            ctx.check(len(got) == len(set(got)), lambda: f"{name} repeats an entry: {got}")
            ctx.eq(set(got), set(cnt), name)
            counts = st["vocab_count" if name == "vocab" else "word_count"]
            if k is None:
                ctx.eq(dict(counts), dict(cnt), name + " counts")
            else:
                ctx.eq(len(counts), min(k, len(cnt)), name + " count entries")
                for w, c in counts.items():
                    ctx.eq(c, cnt.get(w), f"count of {w!r}")
                low = min(counts.values(), default=0)
                for w, c in cnt.items():
                    ctx.check(w in counts or c <= low, f"{w!r} with count {c} missing from the top {k} {name}: {counts}")
            vals = list(counts.values())
            ctx.check(vals == sorted(vals, reverse=True), lambda: f"{name} counts not by decreasing frequency: {counts}")
        ctx.state((len(self.lines), len(full), sorted(chars.items()), sorted(wc.items()), self.case, self.kw, self.kc))


def updates(case, ctx):
    lines, cut, cfg = case
    m = Model(cfg)
    p = None
    i = 0
    for k in cut:
        b = lines[i:i + k]
        i += k
        if p is None:
            if not b:
                continue
            p = build(b, cfg)
        else:
            p.update_profile(pd.Series(list(b), dtype=object))
        m.lines += b
        ctx.step()
        m.check(ctx, p)


def trees(case, ctx):
    """(a+b), ((a+b)+c), (a+(b+c)) with per-operand configurations, then an update of the result"""
    batches, cfgs, shape, more = case
    ps, ms = [], []
    for b, c in zip(batches, cfgs):
        ps.append(build(b, c))
        m = Model(c)
        m.lines = list(b)
        ms.append(m)

    def add(i, j):
        ctx.step()
        q, n = ps[i] + ps[j], ms[i].merge(ms[j])
        n.check(ctx, q)
        ms[i].check(ctx, ps[i])
        ms[j].check(ctx, ps[j])
        ps.append(q)
        ms.append(n)
        return len(ps) - 1

    if shape == "pair":
        t = add(0, 1)
    elif shape == "left":
        t = add(add(0, 1), 2)
    else:
        t = add(0, add(1, 2))
    if more is not None:
        ps[t].update_profile(pd.Series(list(more), dtype=object))
        ms[t].lines += list(more)
        ctx.step()
        ms[t].check(ctx, ps[t])
        for i in range(len(batches)):
            ms[i].check(ctx, ps[i])


INDEX = {
    "range": lambda n: list(range(n)), "rev": lambda n: list(range(n))[::-1], "same": lambda n: [7] * n,
    "pairs": lambda n: [i // 2 for i in range(n)], "text": lambda n: [f"r{i}" for i in range(n)],
    "float": lambda n: [i + 0.5 for i in range(n)], "far": lambda n: [28 + 3 * i for i in range(n)],
}


def inputs(case, ctx):
    """the same lines given as each accepted kind of data and with any index"""
    lines, kind, cfg = case
    m = Model(cfg)
    m.lines = list(lines)
    p = empty(cfg)
    if kind == "list":
        p.update_profile(list(lines))
    elif kind == "str":
        if not "\n".join(lines):
            return  # no data at all
        p.update_profile("\n".join(lines))
        m.lines = ["\n".join(lines)]
    elif kind == "frame":
        p.update_profile(pd.DataFrame({"t": pd.Series(list(lines), dtype=object)}))
    elif kind == "textdata":
        text = "\n".join(lines)
        if not text:
            return
        p.update_profile(dp.data_readers.text_data.TextData(data=text))
        m.lines = [text]
    else:
        p.update_profile(pd.Series(list(lines), dtype=object, index=INDEX[kind](len(lines))))
    ctx.step()
    m.check(ctx, p)
    if kind not in ("str", "textdata", "frame", "list"):
        p.update_profile(pd.Series(list(lines), dtype=object, index=INDEX[kind](len(lines))))
        m.lines = m.lines * 2
        ctx.step()
        m.check(ctx, p)


def many(case, ctx):
    """word-shape alphabet: every token of up to 3 characters between separators"""
    toks, sep, cfg = case
    m = Model(cfg)
    line = sep.join(toks)
    p = build([line], cfg)
    m.lines = [line]
    ctx.step()
    m.check(ctx, p)


def spaces(tier):
    big = tier == "thorough"
    L = LINES

    def c_updates():
        for cfg in CONFIGS:
            n = 3 if big or cfg in ("plain", "nocase", "top") else 2
            for w in words(L[:6] if n == 3 and not big else L, n, 1):
                for cut in compositions(len(w), 3 if big else 2):
                    if n == 3 and len(w) == 3 and not big and 0 in cut:
                        continue
                    yield [list(w), list(cut), cfg]

    B = [["ab"], ["AB ab", ""], [" "], ["the ab.", "x'y"], ["Ab zz zz", "ab ab"]]

    def c_pairs():
        for a, b in itertools.product(range(len(B)), repeat=2):
            for c1, c2 in itertools.product(CONFIGS, repeat=2):
                if "top" in (c1, c2) and {c1, c2} & {"novocab", "nowords"} and not big:
                    continue
                yield [[B[a], B[b]], [c1, c2], "pair", ["AB zz ab the"] if (a + b) % 2 or big else None]

    T = [["ab"], ["AB the"], [""]]
    TC = ["plain", "nocase", "stop", "top"] + (["nowords", "top2", "nostop"] if big else [])

    def c_trees():
        for a, b, c in itertools.product(range(3), repeat=3):
            for cs in itertools.product(TC, repeat=3):
                if not big and (a + b + c) % 2:
                    continue
                for shape in ("left", "right"):
                    yield [[T[a], T[b], T[c]], list(cs), shape, None if (a, b) != (0, 1) else ["AB ab"]]

    def c_inputs():
        for w in words(L, 4 if big else 3, 1):
            for kind in ["list", "str", "frame", "textdata"] + list(INDEX):
                if len(w) == (4 if big else 3) and (kind in ("str", "frame", "textdata", "list") or L.index(w[0]) > 3):
                    continue
                for cfg in ("plain", "nocase") if len(w) < 3 else ("plain",):
                    yield [list(w), kind, cfg]

    chars = ["a", "B", ".", "'", "1", "é"]

    def c_many():
        toks = ["".join(t) for t in words(chars, 3, 1)]
        for t in toks:
            for cfg in ("plain", "nocase", "stop"):
                yield [[t, "a", "B", t], " ", cfg]
        for sep in [" ", "\t", "\n", "  ", "\u00a0", "\r\n", "\u2003"]:
            for t in itertools.product(toks[: 43 if big else 12], repeat=2):
                yield [list(t), sep, "nostop"]

    return [
        Space("updates", f"every sequence of up to {3} lines over {len(L)} line forms x split into updates x 9 configurations",
              c_updates, updates),
        Space("pairs", "every ordered pair of 5 batches x every pair of 9 configurations, merged, then updated", c_pairs, trees),
        Space("trees", f"both merge trees of 3 batches x {len(TC)}^3 configurations", c_trees, trees),
        Space("inputs", "every line sequence x every accepted data kind x 7 index shapes, updated twice", c_inputs, inputs),
        Space("tokens", "every token of up to 3 characters over 6 characters x case/stop settings; token pairs x 7 separators",
              c_many, many),
    ]
