"""C07: categorical counts and decisions against a Counter."""
import itertools
from collections import Counter

from dataprofiler.profilers import CategoricalColumn
from dataprofiler.profilers.profiler_options import CategoricalOptions

from mc import ref
from mc.engine import Space, Violation, compositions, same, words
from mc.sut import ONLY_PRIMITIVE, fresh, frame, series

ASSUMPTIONS = [
    "documented limits: at most 10 distinct values, or at most one distinct value per 5 values",
    "early stop: after an update or merge that leaves at least the configured number of values with at least the configured "
    "distinct share, the distinct count and share are frozen and the column is not categorical; merging with a stopped "
    "profile keeps the frozen figures of the operand with more values",
    "sketch mode: reported counts are compared exactly because the alphabet is far too small for collisions",
]


def mkopts(cfg):
    o = CategoricalOptions()
    for k, v in cfg.items():
        setattr(o, k, v)
    return o


class Model:
    def __init__(self, cfg):
        self.cfg = cfg
        self.c = Counter()
        self.n = 0
        self.stopped = None  # (unique count, ratio)

    def _stop(self):
        r, m = self.cfg.get("stop_condition_unique_value_ratio"), self.cfg.get("max_sample_size_to_check_stop_condition")
        if r is not None and m is not None and self.n and self.n >= m and len(self.c) / self.n >= r:
            self.stopped = (len(self.c), len(self.c) / self.n)
            self.c = Counter()

    def update(self, vals):
        if not vals or self.stopped:
            return
        self.c.update(vals)
        self.n += len(vals)
        self._stop()

    def add(self, o):
        m = Model(self.cfg)
        if not self.stopped and not o.stopped:
            m.c = self.c + o.c
            m.n = self.n + o.n
            m._stop()
        else:
            big = self if self.n > o.n else o
            m.n = big.n
            m.stopped = big.stopped or (len(big.c), len(big.c) / big.n if big.n else 0)
        return m


def check_report(rep, m, where, ctx, exact=True):
    st = rep["statistics"]
    n, c = m.n, m.c
    if m.stopped:
        want = dict(categorical=False, unique_count=m.stopped[0], unique_ratio=m.stopped[1])
        got = dict(categorical=rep["categorical"], unique_count=st["unique_count"], unique_ratio=st["unique_ratio"])
        if not same(got, want):
            raise Violation(f"{where}: after the early stop {got}, expected {want}")
        if "categorical_count" in st:
            raise Violation(f"{where}: categories reported after the early stop")
        ctx.state(("stopped", m.stopped))
        return
    if not exact:
        h = m.cfg["cms_max_num_heavy_hitters"]
        heavy = {k: v for k, v in c.items() if v >= n / h}
        got = dict(st.get("categorical_count", {}))
        if not rep["categorical"]:
            return
        for k, v in heavy.items():
            if got.get(k, 0) < v:
                raise Violation(f"{where}: sketch count of {k!r} is {got.get(k, 0)}, it occurred {v} times of {n}")
        for k, v in got.items():
            if v != c.get(k, 0):
                raise Violation(f"{where}: sketch count of {k!r} is {v}, it occurred {c.get(k, 0)} times")
        if st["unique_count"] != len(got):
            raise Violation(f"{where}: unique_count {st['unique_count']} with categories {got}")
        ctx.state(tuple(sorted(got.items())))
        return
    u = len(c)
    cat = u <= 10 or u / n <= 0.2
    if bool(rep["categorical"]) != cat:
        raise Violation(f"{where}: categorical={rep['categorical']} with {u} distinct of {n}")
    if st["unique_count"] != u or not same(st["unique_ratio"], u / n if n else 0):
        raise Violation(f"{where}: unique {st['unique_count']}, {st['unique_ratio']}; expected {u} of {n}")
    if cat:
        if sorted(st["categories"]) != sorted(c):
            raise Violation(f"{where}: categories {sorted(st['categories'])}, expected {sorted(c)}")
        k = m.cfg.get("top_k_categories")
        cc = st["categorical_count"]
        if any(c.get(x) != y for x, y in cc.items()):
            raise Violation(f"{where}: category counts {cc}, expected {dict(c)}")
        if list(cc.values()) != sorted(c.values(), reverse=True)[:k]:
            raise Violation(f"{where}: {len(cc)} categories shown {cc} of {dict(c)} with top-k {k}")
        g = sum(v / n * (1 - v / n) for v in c.values()) if n else None
        ua = None if not n else 0 if n == 1 else sum((n - v) * v for v in c.values()) / (n * n - n)
        for key, want in (("gini_impurity", g), ("unalikeability", ua)):
            if not same(st[key], want):
                raise Violation(f"{where}: {key} {st[key]}, expected {want}")
    elif "categorical_count" in st:
        raise Violation(f"{where}: categories of a column which is not categorical")
    ctx.state(tuple(sorted(c.items())))


def run(case, ctx):
    """pieces + how at the column level; 'u' update, 'm' acc+new, 'M' new+acc"""
    cfg = case.get("cfg", {})
    exact = not cfg.get("cms")
    p = m = None
    for i, part in enumerate(case["pieces"]):
        part = [x for v, k in part for x in [v] * k] if part and isinstance(part[0], (list, tuple)) else list(part)
        h = case["how"][i - 1] if i else "u"
        if p is None or h in "mM":
            q, qm = CategoricalColumn("a", options=mkopts(cfg)), Model(cfg)
        else:
            q, qm = p, m
        q.update(series(part))
        qm.update(part)
        if p is not None and h in "mM":
            (l, lm), (r, rm) = ((p, m), (q, qm)) if h == "m" else ((q, qm), (p, m))
            p, m = l + r, lm.add(rm)
            check_report(l.report(), lm, f"left operand, piece {i + 1}", ctx, exact)
            check_report(r.report(), rm, f"right operand, piece {i + 1}", ctx, exact)
        else:
            p, m = q, qm
        ctx.step()
        check_report(p.report(), m, f"after piece {i + 1}", ctx, exact)


def run_profile(case, ctx):
    st = {**ONLY_PRIMITIVE, "structured_options.category.is_enabled": True}
    for t in ("int", "float", "datetime"):
        st[f"structured_options.{t}.is_enabled"] = False
    p, m = None, Model({})
    for i, part in enumerate(case["pieces"]):
        df = frame({"a": part})
        if p is None:
            p = fresh(df, st)
        elif case["how"][i - 1] == "u":
            p.update_profile(df)
        else:
            p = p + fresh(df, st)
        m.update([str(v) for v in part if not ref.is_default_null(str(v))])
        ctx.step()
        check_report(p.report({"output_format": "serializable"})["data_stats"][0], m, f"after piece {i + 1}", ctx)


def hist(alpha, maxlen, maxparts, hows, cfgs=({},), minlen=1, empties=False):
    def gen():
        for cfg in cfgs:
            for w in words(alpha, maxlen, minlen):
                for s in compositions(len(w), maxparts):
                    if not empties and 0 in s:
                        continue
                    for h in itertools.product(hows, repeat=len(s) - 1):
                        k, pieces = 0, []
                        for n in s:
                            pieces.append(list(w[k : k + n]))
                            k += n
                        yield dict(pieces=pieces, how="".join(h), cfg=cfg)

    return gen


def thresholds(th):
    def gen():
        for u in (9, 10, 11, 12) + ((20, 21, 50) if th else ()):
            for n in (u, 2 * u, 5 * u - 1, 5 * u, 5 * u + 1):
                base = [[f"v{i}", n // u + (1 if i < n % u else 0)] for i in range(u)]
                skew = [["v0", n - u + 1]] + [[f"v{i}", 1] for i in range(1, u)]
                for vals in (base, skew):
                    yield dict(pieces=[vals], how="")
                    for cut in (1, u // 2, u - 1):
                        for h in "umM":
                            yield dict(pieces=[vals[:cut], vals[cut:]], how=h)
                    # same values on both sides
                    half = [[v, (k + 1) // 2] for v, k in vals]
                    rest = [[v, k // 2] for v, k in vals if k // 2]
                    if rest:
                        for h in "umM":
                            yield dict(pieces=[half, rest], how=h)

    return gen


TOPK = [dict(top_k_categories=k) for k in (1, 2, 3)]
STOPS = [dict(stop_condition_unique_value_ratio=r, max_sample_size_to_check_stop_condition=m)
         for r in (0.3, 0.5, 1.0) for m in (0, 2, 3, 4)]
STOPS += [dict(stop_condition_unique_value_ratio=0.5), dict(max_sample_size_to_check_stop_condition=2)]
CMS = [dict(cms=True, cms_max_num_heavy_hitters=h, cms_confidence=0.95, cms_relative_error=0.01) for h in (1, 2, 3, 5000)]


def spaces(tier):
    th = tier == "thorough"
    return [
        Space("counts", "every value sequence up to length 5 (thorough 6) over {a,b,c}, every split incl. empty pieces, "
              "updates/merges", hist("abc", 6 if th else 5, 3, "umM", empties=True), run),
        Space("thresholds", "9..12 distinct values (thorough to 50) at shares around 1/5 and 10, splits, updates/merges",
              thresholds(th), run),
        Space("topk", "top-k 1..3, every value sequence up to length 4 over {a,b,c}, 2 (thorough 3) pieces",
              hist("abc", 4, 3 if th else 2, "umM", TOPK), run),
        Space("topk-chain", "top-k 1: merge, then update, then merge", hist("ab", 4, 4, "um", TOPK[:1], 3), run),
        Space("stop", "14 early-stop settings, every value sequence up to length 4 (thorough 5) over {a,b,c}, "
              "up to 3 pieces", hist("abc", 5 if th else 4, 3, "umM", STOPS), run),
        Space("cms", "count-min sketch with 1/2/3/5000 heavy hitters, every value sequence up to length 5 (thorough 6) over "
              "{a,b,c}, up to 3 pieces", hist("abc", 6 if th else 5, 3, "um", CMS), run),
        Space("cms5", "count-min sketch, sequences of length 5 over {a,b} in 2 pieces", hist("ab", 5, 2, "um", CMS, 5), run),
        Space("profile", "whole profiles: every value sequence up to length 3 over {a,b,1,None}, splits, updates/merges",
              hist(["a", "b", "1", None], 3, 3 if th else 2, "um"), run_profile),
    ]
