"""C03: histogram, quantiles, median, mode and MAD stay true to the data."""
import itertools
import json

from mc import ref
from mc.engine import Space, Violation, isnan, same, short, words
from mc.sut import clean, dp, frame, np, opts, pd, series, ONLY_PRIMITIVE
from dataprofiler.profilers import FloatColumn, IntColumn, TextColumn
from dataprofiler.profilers.profiler_options import FloatOptions, IntOptions, TextOptions

ASSUMPTIONS = [
    "bin-width tolerance: each update or merge may move mass by at most one internal bin "
    "(range/1000, or range/bins when the bin count is fixed)",
    "mode ties and the choice among automatic bin rules are unspecified",
]
CLS = {"int": (IntColumn, IntOptions), "float": (FloatColumn, FloatOptions), "text": (TextColumn, TextOptions)}


def make(kind, cfg):
    cls, ocls = CLS[kind]
    o = ocls()
    if "bins" in cfg:
        o.histogram_and_quantiles.bin_count_or_method = cfg["bins"]
    if "nq" in cfg:
        o.histogram_and_quantiles.num_quantiles = cfg["nq"]
    if "topk" in cfg:
        o.mode.top_k_modes = cfg["topk"]
    return cls("a", options=o)


def value(kind, s):
    return float(len(s)) if kind == "text" else float(s)


def median(xs):
    xs = sorted(xs)
    n = len(xs)
    return xs[n // 2] if n % 2 else (xs[n // 2 - 1] + xs[n // 2]) / 2


def check_profile(prof, kind, xs, stages, merges, cfg, ctx, where):
    """xs: all values; stages: number of updates/merges so far."""
    n = len(xs)
    if n == 0:
        if prof["histogram"]["bin_counts"] is not None:
            raise Violation(f"{where}: histogram without data")
        return
    lo, hi = min(xs), max(xs)
    rng = hi - lo
    bins = cfg["bins"] if isinstance(cfg.get("bins"), int) else 1000
    w = rng / bins
    tol = stages * w * 1.0001 + 1e-9 * (1 + abs(lo) + abs(hi))
    if kind != "float" and w >= 0.4:
        tol += 0.5 * (stages + 1)
    eps = 1e-9 * (1 + abs(lo) + abs(hi))
    h = prof["histogram"]
    counts, edges = h["bin_counts"], h["bin_edges"]
    if counts is None or edges is None:
        raise Violation(f"{where}: no histogram for {n} values")
    counts, edges = list(map(float, counts)), list(map(float, edges))
    if len(edges) != len(counts) + 1:
        raise Violation(f"{where}: {len(counts)} counts, {len(edges)} edges")
    if any(b < a for a, b in zip(edges, edges[1:])):
        raise Violation(f"{where}: bin edges not ordered: {short(edges)}")
    if abs(edges[0] - lo) > eps or abs(edges[-1] - hi) > eps:
        raise Violation(f"{where}: edges span [{edges[0]}, {edges[-1]}], data span [{lo}, {hi}]")
    if any(c < 0 for c in counts) or abs(sum(counts) - n) > 1e-6:
        raise Violation(f"{where}: histogram holds {sum(counts)} values of {n}")
    fixed = isinstance(cfg.get("bins"), int)
    if fixed and rng > 0 and stages and len(counts) != bins:
        raise Violation(f"{where}: {len(counts)} bins, {bins} requested")
    exact = fixed and stages == 1 and not merges
    cum = 0.0
    t = eps if exact else tol + w
    for e, c in zip(edges[1:-1], counts):
        cum += c
        below = sum(1 for x in xs if x < e - t)
        upto = sum(1 for x in xs if x <= e + t)
        if not (below - 1e-6 <= cum <= upto + 1e-6):
            raise Violation(f"{where}: {cum} values counted below {e}, data have between {below} and {upto}: {short(xs)}")
    # quantiles
    q = prof["quantiles"]
    nq = cfg.get("nq", 1000)
    if isinstance(q, dict) or q is None or len(q) != nq - 1:
        raise Violation(f"{where}: expected {nq - 1} quantiles, got {short(q, 80)}")
    if any(b < a - eps for a, b in zip(q, q[1:])):
        raise Violation(f"{where}: quantiles decrease")
    if q and (q[0] < lo - eps or q[-1] > hi + eps):
        raise Violation(f"{where}: quantiles outside [{lo}, {hi}]")
    arr = np.sort(np.array(xs))
    tq = tol + w
    ps = np.arange(1, nq) / nq
    qa = np.array(q, dtype=float)
    ge = np.searchsorted(arr, qa + tq, side="right") / n
    lt = np.searchsorted(arr, qa - tq, side="left") / n
    bad = np.where((ge < ps - 1e-9) | (lt > ps + 1e-9))[0]
    if len(bad):
        i = bad[0]
        raise Violation(f"{where}: quantile {ps[i]:.4f} = {q[i]} does not split {short(sorted(xs))} (tolerance {tq})")
    # median, MAD
    med = median(xs)
    if isnan(prof["median"]) or abs(prof["median"] - med) > tq:
        raise Violation(f"{where}: median {prof['median']} of {short(sorted(xs))} is {med} (tolerance {tq})")
    mad = median([abs(x - med) for x in xs])
    # the deviation is taken from the estimated median, and the deviations are estimated to a bin as well
    if isnan(prof["median_abs_deviation"]) or abs(prof["median_abs_deviation"] - mad) > 2 * tq + w:
        if not mad_ambiguous(xs, med, prof["median_abs_deviation"], 2 * tq + w):
            raise Violation(
                f"{where}: median abs deviation {prof['median_abs_deviation']} of {short(sorted(xs))} is {mad} "
                f"(tolerance {2 * tq + w})"
            )
    # modes
    modes = prof["mode"]
    k = cfg.get("topk", 5)
    if not modes or len(modes) > max(k, 1):
        raise Violation(f"{where}: modes {modes}, at most {k} wanted")
    freq = {}
    for x in xs:
        freq[x] = freq.get(x, 0) + 1
    best = max(freq.values())
    top = [x for x, c in freq.items() if c == best]
    distinct = sorted(freq)
    gap = min((b - a for a, b in zip(distinct, distinct[1:])), default=1.0)
    strict = not merges and (stages == 1 or kind != "float") and gap > 2.5 * tq
    for m in modes:
        near = [x for x in distinct if abs(x - m) <= tq]
        if not near:
            raise Violation(f"{where}: mode {m} is no value of {short(distinct)}")
        if strict and not any(x in top for x in near):
            raise Violation(f"{where}: mode {m}, most frequent of {short(sorted(xs))} are {top}")
    if strict and len(modes) != min(k, len(top)):
        raise Violation(f"{where}: modes {modes}, most frequent are {top} (k={k})")
    ctx.state((kind, json.dumps(cfg, sort_keys=True), sorted(xs), stages, merges))


def mad_ambiguous(xs, med, got, tol):
    """Accept a value that is a median of the deviations from some admissible median (even-sized data)."""
    d = sorted(abs(x - med) for x in xs)
    n = len(d)
    ge = sum(1 for x in d if x <= got + tol)
    lt = sum(1 for x in d if x < got - tol)
    return n % 2 == 0 and ge * 2 >= n and lt * 2 <= n


def run(case, ctx):
    """ops: ['u', batch] update, ['m', batch] self + fresh(batch), ['w', batch] fresh(batch) + self, ['r'] read."""
    kind, cfg = case["kind"], case.get("cfg", {})
    c = make(kind, cfg)
    plain = make(kind, cfg)  # the same history without intermediate reads
    xs = []
    stages = merges = 0
    for i, op in enumerate(case["ops"]):
        ctx.step()
        if op[0] == "u":
            c.update(series(op[1]))
            plain.update(series(op[1]))
        elif op[0] in "mw":
            other, other2 = make(kind, cfg), make(kind, cfg)
            other.update(series(op[1]))
            other2.update(series(op[1]))
            c = c + other if op[0] == "m" else other + c
            plain = plain + other2 if op[0] == "m" else other2 + plain
            if op[1]:
                merges += 1
                stages += 1
        elif op[0] == "r":
            c.profile
            c.mode, c.median, c.median_abs_deviation
            continue
        xs += [value(kind, s) for s in op[1]]
        if op[1]:
            stages += 1
        if case.get("every", True):
            check_profile(c.profile, kind, xs, stages, merges, cfg, ctx, f"after op {i + 1} {short(op, 60)}")
    check_profile(c.profile, kind, xs, stages, merges, cfg, ctx, "at the end")
    a, b = clean(c.profile), clean(plain.profile)
    for k in ("histogram", "quantiles", "median", "mode", "median_abs_deviation"):
        if k == "histogram":
            a[k] = [a[k]["bin_counts"], a[k]["bin_edges"]]
            b[k] = [b[k]["bin_counts"], b[k]["bin_edges"]]
        if not same(a[k], b[k]):
            raise Violation(f"{k} depends on earlier reads: {short(a[k], 200)} vs {short(b[k], 200)}")


A = {
    "int": ["0", "5", "-5", "10"],
    "float": ["0", "-1", "1", "2.5"],
    "text": ["", "a", "bcd", "0123456789"],
}


def single(n, cfgs, alpha):
    def gen():
        for kind in alpha:
            for cfg in cfgs:
                for w in itertools.chain.from_iterable(
                    itertools.combinations_with_replacement(alpha[kind], k) for k in range(1, n + 1)
                ):
                    yield dict(kind=kind, cfg=cfg, ops=[["u", list(w)]])

    return gen


# batches: constant, repeated, widening, inside, negative, zero-centred
B = {
    "int": [["0"], ["5", "5"], ["0", "10", "10"], ["-7", "3"], ["-1", "1"], ["1000"]],
    "float": [["0"], ["2.5", "2.5"], ["0", "10", "10"], ["-7.25", "3"], ["-0.5", "0.5"], ["1000"]],
    "text": [[""], ["ab", "cd"], ["", "0123456789", "abcdefghij"], ["abcdefg", "abc"], ["a" * 300]],
}


def sequences(depth, ops, cfgs, kinds=("int", "float", "text"), batches=B):
    def gen():
        for kind in kinds:
            alpha = [[o, b] for o in ops for b in batches[kind]]
            for cfg in cfgs:
                for h in itertools.product(alpha, repeat=depth):
                    yield dict(kind=kind, cfg=cfg, ops=[list(x) for x in h])

    return gen


def reads(depth):
    """reads at every subset of positions of a history"""

    def gen():
        for kind in ("int", "float", "text"):
            bb = B[kind][:4]
            alpha = [["u", b] for b in bb] + [["m", bb[1]], ["m", bb[3]]]
            for h in itertools.product(alpha, repeat=depth):
                for mask in range(1, 2**depth):
                    ops = []
                    for i, x in enumerate(h):
                        ops.append(x)
                        if mask >> i & 1:
                            ops.append(["r"])
                    yield dict(kind=kind, cfg={}, ops=ops, every=False)

    return gen


def empties():
    for kind in ("int", "float", "text"):
        for cfg in ({}, {"bins": 4}):
            for seq in itertools.product(["u", "m", "w"], repeat=3):
                for pat in itertools.product([[], B[kind][2], B[kind][3]], repeat=3):
                    if [] in pat:
                        yield dict(kind=kind, cfg=cfg, ops=[[o, b] for o, b in zip(seq, pat)])


METHODS = ["auto", "fd", "doane", "scott", "rice", "sturges", "sqrt"]


def run_method(case, ctx):
    run(dict(kind=case["kind"], cfg={"bins": case["method"]}, ops=[["u", case["vals"]]]), ctx)
    c = make(case["kind"], {"bins": case["method"]})
    c.update(series(case["vals"]))
    xs = np.array([value(case["kind"], s) for s in case["vals"]])
    got = len(c.profile["histogram"]["bin_counts"])
    if len(set(xs)) > 1:
        # numpy's rule on the same data; float data only (numpy narrows the width for integer arrays)
        want = len(np.histogram_bin_edges(xs.astype(float), bins=case["method"])) - 1
        if got != want:
            raise Violation(f"{got} bins by rule {case['method']}, numpy uses {want} for {short(list(xs))}")


def methods(tier):
    def gen():
        for kind in ("int", "float"):
            for m in METHODS:
                for n in (2, 3, 5, 8, 40, 200):
                    for a, b in ((1, 7), (3, 11), (5, 3)):
                        vals = [str((i * a) % b + (0.25 if kind == "float" else 0)) for i in range(n)]
                        yield dict(kind=kind, method=m, vals=vals)
                        vals = [str((i * i) % 97 - 40) for i in range(n)]
                        yield dict(kind=kind, method=m, vals=vals)

    return gen


def run_large(case, ctx):
    """columns of a few hundred distinct values in several updates/merges"""
    n, mul, mod, parts, how, kind = (case[k] for k in ("n", "mul", "mod", "parts", "how", "kind"))
    vals = [(i * mul) % mod - mod // 3 for i in range(n)]
    if kind == "float":
        vals = [v / 8 for v in vals]
    if kind == "text":
        vals = ["x" * (v + mod // 3) for v in vals]
    vals = [str(v) for v in vals]
    step = -(-n // parts)
    chunks = [vals[i : i + step] for i in range(0, n, step)]
    run(dict(kind=kind, cfg=case["cfg"], ops=[["u" if i == 0 else how, b] for i, b in enumerate(chunks)]), ctx)


def large(tier):
    def gen():
        for kind in ("int", "float", "text"):
            for n, mul, mod in ((50, 7, 53), (300, 11, 17), (400, 101, 997), (257, 3, 2003)):
                for parts in (1, 2, 5):
                    for how in ("u", "m", "w"):
                        if parts == 1 and how != "u":
                            continue
                        for cfg in ({}, {"bins": 10}, {"bins": "sqrt"}, {"nq": 4}):
                            yield dict(kind=kind, n=n, mul=mul, mod=mod, parts=parts, how=how, cfg=cfg)

    return gen


def spaces(tier):
    th = tier == "thorough"
    cf = [{}, {"bins": 3}, {"bins": 10}, {"bins": 16}, {"nq": 4}, {"topk": 1}, {"topk": 2}]
    sp = [
        Space("single", "one update: every multiset of <=6 values over 4, int/float/text, 7 configurations",
              single(8 if th else 6, cf, A), run),
        Space("sequences2", "2 operations (update / merge right / merge left) over 6 batches",
              sequences(2, "umw", [{}, {"bins": 3}, {"bins": 10, "nq": 4}]), run),
        Space("sequences3", "3 operations (update / merge) over 4-6 batches",
              sequences(3, "um" if not th else "umw", [{}] + ([{"bins": 7}] if th else []),
                        batches=B if th else {k: v[:5] for k, v in B.items()}), run),
        Space("reads", "reads at every subset of positions", reads(3 if th else 2), run),
        Space("empty", "empty operands at every position", empties, run),
        Space("methods", "automatic bin rules against numpy, one update", methods(tier), run_method),
        Space("large", "hundreds of distinct values in 1/2/5 updates or merges", large(tier), run_large),
    ]
    if th:
        sp.append(Space("sequences4", "4 updates/merges over 4 batches",
                        sequences(4, "um", [{}], batches={k: v[1:5] for k, v in B.items()}), run))
    return sp
