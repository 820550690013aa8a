"""C01: numeric statistics exact under every batching."""
import itertools

from mc import ref
from mc.engine import Space, Violation, isnan, same, short, words
from mc.sut import ONLY_PRIMITIVE, dp, frame, np, opts, pd, profiler, series
from dataprofiler.profilers import FloatColumn, IntColumn, TextColumn
from dataprofiler.profilers.profiler_options import FloatOptions, IntOptions, TextOptions

ASSUMPTIONS = [
    "values are finite; alphabet values are dyadic so that the exact result is representable up to rounding",
    "significant figures: digits without leading and trailing zeros",
]
KEYS = ("min", "max", "sum", "mean", "variance", "stddev", "skewness", "kurtosis", "num_zeros", "num_negatives")
CLS = {"int": (IntColumn, IntOptions), "float": (FloatColumn, FloatOptions), "text": (TextColumn, TextOptions)}


def accepted(kind, s):
    return {"int": ref.is_int, "float": ref.is_float, "text": lambda x: True}[kind](s)


def value(kind, s):
    return len(s) if kind == "text" else float(s)


def check_stats(rep, kind, vals, bias, ctx, where, off=(), precision=True):
    """rep: reported statistics; vals: all accepted string values so far."""
    want = ref.moments([value(kind, s) for s in vals], bias)
    for k in KEYS:
        if k in off or (kind == "text" and k in ("num_zeros", "num_negatives")):
            continue
        if k not in rep:
            raise Violation(f"{where}: {k} missing")
        got = rep[k]
        if not vals:
            if k in ("min", "max"):
                if got is not None and not isnan(got):
                    raise Violation(f"{where}: {k} of no values is {got}")
            elif k in ("sum", "mean", "num_zeros", "num_negatives"):
                if not isnan(got) and got != 0:
                    raise Violation(f"{where}: {k} of no values is {got}")
            elif not isnan(got):
                raise Violation(f"{where}: {k} of no values is {got}")
            continue
        if got is None or not same(got, want[k], rel=1e-6, abs_=1e-7):
            raise Violation(f"{where}: {k} = {got!r}, exact value over {short(vals)} is {want[k]!r}")
    if kind == "float" and vals and precision:
        pr = rep.get("precision")
        if pr is None:
            raise Violation(f"{where}: precision missing")
        sig = [ref.sigfigs(s) for s in vals]
        m = ref.moments(sig, True)
        p = max(sig)
        for k, want_k in (("min", min(sig)), ("max", max(sig)), ("sample_size", len(sig))):
            if pr[k] != want_k:
                raise Violation(f"{where}: precision {k} = {pr[k]!r}, exact over {short(vals)} is {want_k}")
        std = m["stddev"]
        for k, want_k in (
            ("mean", m["mean"]),
            ("var", m["variance"]),
            ("std", std),
            ("margin_of_error", 3.291 * std / len(sig) ** 0.5),
        ):
            got = pr[k]
            tol_extra = 0
            if k == "margin_of_error":  # z value is 3.291 to its own digits
                ok = isnan(got) if isnan(want_k) else abs(got - want_k) <= 1e-3 * abs(want_k) + 10.0 ** (
                    -max(p, 1) + 1
                ) * abs(want_k)
            else:
                ok = ref.rounded_ok(got, want_k, p)
            if not ok:
                raise Violation(f"{where}: precision {k} = {got!r}, exact over {short(vals)} is {want_k!r} to {p} digits")
    ctx.state((kind, bias, tuple(off), sorted(vals)))


# ---------------------------------------------------------------- column level
def run_column(case, ctx):
    kind, bias, batches = case["kind"], case["bias"], case["batches"]
    cls, ocls = CLS[kind]
    o = ocls()
    o.bias_correction.is_enabled = bias
    c = cls("a", options=o)
    seen = []
    for bi, b in enumerate(batches):
        c.update(series(b))
        ctx.step()
        seen += [s for s in b if accepted(kind, s)]
        check_stats(c.profile, kind, seen, bias, ctx, f"after update {bi + 1}")
        if c.match_count != len(seen):
            raise Violation(f"match count {c.match_count} != {len(seen)}")


def batch_words(alpha, n):
    return [list(w) for w in words(alpha, n)]


ALPHA = {
    "int": ["0", "5", "-3", "12"],
    "float": ["0", "-2.5", "1.25", "100"],
    "text": ["", "ab", "a", "abcde"],
}


def cases_column(depth, maxlen, alpha):
    def gen():
        for kind in ("int", "float", "text"):
            B = batch_words(alpha[kind], maxlen)
            for bias in (True, False):
                for d in range(1, depth + 1):
                    # unbiased variant only to full depth; the biased formulas differ only by the final correction
                    if not bias and d > 2:
                        continue
                    if d < depth and bias and depth > 1 and d != 1:
                        continue  # prefixes are checked inside the deeper histories
                    for h in itertools.product(B, repeat=d):
                        yield dict(kind=kind, bias=bias, batches=list(h))

    return gen


def cases_long():
    two = {
        "int": [["0"], ["7", "-4"]],
        "float": [["0.5"], ["-8", "3.25"]],
        "text": [["a"], ["", "abc"]],
    }
    for kind in two:
        for h in itertools.product(two[kind], repeat=8):
            yield dict(kind=kind, bias=True, batches=list(h))


# mixed lexical forms: only the matching values count
MIX = ["1", "-2", "0.5", "x", "1e2", " 4 "]


def cases_mixed(n):
    def gen():
        for kind in ("int", "float", "text"):
            for w in words(MIX, n, 1):
                for cut in range(len(w) + 1):
                    yield dict(kind=kind, bias=True, batches=[list(w[:cut]), list(w[cut:])])

    return gen


# ---------------------------------------------------------------- whole profiles
def run_profile(case, ctx):
    """Full pipeline: nulls are removed, the type is selected, statistics of that type are reported."""
    o = opts({**ONLY_PRIMITIVE, **case.get("set", {})})
    off = case.get("off", [])
    bias = case.get("bias", True)
    if not bias:
        o.set({"structured_options.*.bias_correction.is_enabled": False})
    p = None
    seen = []
    for bi, b in enumerate(case["batches"]):
        df = frame({"a": b})
        if p is None:
            p = dp.Profiler(df, options=o, profiler_type="structured", samples_per_update=max(len(b), 1))
        else:
            p.update_profile(df, sample_size=max(len(b), 1))
        ctx.step()
        seen += [s for s in b if s is not None and not ref.is_default_null(s)]
        if not seen:
            continue
        rep = p.report({"output_format": "serializable"})["data_stats"][0]
        kind = "int" if all(map(ref.is_int, seen)) else "float" if all(map(ref.is_float, seen)) else "text"
        if rep["data_type"] not in (("string", "text") if kind == "text" else (kind,)):
            raise Violation(f"data type {rep['data_type']} for {seen}")
        check_stats(
            rep["statistics"], kind, seen, bias, ctx, f"after update {bi + 1}", off=off, precision="precision" not in off
        )


PALPHA = {
    "ints": ["0", "5", "-3", "nan", None],
    "floats": ["0", "-2.5", "4", " ", "1e1"],
    "strings": ["", "ab", "7", "abcde", "0.5"],
}


def cases_profile(maxlen, depth):
    def gen():
        for fam, alpha in PALPHA.items():
            B = batch_words(alpha, maxlen)
            for h in itertools.product(B, repeat=depth):
                if not h[0]:
                    # a profile starts with its first data
                    continue
                yield dict(batches=list(h))
            for h in itertools.product(B, repeat=depth):
                if h[0] and all(len(b) == maxlen for b in h):
                    yield dict(batches=list(h), bias=False)

    return gen


STATS = ["min", "max", "sum", "variance", "skewness", "kurtosis", "num_zeros", "num_negatives", "mode", "median",
         "median_abs_deviation", "histogram_and_quantiles"]
# what each statistic needs (documented option validation)
NEEDS = {"variance": ["sum"], "skewness": ["sum", "variance"], "kurtosis": ["sum", "variance", "skewness"],
         "mode": ["histogram_and_quantiles"], "median": ["histogram_and_quantiles"],
         "median_abs_deviation": ["histogram_and_quantiles"], "histogram_and_quantiles": ["min", "max"]}


def closed_sets():
    out = []
    for k in range(1, 3):
        for s in itertools.combinations(STATS, k):
            dis = set(s)
            changed = True
            while changed:
                changed = False
                for st, needs in NEEDS.items():
                    if st not in dis and any(n in dis for n in needs):
                        dis.add(st)
                        changed = True
            d = tuple(x for x in STATS if x in dis)
            if d not in out:
                out.append(d)
    return out


def cases_options():
    hist = {
        "int": [[["0", "5"], ["-3", "8", "8", "1"]], [["4"], ["nan"], ["0", "9", "-9"]]],
        "float": [[["0.5", "5"], ["-3.25", "8", "8", "1"]], [["4.125"], ["nan"], ["0", "9", "-9"]]],
        "text": [[["", "ab", "c"], ["defg", "d", "x", "x"]], [["hello"], ["None"], ["w", "a", "bcde"]]],
    }
    for kind in ("int", "float", "text"):
        for dis in closed_sets():
            if kind == "text" and ("num_zeros" in dis or "num_negatives" in dis):
                continue
            st = {f"structured_options.{kind}.{d}.is_enabled": False for d in dis}
            off = list(dis)
            if "sum" in dis:
                off.append("mean")
            if "variance" in dis:
                off.append("stddev")
            for h in hist[kind]:
                yield dict(batches=h, set=st, off=off)
    for h in hist["float"]:
        yield dict(batches=h, set={"structured_options.float.precision.is_enabled": False}, off=["precision"])


def run_big(case, ctx):
    n, k = case["n"], case["k"]
    vals = [str((i * 7919) % 1009 - 500) + case["suffix"] for i in range(n)]
    step = -(-n // k)
    run_profile(dict(batches=[vals[i : i + step] for i in range(0, n, step)]), ctx)


def cases_big(tier):
    def gen():
        for n in (100, 4999, 5001, 6007) + ((20001, 30011) if tier == "thorough" else ()):
            for k in (1, 2, 7):
                for suffix in ("", ".5", "x"):
                    yield dict(n=n, k=k, suffix=suffix)

    return gen


def spaces(tier):
    th = tier == "thorough"
    a5 = {k: v + x for (k, v), x in zip(ALPHA.items(), (["1000"], ["0.015625"], ["abcdefghijkl"]))}
    sp = [
        Space("column-depth1", "one update, all words of length <=4 over 4 values, int/float/text, bias on/off",
              cases_column(1, 4, ALPHA), run_column),
        Space("column-depth3", "three updates, each a word of length <=2 over 3 values",
              cases_column(3, 2, {k: v[:3] for k, v in ALPHA.items()}), run_column),
        Space("column-long", "8 updates, 2 batch shapes", cases_long, run_column),
        Space("column-mixed", "mixed lexical forms, every split in two", cases_mixed(4 if th else 3), run_column),
        Space("profile-depth2", "whole profiles incl. null tokens, 2 updates of words of length <=2 over 5 values",
              cases_profile(2, 2), run_profile),
        Space("options", "every dependency-closed set of <=2 disabled statistics", cases_options, run_profile),
        Space("big", "columns across the sampling-size thresholds, all rows requested", cases_big(tier), run_big),
    ]
    if th:
        sp += [
            Space("column-depth2x3", "two updates of words of length <=3 over 5 values", cases_column(2, 3, a5), run_column),
            Space("column-depth3x4", "three updates of words of length <=2 over 4 values", cases_column(3, 2, ALPHA), run_column),
            Space("profile-depth3", "whole profiles, 3 updates of words of length <=1..2 over 5 values",
                  cases_profile3, run_profile),
        ]
    return sp


def cases_profile3():
    for fam, alpha in PALPHA.items():
        B1 = batch_words(alpha, 1)
        B2 = batch_words(alpha, 2)
        for h in itertools.product(B1, B2, B1):
            if h[0]:
                yield dict(batches=list(h))
        for h in itertools.product(B2, B1, B2):
            if h[0] and len(h[0]) == 2 and len(h[2]) == 2:
                yield dict(batches=list(h))
