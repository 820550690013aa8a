"""C06: data type detection and type shares."""
import itertools

from mc import ref
from mc.dates import DATES, NOT_DATES
from mc.engine import Space, Violation, compositions, words
from mc.sut import ONLY_PRIMITIVE, fresh, frame

ASSUMPTIONS = [
    "a number is what Python's float() reads, an integer a finite number of whole value (the documented rule: '1.00' is an int)",
    "updates of at most 10 rows: with more rows than that, a column with under 10% dates is by design not searched for dates",
]
ST = {**ONLY_PRIMITIVE, "structured_options.datetime.is_enabled": True,
      "structured_options.multiprocess.is_enabled": False}
for t in ("int", "float", "text"):
    for k in ("histogram_and_quantiles", "median_abs_deviation", "mode", "median"):
        ST[f"structured_options.{t}.{k}.is_enabled"] = False


def is_date(s):
    return s in DATES


def expect(vals):
    n = len(vals)
    if not n:
        return None, dict(datetime=None, int=None, float=None)
    sh = dict(
        datetime=sum(map(is_date, vals)) / n,
        int=sum(map(ref.is_int, vals)) / n,
        float=sum(map(ref.is_float, vals)) / n,
        string=1.0,
    )
    t = next(k for k, v in sh.items() if v == 1.0)
    return "text" if t == "string" and max(map(len, vals)) > 255 else t, sh


def check(p, vals, where, ctx):
    c = p.report({"output_format": "serializable"})["data_stats"][0]
    st = c["statistics"]
    t, sh = expect(vals)
    if c["data_type"] != t:
        raise Violation(f"{where}: data type {c['data_type']!r}, the values {vals} are {t!r}")
    rep = dict(st.get("data_type_representation") or {})
    if not vals:
        if any(v for v in rep.values()):
            raise Violation(f"{where}: type shares {rep} without values")
    else:
        if "text" in rep:
            rep["string"] = rep.pop("text")
        if set(rep) != set(sh) or any(abs(rep[k] - sh[k]) > 1e-12 for k in sh):
            raise Violation(f"{where}: type shares {rep}, expected {sh}")
    if t == "datetime":
        o = [DATES[v][0] for v in vals]
        if DATES[st["min"]][0] != min(o) or DATES[st["max"]][0] != max(o):
            raise Violation(f"{where}: datetime range {st['min']}..{st['max']} of {vals}")
    elif t:
        x = [float(v) for v in vals] if t in ("int", "float") else [len(v) for v in vals]
        if st["min"] != min(x) or st["max"] != max(x):
            raise Violation(f"{where}: {t} range {st['min']}..{st['max']}, expected {min(x)}..{max(x)}")
    ctx.state((t, tuple(sorted(rep.items(), key=str)), len(vals)))


def run(case, ctx):
    """pieces: list of lists; how: 'u' / 'm' per later piece"""
    seen = []
    p = None
    for i, part in enumerate(case["pieces"]):
        df = frame({"a": part})
        if p is None:
            p = fresh(df, ST)
        elif case["how"][i - 1] == "u":
            p.update_profile(df)
        else:
            p = p + fresh(df, ST)
        ctx.step()
        seen += [v for v in part if not ref.is_default_null(v)]
        check(p, seen, f"after piece {i + 1}", ctx)


FORMS = ["1", "-1", "+1", " 1 ", "1.0", "1.5", "1e3", "1E3", "1,000", "0x1F", "inf", "-Infinity", "1_000", "1.", "-.5", "--1",
         "True", "1e400", "1e-400", "9007199254740993", "1e", "$5", "5%", "(5)", "1d", "NaNx", "x", "0", "-0", "00", "1 2", ".", "1.0000000001", "5e-10", "1e-300", "3000000000.5", "-0.99999999999", "1e15", "123456789012345.5"]


def lexical(th):
    def gen():
        allf = FORMS + list(DATES) + NOT_DATES
        for f in allf:
            yield dict(pieces=[[f]], how="")
            yield dict(pieces=[[f, "nan"], [f]], how="u")
        few = allf if th else FORMS[::4] + list(DATES)[::6] + NOT_DATES[::6]
        for a in allf:
            for b in few:
                yield dict(pieces=[[a, b]], how="")
        for a, b in itertools.product(few, repeat=2):
            yield dict(pieces=[[a], [b]], how="u")

    return gen


def dates(th):
    def gen():
        ds = list(DATES)
        for a, b in itertools.product(ds, repeat=2):
            if True:
                yield dict(pieces=[[a, b]], how="")
        for a in ds:
            yield dict(pieces=[[a], ["2013-03-07"]], how="m")
            yield dict(pieces=[["2013-03-07"], [a]], how="u")
            yield dict(pieces=[[a] + ["x"] * 9], how="")

    return gen




def hist(alpha, maxlen, maxparts, minlen=1):
    def gen():
        for w in words(alpha, maxlen, minlen):
            for s in compositions(len(w), min(maxparts, len(w))):
                if 0 in s:
                    continue
                for h in itertools.product("um", repeat=len(s) - 1):
                    k, pieces = 0, []
                    for n in s:
                        pieces.append(list(w[k : k + n]))
                        k += n
                    yield dict(pieces=pieces, how="".join(h))

    return gen


def shares():
    """a few other values among many: one stray value is enough"""
    for n in (11, 21, 51, 101):
        for most, odd in itertools.product(["3", "2.5", "x", "2013-03-07"], repeat=2):
            for k in (0, 1, 2, n // 10, n // 5):
                if odd == "2013-03-07" and 0 < k < n / 5:
                    continue
                if (most == odd) != (k == 0):
                    continue
                w = [most] * (n - k) + [odd] * k
                yield dict(pieces=[w], how="")
                yield dict(pieces=[w[::-1]], how="")
                for h in "um":
                    yield dict(pieces=[[most] * (n - k)] + [[odd]] * min(k, 2), how=h * min(k, 2))
                    yield dict(pieces=[[odd] * max(k, 1), [most] * n], how=h)


def lengths():
    for a in (1, 254, 255, 256, 257, 1000):
        yield dict(pieces=[["y" * a]], how="")
        for b in (1, 255, 256):
            yield dict(pieces=[["y" * a, "z" * b]], how="")
            for h in "um":
                yield dict(pieces=[["y" * a], ["z" * b]], how=h)
                yield dict(pieces=[["y" * a], ["z" * b], ["w"]], how=h * 2)


CLASSES = ["3", "2.5", "x", "2013-03-07", "nan"]


def spaces(tier):
    th = tier == "thorough"
    return [
        Space("lexical", "81 lexical forms alone, pairwise in one update and over two updates", lexical(th), run),
        Space("dates", "every ordered pair of 28 written dates; each date next to 9 words", dates(th), run),
        Space("shares", "11-101 values with 1, 2, a tenth or a fifth of another type, together or in later updates/merges", shares, run),
        Space("lengths", "text lengths around 255 characters, together, by update, by merge", lengths, run),
        Space("histories", "every value sequence up to length 3 over 5 type classes, every split, updates/merges",
              hist(CLASSES, 3, 3), run),
        Space("histories4", "every value sequence of length 4 over 4 type classes, splits into 2 (thorough 4)",
              hist(CLASSES[:4] if not th else CLASSES, 4, 4 if th else 2, 4), run),
    ]
