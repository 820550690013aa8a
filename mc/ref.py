"""Reference models: boring, exact, plain Python."""
import math
from collections import Counter
from fractions import Fraction

NAN = float("nan")


def is_float(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


def is_int(s):
    try:
        f = float(s)
        return f == int(f)
    except (ValueError, OverflowError):
        return False


def moments(xs, bias=True):
    """Exact statistics of a list of numbers (None where undefined)."""
    xs = [Fraction(x) for x in xs]
    n = len(xs)
    out = dict(n=n, sum=float(sum(xs)) if n else 0.0)
    out["num_zeros"] = sum(1 for x in xs if x == 0)
    out["num_negatives"] = sum(1 for x in xs if x < 0)
    if not n:
        return out
    out["min"] = float(min(xs))
    out["max"] = float(max(xs))
    m = sum(xs) / n
    out["mean"] = float(m)
    m2 = sum((x - m) ** 2 for x in xs)
    m3 = sum((x - m) ** 3 for x in xs)
    m4 = sum((x - m) ** 4 for x in xs)
    bvar = float(m2 / n)
    bskew = math.sqrt(n) * float(m3) / float(m2) ** 1.5 if m2 else 0.0
    bkurt = float(n * m4 / m2**2) - 3 if m2 else -3.0
    if not bias:
        out["variance"], out["skewness"], out["kurtosis"] = bvar, bskew, bkurt
    else:
        out["variance"] = float(m2 / (n - 1)) if n > 1 else NAN
        out["skewness"] = math.sqrt(n * (n - 1)) * bskew / (n - 2) if n > 2 else NAN
        out["kurtosis"] = (
            (n - 1) / ((n - 2) * (n - 3)) * ((n + 1) * (bkurt + 3) - 3 * (n - 1)) if n > 3 else NAN
        )
    v = out["variance"]
    out["stddev"] = math.sqrt(v) if v == v else NAN
    return out


def sigfigs(s):
    """Significant digits of a decimal literal: leading and trailing zeros do not count."""
    s = s.strip().lstrip("+-")
    digits = s.split("e")[0]
    if "." in digits:
        a, b = digits.split(".")
        b = b.rstrip("0")
        digits = (a + b) if b else a if a.lstrip("0") else ""
        return len(digits.lstrip("0"))
    return len(digits.lstrip("0").rstrip("0"))


def rounded_ok(got, exact, p):
    """got is exact rounded to p significant digits (ties either way)."""
    if exact != exact:
        return got != got
    if exact == 0:
        return abs(got) < 1e-12
    p = max(int(p), 1)
    ulp = 10.0 ** (math.floor(math.log10(abs(exact))) - p + 1)
    return abs(got - exact) <= 0.5 * ulp * (1 + 1e-6) + 1e-12 * abs(exact)


def is_default_null(s):
    """Default null tokens: nothing, nan/none/null in any case, or only blanks, only dashes or only underscores."""
    return s.lower() in ("", "nan", "none", "null") or set(s) in ({" "}, {"-"}, {"_"})
