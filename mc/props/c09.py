"""C09: datetime columns: range as written, formats."""
import itertools

from dataprofiler.profilers import DateTimeColumn

from mc.dates import DATES, NOT_DATES
from mc.engine import Space, Violation, compositions, words
from mc.sut import ONLY_PRIMITIVE, fresh, frame, series

ASSUMPTIONS = [
    "updates of at most 10 rows: with more rows than that, a column with under 10% dates is by design not searched for dates",
    "among equally early (late) values any one may be reported as the earliest (latest)",
]


def check(st, seen, where, ctx, ratio=None):
    dates = [v for v in seen if v in DATES]
    if not dates:
        if st["min"] is not None or st["max"] is not None or st["format"]:
            raise Violation(f"{where}: reported {st['min']}..{st['max']} {st['format']} without any date in {seen}")
        ctx.state((0, len(seen)))
        return
    mean = [DATES[v][0] for v in dates]
    for key, want in (("min", min(mean)), ("max", max(mean))):
        if st[key] not in dates or DATES[st[key]][0] != want:
            raise Violation(f"{where}: {key} {st[key]!r} of {dates}")
    fm = set(st["format"])
    if len(fm) != len(st["format"]):
        raise Violation(f"{where}: formats repeated {st['format']}")
    ok = set().union(*(DATES[v][1] for v in dates))
    if fm - ok:
        raise Violation(f"{where}: formats {sorted(fm - ok)} match none of {dates}")
    for v in dates:
        if not fm & DATES[v][1]:
            raise Violation(f"{where}: no reported format {sorted(fm)} matches {v!r}")
    if ratio is not None and abs(ratio - len(dates) / len(seen)) > 1e-12:
        raise Violation(f"{where}: share of dates {ratio}, expected {len(dates)}/{len(seen)}")
    ctx.state((min(mean), max(mean), tuple(sorted(fm))))


def run(case, ctx):
    p, seen = None, []
    for i, part in enumerate(case["pieces"]):
        h = case["how"][i - 1] if i else "u"
        q = DateTimeColumn("a") if p is None or h in "mM" else p
        q.update(series(part))
        if p is not None and h in "mM":
            l, r, ls, rs = (p, q, seen, part) if h == "m" else (q, p, part, seen)
            p = l + r
            check(l.report(), ls, f"left operand, piece {i + 1}", ctx)
            check(r.report(), rs, f"right operand, piece {i + 1}", ctx)
        else:
            p = q
        seen = seen + part
        ctx.step()
        check(p.report(), seen, f"after piece {i + 1}", ctx, p.data_type_ratio if seen else None)


def run_profile(case, ctx):
    st = {**ONLY_PRIMITIVE, "structured_options.datetime.is_enabled": True}
    for t in ("int", "float", "text"):
        st[f"structured_options.{t}.is_enabled"] = False
    p, seen = None, []
    for i, part in enumerate(case["pieces"]):
        df = frame({"a": part})
        if p is None:
            p = fresh(df, st)
        elif case["how"][i - 1] == "u":
            p.update_profile(df)
        else:
            p = p + fresh(df, st)
        seen = seen + [v for v in part if v and v != "nan"]
        ctx.step()
        if seen and all(v in DATES for v in seen):
            check(p.report({"output_format": "serializable"})["data_stats"][0]["statistics"], seen, f"after piece {i + 1}", ctx)


def hist(alpha, maxlen, maxparts, hows, minlen=1, empties=False):
    def gen():
        for w in words(alpha, maxlen, minlen):
            for s in compositions(len(w), maxparts):
                if not empties and 0 in s:
                    continue
                for h in itertools.product(hows, repeat=len(s) - 1):
                    k, pieces = 0, []
                    for n in s:
                        pieces.append(list(w[k : k + n]))
                        k += n
                    yield dict(pieces=pieces, how="".join(h))

    return gen


def pairs(th):
    def gen():
        ds = list(DATES) + NOT_DATES[:4]
        for a, b in itertools.product(ds, repeat=2):
            yield dict(pieces=[[a, b]], how="")
            for h in "umM" if th else "um":
                yield dict(pieces=[[a], [b]], how=h)
        for v in NOT_DATES:
            yield dict(pieces=[[v]], how="")
            yield dict(pieces=[["2013-03-07"], [v]], how="u")
            yield dict(pieces=[["2013-03-07", v]], how="")

    return gen


A = ["2013-03-07", "03/10/13", "Mar 11, 2013", "x"]
B = ["2013-03-07", "May 5, 2013", "March 9, 2013", "12May13", "x", "12/31/68"]
C = ["2013-03-06T15:43:30", "20130306T154330", "05:46:30.258509", "0001-01-01", "9999-12-31"]


def spaces(tier):
    th = tier == "thorough"
    return [
        Space("pairs", "every ordered pair of 28 written dates and 4 near misses: together, by update, by merge", pairs(th), run),
        Space("mixed", "every sequence up to length 4 over 3 formats and a word, up to 3 pieces incl. empty, updates/merges",
              hist(A, 4 if th else 3, 3, "umM" if th else "um", empties=True), run),
        Space("may", "every sequence up to length 3 over May/two-digit-year forms and a word, up to 2 (thorough 3) pieces",
              hist(B, 3, 3 if th else 2, "um"), run),
        Space("ties", "equal instants in different writings and the ends of the calendar, length 3, up to 2 (thorough 3) pieces",
              hist(C, 3, 3 if th else 2, "umM" if th else "um"), run),
        Space("profile", "whole profiles: sequences up to length 3 over 3 formats and a null, splits, updates/merges",
              hist(A[:3] + ["nan"], 3, 2, "um"), run_profile),
    ]
