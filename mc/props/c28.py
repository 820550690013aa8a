"""C28: validator results are exact."""
import itertools

from mc.engine import Space
from mc.sut import np, pd

from dataprofiler.validators.base_validators import Validator

ASSUMPTIONS = [
    "the values checked are numbers, texts of numbers or nan; after a refused validation the results are refused or those of the one before; lists hold numbers; a row is named by its label (pandas) or position (dask)",
    "the rows reported are those whose value lies in the (closed) range or equals a number of the list: known anomalies",
]

VALS = ["1", "2.5", "-3", "1e1", " 2 ", "nan", "0"]
RANGES = [(1, 2.5), ("1", "2"), (-5, 0), (2, 1), (10, 10)]
LISTS = [[1], [2.5, -3], [], [10, 0, 7], [2]]


def hits(values, kind, arg):
    out = []
    for lab, v in values:
        x = float(v)
        if kind == "range":
            if float(arg["start"]) <= x <= float(arg["end"]):
                out.append(lab)
        elif any(x == float(y) for y in arg):
            out.append(lab)
    return out


def mk(cols, index, dtype):
    df = pd.DataFrame({c: (pd.Series([float(x) for x in v]) if dtype == "float" else pd.Series(list(v), dtype=object)) for c, v in cols.items()})
    if index is not None:
        df.index = index
    return df


def rules(case, ctx):
    cols, index, dtype, df_type, steps = case
    df = mk(cols, index, dtype)
    if df_type.lower() == "dask":
        import dask.dataframe as dd

        data = dd.from_pandas(df, npartitions=2)
        labels = list(range(len(df)))
    else:
        data = df
        labels = list(df.index)
    v = Validator()
    try:
        v.get()
        ctx.check(False, "results before any validation")
    except Warning:
        pass
    last = None
    for conf, bad in steps:
        c = {"df_type": df_type, "known_anomaly_validation": conf}
        if bad:
            try:
                v.validate(data=data, config=c)
                ctx.check(False, f"{conf} was accepted")
            except (Warning, TypeError, KeyError, ValueError):
                pass
            ctx.step()
            try:
                r = v.get()
            except Warning:
                continue
            ctx.check(last is not None and {k: {m: list(x) for m, x in d.items()} for k, d in r.items()} == last,
                      f"{steps}: results {r} although the last validation failed")
            continue
        v.validate(data=data, config=c)
        ctx.step()
        want = {col: {k: hits(zip(labels, cols[col]), k, a) for k, a in rs.items()} for col, rs in conf.items()}
        got = v.get()
        ctx.check({k: {m: list(x) for m, x in d.items()} for k, d in got.items()} == want,
                  lambda: f"{cols} {df_type} {steps}: {got}, expected {want}")
        last = want
        ctx.check(df.equals(mk(cols, index, dtype)), "the data was changed")
    ctx.state((repr(cols), repr(steps)))


def spaces(tier):
    thorough = tier != "quick"
    rs = [{"range": {"start": a, "end": b}} for a, b in RANGES] + [{"list": l} for l in LISTS]
    both = rs + [{"range": {"start": a, "end": b}, "list": l} for a, b in RANGES for l in LISTS] + [{"list": [1], "range": {"start": -5, "end": 0}}]
    tables = [list(t) for n in range(0, 4 if thorough else 3) for t in itertools.product(VALS, repeat=n)]

    def c_ru():
        for t in tables:
            for r in both:
                for dt in ("text", "float"):
                    yield {"a": t}, None, dt, "pandas", [({"a": r}, False)]
            yield {"a": t, "b": t[::-1]}, None, "text", "Pandas", [({"b": rs[0], "a": rs[6]}, False)]
        for t in tables:
            if len(t) == 2:
                for ix in ([5, 3], ["x", "y"], [7, 7]):
                    for r in rs:
                        yield {"a": t}, ix, "text", "pandas", [({"a": r}, False)]

    def c_da():
        for t in tables:
            if 1 <= len(t) <= 2 or (thorough and len(t) == 3 and t[0] in "10"):
                for r in (rs if len(t) == 1 else rs[:2] + rs[6:8]) + [both[-1]]:
                    yield {"a": t}, None, "text", "dask", [({"a": r}, False)]
        for r in both:
            yield {"a": VALS, "b": VALS[::-1]}, None, "text", "Dask", [({"a": r, "b": rs[1]}, False)]

    def c_hi():
        cols = {"a": ["1", "2.5", "10"], "b": ["0", "-3", "nan"]}
        confs = [({"a": rs[0]}, False), ({"a": rs[6]}, False), ({"b": rs[2]}, False), ({"b": rs[7], "a": both[12]}, False), ({}, False),
                 ({"a": {"rng": 1}}, True), ({"b": {}}, True), ({"zz": rs[0]}, True), ({"a": rs[0], "b": {"rng": 1}}, True)]
        for n in (1, 2, 3):
            for s in itertools.product(confs, repeat=n):
                yield cols, None, "text", "pandas", list(s)
        for s in itertools.product(confs, repeat=2):
            yield cols, None, "text", "dask", list(s)
        for s in itertools.product(confs[:3], repeat=1):
            yield cols, None, "text", "spark", [(s[0][0], True)]

    return [
        Space("rules", "every column of <=2 of 7 values, as text or numbers, x 36 range/list rules; two columns; other indexes", c_ru, rules),
        Space("dask", "the same on dask tables of two partitions", c_da, rules),
        Space("histories", "every sequence of <=3 validations (4 of 9 of them invalid) with one validator", c_hi, rules),
    ]
