"""C21: JSON, Avro, Parquet and text reading is faithful."""
import io
import itertools
import json
import os
import random
from unittest import mock

import fastavro
import pyarrow as pa
import pyarrow.parquet as pq

from mc.engine import Space
from mc.sut import dp, np, pd

from dataprofiler.data_readers.avro_data import AVROData
from dataprofiler.data_readers.data import Data
from dataprofiler.data_readers.json_data import JSONData
from dataprofiler.data_readers.parquet_data import ParquetData
from dataprofiler.data_readers.text_data import TextData

ASSUMPTIONS = [
    "numbers are compared as numbers: a column of whole numbers with missing or fractional values is read as floats ('1.0'), "
    "as pandas does; null and missing read as 'None' or 'nan', both null values of the profiler",
    "objects are nested to depth 3, no field is an object in one record and a plain value in another, no two fields have the same flattened name",
    "for an object instead of an array, the records are the array under a payload key",
    "text files: line endings are read as \\n",
]
NULL = ("None", "nan", "NaN", "<NA>")


def path(ext="dat"):
    return os.path.join(os.environ.get("MC_TMP", "/tmp"), f"c21_{os.getpid()}.{ext}")


def flat(rec, pre=""):
    out = {}
    for k, v in rec.items():
        if isinstance(v, dict) and v:
            out.update(flat(v, pre + k + "."))
        elif isinstance(v, dict):
            pass
        else:
            out[pre + k] = v
    return out


def agrees(got, want):
    if not isinstance(got, str):
        return False
    if want is None:
        return got in NULL
    if isinstance(want, bool):
        return got in (str(want), "1.0" if want else "0.0", "1" if want else "0") and (got in ("True", "False"))
    if isinstance(want, (int, float)):
        try:
            return float(got) == float(want)
        except ValueError:
            return False
    if isinstance(want, list):
        return got == str(want) or got == str(np.array(want))
    return got == str(want)


def compare(ctx, df, recs, what, pre="", must=None):
    ctx.check(len(df) == len(recs), lambda: f"{what}: {len(df)} rows for {len(recs)} records: {df.values.tolist()}")
    rows = [flat(r) for r in recs]
    names = []
    for r in rows:
        for k in r:
            if pre + k not in names:
                names.append(pre + k)
    got = [str(c) for c in df.columns]
    ctx.check(sorted(got) == sorted(names if must is None else must), lambda: f"{what}: columns {got}, expected {names if must is None else must}")
    vals = df.values.tolist()
    for i, r in enumerate(rows):
        for j, c in enumerate(got):
            w = r.get(c[len(pre):])
            ctx.check(agrees(vals[i][j], w), lambda: f"{what}: record {i} field {c} is read as {vals[i][j]!r}, written {w!r}")


def json_text(recs, form):
    if form == "array":
        return json.dumps(recs)
    if form == "raw":
        return json.dumps(recs, ensure_ascii=False)
    if form == "indent":
        return json.dumps(recs, indent=2)
    if form == "lines":
        return "".join(json.dumps(r) + "\n" for r in recs)
    if form == "lines-":
        return "\n".join(json.dumps(r, ensure_ascii=False) for r in recs)
    if form == "crlf":
        return "".join(json.dumps(r) + "\r\n" for r in recs)
    if form == "gaps":
        return "\n\n".join(json.dumps(r) for r in recs) + "\n\n"
    if form == "junk":
        return "".join("{broken\n" + json.dumps(r) + "\n" for r in recs)
    if form in ("data", "payload", "mine"):
        return json.dumps({"meta": {"x": 1}, form: recs, "z": "q"})


def source(s, how, ext="json", enc="utf-8"):
    if how == "path":
        p = path(ext)
        with open(p, "wb") as f:
            f.write(s if isinstance(s, bytes) else s.encode(enc))
        return p
    if how == "bytes":
        return io.BytesIO(s if isinstance(s, bytes) else s.encode(enc))
    return io.StringIO(s, newline="")


def read_json(case, ctx):
    recs, form, how, fmt = case
    s = json_text(recs, form)
    o = {}
    if not s.isascii():  # detection guesses at so short a text
        o["encoding"] = "utf-8"
    if form == "mine":
        o["payload_keys"] = ["other", "mine"]
    if fmt:
        o["data_format"] = fmt
    if how == "data":
        r = JSONData(data=s, options=dict(o))
    else:
        r = JSONData(source(s, how), options=dict(o))
    d = r.data
    ctx.step()
    pre = form + "." if form in ("data", "payload", "mine") else ""
    what = f"{how} {form} {fmt or ''} {s!r}"
    if fmt in (None, "dataframe", "flattened_dataframe"):
        compare(ctx, d, recs, what, pre)
    elif fmt == "records":
        back = [json.loads(x) for x in "\n".join(d).split("\n")] if recs else []
        ctx.check(len(back) == len(recs), lambda: f"{what}: {len(back)} records for {len(recs)}")
        for i, (b, w) in enumerate(zip(back, recs)):
            b, w = flat(b), flat(w)
            for k in set(b) | set(w):
                ctx.check(k in b and agrees(b[k], w.get(k)), lambda: f"{what}: record {i} field {k} is {b.get(k)!r}, written {w.get(k)!r}")
    else:
        back = json.loads("".join(d))
        ctx.check(len(back) == len(recs), lambda: f"{what}: {len(back)} records for {len(recs)}")
        for i, (b, w) in enumerate(zip(back, recs)):
            w = flat(w)
            for k in set(b) | set(w):
                ctx.check(k in b and agrees(b[k], w.get(k)), lambda: f"{what}: record {i} field {k} is {b.get(k)!r}, written {w.get(k)!r}")
    # a second access and another format do not change what was read
    r.data_format = "flattened_dataframe"
    compare(ctx, r.data, recs, "second access, " + what, pre)
    ctx.state((form, s, fmt))


def selected(case, ctx):
    recs, sel, form = case
    r = JSONData(source(json_text(recs, form), "path"), options={"selected_keys": sel})
    ctx.step()
    df = r.data
    ctx.eq(list(df.columns), sel, "selected keys")
    for i, x in enumerate(recs):
        for k in sel:
            ctx.check(agrees(df[k].tolist()[i], flat(x).get(k)), lambda: f"record {i} field {k}: {df[k].tolist()}")
    ctx.state((form, tuple(sel)))


def schema(shape):
    prim = ["null", "string", "long", "double", "boolean"]
    fields = []
    for k in shape:
        if isinstance(k, str):
            fields.append({"name": k, "type": prim})
        else:
            fields.append({"name": k[0], "type": ["null", {"type": "record", "name": "R" + k[0], "fields": schema(k[1])["fields"]}]})
    return {"type": "record", "name": "top", "fields": fields}


def read_avro(case, ctx):
    recs, codec, how, fmt = case
    buf = io.BytesIO()
    fastavro.writer(buf, schema(["a", ["b", ["c", "d"]]]), recs, codec=codec, sync_interval=40)
    o = {"data_format": fmt} if fmt else {}
    src = source(buf.getvalue(), how, "avro")
    r = AVROData(src, options=dict(o)) if codec == "null" else Data(src, options=dict(o))
    d = r.data
    ctx.step()
    if codec != "null":
        ctx.eq(r.data_type, "avro", "type of an Avro file")
    full = [{"a": None, **x} for x in recs]
    names = sorted({k for x in full for k in flat(x)} | {"a"})
    if any(x.get("b") is None for x in full):
        names = sorted(set(names) | {"b"})
    must = [n for n in names]
    rows = []
    for x in full:
        y = flat(x)
        if isinstance(x.get("b"), dict):
            for k in ("c", "d"):
                y.setdefault("b." + k, None)
        rows.append(y)
    must = sorted({k for y in rows for k in y} | ({"b"} if any(x.get("b") is None for x in full) else set()))
    if fmt == "records":
        back = [json.loads(x) for x in "\n".join(d).split("\n")]
        ctx.eq(len(back), len(recs), "records")
        return
    ctx.check(len(d) == len(recs), lambda: f"{len(d)} rows for {len(recs)} records")
    ctx.eq(sorted(d.columns), must, f"columns of {recs}")
    for i, y in enumerate(rows):
        for c in d.columns:
            g = d[c].tolist()[i]
            ctx.check(agrees(g, y.get(c)), lambda: f"record {i} field {c} is read as {g!r}, written {y.get(c)!r}")
    ctx.state((codec, repr(recs)))


PTYPES = {"int": pa.int64(), "str": pa.string(), "float": pa.float64(), "bool": pa.bool_(), "small": pa.int8()}


def ptable(cols):
    return pa.table({n: pa.array(v, type=PTYPES[t]) for n, t, v in cols})


def read_parquet(case, ctx):
    cols, groups, how, sel, fmt = case
    t = ptable(cols)
    n = t.num_rows
    buf = io.BytesIO()
    w = pq.ParquetWriter(buf, t.schema)
    at = 0
    for g in groups:
        w.write_table(t.slice(at, g), row_group_size=max(g, 1))
        at += g
    w.close()
    o = {}
    if sel:
        o["selected_columns"] = sel
    if fmt:
        o["data_format"] = fmt
    r = ParquetData(source(buf.getvalue(), how, "parquet"), options=o)
    d = r.data
    ctx.step()
    names = sel or [c[0] for c in cols]
    vals = {c[0]: c[2] for c in cols}
    recs = [{k: vals[k][i] for k in names} for i in range(n)]
    if fmt is None:
        ctx.eq(list(d.columns), names, "columns")
        compare(ctx, d, recs, f"parquet {cols} groups {groups}", must=names)
    else:
        back = json.loads("".join(d)) if fmt == "json" else [json.loads(x) for x in "\n".join(d).split("\n") if x]
        ctx.eq(len(back), n, "records")
        for b, x in zip(back, recs):
            for k in names:
                ctx.check(agrees(b[k], x[k]), lambda: f"{fmt}: field {k} is {b[k]!r}, written {x[k]!r}")
    ctx.state((repr(cols), tuple(groups), repr(sel)))


def sample_parquet(case, ctx):
    n, k, sel, mask = case
    t = ptable([["x", "int", [10 * i for i in range(n)]], ["s", "str", ["v%d" % i for i in range(n)]]])
    buf = io.BytesIO()
    pq.write_table(t, buf, row_group_size=2)
    pick = [i for i in range(n) if mask >> i & 1]

    class G(np.random.Generator):
        def __new__(cls, *a, **kw):
            return super().__new__(cls, np.random.PCG64(mask))

        def __init__(self, *a, **kw):
            super().__init__(np.random.PCG64(mask))

        def choice(self, a, size=None, replace=True, **kw):
            if not replace and size == len(pick) and (a if isinstance(a, (int, np.integer)) else len(a)) == n:
                return np.array(pick[::-1]) if isinstance(a, (int, np.integer)) else np.array([a[i] for i in pick[::-1]])
            return super().choice(a, size=size, replace=replace, **kw)

    def fake(pop, kk, **kw):
        pop = list(pop)
        return [pop[i] for i in pick[::-1]] if kk == len(pick) and len(pop) == n else random.Random(mask).sample(pop, kk)

    with mock.patch.object(random, "sample", fake), mock.patch.object(np.random, "default_rng", lambda *a, **kw: G()):
        d = ParquetData(source(buf.getvalue(), "path", "parquet"), options={"sample_nrows": k, **({"selected_columns": sel} if sel else {})}).data
    ctx.step()
    names = sel or ["x", "s"]
    ctx.eq(list(d.columns), names, "columns of a sampled file")
    got = [tuple(r) for r in d.values.tolist()]
    rows = [tuple({"x": str(10 * i), "s": "v%d" % i}[c] for c in names) for i in range(n)]
    ctx.check(len(got) == min(k, n), lambda: f"{len(got)} rows sampled of {n}, asked for {k}")
    pos = [rows.index(g) if g in rows else -1 for g in got]
    ctx.check(all(p >= 0 for p in pos), lambda: f"sampled rows are not rows of the file: {got}")
    ctx.check(pos == sorted(set(pos)), lambda: f"sampled rows repeat or are out of order: {pos}")
    ctx.state((n, k, tuple(pos), tuple(names)))


def read_text(case, ctx):
    s, per, how, enc = case
    o = {"samples_per_line": per} if per else {}
    if enc == "utf-8" and not s.isascii():  # detection guesses at so short a text
        o["encoding"] = enc
    if how == "data":
        r = TextData(data=s, options=dict(o))
        want = s
    else:
        r = TextData(source(s, how, "txt", enc), options=dict(o))
        want = s.replace("\r\n", "\n").replace("\r", "\n") if how != "text" else s
    d = r.data
    ctx.step()
    ctx.check("".join(d) == want, lambda: f"{how} {enc}: the pieces {d} do not join to {want!r}")
    if per:
        ctx.check(all(len(x) == per for x in d[:-1]) and all(0 < len(x) <= per for x in d[-1:]), lambda: f"pieces of {per}: {d}")
    ctx.check(r.data == d, "second access differs")
    ctx.state((want, per))


def large(case, ctx):
    """the other spaces' checks on sources around the sizes at which readers work in pieces"""
    kind, n, how, x = case
    if kind == "json":
        recs = [{"a": i, "s": "v%d" % (i % 7), **({"late": i} if i >= n - 1 else {})} for i in range(n)]
        read_json([recs, x, how, None], ctx)
    elif kind == "avro":
        recs = [{"a": i if i % 3 else None, "b": {"c": "x%d" % i, "d": i} if i % 2 else None} for i in range(n)]
        read_avro([recs, x, how, None], ctx)
    elif kind == "parquet":
        cols = [["x", "int", [None if i % 11 == 5 else i for i in range(n)]], ["y", "str", ["k%d" % i for i in range(n)]]]
        g = [x] * (n // x) + ([n % x] if n % x else [])
        read_parquet([cols, g, how, None, None], ctx)
    else:
        t = "".join("word %d\n" % i for i in range(n // 6 + 2))[:n]
        read_text([t, x, how, "utf-8"], ctx)


def spaces(tier):
    big = tier == "thorough"
    V = ["a", "", 1, -2, 1.5, True, None, "é\"q\"", "l\nm", "nan", 10 ** 15, [1, 2], "1", " s ", "x\u2028y\x85z"]
    W = ["a", 1, None, 1.5, "é"]
    FORMS = ["array", "raw", "indent", "lines", "lines-", "crlf", "gaps", "junk", "data", "payload", "mine"]

    def c_json():
        none = "absent"

        def rec(a, b):
            r = {}
            if a != none:
                r["a"] = a
            if b != none:
                r["b"] = b
            return r

        for v in V:
            for form in FORMS:
                for how in ("path", "bytes", "text", "data"):
                    for fmt in (None, "dataframe", "records", "json"):
                        if fmt is not None and form in ("data", "payload", "mine"):
                            continue
                        yield [[{"a": v}], form, how, fmt]
                        yield [[{"a": v}, {"a": "z"}], form, how, fmt]
                        if form != "array" and not big and how != "path":
                            continue
                        yield [[{"b": "k"}, {"a": v, "b": "m"}, {"a": 3}], form, how, fmt]
        A = [none] + (V if big else W)
        B = [none, {"c": 1}, {"c": "u", "d": 2}, {"d": {"e": "deep"}}, {"c": None}]
        for a1, a2 in itertools.product(A, repeat=2):
            for b1, b2 in itertools.product(B, repeat=2):
                for form in ("array", "lines", "data"):
                    if b1 != none and b2 != none and ("d" in b1) and ("d" in b2) and isinstance(b1["d"], dict) != isinstance(b2["d"], dict):
                        continue
                    x, y = rec(a1, b1), rec(a2, b2)
                    if not x or not y:
                        continue
                    for fmt in (None, "records") if form != "data" else (None,):
                        if fmt == "records" and not big and a1 != a2:
                            continue
                        yield [[x, y], form, "path", fmt]
                        if big:
                            yield [[x, y, x], form, "bytes", fmt]

    def c_sel():
        recs = [{"a": 1, "b": {"c": "x"}, "d": None}, {"a": "q", "b": {"c": 2}, "d": 5}]
        for n in (1, 2, 3):
            for sel in itertools.permutations(["a", "b.c", "d"], n):
                for form in ("array", "lines", "indent"):
                    yield [recs, list(sel), form]

    def c_avro():
        A = [None, "a", 5, 1.5, True, "é\n", ""]
        B = [None, {"c": "x", "d": 1}, {"c": None, "d": "y"}]
        for n in (1, 2) if not big else (1, 2, 3):
            for xs in itertools.product(itertools.product(A, B), repeat=n):
                if n > 2 and sum(b is not None for _, b in xs) > 1:
                    continue
                recs = [{"a": a, "b": b} for a, b in xs]
                for codec in ("null", "deflate"):
                    for how in ("path", "bytes"):
                        if n > 1 and how == "bytes" and codec == "deflate":
                            continue
                        for fmt in (None, "records"):
                            if fmt and (how == "bytes" or n > 1):
                                continue
                            yield [recs, codec, how, fmt]

    def c_parq():
        from mc.engine import compositions

        al = {"int": [None, 0, -7, 2 ** 40], "str": [None, "", "é", "l\nm", " s "], "float": [None, 1.5, -0.25], "bool": [None, True, False],
              "small": [1, -1]}
        for t, vs in al.items():
            for n in (1, 2, 3):
                for v in itertools.product(vs, repeat=n):
                    for g in compositions(n, n):
                        yield [[["x", t, list(v)], ["y", "str", ["k%d" % i for i in range(n)]]], list(g), "path" if n < 3 else "bytes", None, None]
        for t1, t2 in itertools.permutations(al, 2):
            for v1, v2 in itertools.product(itertools.product(al[t1][:3], repeat=2), itertools.product(al[t2][:3], repeat=2)):
                for sel in (None, ["y"], ["y", "x"]):
                    for fmt in (None, "records", "json"):
                        if fmt and sel:
                            continue
                        yield [[["x", t1, list(v1)], ["y", t2, list(v2)]], [1, 1], "path", sel, fmt]
        yield [[["x", "int", []], ["y", "str", []]], [0], "path", None, None]

    def c_ps():
        for n in range(1, 6 if not big else 8):
            for k in range(1, n + 2):
                for mask in range(1 << n):
                    if bin(mask).count("1") != min(n, k):
                        continue
                    for sel in (None, ["s"], ["s", "x"]):
                        yield [n, k, sel, mask]

    def c_text():
        al = ["a", "é", "\n", "\r", " "]
        for n in range(0, 6 if not big else 8):
            for cs in itertools.product(al, repeat=n):
                s = "".join(cs)
                for per in (None, 1, 2, 3) if n < 5 or big else (None, 2):
                    for how in ("data", "path", "bytes", "text"):
                        if not s and how in ("data",):
                            continue
                        if n == 5 and how in ("bytes", "text") and not big:
                            continue
                        yield [s, per, how, "utf-8"]
                if n == 3:
                    for enc in ("utf-16", "utf-32", "utf-8-sig"):
                        for how in ("path", "bytes"):
                            yield [s + "abc", 2, how, enc]

    def c_large():
        ns = (20, 21, 26, 999, 1000, 1001, 1025, 2049) + ((5001, 10001) if big else ())
        for n in ns:
            for how in ("path", "bytes", "text"):
                for form in ("array", "lines"):
                    yield ["json", n, how, form]
            for how in ("path", "bytes"):
                yield ["avro", n, how, "null"]
                yield ["avro", n, how, "deflate"]
                for g in (7, 1000, 1024):
                    yield ["parquet", n, how, g]
        for n in (511, 512, 513, 1023, 1024, 1025, 4096, 10000, 10001, 65535, 65536, 65537) + ((2 ** 20 - 1, 2 ** 20 + 1) if big else ()):
            for how in ("path", "bytes", "text"):
                for per in (None, 1000, 5000):
                    yield ["text", n, how, per]

    return [
        Space("large", "JSON, Avro and Parquet files of 20 to 2049 records, texts of 511 to 65537 characters (thorough more)", c_large, large),
        Space("json", "up to 3 records over 15 values, present/absent/nested fields x 11 layouts x path/bytes/text/data x formats", c_json, read_json),
        Space("keys", "every ordered selection of 3 keys", c_sel, selected),
        Space("avro", "up to 2 records of a 7-value field and a nested record x codec x source", c_avro, read_avro),
        Space("parquet", "columns of 5 types with up to 3 rows, every division into row groups, selections and formats", c_parq, read_parquet),
        Space("parquet-sample", "every choice of k of n<=5 rows", c_ps, sample_parquet),
        Space("text", "every text over 5 characters up to length 5 x piece length x source, encodings", c_text, read_text),
    ]
