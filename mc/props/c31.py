"""C31: profiling a file is profiling its contents; what kind of profile, file type and encoding."""
import io
import itertools
import os

import networkx as nx

from mc.engine import Space, compositions
from mc.props.c22 import CLS, FILES, avro, source
from mc.sut import clean, dp, facts, np, opts, pd

import pyarrow as pa
import pyarrow.parquet as pq
from dataprofiler.data_readers.data import Data

ASSUMPTIONS = [
    "labeler and multiprocessing are off; the tables have fewer rows than the sampling threshold",
    "files whose type and encoding are unambiguous",
]
KIND = {"structured": "StructuredProfiler", "unstructured": "UnstructuredProfiler", "graph": "GraphProfiler"}
UN = {"unstructured_options.data_labeler.is_enabled": False}

ROWS = {  # columns a, n
    "csv": [["ann", "1"], ["bob", "2"], ["cy", "33"], ["", "4"]],
    "csv16": [["bob", "7"], ["düß", "8"], ["日本", "9"], ["x", "10"]],
    "json": [["x", 1], ["y", 2]],
    "parquet": [["x", "12"], ["q", "-3"], ["x", "12"]],
    "avro": [["x", 1], [None, -5], ["q,r", 3]],
    "df": [["ann", "5"], ["zed", "0.5"]],
}


def content(k):
    rows = ROWS[k]
    if k in ("csv", "csv16"):
        return "".join(f"{a},{n}\n" for a, n in [["a", "n"]] + rows).encode("utf-16" if k == "csv16" else "utf-8")
    if k == "json":
        import json

        return "\n".join(json.dumps({"a": a, "n": n}) for a, n in rows).encode()
    if k == "avro":
        return avro([{"a": a, "n": n} for a, n in rows])
    b = io.BytesIO()
    pq.write_table(pa.table({"a": [r[0] for r in rows], "n": [r[1] for r in rows]}), b)
    return b.getvalue()


TYPE = {"csv": "csv", "csv16": "csv", "json": "json", "parquet": "parquet", "avro": "avro"}
ENC = {"csv": "utf-8", "csv16": "utf-16", "json": "utf-8", "parquet": None, "avro": None}


def inp(k):
    """(what is given to the profiler, the same as a plain table)"""
    if k == "df":
        d = pd.DataFrame(ROWS[k], columns=["a", "n"])
        return d, d.copy()
    t = CLS[TYPE[k]](source(content(k), "path", "c31_" + k))
    plain = pd.DataFrame([["" if v is None and k == "csv" else v for v in r] for r in ROWS[k]], columns=["a", "n"], dtype=object)
    return t, plain


def plainfacts(p):
    r = facts(p, approx=True)
    return r


def attempt(f):
    try:
        return f(), None
    except Exception as e:
        return None, type(e).__name__




def hist(case, ctx):
    first, ops = case
    data, plain = inp(first)
    p = dp.Profiler(data, options=opts())
    q = dp.Profiler(plain, options=opts())
    df = str(pd.DataFrame)
    ft, enc = TYPE.get(first, df), ENC.get(first)

    def check(where):
        g = p.report({"output_format": "serializable"})["global_stats"]
        ctx.eq([g["file_type"], g["encoding"]], [ft, enc], f"{where}: file type and encoding")
        ctx.eq(plainfacts(p), plainfacts(q), f"{where}: report of the files against that of their contents")
        ctx.state((first, ft, enc))

    for i, o in enumerate(ops):
        where = f"{first} {ops[:i + 1]}"
        ctx.step()
        if o[0] in "um" and o[1:] in ROWS:
            d, pl = inp(o[1:])
            if o[0] == "u":
                p.update_profile(d)
                q.update_profile(pl)
                ft, enc = TYPE.get(o[1:], df), ENC.get(o[1:]) or enc
            else:
                p = p + dp.Profiler(d, options=opts())
                q = q + dp.Profiler(pl, options=opts())
                ft = ft if ft == TYPE.get(o[1:], df) else "multiple files"
                enc = enc if enc == ENC.get(o[1:]) else "multiple files"
        elif o == "bad":
            for x in (5, {"a": [1]}, ("a",), np.array(["a"]), b"ab", None, nx.Graph()):
                _, e = attempt(lambda: p.update_profile(x))
                ctx.eq(e, "TypeError", f"{where}: update with {type(x).__name__}")
        elif o == "empty":
            p.update_profile(pd.DataFrame({"a": [], "n": []}))
        elif o == "cols":  # a table the profile cannot take
            _, e = attempt(lambda: p.update_profile(pd.DataFrame({"a": ["1"], "x": ["2"]})))
            ctx.eq(e, "ValueError", f"{where}: update with other columns")
        else:
            path = os.path.join(os.environ.get("MC_TMP", "/tmp"), f"c31_{os.getpid()}.sav")
            try:
                p.save(path, save_method=o)
                p = dp.Profiler.load(path, load_method=o)
            finally:
                if os.path.exists(path):
                    os.remove(path)
    check(f"{first} {ops}")  # the shorter histories are cases of their own


TEXTS = {"t1": ["one line. Two words", "again, one"], "t2": ["", "Zeile vier", "x"], "t3": ["Grüße"]}
TENC = {"t1": "utf-8", "t2": "utf-8", "t3": "utf-8-sig"}


def tinp(k, i=0):
    if k == "list":
        return ["some words", "", "words"], ["some words", "", "words"]
    if k == "series":
        return pd.Series(["some words", "more"]), ["some words", "more"]
    if k == "df":
        return pd.DataFrame({None: ["some words", "more"]}), ["some words", "more"]
    if k == "str":
        return "a string of words", ["a string of words"]
    raw = "\n".join(TEXTS[k]).encode("utf-8-sig" if k == "t3" else "utf-8")
    t = CLS["text"](source(raw, "path", "c31_" + k), options={"samples_per_line": 10 ** 6})
    return t, ["\n".join(TEXTS[k])]


def text_hist(case, ctx):
    keys, merges = case
    p = q = None
    ft = enc = None
    for i, k in enumerate(keys):
        d, lines = tinp(k)
        t = "text" if k in TEXTS else str(type(d))
        e = TENC.get(k)
        mode = "new" if p is None else merges[i - 1]
        if mode == "u":
            p.update_profile(d)
            q.update_profile(pd.Series(lines))
            ft, enc = t, e or enc
        else:
            a = dp.Profiler(d, options=opts(UN), profiler_type="unstructured")
            b = dp.Profiler(pd.Series(lines), options=opts(UN), profiler_type="unstructured")
            if mode == "m":
                a, b = p + a, q + b
                ft, enc = (ft if ft == t else "multiple files"), (enc if enc == e else "multiple files")
            else:
                ft, enc = t, e
            p, q = a, b
        ctx.step()
        if i < len(keys) - 1:
            continue  # a case of its own
        r, s = (x.report({"output_format": "serializable"}) for x in (p, q))
        where = f"{keys[:i + 1]} {merges[:i]}"
        ctx.eq([r["global_stats"]["file_type"], r["global_stats"]["encoding"]], [ft, enc], f"{where}: file type and encoding")
        ctx.eq(*[unsorted(clean(x, ("times", "file_type", "encoding", "memory_size"))) for x in (r, s)],
               f"{where}: report of the texts against that of their lines")
        ctx.state((ft, enc, i))


def unsorted(r):
    t = r["data_stats"].get("statistics", {}).get("text") or r["data_stats"].get("text")
    if isinstance(t, dict) and isinstance(t.get("vocab"), list):
        t["vocab"] = sorted(t["vocab"])
    return r


def given(key):
    g = nx.Graph([(1, 2), (2, 3)])
    return {
        "df": lambda: pd.DataFrame({"a": ["1", "2"]}), "df2": lambda: pd.DataFrame({"a": ["1", "2"], "b": ["x", "y"]}),
        "series": lambda: pd.Series(["1", "2"], name="a"), "list": lambda: ["1", "2"], "str": lambda: "hello", "graph": lambda: g,
        "int": lambda: 5, "none": lambda: None, "dict": lambda: {"a": [1]},
        "tuple": lambda: ("a",), "array": lambda: np.array(["a"]), "bytes": lambda: b"ab", "empty": lambda: pd.DataFrame(),
        "emptylist": lambda: [], "emptyseries": lambda: pd.Series([], dtype=object),
    }[key]()


INVALID = ("int", "dict", "tuple", "array", "bytes")
TABLES = ("df", "df2", "series", "list", "empty", "emptylist", "emptyseries")


def kind(case, ctx):
    key, typ, detected = case
    if key in FILES:
        t, c = FILES[key]
        src = source(c, "path", "k31")
        x = Data(src) if detected else CLS[t](src)
        cls = {"text": "unstructured", "graph": "graph"}.get(t, "structured")
        ok = typ in (None, cls)
        one = t != "text" and cls == "structured" and len(x.data.columns) == 1
        if typ == "unstructured" and one:
            ok, cls = True, "unstructured"
    else:
        x = given(key)
        cls = ("structured" if key in TABLES else "graph" if "graph" in key else "unstructured" if key == "str" else None)
        ok = (typ or cls) == cls and cls is not None
        if key in TABLES and key != "df2" and typ == "unstructured" or key == "none" and typ in ("structured", "unstructured"):
            ok = True
        cls = typ or cls
    p, err = attempt(lambda: dp.Profiler(x, options=opts(UN), profiler_type=typ))
    ctx.step()
    what = f"profiler of {key} with type {typ}"
    if ok:
        ctx.eq(err, None, what)
        ctx.eq(type(p).__name__, KIND[typ or cls], what)
        if key in FILES:
            n = FILES[key][1]
            if type(p).__name__ == "GraphProfiler":
                ref = dp.Profiler(x.data, options=opts(UN), profiler_type="graph")
                ctx.eq(clean(p.profile), clean(ref.profile), f"{what}: against the graph itself")
            else:
                ctx.eq([p.file_type, p.encoding], [x.data_type, x.file_encoding], f"{what}: file type and encoding")
                ctx.eq(p.total_samples, len(x.data), f"{what}: rows")
        elif key in TABLES + ("str",):
            rows = 1 if key == "str" else len(x)
            ctx.eq([p.total_samples, p.file_type], [rows, str(type(x)) if rows else None], f"{what}: rows and type")
    else:
        ctx.check(err in ("TypeError", "ValueError", "NotImplementedError", "AttributeError") and (err != "AttributeError" or key == "graph1"),
                  lambda: f"{what}: {err or type(p).__name__}, expected an error")
    ctx.state((key, typ))


def forms(case, ctx):
    """a column given as table, series or list (whole or in parts) is profiled alike"""
    vals, split, how = case
    at, p, q = 0, None, None
    for n, h in zip(split, how):
        part = vals[at:at + n]
        x = (list(part) if h == "l" else pd.Series(list(part), dtype=object) if h == "s" else pd.DataFrame({0: pd.Series(list(part), dtype=object)}))
        d = pd.DataFrame({0: pd.Series(list(part), dtype=object)})
        at += n
        if p is None:
            p, q = dp.Profiler(x, options=opts()), dp.Profiler(d, options=opts())
        else:
            p.update_profile(x)
            q.update_profile(d)
        ctx.step()
    names = [{k: v for k, v in c.items() if k != "column_name"} for c in facts(p, True)["data_stats"]]
    want = [{k: v for k, v in c.items() if k != "column_name"} for c in facts(q, True)["data_stats"]]
    ctx.eq([names, facts(p)["global_stats"]], [want, facts(q)["global_stats"]], f"column {vals} given as {how}")
    ctx.state((tuple(vals), tuple(how)))


def spaces(tier):
    big = tier == "thorough"
    U = ["u" + k for k in ROWS] + ["m" + k for k in ROWS]
    X = ["bad", "empty", "cols", "pickle", "json"]

    def c_hist():
        for f in ROWS:
            for n in range(3 if not big else 4):
                for ops in itertools.product(U + X if n < 3 else U[::2] + X, repeat=n):
                    if big or n < 2 or ops[0] in X or ops[1] in X or f in ("csv", "parquet", "df"):
                        yield [f, list(ops)]

    def c_text():
        K = list(TEXTS) + ["list", "series", "df", "str"]
        for n in (1, 2, 3):
            for keys in itertools.product(K if n < 3 or big else K[1:4] + K[5:], repeat=n):
                for m in itertools.product("um", repeat=n - 1):
                    yield [list(keys), list(m)]

    def c_kind():
        for k in list(FILES) + list(TABLES) + list(INVALID) + ["str", "graph", "none"]:
            for t in (None, "structured", "unstructured", "graph", "bogus"):
                for det in (True, False) if k in FILES else (True,):
                    yield [k, t, det]

    V = ["1", "2.5", "x", "", None] if big else ["1", "2.5", "x", None]

    def c_forms():
        for n in range(1, 4):
            for vals in itertools.product(V if n < 3 or big else V[1:], repeat=n):
                for sp in compositions(n, 2):
                    for how in itertools.product("lsd", repeat=len(sp)):
                        if set(how) != {"d"}:
                            yield [list(vals), list(sp), list(how)]

    return [
        Space("kinds", "every file, table, text, graph and unsupported value x every profiler type", c_kind, kind),
        Space("files", f"every history of a first file and up to {3 if big else 2} of update, merge (6 sources), refused inputs, empty table, "
              "saving and loading", c_hist, hist),
        Space("texts", "every sequence of up to 3 texts, lists, series and tables, updated or merged", c_text, text_hist),
        Space("forms", "every column of up to 3 values x every split x list, series or table", c_forms, forms),
    ]
