"""C22: file type detection, buffers, re-reading."""
import contextlib
import io
import itertools
import json
import os
import threading
from unittest import mock

import fastavro
import pyarrow as pa
import pyarrow.parquet as pq

from mc.engine import Space
from mc.sut import dp, np, pd

from dataprofiler.data_readers import data_utils
from dataprofiler.data_readers.avro_data import AVROData
from dataprofiler.data_readers.csv_data import CSVData
from dataprofiler.data_readers.data import Data
from dataprofiler.data_readers.filepath_or_buffer import FileOrBufferHandler
from dataprofiler.data_readers.graph_data import GraphData
from dataprofiler.data_readers.json_data import JSONData
from dataprofiler.data_readers.parquet_data import ParquetData
from dataprofiler.data_readers.text_data import TextData

ASSUMPTIONS = [
    "the contents of each type are unambiguous ones (a CSV file has over 3 lines; detection is a heuristic elsewhere)",
    "URLs are served by a local HTTP server on the loopback device, S3 by a stand-in client",
]
CLS = {"csv": CSVData, "json": JSONData, "parquet": ParquetData, "avro": AVROData, "text": TextData, "graph": GraphData}


def avro(recs):
    b = io.BytesIO()
    fastavro.writer(b, {"type": "record", "name": "t", "fields": [{"name": "a", "type": ["null", "string"]}, {"name": "n", "type": "long"}]}, recs)
    return b.getvalue()


def parquet(n, group=2):
    b = io.BytesIO()
    pq.write_table(pa.table({"a": ["x%d" % i for i in range(n)], "n": list(range(n))}), b, row_group_size=group)
    return b.getvalue()


FILES = {
    "csv1": ("csv", b"alpha,bet\nann,1\nbob,2\ncy,3\ndee,4\neve,5\n"),
    "csv2": ("csv", b"alpha|bet|gam\n" + b"".join(b"w%d|%d|%d\n" % (i, i, i * i) for i in range(9))),
    "csv3": ("csv", b"alpha\tbet\r\nann\t1\r\nbob\t2\r\ncy\t3\r\ndee\t4\r\n"),
    "csv4": ("csv", "alpha;bet\nann;1\nbob;2\ncy;3\ndüß;4\n日本;5\n".encode("utf-16")),
    "csv5": ("csv", b"1,2\n3,4\n5,6\n7,8\n9,1\n"),
    "json1": ("json", b'[{"a": "x", "n": 1}, {"a": "y", "n": 2}]'),
    "json2": ("json", b'{"a": "x", "n": 1}\n{"a": "y", "n": 2}\n{"a": "z,w", "n": 3}\n{"a": "z,w", "n": 3}\n'),
    "json3": ("json", b'{\n "data": [\n  {"a": "x, y"},\n  {"a": "z"}\n ]\n}\n'),
    "json4": ("json", '[{"a": "dé"}]'.encode("utf-8-sig")),
    "parquet1": ("parquet", parquet(3)),
    "parquet2": ("parquet", parquet(5, 5)),
    "avro1": ("avro", avro([{"a": "x", "n": 1}, {"a": None, "n": -5}, {"a": "q,r", "n": 3}])),
    "avro2": ("avro", avro([{"a": "only", "n": 7}])),
    "text1": ("text", b"The quick brown fox.\nIt jumps over, well, the dog\n\nand sleeps.\n"),
    "text2": ("text", b"one line without end"),
    "text3": ("text", "Grüße, aus Köln!\nNächste Zeile ist länger als diese\n".encode("utf-8-sig")),
    "graph1": ("graph", b"node_id_dst,node_id_src,weight\n1,2,0.5\n2,3,1.5\n3,1,2.5\n4,1,0.25\n"),
}


def canon(r):
    d = r.data
    if isinstance(d, pd.DataFrame):
        return [list(map(str, d.columns)), d.values.tolist()]
    if r.data_type == "graph":
        return [sorted(map(str, d.nodes)), sorted([sorted(map(str, e[:2])) + [sorted(e[2].items())] for e in d.edges(data=True)])]
    return list(d)


def source(content, how, name="f", enc=None):
    if how == "path":
        d = os.path.join(os.environ.get("MC_TMP", "/tmp"), f"c22_{os.getpid()}")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, name)
        with open(p, "wb") as f:
            f.write(content)
        return p
    if how == "bytes":
        return io.BytesIO(content)
    return io.StringIO(content.decode(enc or ("utf-16" if content[:2] in (b"\xff\xfe", b"\xfe\xff") else "utf-8-sig")))


_ref = {}


def ref(key):
    """what an explicitly typed reader gives for the file"""
    if key not in _ref:
        t, c = FILES[key]
        _ref[key] = canon(CLS[t](source(c, "path", "reference." + t)))
    return _ref[key]


def detect(case, ctx):
    key, how, name = case
    t, c = FILES[key]
    src = source(c, how, name)
    r = Data(src)
    ctx.step()
    ctx.eq(r.data_type, t, f"type of {key} from {how} named {name}")
    if how != "path":
        ctx.check(not src.closed, f"{key}: the buffer was closed by detection")
        ctx.eq(src.tell(), 0, f"{key}: position of the buffer after detection")
    ctx.eq(canon(r), ref(key), f"{key} from {how} named {name}")
    ctx.eq(canon(r), ref(key), f"{key} from {how}, second access")
    if how != "path":
        ctx.check(not src.closed, f"{key}: the buffer was closed by reading")
        r2 = Data(src)
        ctx.eq((r2.data_type, canon(r2)), (t, ref(key)), f"{key}: reading the buffer again")
        if how == "bytes":
            ctx.eq(src.getvalue(), c, f"{key}: content of the buffer")
    ctx.state((key, how, name))


def matches(case, ctx):
    """is_match of every reader alone, in every order"""
    key, how, order = case
    t, c = FILES[key]
    src = source(c, how, "m")
    for cl in order:
        got = CLS[cl].is_match(src)
        ctx.step()
        want = {"text": True, "csv": t in ("csv", "graph")}.get(cl, cl == t)
        ctx.check(bool(got) == want, lambda: f"{cl} reader {'accepts' if got else 'refuses'} {key} ({how})")
        if how != "path":
            ctx.check(not src.closed, f"{key}: buffer closed by the {cl} reader's test")
            ctx.eq(src.tell(), 0, f"{key}: position after the {cl} reader's test")
    ctx.eq(canon(CLS[t](src)), ref(key), f"{key} after tests")
    ctx.state((key, how, tuple(order)))


def regular(case, ctx):
    """how many irregular lines a delimited file may have: one of four to eight lines, two of the ten looked at in a longer file"""
    n, dev, d, how = case
    lines = [f"w{i}{d}{i}" for i in range(n)]
    for k, j in enumerate(dev):
        lines[j] += (d + "z") * (1 + k)
    got = CSVData.is_match(source(("\n".join(lines) + "\n").encode(), how, "r"), {"delimiter": d, "header": None})
    ctx.step()
    want = n > 3 and len(dev) <= (1 if n < 9 else 2)
    ctx.eq(bool(got), want, f"a file of {n} lines of which {list(dev)} are irregular is delimited")
    if how != "path":
        got = Data(source(("\n".join(lines) + "\n").encode(), how, "r")).data_type
        if len(dev) > (1 if n < 9 else 2) or n < 4:
            ctx.eq(got, "text", f"type of a file of {n} lines of which {list(dev)} are irregular")
        elif not dev:
            ctx.eq(got, "csv", f"type of a file of {n} regular lines")
    ctx.state((n, tuple(dev)))


class Stop(Exception):
    pass


def handler(case, ctx):
    """the context manager all readers use: reads what is there and leaves a buffer open at its start, a file closed, whatever happens inside"""
    text, how, mode, start, offset, ops, fail = case
    raw = text.encode("utf-8")
    src = source(raw, how, "hb", "utf-8")
    if how != "path":
        src.seek(start)
    whole = raw if mode == "rb" else text
    pos = offset if offset is not None else (start if how != "path" else 0)
    got = []
    try:
        with FileOrBufferHandler(src, mode, encoding="utf-8" if mode == "r" else None, seek_offset=offset) as f:
            for o in ops:
                got.append(f.read(o) if o != "line" else f.readline())
            if fail:
                raise Stop
        raised = False
    except Stop:
        raised = True
    ctx.step()
    what = f"{text!r} {how} {mode} from {pos} {ops}{' failing' if fail else ''}"
    ctx.eq(raised, fail, f"{what}: error passed on")
    for o, g in zip(ops, got):
        end = whole.index(b"\n" if mode == "rb" else "\n", pos) + 1 if o == "line" and (b"\n" if mode == "rb" else "\n") in whole[pos:] else len(whole) if o in ("line", -1) else pos + o
        ctx.eq(g, whole[pos:end], f"{what}: read")
        pos = min(end, len(whole)) if end > pos else pos
    if how == "path":
        ctx.check(f.closed, lambda: f"{what}: file left open")
    else:
        ctx.check(not src.closed, lambda: f"{what}: buffer closed")
        ctx.eq(src.tell(), 0, f"{what}: position afterwards")
        ctx.eq(src.getvalue(), raw if how == "bytes" else text, f"{what}: content afterwards")
    ctx.state((text, how, mode, start, offset, tuple(ops), fail))


def history(case, ctx):
    key, how, ops = case
    t, c = FILES[key]
    r = Data(source(c, how, "h"))
    cur = key
    for op in ops:
        if op == "data":
            ctx.eq(canon(r), ref(cur), f"{key} after {ops}")
        elif op == "len":
            want = ref(cur)
            n = len(want[1]) if t in ("csv", "json", "parquet", "avro") else len(want[0]) if t == "graph" else len(want)
            ctx.eq(len(r), n, f"length of {cur}")
            ctx.eq(r.length, n, f"length of {cur}")
        elif op == "reload":
            r.reload(source(c, how, "h"))
            cur = key
        elif op == "again":
            r.reload()
        elif op == "other":
            o = {"csv1": "csv2", "json1": "json2", "parquet1": "parquet2", "avro1": "avro2", "text1": "text2"}[key]
            r.reload(source(FILES[o][1], how, "o"))
            cur = o
        elif op == "batch":
            if t == "graph":
                continue
            for size in (1, 2, 3):
                rows = []
                for b in r.get_batch_generator(size):
                    ctx.check(0 < len(b) <= size, lambda: f"batch of {len(b)} for size {size}")
                    rows += [tuple(x) for x in b.values.tolist()] if isinstance(b, pd.DataFrame) else list(b)
                want = ref(cur)
                want = [tuple(x) for x in want[1]] if t != "text" else want
                ctx.check(sorted(rows) == sorted(want), lambda: f"batches of {size} give {rows}, the data are {want}")
        elif op == "format":
            if t in ("csv", "json", "parquet", "avro"):
                f = r.data_format
                for g in ("records", "dataframe"):
                    r.data_format = g
                    ctx.check(len(r.data) > 0, f"{g} of {cur} is empty")
                r.data_format = f
        ctx.step()
    ctx.eq(r.data_type, t, "type")
    ctx.eq(canon(r), ref(cur), f"{key} after {ops}")
    ctx.state((key, how, tuple(ops)))


def reoptions(case, ctx):
    """reloading with options equals a new reader with them"""
    a, b, o = case
    o = dict(o)
    r = CSVData(source(FILES[a][1], "path", "a"))
    if o.pop("touch", None):
        r.data
    r.reload(source(FILES[b][1], "path", "b"), options=dict(o))
    n = CSVData(source(FILES[b][1], "path", "b"), options=dict(o))
    ctx.step(2)
    ctx.eq(canon(r), canon(n), f"{a} reloaded with {b} and {o}")
    ctx.eq((r.delimiter, r.header), (n.delimiter, n.header), "delimiter and header")
    ctx.state((a, b, repr(o)))


def given(case, ctx):
    """an explicitly given type reads only that type"""
    key, t = case
    tt, c = FILES[key]
    try:
        r = Data(source(c, "path", "g"), data_type=t)
        ok = True
    except ValueError:
        ok = False
    ctx.step()
    want = {"text": True, "csv": tt in ("csv", "graph")}.get(t, t == tt)
    ctx.check(ok == want, lambda: f"{key} as {t}: {'read' if ok else 'refused'}")
    if ok and t == tt:
        ctx.eq(r.data_type, t, "type")
        ctx.eq(canon(r), ref(key), f"{key} as {t}")
    ctx.state((key, t))


def remote(case, ctx):
    key, kind, chunk = case
    t, c = FILES[key]
    if kind == "s3":
        class Client:
            def get_object(self, Bucket, Key):
                if (Bucket, Key) != ("buck", "dir/" + key):
                    raise KeyError((Bucket, Key))
                return {"Body": io.BytesIO(c)}

        with mock.patch.object(data_utils.S3Helper, "_create_boto3_client", staticmethod(lambda *a, **k: Client())):
            for scheme in ("s3", "s3a"):
                r = Data(f"{scheme}://buck/dir/{key}")
                ctx.step()
                ctx.eq((r.data_type, canon(r)), (t, ref(key)), f"{scheme} {key}")
    else:
        class Answer:
            headers = {"Content-length": str(len(c))} if kind == "length" else {}

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def raise_for_status(self):
                pass

            def iter_content(self, chunk_size):
                step = chunk or chunk_size
                for i in range(0, len(c), step):
                    yield c[i:i + step]

        with mock.patch.object(data_utils.requests, "get", lambda *a, **k: Answer()):
            r = Data("https://host.example/" + key)
            ctx.step()
            ctx.eq((r.data_type, canon(r)), (t, ref(key)), f"url {key}")
    ctx.state((key, kind, chunk))


NAMES = ["f.csv", "f.json", "f.parquet", "f.avro", "f.txt", "f", "f.csv.gz", ".hidden", "with space.CSV", "F.JSON"]


def spaces(tier):
    big = tier == "thorough"

    def hows(key):
        return ("path", "bytes") if FILES[key][0] in ("parquet", "avro") else ("path", "bytes", "text")

    def c_det():
        for k in FILES:
            for how in hows(k):
                for n in NAMES if how == "path" else ["-"]:
                    yield [k, how, n]

    def c_match():
        for k in FILES:
            for how in hows(k):
                for n in (1, 2) if not big else (1, 2, 3):
                    for o in itertools.permutations(sorted(CLS), n):
                        yield [k, how, list(o)]

    def c_handler():
        for t in ("", "ab\ncd\n", "xyz"):
            for how in ("path", "bytes", "text"):
                for mode in ("r", "rb") if how != "text" else ("r",):
                    for start in (0, 2) if how != "path" else (0,):
                        for off in (None, 0, 1):
                            if off is None and start > len(t):
                                continue
                            for n in (0, 1, 2) if not big else (0, 1, 2, 3):
                                for ops in itertools.product((1, -1, "line"), repeat=n):
                                    for fail in (False, True):
                                        yield [t, how, mode, start, off, list(ops), fail]

    def c_hist():
        for k in ("csv1", "json1", "parquet1", "avro1", "text1", "csv4", "json2", "graph1"):
            ops = ["data", "len", "reload", "again", "batch", "format"] + (["other"] if k.endswith("1") and k != "graph1" else [])
            if k == "graph1":
                ops = ["data", "len"]
            for how in hows(k):
                for n in (1, 2, 3):
                    if n == 3 and not big and how == "text":
                        continue
                    for o in itertools.product(ops, repeat=n):
                        yield [k, how, list(o)]

    def c_reopt():
        D = {"csv1": ",", "csv2": "|", "csv3": "\t", "csv5": ","}
        for a, b in itertools.product(D, repeat=2):
            for touch in (False, True):
                for o in ({}, {"delimiter": D[b]}, {"header": 0, "delimiter": D[b]}, {"header": None, "delimiter": D[b]}, {"header": 0},
                          {"header": 2 if b == "csv2" else 0, "delimiter": D[b]}, {"sample_nrows": 100}, {"data_format": "records"}):
                    yield [a, b, {**o, "touch": touch}]

    def c_given():
        for k in FILES:
            for t in CLS:
                yield [k, t]

    def c_remote():
        for k in FILES:
            yield [k, "s3", 0]
            for kind in ("length", "plain"):
                for ch in (0, 1, 7, 4096):
                    yield [k, kind, ch]

    def c_reg():
        for n in (3, 4, 5, 6, 7, 8, 10, 11, 14):
            for k in range(0, 5 if big else 4):
                for dev in itertools.combinations(range(min(n, 8)), k):
                    for d, how in ((";", "path"), (",", "bytes")):
                        yield [n, list(dev), d, how]

    return [
        Space("detection", f"{len(FILES)} files of 6 types x path (10 names)/bytes/text buffer", c_det, detect),
        Space("tests", f"every order of up to {3 if big else 2} readers' tests on a file or buffer, then reading", c_match, matches),
        Space("regular", "delimited files of 3 to 14 lines x every set of up to 4 irregular lines", c_reg, regular),
        Space("handler", "the file-or-buffer handler: 3 contents x path/bytes/text x text/binary mode x start positions x every sequence of up to "
              "2 (thorough 3) reads, ending normally or by an error", c_handler, handler),
        Space("histories", "every sequence of up to 3 of access, length, batches, format change, reloading the same, another or no file", c_hist, history),
        Space("reload-options", "every pair of CSV files x 8 option sets: reloading equals a new reader", c_reopt, reoptions),
        Space("given-type", "every file x every type", c_given, given),
        Space("remote", "every file from URL (any chunk size, with and without length) and S3", c_remote, remote),
    ]
