"""C20: CSV reading is faithful."""
import csv
import io
import itertools
import random
import os
from unittest import mock

from mc.engine import Space
from mc.sut import dp, np, pd

from dataprofiler.data_readers.csv_data import CSVData
from dataprofiler.data_readers.data import Data

ASSUMPTIONS = [
    "files are written by this harness (cells quoted where RFC 4180 asks for it, quotes doubled); every row has as many cells as "
    "the header; column names are distinct and not empty",
    "a two-column file whose second column (with its name) is entirely empty is read as one column by design and left out",
    "sampling works on lines: cells with line breaks are left out of the sampling space; order of sampled rows is not claimed",
]


def path():
    return os.path.join(os.environ.get("MC_TMP", "/tmp"), f"c20_{os.getpid()}.dat")


def cell(v, d, q, every):
    if every or any(c in v for c in (d, q, "\n", "\r")):
        return q + v.replace(q, q + q) + q
    return v


def text(rows, d, q, every, eol, pre=(), last=True):
    out = [p + eol for p in pre]
    for r in rows:
        line = d.join(cell(v, d, q, every) for v in r)
        if line == "":  # a single empty cell needs quotes, as every CSV writer does
            line = q + q
        out.append(line + eol)
    s = "".join(out)
    return s if last else s[: -len(eol)]


def write(s, enc="utf-8"):
    p = path()
    with open(p, "wb") as f:
        f.write(s.encode(enc))
    return p


def table(df):
    return [[v for v in r] for r in df.values.tolist()]


def compare(ctx, df, names, rows, what):
    got = table(df)
    ctx.check(len(got) == len(rows), lambda: f"{what}: {len(got)} rows read, {len(rows)} written: {got}")
    if names is not None:
        ctx.eq(list(df.columns), names, f"{what}: column names")
    ctx.check(got == rows, lambda: f"{what}: read {got}, written {rows}")
    ctx.check(list(df.index) == list(range(len(rows))), lambda: f"{what}: rows are numbered {list(df.index)}")


def given(case, ctx):
    """all parameters given"""
    rows, d, q, every, eol, head, last, how = case
    n = len(rows[0])
    names = ["n%d" % i for i in range(n)]
    pre = [["note", "", "k%sl" % d][i] for i in range(head or 0)]
    body = rows if head is None else [names] + rows
    s = text(body, d, q, every, eol, pre, last)
    o = {"delimiter": d, "quotechar": q, "header": head, "encoding": "utf-8"}
    if how == "path":
        r = CSVData(write(s), options=dict(o))
    elif how == "bytes":
        r = CSVData(io.BytesIO(s.encode()), options=dict(o))
    elif how == "text":
        r = CSVData(io.StringIO(s, newline=""), options=dict(o))
    elif how == "data":
        r = CSVData(data=s, options=dict(o))
    df = r.data
    ctx.step()
    compare(ctx, df, names if head is not None else None, rows, f"{how} {s!r}")
    ctx.check(r.data is not None and table(r.data) == rows, lambda: f"second access differs for {s!r}")
    ctx.state((d, q, eol, tuple(map(tuple, rows))))


def blank(case, ctx):
    """empty lines are rows of empty cells under a header (and skipped without one); cells missing at a line's end are empty"""
    lines, nc, head, last, how = case
    names = ["n%d" % i for i in range(nc)]
    full = {"-": "", "a": ",".join(["a", "b", "c"][:nc]), "s": "s", "q": '""'}
    body = [full[k] for k in lines]
    s = "\n".join((["note"] * head + [",".join(names)] if head is not None else []) + body) + ("\n" if last else "")
    rows = [(x.split(",") if k != "q" else [""]) for k, x in zip(lines, body) if head is not None or k != "-"]
    if not last and body[-1] == "" and head is not None:
        rows = rows[:-1]
    rows = [r + [""] * (nc - len(r)) for r in rows]
    o = {"delimiter": ",", "quotechar": '"', "header": head, "encoding": "utf-8"}
    r = {"path": lambda: CSVData(write(s), options=o), "bytes": lambda: CSVData(io.BytesIO(s.encode()), options=o),
         "text": lambda: CSVData(io.StringIO(s, newline=""), options=o), "data": lambda: CSVData(data=s, options=o)}[how]()
    df = r.data
    ctx.step()
    compare(ctx, df, names if head is not None else None, rows, f"{how} {s!r}")
    ctx.state((tuple(lines), nc, head))


def chosen(case, ctx):
    """a subset of the columns"""
    rows, d, sel = case
    names = ["n%d" % i for i in range(len(rows[0]))]
    s = text([names] + rows, d, '"', False, "\n")
    r = CSVData(write(s), options={"delimiter": d, "header": 0, "selected_columns": [names[i] for i in sel]})
    ctx.step()
    df = r.data
    keep = sorted(sel) if sel else list(range(len(names)))
    ctx.eq(sorted(df.columns), [names[i] for i in keep], f"selected columns {sel}")
    for i in keep:
        ctx.eq(df[names[i]].tolist(), [x[i] for x in rows], f"column n{i} of {s!r}")
    ctx.state((sel, d))


def encoded(case, ctx):
    rows, enc, given_enc = case
    names = ["n%d" % i for i in range(len(rows[0]))]
    s = text([names] + rows, ",", '"', False, "\n")
    o = {"delimiter": ",", "header": 0}
    if given_enc:
        o["encoding"] = enc
    for src in ("path", "bytes"):
        r = CSVData(write(s, enc) if src == "path" else io.BytesIO(s.encode(enc)), options=dict(o))
        compare(ctx, r.data, names, rows, f"{src} {enc} {s!r}")
        ctx.step()
    ctx.state((enc, tuple(map(tuple, rows))))


def records(case, ctx):
    """the records format is the table's CSV text, in groups of lines"""
    rows, d, per, q = case
    names = ["n%d" % i for i in range(len(rows[0]))]
    s = text([names] + rows, d, q, False, "\n")
    r = CSVData(write(s), options={"delimiter": d, "header": 0, "quotechar": q, "data_format": "records", "record_samples_per_line": per, "encoding": "utf-8"})
    got = r.data
    ctx.step()
    back = list(csv.reader(io.StringIO("\n".join(got) + "\n", newline=""), delimiter=d, quotechar=q))
    ctx.eq(back, [names] + rows, f"records of {s!r}")
    flat = "\n".join(got).split("\n")
    ctx.eq([g.count("\n") + 1 for g in got[:-1]], [per] * (len(got) - 1), f"lines per record of {got}")
    ctx.check(1 <= got[-1].count("\n") + 1 <= per, lambda: f"last record {got[-1]!r}")
    r.data_format = "dataframe"
    compare(ctx, r.data, names, rows, "dataframe after records")
    ctx.state((d, per, len(flat)))


# ------------------------------------------------------------------ detection
def detect(case, ctx):
    """delimiter and header left to detection, table of numbers under a header of words"""
    kind, rows, d, every, eol, hasheader, pre = case
    names = ["alpha", "bet", "gam", "delt"][: len(rows[0])]
    body = ([names] if hasheader else []) + rows
    s = text(body, d, '"', every, eol, ["title of file"] * pre)
    for src in ("path", "bytes", "auto"):
        if src == "path":
            r = CSVData(write(s))
        elif src == "bytes":
            r = CSVData(io.BytesIO(s.encode()))
        else:
            r = Data(write(s))
            ctx.eq(r.data_type, "csv", f"type of {s!r}")
        df = r.data
        ctx.step()
        ctx.eq(r.delimiter, d, f"delimiter of {s!r}")
        ctx.eq(r.header, pre if hasheader else None, f"header of {s!r}")
        compare(ctx, df, names if hasheader else None, rows, f"{src} {s!r}")
    ctx.state((kind, d, hasheader, len(rows), len(rows[0])))


def trailing(case, ctx):
    """every row ends with the delimiter, the header may or may not"""
    rows, d, hd, eol, how, n = case
    names = ["alpha", "bet", "gam"][: len(rows[0])]
    s = d.join(names) + (d if hd else "") + eol + "".join(d.join(r) + d + eol for r in rows)
    o = {} if how.startswith("detect") else {"delimiter": d, "header": 0, "quotechar": '"'}
    if n:
        o["sample_nrows"] = n
    r = CSVData(data=s, options=o) if how.endswith("str") else CSVData(write(s), options=o) if how.endswith("path") else CSVData(io.BytesIO(s.encode()), options=o)
    df = r.data
    ctx.step()
    k = len(names)
    got = table(df)
    ctx.eq(list(df.columns)[:k], names, f"{how} {s!r}: names")
    if hd:
        ctx.eq([len(df.columns), {x[k] for x in got if len(x) > k}], [k + 1, {""}], f"{how} {s!r}: the empty column at the end")
    if n:
        ctx.check(sorted(x[:k] for x in got) == sorted(x for x in rows if x in [y[:k] for y in got]) and len(got) == min(n, len(rows)),
                  lambda: f"{how} {s!r}: sampled {got}")
    else:
        compare(ctx, df[df.columns[:k]], names, rows, f"{how} {s!r}")
    ctx.state((d, hd, how, len(rows)))


def words(case, ctx):
    """tables of words, numbers and blanks: the columns and the last line of words above the numbers"""
    rows, d, heads, pad, src = case
    nc = len(rows[0])
    names = [["alpha", "bet", "gam", "delt", "eps"], ["red", "blue", "green", "grey", "pink"], ["one", "two", "six", "ten", "nil"]]
    body = [[(" " * pad if i else "") + v for i, v in enumerate(r)] for r in [names[h][:nc] for h in range(heads)][::-1] + rows]
    s = text(body, d, '"', False, "\n")
    r = {"path": lambda: CSVData(write(s)), "str": lambda: CSVData(data=s), "auto": lambda: Data(write(s))}[src]()
    df = r.data
    ctx.step()
    ctx.eq([r.data_type, r.delimiter, r.header], ["csv", d, heads - 1], f"type, delimiter and header of {s!r}")
    compare(ctx, df, body[heads - 1], body[heads:], f"{src} {s!r}")
    ctx.state((d, heads, pad, nc))


def lengths(case, ctx):
    """detection on files whose length lies around the pieces the reader looks at"""
    total, nr, d, last, src = case
    names = ["alpha", "bet", "gam"]
    rows = [[["ann", "bob", "cy", "dee", "eve"][j % 5], str(j * 37 % 11 + 1), f"u{d}v"] for j in range(nr)]
    s = text([names] + rows, d, '"', False, "\n", (), last)
    rows[0][0] += "x" * max(0, total - len(s))
    s = text([names] + rows, d, '"', False, "\n", (), last)
    if src == "path":
        r = CSVData(write(s))
    elif src == "bytes":
        r = CSVData(io.BytesIO(s.encode()))
    else:
        r = Data(write(s))
        ctx.eq(r.data_type, "csv", f"type of a file of {len(s)} characters")
    df = r.data
    ctx.step()
    ctx.eq(r.delimiter, d, f"delimiter of a file of {len(s)} characters")
    ctx.eq(r.header, 0, f"header of a file of {len(s)} characters")
    compare(ctx, df, names, rows, f"{src}, {len(s)} characters")
    ctx.state((len(s), nr, d, last))


def many(case, ctx):
    """many rows, with the odd cell at the end"""
    n, d, odd, how, detect_it = case
    rows = [["%d" % (i * 7919 % 1000), "w%d" % (i % 13), ""] if i % 5 else ["%d" % i, "", "z"] for i in range(n)]
    rows[-1][1] = odd
    if not detect_it:
        return given([rows, d, '"', False, "\n", 0, True, how], ctx)
    names = ["alpha", "bet", "gam"]
    s = text([names] + rows, d, '"', False, "\n", (), True)
    r = CSVData(write(s)) if how == "path" else Data(write(s)) if how == "data" else CSVData(io.BytesIO(s.encode()))
    df = r.data
    ctx.step()
    ctx.eq(r.delimiter, d, f"delimiter of a file of {n} rows")
    ctx.eq(r.header, 0, f"header of a file of {n} rows")
    compare(ctx, df, names, rows, f"{how}, {n} rows")
    ctx.state((n, d, how))


def quoted(case, ctx):
    """the quote character given, the delimiter detected"""
    nr, d, q, cellv, src = case
    names = ["alpha", "bet", "gam"]
    rows = [[["ann", "bob", "cy", "dee", "eve"][j % 5], str(j * 37 % 11 + 1), cellv.replace("D", d).replace("Q", q)] for j in range(nr)]
    s = text([names] + rows, d, q, False, "\n")
    o = {"quotechar": q}
    r = {"path": lambda: CSVData(write(s), options=o), "data": lambda: CSVData(data=s, options=o),
         "auto": lambda: Data(write(s), options=o)}[src]()
    df = r.data
    ctx.step()
    ctx.eq(r.delimiter, d, f"delimiter of {s!r}")
    ctx.eq(r.quotechar, q, f"quote character of {s!r}")
    compare(ctx, df, names, rows, f"{src} {s!r}")
    ctx.state((nr, d, q, cellv))


def draws(case, ctx):
    """detection of a long file with title lines, whatever Python's global generator draws (if it is asked)"""
    nr, d, pre, blank, src = case
    names = ["alpha", "bet", "gam"]
    rows = [[["ann", "bob", "cy", "dee", "eve"][j % 5], str(j * 37 % 11 + 1), "%d.5" % j] for j in range(nr)]
    s = text([names] + rows, d, '"', False, "\n", ["title of file"] * pre + [""] * blank, True)
    i, n = 0, 1
    while i < n:
        asked = []

        def pick(pop, k=1, **kw):
            pop = list(pop)
            asked.append(len(pop))
            return [pop[(i + 7 * j) % len(pop)] for j in range(k)]

        with mock.patch.object(random, "choices", lambda pop, weights=None, cum_weights=None, k=1: pick(pop, k)), \
                mock.patch.object(random, "sample", lambda pop, k, counts=None: pick(pop, k)), \
                mock.patch.object(random, "choice", lambda pop: pick(pop)[0]):
            r = {"path": lambda: CSVData(write(s)), "bytes": lambda: CSVData(io.BytesIO(s.encode())), "auto": lambda: Data(write(s)),
                 "str": lambda: CSVData(data=s)}[src]()
            df = r.data
        ctx.step()
        what = f"file of {pre} title lines, {blank} blank lines and {nr} rows (draw {i})"
        ctx.eq(r.data_type, "csv", f"type of a {what}")
        ctx.eq(r.delimiter, d, f"delimiter of a {what}")
        ctx.eq(r.header, pre + blank, f"header of a {what}")
        compare(ctx, df, names, rows, f"{src} {what}")
        n = max(asked, default=0)
        i += 1
    ctx.state((nr, d, pre, blank))


# ------------------------------------------------------------------ sampling
LIMIT = 7


class Draw(np.random.Generator):
    """enumerated draws: each decision picks a value of a small set"""

    UNIT = [0.02, 0.4, 0.8, 0.999]

    def __new__(cls, *a, **k):
        return super().__new__(cls, np.random.PCG64(0))

    def __init__(self, d):
        super().__init__(np.random.PCG64(0))
        self.d, self.widths = d, []

    def pick(self, n):
        i = len(self.widths)
        self.widths.append(n)
        return self.d[i] if i < len(self.d) else 0

    def random(self, size=None, **k):
        if size is None:
            return self.UNIT[self.pick(len(self.UNIT))]
        return np.array([self.random() for _ in range(int(np.prod(size)))]).reshape(size)

    def integers(self, low, high=None, size=None, **k):
        if high is None:
            low, high = 0, low
        if size is None:
            return low + self.pick(int(high) - int(low))
        return np.array([low + self.pick(int(high) - int(low)) for _ in range(int(np.prod(size)))])


def sample(case, ctx):
    total, n, header, eol, last, src = case
    names = ["n0", "n1"]
    rows = [[f"r{i}", f"v,{i}" if i % 2 else f"v{i}"] for i in range(total)]
    s = text(([names] if header is not None else []) + rows, ",", '"', False, eol, ["skip"] * (header or 0), last)
    seen, missed = set(), set()
    d, runs = [], 0
    while True:
        g = Draw(list(d))
        with mock.patch.object(np.random, "default_rng", lambda *a, **k: g):
            o = {"delimiter": ",", "quotechar": '"', "header": header, "sample_nrows": n, "encoding": "utf-8"}
            f = write(s) if src == "path" else io.BytesIO(s.encode()) if src == "bytes" else io.StringIO(s, newline="")
            df = CSVData(f, options=o).data
        runs += 1
        got = [tuple(r) for r in table(df)]
        ctx.step()
        if header is not None:
            ctx.eq(list(df.columns), names, "names of a sampled file")
        ctx.check(len(got) == min(n, total), lambda: f"{len(got)} rows sampled of {total}, asked for {n} (draws {d})")
        ctx.check(len(set(got)) == len(got), lambda: f"a row is sampled twice: {got} (draws {d})")
        ctx.check(set(got) <= {tuple(r) for r in rows}, lambda: f"sampled rows are not rows of the file: {got} (draws {d})")
        seen |= set(got)
        missed |= {tuple(r) for r in rows} - set(got)
        w = g.widths[:LIMIT]
        d = (list(d) + [0] * len(w))[: len(w)]
        while d and d[-1] >= w[len(d) - 1] - 1:
            d.pop()
        if not d:
            break
        d[-1] += 1
        ctx.state((total, n, tuple(sorted(got))))
        if runs > 3000:
            break
    if n < total and runs > 1:  # (a generator not drawn from here cannot be judged)
        ctx.check(len(seen) == total, lambda: f"rows {sorted({tuple(r) for r in rows} - seen)} can never be sampled")
        ctx.check(len(missed) == total, lambda: f"rows {sorted({tuple(r) for r in rows} - missed)} are always sampled")


CELLS = ["", "a", " b ", 'q"', "x,y|z;w\tt u", "l\nm", "é", "1.0", "NA", "'it'", "#c", "l\r\nm", "\\n"]
DELIMS = [",", "\t", "|", ";", " ", ":", "~"]


def spaces(tier):
    big = tier == "thorough"

    def ok(rows, head, names=True):
        # one delimiter at each line end means a single column by design
        if head is None and len(rows[0]) == 2 and all(r[1] == "" for r in rows):
            return False
        return True

    def c_given():
        for v in CELLS:
            for d in DELIMS:
                for q in ('"', "'"):
                    for every in (False, True):
                        for eol in ("\n", "\r\n"):
                            for head in (0, None, 1, 2):
                                for how in ("path", "bytes", "text", "data"):
                                    if head not in (0, None) and how in ("text", "data"):
                                        continue
                                    for rows in ([[v], ["z"]], [["k", v], ["k", "z"]]):
                                        if not big and every and head is not None and how != "path":
                                            continue
                                        yield [rows, d, q, every, eol, head, True, how]
        # two cells at once, then whole small tables
        for a, b in itertools.product(CELLS, repeat=2):
            for d in (",", "\t", "|") if not big else DELIMS:
                for rows in ([[a, b]], [[a], [b]], [[a, b], ["p", "r"]], [["p", a], [b, "r"]]):
                    for head in (0, None):
                        if ok(rows, head):
                            yield [rows, d, '"', False, "\n", head, len(a) % 2 == 0, "path"]
        sub = ["", "a", 'q"', "x,y|z;w\tt u", "l\nm", "é", " b ", "NA"] if not big else CELLS
        for c in itertools.product(sub, repeat=4):
            rows = [list(c[:2]), list(c[2:])]
            if ok(rows, 0):
                yield [rows, ",", '"', False, "\n", 0, True, "path"]

    def c_blank():
        for n in range(1, 5 if not big else 7):
            for lines in itertools.product("-asq", repeat=n):
                for nc in (1, 2, 3):
                    if "a" not in lines:
                        continue
                    for head in (0, 1, None):
                        if head is None and lines[0] != "a":
                            continue  # the number of columns is that of the first line
                        for last in (True, False):
                            for how in ("path", "bytes", "text", "data"):
                                if not big and n == 4 and how != "path":
                                    continue
                                yield [list(lines), nc, head, last, how]

    def c_sel():
        for nc in (1, 2, 3, 4):
            rows = [[f"{i}{j}" for i in range(nc)] for j in range(2)]
            for k in range(nc + 1):
                for sel in itertools.permutations(range(nc), k):
                    for d in DELIMS:
                        yield [rows, d, list(sel)]

    def c_enc():
        al = ["a", "é", "日本", "ü,ß", "😀", "“q”"]
        for enc in ("utf-8", "utf-16", "utf-32", "utf-8-sig"):
            for a, b in itertools.product(al, repeat=2):
                for g in (True, False):
                    if not g and enc == "utf-8":
                        continue
                    yield [[[a, "x"], ["y", b]], enc, g]

    def c_rec():
        al = ["", "a", 'q"', "x,y", "x|y", "p\x0cq", "u\u2028v", "l\rm"]
        for a, b, c in itertools.product(al, repeat=3):
            for d in (",", "|"):
                for per in (1, 2, 3):
                    for q in "\"'":
                        yield [[[x.replace('"', q) for x in (a, b)], [c.replace('"', q), "z"]], d, per, q]

    def c_det():
        N = ["1", "23", "-4", "5.6", "708"]
        for d in (",", "\t", "|", ";"):
            for nc in (2, 3, 4):
                for nr in (4, 5, 8, 12):
                    for shift in range(5):
                        rows = [[N[(i * 2 + j + shift + (i * j) % 3) % 5] for i in range(nc)] for j in range(nr)]
                        for eol in ("\n", "\r\n"):
                            for hh in (True, False):
                                for pre in (0, 1) if hh else (0,):
                                    yield ["numbers", rows, d, False, eol, hh, pre]
                                    mixed = [[["ann", "bob", "cy", "dee", "eve"][(j + shift) % 5]] + r[1:] for j, r in enumerate(rows)]
                                    yield ["mixed", mixed, d, False, eol, hh, pre]

    def c_len():
        for total in [0, *range(1016, 1034), *range(2044, 2054), 3072, 3073, 5000] if not big else [*range(1000, 1100), *range(2030, 2070), 4096, 4097, 9999]:
            for nr in (4, 6, 9, 10, 14):
                for d in (",", "\t", "|", ";"):
                    for last in (True, False):
                        for src in ("path", "bytes", "auto"):
                            yield [total, nr, d, last, src]

    def c_many():
        for n in (19, 20, 21, 25, 26, 27, 36, 999, 1000, 1001, 1025, 2100) + ((5001, 20000) if big else ()):
            for d in (",", "\t", ";") if not big else (",", "\t", "|", ";"):
                for odd in ("end", "", f"a{d}b", "c\nd", 'e"f'):
                    for how in ("path", "bytes", "text", "data"):
                        yield [n, d, odd, how, False]
                for how in ("path", "bytes", "data"):
                    yield [n, d, "end", how, True]

    def c_q():
        for nr in (4, 6, 9):
            for d in (",", "\t", "|", ";"):
                for q in ('"', "'", "`", "%"):
                    for v in ("uDv", "uDvDw", "w", "uQDv"):
                        for src in ("path", "data", "auto"):
                            yield [nr, d, q, v, src]

    def c_samp():
        for total in (1, 2, 3, 4) if not big else (1, 2, 3, 4, 5, 6):
            for n in range(1, total + 2):
                for header in (0, None, 1):
                    for eol, last in (("\n", True), ("\n", False), ("\r\n", True)):
                        for src in ("path", "bytes", "text"):
                            if not big and (eol, last) != ("\n", True) and src != "path":
                                continue
                            yield [total, n, header, eol, last, src]

    def c_trail():
        N = ["ann", "1", "x y", "", "-2.5"]
        for d in ",;|\t":
            for nc in (2, 3):
                for nr in (4, 5, 12):
                    for sh in range(5 if big else 2):
                        rows = [[["ann", "bob", "cy", "dee", "eve"][(j + sh) % 5] + str(j)] + [N[(1 + j * (1 + (i + sh) % 3)) % 5] if i > 1 else str(j * 7 + sh) for i in range(1, nc)]
                                for j in range(nr)]
                        for hd in (True, False):
                            for how in ("path", "str", "bytes", "detect path", "detect str", "detect bytes"):
                                for n in (0, 2) if how == "path" or big and "str" not in how else (0,):
                                    yield [rows, d, hd, "\n", how, n]

    def c_words():
        W = ["ann", "bob", "cy", "dee", "eve", "fay", "gus"]
        for d in ",;|\t ":
            for nc in (3, 4, 5) if d == " " else (2, 3, 4, 5):
                for kinds in itertools.product("wne" if nc < 4 and d != " " or big else "wn", repeat=nc):
                    if "n" not in kinds or not big and nc > 3 and (kinds.count("n") > 2 or kinds[0] == "n"):
                        continue
                    for nr in (4, 6, 11):
                        rows = [[W[(j * 3 + i) % 7] if k == "w" else "" if k == "e" and j % 4 == 2 else str(j * 13 % 50 + i) for i, k in enumerate(kinds)] for j in range(nr)]
                        for heads in (1, 2, 3):
                            for pad in (0, 1) if d in ",;|" else (0,):
                                for src in ("path", "str", "auto") if big or nr == 4 and nc < 4 else ("auto",):
                                    yield [rows, d, heads, pad, src]

    def c_draws():
        for nr in (22, 24, 25, 35, 36, 46, 66):
            for d in ",;|\t":
                for pre in range(4):
                    for blank in (0, 1):
                        for src in ("path", "bytes", "auto", "str") if big else ("auto", "str") if nr in (25, 46) else ("path", "str"):
                            yield [nr, d, pre, blank, src]

    return [
        Space("given", "tables of up to 2x2 cells over 13 cell texts x 7 delimiters x 2 quote characters x quoting x line ending x "
              "header position x path/bytes/text buffer/text, parameters given", c_given, given),
        Space("blank", f"every sequence of up to {4 if not big else 6} full, short, empty and quoted-empty lines under 1 to 3 columns x header position x "
              "path/bytes/text buffer/text", c_blank, blank),
        Space("columns", "every selection of up to 4 columns in every order", c_sel, chosen),
        Space("encodings", "4 encodings (given or detected) x pairs of 6 texts", c_enc, encoded),
        Space("records", "records format, 1 to 3 lines per record, 3 cells over 8 texts", c_rec, records),
        Space("detection", "tables of numbers with and without a header of words, 4 delimiters: delimiter and header found", c_det, detect),
        Space("lengths", "files of 5 to 15 lines with lengths around the 1024-character pieces: type, delimiter, header and cells", c_len, lengths),
        Space("many", "files of 19 to 2100 rows (thorough 20000), an odd last cell, parameters given or detected", c_many, many),
        Space("quotes", "4 quote characters given, the delimiter of files with quoted delimiters and quotes detected", c_q, quoted),
        Space("trailing", "rows that end with a delimiter, header with or without: 4 delimiters x given, detected, sampled", c_trail, trailing),
        Space("words", "one to three lines of words above rows of words and numbers, 5 delimiters, padded cells", c_words, words),
        Space("draws", "long files (22 to 66 rows) under 0 to 3 title and blank lines, whatever Python's generator draws", c_draws, draws),
        Space("sampling", "files of up to 4 rows, every sample size, every sequence of the first 7 generator decisions (4 levels)", c_samp, sample),
    ]
