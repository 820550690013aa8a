"""C27: results are reproducible under a fixed seed."""
import hashlib
import io
import itertools
import json
import os
import random
import re
import subprocess
import sys

from mc.engine import Space, short
from mc.sut import clean, dp, frame, np, opts, pd

ASSUMPTIONS = [
    "the seed is dataprofiler's own (set_seed or DATAPROFILER_SEED); for text profiles also Python's random, which picks the sample lines shown",
    "perturbations: other states of numpy's and Python's global generators (also between the steps), other work done before in the process, "
    "seed given by the environment, other string hashing of the process; vocabulary and date formats are sets; CMS sketches and multiprocessing are not part",
]

DATES = ["2020-01-02", "03/04/21", "March 5, 2022", "2019-12-31 10:00:00", "1/2/2003"]


def table(k):
    """rows of every type, with nulls, ties and repeated values; k chooses one of three tables"""
    n = (12, 9, 70)[k]
    return frame([
        ("i", [str((7 * j * j + k) % 11) if (j + k) % 5 else None for j in range(n)]),
        ("f", [("%.*f" % (j % 4, 1.5 * j - k)) if j % 7 else "nan" for j in range(n)]),
        ("t", [["red", "green", "blue", "a long text", "", "x" * (j % 3 + 1)][(j * 5 + k) % 6] or None for j in range(n)]),
        ("d", [(DATES[j % 5] if k != 2 or j % 3 == 0 else f"n{j}") for j in range(n)]),
        ("c", [["u", "v", "w"][(j * j + k) % 3] for j in range(n)]),
    ], index=range(1000 * k, 1000 * k + n))


SETTINGS = {
    "plain": {},
    "corr": {"structured_options.correlation.is_enabled": True, "structured_options.null_replication_metrics.is_enabled": True,
             "structured_options.chi2_homogeneity.is_enabled": True},
    "cat": {"structured_options.category.top_k_categories": 2, "structured_options.category.max_sample_size_to_check_stop_condition": 4,
            "structured_options.category.stop_condition_unique_value_ratio": 0.5},
    "precision": {"structured_options.float.precision.sample_ratio": 0.3},
    "labels": {},
    "sampling": {},
}


def labeled():
    from mc.props.c25 import labeler

    o = opts()
    o.structured_options.data_labeler.is_enabled = True
    o.structured_options.data_labeler.data_labeler_object = labeler("regex")
    o.structured_options.data_labeler.max_sample_size = 4
    return o


def make(setting, k):
    kw = {"samples_per_update": 5, "min_true_samples": 2} if setting == "sampling" else {}
    o = labeled() if setting == "labels" else opts(SETTINGS[setting])
    return dp.Profiler(table(k), options=o, profiler_type="structured", **kw)


def bag(v):
    """the vocabulary is a set of characters (or, in a difference, three of them)"""
    if isinstance(v, (list, tuple, set)):
        return [bag(y) for y in v] if any(isinstance(y, (list, tuple, set)) for y in v) else sorted(v)
    return v if v in ("unchanged", None) else "text"


def canon(x):
    if isinstance(x, dict):
        x = {k: bag(v) if re.search("vocab|format$", str(k)) else v for k, v in x.items()}
        return "{" + ",".join(sorted(f"{k!r}:{canon(v)}" for k, v in x.items() if "times" not in str(k))) + "}"
    if isinstance(x, (set, frozenset)):
        return "{" + ",".join(sorted(map(repr, x))) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(map(canon, x)) + "]"
    if isinstance(x, np.ndarray):
        return canon(x.tolist())
    return repr(x)


def structured(setting, ops, between):
    out = []
    p = None
    for op in ops:
        between()
        if op[0] == "u":
            k = int(op[1])
            if p is None:
                p = make(setting, k)
            else:
                p.update_profile(table(k))
        elif op[0] == "m":
            q = make(setting, int(op[1]))
            between()
            p = q if p is None else p + q
        elif op == "d":
            q = make(setting, 1)
            between()
            out.append(canon(clean(p.diff(q))) if p else "")
        if p is not None:
            between()
            fmt = {"output_format": ("compact", "pretty", "serializable", "flat")[len(out) % 4]}
            out.append(canon(clean(p.report(report_options=fmt))))
            out.append(canon(clean(p.report())))
    return out


def text(setting, ops, between):
    out, p = [], None
    lines = [["The red fox. A fox!", "", "one two two", "fox", "and so on", "seven words"], ["another, line", "fox two", "  "]]
    for op in ops:
        k = int(op[1])
        o = dp.ProfilerOptions()
        o.set({"data_labeler.is_enabled": False})
        if setting == "top":
            o.unstructured_options.text.words.top_k = 2
            o.unstructured_options.text.top_k_words = 2
        between()
        q = lambda: dp.Profiler(pd.Series(lines[k]), options=o, profiler_type="unstructured", **({"samples_per_update": 3} if setting == "sampling" else {}))
        if p is None:
            p = q()
        elif op[0] == "u":
            p.update_profile(pd.Series(lines[k]))
        else:
            p = p + q()
        out.append(canon(clean(p.report())))
    return out


def reading(setting, ops, between):
    """sampled rows and batches of readers"""
    from dataprofiler.data_readers.csv_data import CSVData
    from dataprofiler.data_readers.json_data import JSONData
    from dataprofiler.data_readers.parquet_data import ParquetData
    from dataprofiler.data_readers.text_data import TextData

    d = os.environ.get("MC_TMP", "/tmp")
    df = pd.DataFrame({"a": [f"r{i}" for i in range(17)], "b": [str(i * i) for i in range(17)]})
    base = os.path.join(d, f"c27_{os.getpid()}")
    out = []
    for op in ops:
        between()
        if op == "csv":
            f = base + ".csv"
            df.to_csv(f, index=False)
            r = CSVData(f, options={"sample_nrows": 6})
        elif op == "csvfull":
            f = base + ".csv"
            df.to_csv(f, index=False)
            r = CSVData(f)
        elif op == "json":
            f = base + ".json"
            df.to_json(f, orient="records")
            r = JSONData(f)
        elif op == "parquet":
            f = base + ".parquet"
            df.to_parquet(f)
            r = ParquetData(f, options={"sample_nrows": 6})
        elif op == "parquetfull":
            f = base + ".parquet"
            df.to_parquet(f)
            r = ParquetData(f)
        elif op == "records":
            f = base + ".parquet"
            df.to_parquet(f)
            r = ParquetData(f, options={"data_format": "records"})
        else:
            f = base + ".txt"
            with open(f, "w") as h:
                h.write("\n".join(f"line {i} of some text." for i in range(17)) + "\n")
            r = TextData(f, options={"data_format": "text", "samples_per_line": 40})
        data = r.data
        out.append(repr(data.values.tolist() if isinstance(data, pd.DataFrame) else list(data)))
        between()
        for b in r.get_batch_generator(4):
            out.append(repr(b.values.tolist() if isinstance(b, pd.DataFrame) else list(b)))
            between()
    return out


KINDS = {"structured": structured, "text": text, "reading": reading}


def nothing():
    pass


def shake():
    """move every global generator to another state"""
    random.random()
    np.random.random(3)


def work():
    """unrelated use of the library"""
    p = dp.Profiler(table(1), options=opts(), profiler_type="structured")
    (p + p).report()


def play(case, how, seed):
    kind, setting, ops = case
    random.seed(5)
    np.random.seed(5)
    between = nothing
    os.environ.pop("DATAPROFILER_SEED", None)
    dp.set_seed(seed)
    if how == "other":
        if kind != "text":
            random.seed(991)
        np.random.seed(992)
    elif how == "shaken":
        between = shake if kind != "text" else (lambda: np.random.random(2))
    elif how == "work":
        work()
        random.seed(5)
    elif how == "all":
        work()
        random.seed(5 if kind == "text" else 991)
        np.random.seed(992)
        between = shake if kind != "text" else (lambda: np.random.random(2))
    elif how == "env":
        dp.set_seed(None)
        os.environ["DATAPROFILER_SEED"] = str(seed)
    try:
        return KINDS[kind](setting, ops, between)
    finally:
        os.environ.pop("DATAPROFILER_SEED", None)
        dp.set_seed(None)


def repeat(case, ctx):
    kind, setting, ops, seed = case
    h = (kind, setting, ops)
    base = play(h, "none", seed)
    for how in ("none", "other", "shaken", "work", "env") if len(ops) < 2 or kind == "reading" else ("all",):
        got = play(h, how, seed)
        ctx.step(len(got))
        for i, (a, b) in enumerate(zip(base, got)):
            if a != b:
                j = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), 0)
                ctx.check(False, f"{h} seed {seed} with {how}: result {i} is ...{b[max(0, j - 60):j + 60]}... instead of ...{a[max(0, j - 60):j + 60]}...")
        ctx.eq(len(got), len(base), "number of results")
    ctx.state((h, seed))


def digests(cases):
    out = []
    for h, seed in cases:
        out.append([hashlib.sha1(x.encode("utf8", "replace")).hexdigest()[:12] for x in play(tuple(h), "none", seed)])
    return out


def hashing(case, ctx):
    """another process, in which strings hash differently"""
    cases, hs = case
    env = dict(os.environ, PYTHONHASHSEED=str(hs))
    env["PYTHONPATH"] = os.pathsep.join([p for p in sys.path if p])
    code = "import sys, json; from mc.props import c27; print('\\nR:' + json.dumps(c27.digests(json.load(sys.stdin))))"
    r = subprocess.run([sys.executable, "-c", code], input=json.dumps(cases), capture_output=True, text=True, env=env, timeout=170)
    line = [l for l in r.stdout.splitlines() if l.startswith("R:")]
    ctx.check(r.returncode == 0 and line, lambda: f"the other process failed: {r.stderr[-1500:]}")
    other = json.loads(line[0][2:])
    for (h, seed), o in zip(cases, other):
        mine = digests([(h, seed)])[0]
        ctx.step(len(mine))
        ctx.check(mine == o, lambda: f"{h} seed {seed}: results differ in a process with string hashing {hs} (results {[i for i, (a, b) in enumerate(zip(mine, o)) if a != b]})")
    ctx.state((repr(cases)[:200], hs))


def spaces(tier):
    thorough = tier != "quick"
    ops = ["u0", "u1", "u2", "m0", "m2", "d"]

    def hist():
        for s in SETTINGS:
            n = 3 if thorough else 2
            for k in range(1, n + 1):
                for h in itertools.product(ops, repeat=k):
                    if h[0] in ("m0", "m2", "d"):
                        continue
                    yield ("structured", s, list(h))
        for s in ("plain", "top", "sampling"):
            for k in range(1, 4 if thorough else 3):
                for h in itertools.product(["u0", "u1", "m0", "m1"], repeat=k):
                    if h[0][0] == "u":
                        yield ("text", s, list(h))
        rs = ["csv", "csvfull", "json", "parquet", "parquetfull", "records", "text"]
        for k in (1, 2):
            for h in itertools.product(rs, repeat=k):
                yield ("reading", "", list(h))

    def c_re():
        for h in hist():
            for seed in (0, 17) if h[0] != "structured" or len(h[2]) < 2 else (0,):
                yield (*h, seed)

    def c_ha():
        hs = [(h, 3) for h in hist() if len(h[2]) <= (2 if thorough else 1) or h[1] in ("sampling", "labels") or (len(h[2]) == 2 and h[2][1][0] == "m")]
        n = 16 if thorough else 8
        for k in range(n):
            for seed in ((1, 2, 77) if thorough else (1,) if k % 2 else (2,)):
                yield hs[k::n], seed

    return [
        Space("repeat", "structured histories of <=2 steps (3 tables, update/merge/diff) x 6 settings, text histories, readers, x seeds, each under 5 "
              "perturbations", c_re, repeat),
        Space("hashing", "the same in processes with other string hashing", c_ha, hashing),
    ]
