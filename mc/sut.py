"""Thin driver over the public API of the code under test (imported from /repo's working tree)."""
import copy
import logging
import os
import pickle
import random
import warnings

warnings.filterwarnings("ignore")
import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402

import dataprofiler as dp  # noqa: E402

dp.set_verbosity(logging.CRITICAL)
logging.disable(logging.CRITICAL)

if not os.path.realpath(dp.__file__).startswith(os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + os.sep):
    raise RuntimeError(f"dataprofiler imported from {dp.__file__}, not from the tree under test")

BASE = {
    "structured_options.multiprocess.is_enabled": False,
    "structured_options.data_labeler.is_enabled": False,
}

_cache = {}


def options(**kw):
    """Structured options with labeler and multiprocessing off; keys use '__' for '.' ('*' as 'ALL')."""
    d = dict(BASE)
    d.update(kw.pop("_set", {}) or {})
    for k, v in kw.items():
        d["structured_options." + k.replace("__", ".")] = v
    o = dp.ProfilerOptions()
    for k, v in d.items():
        o.set({k: v})
    return o


def opts(setdict=None):
    """Fresh options object with the given settings (built once per process through the public API, then copied)."""
    d = {**BASE, **(setdict or {})}
    key = repr(sorted(d.items(), key=str))
    if key not in _cache:
        o = dp.ProfilerOptions()
        for k, v in d.items():
            o.set({k: v})
        _cache[key] = pickle.dumps(o)
    return pickle.loads(_cache[key])


_empty = {}


def fresh(df, setdict=None, **kw):
    """Profiler fed with df: the constructor the first time, afterwards a copy of the empty profiler it starts from."""
    key = repr(sorted({**BASE, **(setdict or {})}.items(), key=str)) + repr(kw)
    if key not in _empty:
        _empty[key] = pickle.dumps(dp.Profiler(None, options=opts(setdict), profiler_type="structured", **kw))
        return dp.Profiler(df, options=opts(setdict), profiler_type="structured", **kw)
    p = pickle.loads(_empty[key])
    p.update_profile(df)
    return p


ONLY_PRIMITIVE = {
    "structured_options.category.is_enabled": False,
    "structured_options.order.is_enabled": False,
    "structured_options.correlation.is_enabled": False,
    "structured_options.chi2_homogeneity.is_enabled": False,
    "structured_options.row_statistics.is_enabled": False,
    "structured_options.datetime.is_enabled": False,
}


def frame(cols, index=None):
    """cols: dict name->list or list of (name, list); values are str/None as the readers deliver them."""
    if isinstance(cols, dict):
        cols = list(cols.items())
    n = len(cols[0][1]) if cols else 0
    if not n:
        df = pd.DataFrame({i: pd.Series([], dtype=object) for i in range(len(cols))})
    else:
        df = pd.DataFrame({i: pd.Series(list(c), dtype=object) for i, (_, c) in enumerate(cols)})
    df.columns = [c for c, _ in cols]
    if index is not None:
        df.index = index
    return df


def series(vals, name="a", index=None):
    s = pd.Series(list(vals), dtype=object, name=name)
    if index is not None:
        s.index = index
    return s


def profiler(df, setdict=None, o=None, **kw):
    return dp.Profiler(df, options=o if o is not None else opts(setdict), profiler_type="structured", **kw)


def col(rep, i=0):
    return rep["data_stats"][i]


VOLATILE = ("times", "profile_schema", "file_type", "encoding")


def clean(x, drop=("times",)):
    """Plain-data copy of a report (numpy -> python), volatile keys removed."""
    if isinstance(x, dict):
        return {k: clean(v, drop) for k, v in x.items() if k not in drop}
    if isinstance(x, (list, tuple)):
        return [clean(v, drop) for v in x]
    if isinstance(x, np.ndarray):
        return [clean(v, drop) for v in x.tolist()]
    if isinstance(x, (set, frozenset)):
        return frozenset(x)
    if isinstance(x, np.generic):
        return x.item()
    return x


APPROX = ("histogram", "quantiles", "median", "mode", "median_abs_deviation")


def facts(p, approx=False, drop=("times", "samples", "file_type", "encoding")):
    """Canonical, order-free content of a structured profile's report."""
    r = clean(p.report({"output_format": "pretty"} if False else {"output_format": "serializable"}), drop)
    for c in r["data_stats"]:
        st = c["statistics"]
        if not approx:
            for k in APPROX:
                st.pop(k, None)
        else:
            h = st.get("histogram")
            if isinstance(h, dict):
                st["histogram"] = {k: h.get(k) for k in ("bin_counts", "bin_edges")}
        for k in ("vocab", "null_types", "categories", "format"):
            if isinstance(st.get(k), (list, tuple, set, frozenset)):
                st[k] = sorted(map(str, st[k]))
        nti = st.get("null_types_index")
        if isinstance(nti, dict):
            st["null_types_index"] = {k: sorted(v) for k, v in nti.items()}
        if isinstance(st.get("categorical_count"), dict):
            st["categorical_count"] = dict(sorted(st["categorical_count"].items()))
    return r
