"""C26: graph reader and profile."""
import io
import itertools
import os
import warnings

import networkx as nx

from mc.engine import Space, isnan, same
from mc.sut import dp, np, pd

from dataprofiler.data_readers.data import Data
from dataprofiler.data_readers.graph_data import GraphData
from dataprofiler.profilers.graph_profiler import GraphProfiler

ASSUMPTIONS = [
    "every edge has the same numeric attributes; the profile is that of the graph last given to update",
    "the largest component is one with the most nodes, its size the number of its edges; an attribute with any whole value is "
    "categorical, else continuous (as documented and tested)",
    "moments of the fitted continuous distribution are not judged (the existing tests fix values of another meaning)",
]


def path(tag="g"):
    return os.path.join(os.environ.get("MC_TMP", "/tmp"), f"c26_{os.getpid()}_{tag}")


def components(nodes, edges):
    left, out = set(nodes), []
    while left:
        comp, todo = set(), [min(left, key=str)]
        while todo:
            n = todo.pop()
            if n in comp:
                continue
            comp.add(n)
            for a, b in edges:
                if a == n:
                    todo.append(b)
                if b == n:
                    todo.append(a)
        out.append(comp)
        left -= comp
    return out


def unchanged(d):
    """a difference in which nothing is said to differ"""
    if isinstance(d, dict):
        return all(unchanged(v) for k, v in d.items() if k not in ("mean", "variance", "skew", "kurtosis"))  # may be nan
    if isinstance(d, (list, tuple)):
        return all(map(unchanged, d))
    return d is None or (isinstance(d, str) and d == "unchanged")


def check_profile(ctx, rep, nodes, edges, what):
    """edges: dict frozenset-ish (a,b) -> attribute dict"""
    E = list(edges)
    ctx.eq(rep["num_nodes"], len(nodes), f"{what}: nodes")
    ctx.eq(rep["num_edges"], len(E), f"{what}: edges")
    ctx.eq(rep["avg_node_degree"], 2 * len(E) / len(nodes), f"{what}: average degree")
    cs = components(nodes, E)
    m = max(map(len, cs))
    sizes = {sum(1 for a, b in E if a in c) for c in cs if len(c) == m}
    ctx.check(rep["global_max_component_size"] in sizes, lambda: f"{what}: largest component {rep['global_max_component_size']}, expected one of {sizes}")
    names = {k for e in edges.values() for k in e}
    cat = {k for k in names if any(float(e[k]).is_integer() for e in edges.values())}
    ctx.eq(sorted(rep["categorical_attributes"]), sorted(cat), f"{what}: categorical attributes")
    ctx.eq(sorted(rep["continuous_attributes"]), sorted(names - cat), f"{what}: continuous attributes")
    ctx.eq(sorted(rep["categorical_distribution"]), sorted(names), f"{what}: attributes of the categorical distribution")
    ctx.eq(sorted(rep["continuous_distribution"]), sorted(names), f"{what}: attributes of the continuous distribution")
    for k in names:
        vs = sorted(float(e[k]) for e in edges.values())
        h = rep["categorical_distribution"][k]
        d = rep["continuous_distribution"][k]
        if k in cat:
            ctx.check(d is None, f"{what}: categorical {k} has a continuous distribution")
            be, bc = list(h["bin_edges"]), list(h["bin_counts"])
            ctx.check(be == sorted(be) and be[0] <= vs[0] and be[-1] >= vs[-1], lambda: f"{what}: bins {be} of {vs}")
            want = [sum(1 for v in vs if be[i] <= v and (v < be[i + 1] or (i == len(be) - 2 and v <= be[-1]))) for i in range(len(be) - 1)]
            ctx.check([int(x) for x in bc] == want, lambda: f"{what}: bin counts {bc}, expected {want}")
        else:
            ctx.check(h is None, f"{what}: continuous {k} has a categorical distribution")
            if len(set(vs)) > 1:
                ctx.check(d is not None and d["name"] in ("norm", "uniform", "expon", "logistic", "lognorm", "gamma"), lambda: f"{what}: distribution of {k}: {d}")
                import scipy.stats as st

                fit = d["properties"]["best_fit_properties"]
                order = [float(e[k]) for e in edges.values()]
                ctx.check(same(float(getattr(st, d["name"]).nnlf(fit, np.array(order))), float(d["scale"]), 1e-6, 1e-6), lambda: f"{what}: fit of {k}: {d}")
                for other in ("norm", "uniform", "expon", "logistic"):
                    f = getattr(st, other).fit(np.array(order))
                    v = getattr(st, other).nnlf(f, np.array(order))
                    ctx.check(not np.isfinite(v) or d["scale"] <= v + 1e-6, lambda: f"{what}: {d['name']} ({d['scale']}) is not the best fit of {k}, {other} has {v}")


def profile(case, ctx):
    nodes, edges, attrs, how = case
    g = nx.Graph()
    g.add_nodes_from(nodes)
    ed = {}
    for i, (a, b) in enumerate(edges):
        at = {k: vs[i % len(vs)] for k, vs in attrs.items()}
        g.add_edge(a, b, **at)
        ed[a, b] = at
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if how == "factory":
            p = dp.Profiler(g)
            ctx.check(type(p).__name__ == "GraphProfiler", "Profiler(graph) is not a graph profile")
        else:
            p = GraphProfiler(g)
            p.update(GraphData(data=g) if how == "reader" else g)
        r = p.report()
        ctx.step()
        check_profile(ctx, r, nodes, ed, f"{nodes} {edges} {attrs}")
        ctx.eq(p.sample_size, len(edges), "sample size")
        ctx.eq(sorted(g.nodes), sorted(nodes), "the given graph was changed")
        rr = p.report(remove_disabled_flag=True)
        ctx.check(all(same(rr[k], r[k]) for k in r if k != "times"), lambda: f"report with removal differs: {rr}")
        if how == "saved":
            f = path("p.pkl")
            p.save(f)
            q = GraphProfiler.load(f)
            ctx.check(same(q.report(), r), lambda: f"loaded graph profile differs: {q.report()}")
            ctx.eq(q.sample_size, p.sample_size, "sample size after loading")
            d = p.diff(q)
            ctx.check(unchanged(d), lambda: f"diff with its copy: {d}")
    ctx.state((tuple(nodes), tuple(map(tuple, edges)), repr(attrs)))


def twice(case, ctx):
    """the profile is that of the last graph given; empty graphs change nothing"""
    gs = []
    for edges in case:
        g = nx.Graph()
        for a, b, w in edges:
            g.add_edge(a, b, w=w)
        gs.append(g)
    p = GraphProfiler(None)
    last, n = None, 0
    for g, edges in zip(gs, case):
        p.update(g)
        ctx.step()
        if edges:
            last = edges
            n += g.number_of_edges()
        if last is None:
            ctx.eq(p.report()["num_nodes"], None, "an empty graph profiled")
        else:
            ed = {tuple(sorted((a, b))): {"w": w} for a, b, w in last}
            check_profile(ctx, p.report(), {x for e in ed for x in e}, ed, f"after {case}")
            ctx.eq(p.sample_size, n, "sample size")
    ctx.state(repr(case))


HEADERS = [["node_id_dst", "node_id_src"], ["node_src", "node_dst"], ["source_node", "target_node"], ["node.origin", "node.destination"]]


def reader(case, ctx):
    rows, head, d, place, how = case
    # place: position of the attribute columns among the two node columns
    names = list(HEADERS[head])
    attrs = ["weight", "kind"][: len(rows[0]) - 2]
    cols = [("n", 0), ("n", 1)]
    for i, a in enumerate(attrs):
        cols.insert(place, ("a", i))
    lines = [d.join(names[i] if t == "n" else attrs[i] for t, i in cols)]
    for r in rows:
        lines.append(d.join(str(r[i]) if t == "n" else str(r[2 + i]) for t, i in cols))
    s = "\n".join(lines) + "\n"
    if how == "bytes":
        src = io.BytesIO(s.encode())
    else:
        src = path("e.csv")
        with open(src, "w") as f:
            f.write(s)
    if how == "auto":
        r = Data(src)
        ctx.eq(r.data_type, "graph", f"type of {s!r}")
    else:
        r = GraphData(src, options={"delimiter": d, "header": 0})
    g = r.data
    ctx.step()
    norm = lambda x: int(x) if str(x).isdigit() else x
    nodes = {norm(x) for row in rows for x in row[:2]}
    ed = {}
    for row in rows:
        k = frozenset((norm(row[0]), norm(row[1])))
        ed.setdefault(k, {}).update({a: float(row[2 + i]) for i, a in enumerate(attrs)})
    ctx.check(set(g.nodes) == nodes, lambda: f"nodes {sorted(g.nodes, key=str)} of {s!r}")
    got = {frozenset((a, b)): dict(at) for a, b, at in g.edges(data=True)}
    ctx.check(set(got) == set(ed), lambda: f"edges {got} of {s!r}")
    ctx.check(same({str(sorted(k, key=str)): v for k, v in got.items()}, {str(sorted(k, key=str)): v for k, v in ed.items()}),
              lambda: f"attributes {got} of {s!r}, expected {ed}")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if how != "bytes" and all(float(v).is_integer() for e in ed.values() for v in e.values()):
            p = dp.Profiler(r)
            rep = p.report()
            ctx.eq((rep["num_nodes"], rep["num_edges"]), (len(nodes), len(ed)), f"profile of {s!r}")
            ctx.eq(sorted(rep["categorical_attributes"]), sorted(attrs), f"attributes of {s!r}")
    ctx.state((s, how))


def cells(case, ctx):
    """Node cells of every look, quoted or not; the columns named by option or by the header."""
    rows, q, title, given = case
    head = {"words": ["node_src", "node_dst", "weight"], "keywords": ["the_from", "the_to", "weight"],
            "positions": ["left", "right", "weight"], "auto": ["node_src", "node_dst", "weight"]}[given]
    wr = lambda c: q + c + q if "," in c or q == "'" else c
    lines = (["Edges of it"] if title else []) + [",".join(map(wr, r)) for r in [head] + rows]
    s = "\n".join(lines) + "\n"
    src = path("c.csv")
    with open(src, "w", encoding="utf-8") as f:
        f.write(s)
    opt = {"delimiter": ",", "header": 1 if title else 0, "quotechar": q}
    if given == "keywords":
        opt.update(source_keywords=["from"], target_keywords=["to"])
    if given == "positions":
        opt.update(source_node=0, destination_node=1)
    r = Data(src) if given == "auto" else GraphData(src, options=opt)
    if given == "auto":
        ctx.eq(r.data_type, "graph", f"type of {s!r}")
    g = r.data
    ctx.step()

    def norm(x):
        return int(x) if x.lstrip("+-").isdecimal() else x

    ed = {}
    for a, b, w in rows:
        at = ed.setdefault(frozenset((norm(a), norm(b))), {})
        if w:
            at["weight"] = float(w)
    ctx.check(set(g.nodes) == {x for k in ed for x in k}, lambda: f"nodes {sorted(g.nodes, key=str)} of {s!r} {given}")
    got = {frozenset((a, b)): dict(at) for a, b, at in g.edges(data=True)}
    ctx.check(got == ed, lambda: f"edges {got} of {s!r} {given}, expected {ed}")
    ctx.state((s, given))


def difference(case, ctx):
    a, b = case
    rs = []
    ps = []
    for edges in (a, b):
        g = nx.Graph()
        for x, y, at in edges:
            g.add_edge(x, y, **at)
        p = GraphProfiler(g)
        p.update(g)
        ps.append(p)
        rs.append(p.report())
    d = ps[0].diff(ps[1])
    ctx.step()
    for k in ("num_nodes", "num_edges", "avg_node_degree", "global_max_component_size"):
        w = rs[0][k] - rs[1][k]
        ctx.check(d[k] == "unchanged" if w == 0 else same(d[k], w), lambda: f"diff {k}: {d[k]}, expected {w}")
    for k in ("categorical_attributes", "continuous_attributes"):
        x, y = set(rs[0][k]), set(rs[1][k])
        if x == y:
            ctx.eq(d[k], "unchanged", f"diff {k}")
        else:
            ctx.eq([sorted(z) for z in d[k]], [sorted(x - y), sorted(x & y), sorted(y - x)], f"diff {k}")
    ctx.state(repr(case))


def spaces(tier):
    big = tier == "thorough"

    def c_prof():
        for n in range(1, 5 if not big else 6):
            nodes = [f"n{i}" for i in range(n)]
            pairs = list(itertools.combinations(nodes, 2)) + ([(x, x) for x in nodes] if n < 4 else [])
            for m in range(1 << len(pairs)):
                edges = [list(p) for i, p in enumerate(pairs) if m >> i & 1]
                for at in ({}, {"id": [3, 1, 2]}, {"id": [2, 2.5], "k": [0, -7]}) if edges else ({},):
                    for how in ("graph", "saved", "reader", "factory") if n < 4 else ("graph", "saved"):
                        if not big and at == {} and how != "graph":
                            continue
                        yield [nodes, edges, at, how]
        fr = [0.5, 1.25, -2.75, 10.125]
        for vs in itertools.product(fr, repeat=2 if not big else 3):
            for edges in ([["a", "b"]], [["a", "b"], ["b", "c"]], [["a", "b"], ["b", "c"], ["c", "a"], ["d", "e"]]):
                yield [["a", "b", "c", "d", "e"], edges, {"w": list(vs)}, "graph"]
                yield [["a", "b", "c", "d", "e"], edges, {"w": list(vs), "z": [1]}, "saved"]
        for n in (200, 700):
            nodes = list(range(n + 1))
            yield [nodes, [[i, i + 1] for i in range(n)], {"w": [0.5 + 7.3 * i for i in range(n)]}, "graph"]

    def c_twice():
        al = [[], [[1, 2, 3]], [[1, 2, 3], [2, 3, 1]], [[1, 1, 2]], [[4, 5, 2], [6, 7, 2], [7, 8, 2]]]
        for n in (1, 2, 3):
            yield from (list(c) for c in itertools.product(al, repeat=n))

    def c_read():
        N = [1, 2, "x"]
        pairs = list(itertools.product(N, repeat=2))
        for n in (1, 2, 3):
            for es in itertools.product(pairs, repeat=n):
                for att in (0, 1):
                    rows = [[a, b] + ([[1, 2.5, -3][i]] if att else []) for i, (a, b) in enumerate(es)]
                    if n == 3 and not big and not att:
                        continue
                    yield [rows, 0, ",", 2, "path"]
        for es in itertools.product([[1, 2], [2, 1], [2, 3], ["p", "q"]], repeat=2):
            for head in range(len(HEADERS)):
                for d in (",", "|", "\t"):
                    for place in (0, 1, 2):
                        for na in (0, 1, 2):
                            for how in ("path", "bytes", "auto"):
                                rows = [list(e) + [5, 7][:na] for e in list(es) + [[8, 9], [9, 10], [10, 8]]]
                                if how == "auto" and na == 0:
                                    continue
                                yield [rows, head, d, place, how]

    def c_cells():
        N = ["a b", "x,y", "-1", "+2", "0", "1.5", "-", "p-q"]
        for a, b in itertools.product(N, repeat=2):
            for w in ("3", "", "-2.5", "1e3"):
                for q in ('"', "'"):
                    for title in (0, 1):
                        for given in ("words", "keywords", "positions", "auto"):
                            if not big and title and w in ("-2.5", "1e3"):
                                continue
                            rows = [["k,l", "m", "1"], [a, b, w], ["m", "k,n", "4"], ["k,l", "5", "2"]]
                            yield [rows, q, title, given]

    def c_diff():
        al = [[[1, 2, {"w": 1}]], [[1, 2, {"w": 1}], [2, 3, {"w": 5}]], [[1, 2, {"k": 2}]], [[1, 2, {"w": 0.5}], [3, 4, {"w": 1.25}]],
              [[1, 2, {"w": 1, "k": 2}], [1, 1, {"w": 2, "k": 3}]], [[1, 2, {}]]]
        yield from (list(c) for c in itertools.product(al, repeat=2))

    return [
        Space("profile", f"every graph of up to {5 if big else 4} nodes (loops up to 3) x attribute patterns x how it is given, saved and loaded; 200 and 700 edges",
              c_prof, profile),
        Space("updates", "every sequence of up to 3 of 5 graphs", c_twice, twice),
        Space("reader", "every edge list of up to 3 edges over 3 nodes, 4 header styles x delimiter x column order x source", c_read, reader),
        Space("cells", "every pair of 8 looks of node cells x attribute cell x quote character x title line x how the columns are named", c_cells, cells),
        Space("diff", "every pair of 6 graphs", c_diff, difference),
    ]
