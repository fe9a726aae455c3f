"""Correlations and direct effects of the real code on integer data (C27, C23)."""
import math
import random

import graphs_common as gc
import lib


def big(x, digits):
    """a float as an exact decimal with that many digits: what Bignum.FromObs reads"""
    k = round(x * 10 ** digits)
    s, k, d = (-1 if k < 0 else 1), abs(k), []
    while k:
        d.append(k % 10000)
        k //= 10000
    return {"s": s, "d": d}


def columns(rnd, n, N, lim):
    """integer columns, many of them dependent on earlier ones, none constant"""
    cols = []
    for i in range(n):
        kind = rnd.choice(["any", "any", "lin", "noisy", "sparse", "neg"])
        while True:
            if kind == "any" or not cols:
                c = [rnd.randint(-lim, lim) for _ in range(N)]
            elif kind == "sparse":
                c = [rnd.choice([0, 0, 0, lim]) for _ in range(N)]
            else:
                b = rnd.choice(cols)
                a = rnd.choice([1, 2, 3]) * (-1 if kind == "neg" else rnd.choice([1, -1]))
                e = 0 if kind == "lin" else 2
                c = [a * x + rnd.randint(-e, e) + 1 for x in b]
            if len(set(c)) > 1 and max(map(abs, c)) <= 10 * lim:
                break
            kind = "any"
        cols.append(c)
    return cols


def tag(u, v):
    """what an edge carries besides the computed value: nothing, or a mark of its own, or that and more"""
    k = (u + v) % 3
    return {} if k == 0 else {"tag": f"{min(u, v)}-{max(u, v)}", **({"more": 0, "less": -0.5, "empty": ""} if k == 1 else {})}


def graph_model(steps, n, arcs, data, rnd):
    from causy.edge_types import DirectedEdge, UndirectedEdge
    from causy.graph_model import graph_model_factory
    from causy.models import Algorithm

    m = graph_model_factory(Algorithm(name="num", pipeline_steps=steps, edge_types=[DirectedEdge(), UndirectedEdge()], extensions=[]))()
    ids = gc.names(n, rnd)
    keys = list(range(1, n + 1))
    rnd.shuffle(keys)
    m.create_graph_from_data({ids[k]: data[k - 1] for k in keys})
    have = {tuple(a) for a in arcs}
    ps = sorted({tuple(sorted(a)) for a in arcs})
    rnd.shuffle(ps)
    for u, v in ps:
        if rnd.random() < 0.5:
            u, v = v, u
        U, V = m.graph.nodes[ids[u]], m.graph.nodes[ids[v]]
        if (u, v) in have and (v, u) in have:
            m.graph.add_edge(U, V, tag(u, v))
        elif rnd.random() < 0.5 and (u, v) in have:
            m.graph.add_edge(U, V, tag(u, v))
            m.graph.remove_directed_edge(V, U)
            m.graph.update_directed_edge(U, V, edge_type=DirectedEdge())
        else:
            if (u, v) not in have:
                U, V = V, U
            m.graph.add_directed_edge(U, V, tag(u, v))
    return m, ids, {v: k for k, v in ids.items()}


def corr(arg):
    idx, n, arcs, rows = arg
    from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations

    rnd = random.Random(lib.subseed("corr", idx))
    N = rows or rnd.choice([3, 4, 5, 8, 13, 20])
    cols = columns(rnd, n, N, rnd.choice([1, 5, 50, 300] if N < 100 else [1, 5, 20]))
    if rows and rnd.random() < 0.5:  # the last rows say something else
        k = rnd.randrange(N // 2, N)
        for c in cols[:1]:
            c[k:] = [-x for x in c[k:]]
    data = []
    for c in cols:
        s, t = rnd.choice([1.0, 1.0, 2.0 ** rnd.randint(-20, 20)]), rnd.choice([0, 0, 3, -1000, 4096])
        data.append([float(x + t) * s for x in c])
    rec = {"kind": "corr", "n": n, "cols": cols, "arcs": arcs, "out": "ok", "obs": []}

    def go():
        m, ids, back = graph_model([CalculatePearsonCorrelations()], n, arcs, data, rnd)
        m.execute_pipeline_steps()
        for e in m.graph.retrieve_edges():
            u, v = back[e.u.id], back[e.v.id]
            md = e.metadata or {}
            r = md.get("correlation")
            st = "none" if r is None else "num" if isinstance(r, (int, float)) and math.isfinite(r) else "other"
            rec["obs"].append([u, v, st, big(r, 12) if st == "num" else big(0, 0), "yes" if st == "num" and -1 <= r <= 1 else "no",
                               "kept" if {k: x for k, x in md.items() if k != "correlation"} == tag(u, v) else "changed"])

    rec["out"], val = lib.call(go, seconds=60)
    if rec["out"] != "ok":
        rec["error"] = repr(val)[:200]
    return rec


def effect(arg):
    idx, n, arcs, rows = arg
    from causy.causal_effect_estimation.multivariate_regression import ComputeDirectEffectsInDAGsMultivariateRegression as Step

    rnd = random.Random(lib.subseed("effect", idx))
    N = rows or rnd.choice([n + 1, n + 3, 10, 14])
    lim = rnd.choice([3, 9, 30])
    while True:  # no exact copies: the regression must be determined
        cols = [[rnd.randint(-lim, lim) for _ in range(N)] for _ in range(n)]
        k = rnd.randrange(n)
        j = rnd.randrange(n)
        if k != j:
            cols[k] = [rnd.choice([1, 2, -1]) * 0 + 2 * x + rnd.randint(-1, 1) * rnd.choice([1, 3]) for x in cols[j]]
        if all(len(set(c)) > 1 for c in cols):
            break
    data = [[float(x) for x in c] for c in cols]
    rec = {"kind": "effect", "n": n, "cols": cols, "arcs": arcs, "out": "ok", "obs": []}

    def go():
        m, ids, back = graph_model([Step()], n, arcs, data, rnd)
        m.execute_pipeline_steps()
        for e in m.graph.retrieve_edges():
            u, v = back[e.u.id], back[e.v.id]
            md = e.metadata or {}
            r = md.get("direct_effect")
            st = "none" if r is None else "num" if isinstance(r, (int, float)) and math.isfinite(r) else "other"
            rec["obs"].append([u, v, st, big(r, 9) if st == "num" else big(0, 0),
                               "kept" if {k: x for k, x in md.items() if k != "direct_effect"} == tag(u, v) else "changed",
                               e.edge_type.name])

    rec["out"], val = lib.call(go, seconds=60)
    if rec["out"] != "ok":
        rec["error"] = repr(val)[:200]
    return rec


def bignum(run):
    run.model("BignumCheck", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Sums Prods Order Ring Dets\n")


def graphs(run, quick, thorough):
    q4, q5 = lib.pick(quick, thorough)
    reqs = [(n, d) for n in (2, 3) for d in gc.all_digits(n, 4)] + [(4, d) for d in gc.some_digits(run.rng, 4, (3, 3, 3, 2), q4)] + \
        [(5, d) for d in gc.some_digits(run.rng, 5, (3, 3, 3, 2), q5)]
    return gc.expand(run, [{"n": n, "ds": d, "kind": "mixed"} for n, d in reqs], "graphs")


def describe(r):
    return str({k: r[k] for k in r if k != "kind"})[:800]
