import random

import graphs_common as gc
import lib


class Noise:
    def __init__(self, values):
        self.values, self.used = list(values), []

    def __call__(self):
        v = self.values[len(self.used)]
        self.used.append(v)
        return float(v)


def longest(arcs):
    """length of the longest path (99 if there is a cycle)"""
    d = {x: 0 for a in arcs for x in a}
    for _ in range(len(d) + 1):
        change = False
        for u, v in arcs:
            if d[v] < d[u] + 1:
                d[v], change = d[u] + 1, True
        if not change:
            return max(d.values(), default=0)
    return 99


def iid(arg):
    idx, n, arcs = arg
    import causy.sample_generator as S

    rnd = random.Random(lib.subseed("iid", idx))
    ids = gc.names(n, rnd)
    back = {v: k for k, v in ids.items()}
    size = rnd.choice([1, 2, 5, 5, 40])
    used = sorted({x for a in arcs for x in a})
    ren = {k: i + 1 for i, k in enumerate(used)}  # only variables on edges exist
    # coefficients are multiples of 1/den; den > 1: all numbers are exact binary fractions and are recorded as
    # multiples of 1/scale
    depth = longest(arcs)
    den = 16 if depth <= 3 and n < 6 and rnd.random() < 0.5 else 1
    scale = den ** depth if den > 1 else 1
    coefs = [-1, 1, 2] if n > 5 else [-3, -2, -1, 1, 2, 3] if den == 1 else [-21, -13, -5, -3, -1, 1, 3, 7, 11, 19]
    edges = [[u, v, rnd.choice(coefs), 0] for u, v in arcs]
    rnd.shuffle(edges)
    noise = Noise(rnd.sample(range(-3000, 3000), len(used) * size + 5) if den == 1 else rnd.sample(range(-250, 250), len(used) * size + 5))
    rec = {"kind": "iid", "n": len(used), "size": size, "L": 0, "grid": 1, "den": den, "scale": scale, "exact": True, "out": "ok", "vals": [[] for _ in used], "garcs": [], "graph": True, "gvals": True,
           "edges": [[ren[e[0]], ren[e[1]], e[2], 0] for e in edges], "noise": []}

    def num(x):
        y = int(round(float(x) * scale))
        rec["exact"] = rec["exact"] and y == float(x) * scale
        return y

    def go():
        g = S.IIDSampleGenerator(edges=[S.SampleEdge(S.NodeReference(ids[u]), S.NodeReference(ids[v]), c / den if den > 1 else c) for u, v, c, _ in edges], random=noise)
        if rnd.random() < 0.25:
            rows = g._generate_shaped_data(size)
            rec["graph"] = False
            for r in rows:
                for k, x in r.items():
                    rec["vals"][ren[back[k]] - 1].append(num(x))
            return
        out, graph = g.generate(size)
        for k in used:
            rec["vals"][ren[k] - 1] = [num(x) for x in out[ids[k]]]
        for e in graph.retrieve_edges():
            rec["garcs"].append([ren[back[e.u.id]], ren[back[e.v.id]]])
        rec["gvals"] = set(graph.nodes) == {ids[k] for k in used} and all([float(x) for x in graph.nodes[ids[k]].values] == [float(x) for x in out[ids[k]]] for k in used)

    o, val = lib.call(go, seconds=10)
    rec["out"] = "rejected" if o.startswith("exc:") and o not in ("exc:RecursionError", "exc:IndexError") else o
    if o != "ok":
        rec["error"] = repr(val)[:200]
    rec["noise"] = noise.used
    if any(abs(x) > 10**7 for v in rec["vals"] for x in v):
        return None  # not exact in single precision
    return rec


def ts(arg):
    idx, n = arg
    import torch
    import causy.sample_generator as S

    rnd = random.Random(lib.subseed("ts", idx))
    ids = gc.names(n, rnd)
    maxlag = rnd.choice([1, 1, 2, 3] if n < 5 else [1, 3, 5, 8])
    edges, seen = [], set()
    long = n < 4 and rnd.random() < 0.3  # many time points
    for _ in range(rnd.randint(1, n + 2) if not long else n):
        u, v, lag = rnd.randint(1, n), rnd.randint(1, n), rnd.randint(1, maxlag)
        if (u, v, lag) not in seen:
            seen.add((u, v, lag))
            edges.append([u, v, 0, lag])
    used = sorted({x for e in edges for x in e[:2]})
    ren = {k: i + 1 for i, k in enumerate(used)}
    L = max(e[3] for e in edges)
    size = L + (rnd.randint(8, 25) if long else rnd.randint(1, 4))
    den = 16 if size <= 4 and rnd.random() < 0.6 else 1
    scale = den ** (size - 1)
    for e in edges:
        e[2] = rnd.choice([-1, 1] if long else [-2, -1, 1, 2] if den == 1 else [-13, -7, -3, -1, 1, 3, 5, 11])
    noise = Noise([100 * x for x in rnd.sample(range(-300, 300), len(used) * (size + 2))] if den == 1 else rnd.sample(range(-100, 100), len(used) * (size + 2)))
    rec = {"kind": "ts", "n": len(used), "size": size, "L": L, "grid": 100 if den == 1 else 1, "den": den, "scale": scale, "exact": True, "out": "ok", "vals": [[] for _ in used], "garcs": [], "graph": True, "gvals": True,
           "edges": [[ren[e[0]], ren[e[1]], e[2], e[3]] for e in edges], "noise": []}

    def num(x):
        y = int(round(float(x) * scale))
        rec["exact"] = rec["exact"] and (den == 1 or y == float(x) * scale)
        return y

    def go():
        g = S.TimeseriesSampleGenerator(edges=[S.SampleEdge(S.TimeAwareNodeReference(ids[u], -lag), S.TimeAwareNodeReference(ids[v]), c / den if den > 1 else c) for u, v, c, lag in edges], random=noise)
        g._initial_distribution_fn = lambda x: torch.tensor(float(rnd.randint(-500, 500)) if den == 1 else float(rnd.randint(-50, 50)))
        out, graph = g.generate(size)
        for k in used:
            rec["vals"][ren[k] - 1] = [num(x) for x in out[ids[k]]]
        at = {f"{ids[k]}-t{t}": (ren[k], t) for k in used for t in range(size)}
        meta = {n_.id: (n_.metadata or {}) for n_ in graph.nodes.values()}
        at = {i: (ren[{v: k for k, v in ids.items()}[m["variable"]]], m["time"]) for i, m in meta.items()}
        for e in graph.retrieve_edges():
            rec["garcs"].append([*at[e.u.id], *at[e.v.id]])
        rec["gvals"] = len(at) == len(set(at.values())) == len(used) * size and all(
            float(graph.nodes[i].values[0]) == float(out[ids[used[k - 1]]][t]) for i, (k, t) in at.items())

    rec["out"], val = lib.call(go, seconds=20)
    if rec["out"] != "ok":
        rec["error"] = repr(val)[:200]
    rec["noise"] = [int(x) for x in noise.used]
    if any(abs(x) > 10**8 for v in rec["vals"] for x in v):
        return None
    return rec


def run():
    r = lib.Run("C22", "model_checking",
                "i.i.d. generator on every directed graph with 2 and 3 nodes (cyclic ones must be rejected) and random ones with 4 and 5, stars and chains with up to 10, shuffled edge lists, integer coefficients or coefficients in sixteenths, and all-different integer noise; time-series generator with up to 7 variables, lags up to 8 and up to 25 time points; every sample's equation is judged; non-trivial: accepted data")
    reqs = [(n, d) for n in (2, 3) for d in gc.all_digits(n, 4)]
    reqs += [(n, d) for n in (4, 5) for d in gc.some_dags(r.rng, n, lib.pick(500, 5000))]
    reqs += [(4, d) for d in gc.some_digits(r.rng, 4, (4, 2, 2, 0.2), lib.pick(300, 2000))]
    gs = [g for g in gc.expand(r, [{"n": n, "ds": d, "kind": "mixed"} for n, d in reqs], "graphs") if g["live"]]
    jobs = [(g["n"], g["live"]) for g in gs + [g for g in gs if g["n"] < 4] * 3]
    for _ in range(lib.pick(60, 600)):  # many parents, long chains
        n = r.rng.randint(6, 10)
        nodes = r.rng.sample(range(1, n + 1), n)
        if r.rng.random() < 0.5:
            arcs = [[u, nodes[-1]] for u in nodes[:-1]] + [[u, v] for u, v in zip(nodes, nodes[1:-1]) if r.rng.random() < 0.3]
        else:
            arcs = [[u, v] for u, v in zip(nodes, nodes[1:])] + [[nodes[0], v] for v in nodes[2:] if r.rng.random() < 0.2]
        jobs.append((n, arcs))
    recs = [x for x in lib.pmap(iid, [(i, *j) for i, j in enumerate(jobs)]) if x]
    loops = [(9000 + i, 3, [[1, 2], [2, 3]][:i % 3] + [[k, k]]) for i, k in enumerate([1, 2, 3] * 3)]
    recs += lib.pmap(iid, loops)
    recs += [x for x in lib.pmap(ts, [(i, n) for i, n in enumerate([1, 2, 3, 4] * lib.pick(200, 1500) + [5, 6, 7] * lib.pick(20, 150))]) if x]
    r.evaluations = len(recs)
    r.nontrivial = sum(1 for x in recs if x["out"] == "ok")
    r.samples = [recs[10], recs[-1]]
    r.judge("SampleJudge", recs, describe=lambda x: str(x)[:700])
    return r.finish()
