"""Runs of the shipped PC variants (C05, C06)."""
import copy
import itertools
import random

import graphs_common as gc
import lib

VARIANTS = ["PC", "PCClassic", "PCStable", "ParallelPC"]


def partial(R, u, v, z):
    import numpy as np

    idx = [u, v] + list(z)
    P = np.linalg.inv(R[np.ix_(idx, idx)])
    return -P[0, 1] / (P[0, 0] * P[1, 1]) ** 0.5


# per threshold: samples, and how far from 0 the partial correlations of d-connected pairs are at least
LIMITS = {0.9: (1500, 0.009), 0.5: (1500, 0.03)}


def faithful_data(n, arcs, seed, N, limit=0.07):
    """Columns (node 1..n) whose sample partial correlations vanish exactly where the DAG d-separates and are clearly
    away from 0 elsewhere: independent coefficients on exactly orthogonal noise; None if the coefficients are unlucky."""
    import numpy as np

    rng = np.random.default_rng(seed)
    B = np.zeros((n, n))
    for u, v in arcs:
        B[v - 1, u - 1] = rng.uniform(0.5, 1.5) * rng.choice([-1, 1])
    A = np.linalg.inv(np.eye(n) - B)
    A = np.diag(rng.uniform(0.7, 1.6, n)) @ A if False else A @ np.diag(rng.uniform(0.7, 1.5, n))
    S = A @ A.T
    d = 1 / np.sqrt(np.diag(S))
    R = S * d[:, None] * d[None, :]
    for u, v in itertools.combinations(range(n), 2):
        others = [w for w in range(n) if w not in (u, v)]
        for k in range(len(others) + 1):
            for z in itertools.combinations(others, k):
                p = abs(partial(R, u, v, z))
                if 1e-9 < p < limit or p > 0.99:
                    return None
    E = rng.normal(size=(N, n))
    E -= E.mean(0)
    Q, _ = np.linalg.qr(E)
    Q -= Q.mean(0)
    X = (Q * N ** 0.5) @ A.T
    X = X * rng.uniform(0.2, 5, n) + rng.uniform(-3, 3, n)
    return X


def noisy_data(n, seed):
    """any data: linear, with few or many samples"""
    import numpy as np

    rng = np.random.default_rng(seed)
    N = int(rng.choice([n + 4, 12, 20, 40, 100, 300]))
    N = max(N, n + 4)
    X = rng.normal(size=(N, n))
    B = rng.normal(size=(n, n)) * (rng.random((n, n)) < rng.choice([0.3, 0.6]))
    order = rng.permutation(n)
    for i in range(n):
        for j in range(i):
            X[:, order[i]] += B[i, j] * X[:, order[j]] * rng.choice([0.3, 1])
    if rng.random() < 0.3:
        X = np.sign(X) * np.abs(X) ** 1.5
    return X


def dense_data(n, seed):
    """data in which (nearly) every pair depends on one another whatever is held fixed"""
    import numpy as np

    rng = np.random.default_rng(seed)
    X = rng.normal(size=(1500, n))
    for i in range(n):
        for j in range(i):
            X[:, i] += rng.uniform(0.4, 0.8) * rng.choice([-1, 1]) * X[:, j]
    return X[:, rng.permutation(n)]


def mediators(k, extra=()):
    """1 -> 3..k+2 -> 2: only all mediators together separate 1 and 2"""
    return k + 2, [[1, m] for m in range(3, k + 3)] + [[m, 2] for m in range(3, k + 3)] + [list(a) for a in extra]


def run_pc(arg):
    idx, n, dag, variant, faithful, claims, threshold = arg
    import numpy as np
    import fakepool
    from causy.causal_discovery.constraint.algorithms import pc as P
    from causy.graph_model import graph_model_factory

    fakepool.install()
    fakepool.SCHEDULES[:] = []
    seed = lib.subseed("pc", idx)
    rnd = random.Random(seed)
    X = None
    if faithful == "dense":
        faithful, X = False, dense_data(n, seed % 2**31)
    elif faithful:
        for t in range(4000 if n > 6 else 400):
            X = faithful_data(n, dag, seed % 2**31 + 7919 * t, *LIMITS.get(threshold, (2500, 0.07)))
            if X is not None:
                break
    else:
        X = noisy_data(n, seed % 2**31)
    if X is None:
        return None
    X = X[np.random.default_rng(seed).permutation(len(X))]
    rec = {"n": n, "dag": dag, "variant": variant, "faithful": faithful, "claims": claims, "first": 3 if variant == "PCClassic" else 4,
           "threshold": str(threshold), "out": "ok", "arcs": [], "types": [], "tests": [], "cuts": [], "hist": []}

    def go():
        ids = gc.names(n, rnd)
        back = {v: k for k, v in ids.items()}
        cls = getattr(P, variant)
        if threshold is not None:
            algo = copy.deepcopy(cls._original_algorithm)
            vs = {v.name: v.value for v in algo.variables}
            vs["threshold"] = threshold
            if "every_nth_sample" in vs:
                vs["every_nth_sample"] = rnd.choice([1, 2, 3, 200])
            cls = graph_model_factory(algo, vs)
        m = cls()
        keys = list(range(1, n + 1))
        rnd.shuffle(keys)
        if rnd.random() < 0.5:
            m.create_graph_from_data({ids[k]: X[:, k - 1].tolist() for k in keys})
        else:
            m.create_graph_from_data([{ids[k]: float(row[k - 1]) for k in keys} for row in X])
        m.create_all_possible_edges()
        m.execute_pipeline_steps()
        g = m.graph
        rec["arcs"] = [[back[u], back[v]] for u in ids.values() for v in ids.values() if u != v and g.directed_edge_exists(g.nodes[u], g.nodes[v])]
        rec["types"] = [[back[e.u.id], back[e.v.id], e.edge_type.name] for e in g.retrieve_edges()]
        for h in g.action_history:
            for s in h.steps or [h]:
                for a in s.all_proposed_actions:
                    d = a.data or {}
                    if "triple" not in d:
                        continue
                    u, v, z = d["triple"]
                    ind = a.action.value == "REMOVE_EDGE_UNDIRECTED"
                    zz = sorted(back[w.id] for w in z)
                    if (u.id, v.id) != (a.u.id, a.v.id) or (ind and sorted(back[w.id] for w in d.get("separatedBy", [])) != zz):
                        zz = [0]
                    rec["tests"].append([back[u.id], back[v.id], zz, "independent" if ind else "dependent"])
        from causy.models import TestResultAction
        for u in ids.values():
            for v in ids.values():
                if u == v:
                    continue
                es = g.retrieve_edge_history(g.nodes[u], g.nodes[v], TestResultAction.REMOVE_EDGE_UNDIRECTED)
                if es:
                    rec["hist"].append([back[u], back[v], [sorted(back[w.id] for w in e.data["separatedBy"]) for e in es]])
        cuts = {tuple(sorted((h[0], h[1]))) for h in rec["hist"]}
        rec["cuts"] = [list(c) for c in sorted(cuts)]

    rec["out"], val = lib.call(go, seconds=240)
    if rec["out"] != "ok":
        rec["error"] = repr(val)[:200]
    return rec


def describe(r):
    return str({k: r[k] for k in ("n", "dag", "variant", "faithful", "threshold", "out", "error", "arcs") if k in r})[:600]


def dags(run, sizes, name="dags"):
    """sizes: {n: count or None for all}"""
    reqs = []
    for n, c in sizes.items():
        ds = gc.all_digits(n, 3) if c is None else gc.some_dags(run.rng, n, c)
        reqs += [{"n": n, "ds": d, "kind": "dag"} for d in ds]
    gs = [(g["n"], g["dag"]) for g in gc.expand(run, reqs, name)]
    seen, res = set(), []
    for n, d in gs:
        k = (n, tuple(sorted(map(tuple, d))))
        if k not in seen:
            seen.add(k)
            res.append((n, d))
    return res


def pc_model(run, n=4):
    run.model("PCModel", f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS N = {n}\nVariants = {{\"pc\", \"classic\", \"stable\"}}\n"
              "INVARIANTS NoFalseCut SkeletonDone Exact\n")


def check(run, jobs):
    recs = [x for x in lib.pmap(run_pc, [(i, *j) for i, j in enumerate(sorted(jobs, key=lambda j: -j[0]))], chunksize=1) if x is not None]
    run.parts.append({"runs": len(recs), "skipped_no_faithful_coefficients": len(jobs) - len(recs)})
    run.evaluations = len(recs)
    run.nontrivial = sum(1 for x in recs if x["arcs"] and x["cuts"])
    run.samples = [{k: x[k] for k in ("n", "dag", "variant", "arcs")} for x in (recs[len(recs) // 2], recs[-1])]
    run.judge("PCJudge", recs, describe=describe)
