import math
import random

import graphs_common as gc
import lib

ZC = {500: 0.67449, 200: 1.28155, 100: 1.64485, 50: 1.95996, 10: 2.57583, 1: 3.29053}
TC = {}


def data(N, k, r, seed):
    """x, y, z1..zk with exactly this partial correlation of x and y given all z"""
    import numpy as np

    rng = np.random.default_rng(seed)
    A = np.column_stack([np.ones(N), rng.normal(size=(N, k + 2))])
    Q, _ = np.linalg.qr(A)
    Q = Q[:, 1:] * math.sqrt(N)
    e1, e2, Z = Q[:, 0], Q[:, 1], Q[:, 2:]
    W = Z @ (np.eye(k) + 0.4 * rng.uniform(-1, 1, (k, k))) if k else Z
    a, b = rng.uniform(-1, 1, k), rng.uniform(-1, 1, k)
    x = W @ a + e1 if k else e1
    y = (W @ b if k else 0) + r * e1 + math.sqrt(1 - r * r) * e2
    return [x, y] + [W[:, i] for i in range(k)]


def decide(test, cols, alpha, order, rnd):
    """the decision of the test on variables 0 and 1 given the others, the nodes handed over in this order"""
    from causy.causal_discovery.constraint.independence_tests import common as T
    from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations
    from causy.edge_types import DirectedEdge, UndirectedEdge
    from causy.graph_model import graph_model_factory
    from causy.models import Algorithm

    m = graph_model_factory(Algorithm(name="sig", pipeline_steps=[CalculatePearsonCorrelations()], edge_types=[DirectedEdge(), UndirectedEdge()], extensions=[]))()
    ids = gc.names(len(cols), rnd)
    name = lambda i: ids[i + 1]
    keys = list(range(len(cols)))
    rnd.shuffle(keys)
    m.create_graph_from_data({name(i): [float(v) for v in cols[i]] for i in keys})
    m.create_all_possible_edges()
    m.execute_pipeline_steps()
    step = getattr(T, test)(threshold=alpha)
    res = step([name(i) for i in order], m.graph.graph)
    for t in res if isinstance(res, list) else [res]:
        if t is not None and {t.u.id, t.v.id} == {name(0), name(1)}:
            return "independent" if t.action.value == "REMOVE_EDGE_UNDIRECTED" else "dependent"
    return "dependent" if m.graph.undirected_edge_exists(m.graph.nodes[name(0)], m.graph.nodes[name(1)]) else "independent"


def observe(arg):
    idx, rec, variants = arg
    rnd = random.Random(lib.subseed("sig", idx))
    r = math.tanh(rec["z"] / 1e4) if rec["stat"] == "fisher" else (rec["t"] / 1e3) / math.sqrt((rec["t"] / 1e3) ** 2 + rec["N"] - rec["k"] - 2)
    cols = data(rec["N"], rec["k"], r, idx)
    rec["decisions"] = []
    for _ in range(variants):
        rest = list(range(2, rec["k"] + 2))
        rnd.shuffle(rest)
        ends = [0, 1] if rnd.random() < 0.5 else [1, 0]
        order = ends + rest
        if rec["test"] == "PartialCorrelationTest":
            rnd.shuffle(order)
        shift = 0 if rec["test"].endswith("LinearRegression") else rnd.choice([0, 5, -40])
        cs = [c * rnd.choice([1, 0.01, 300]) + shift for c in cols]
        out, val = lib.call(decide, rec["test"], cs, rec["alpha"] / 1000, order, rnd)
        rec["decisions"].append(val if out == "ok" else out)
    return rec


def jobs(rng, count):
    res = []
    ts = {50: [12.706, 4.303, 3.182, 2.776, 2.571, 2.447, 2.365, 2.306, 2.262, 2.228, 2.201, 2.179, 2.160, 2.145, 2.131],
          10: [63.657, 9.925, 5.841, 4.604, 4.032, 3.707, 3.499, 3.355, 3.250, 3.169, 3.106, 3.055, 3.012, 2.977, 2.947],
          100: [6.314, 2.920, 2.353, 2.132, 2.015, 1.943, 1.895, 1.860, 1.833, 1.812, 1.796, 1.782, 1.771, 1.761, 1.753]}
    more = {50: {30: 2.042, 60: 2.0, 120: 1.98}, 10: {30: 2.75, 60: 2.66, 120: 2.617}, 100: {30: 1.697, 60: 1.671, 120: 1.658}}
    for i in range(count):
        test = ["CorrelationCoefficientTest", "PartialCorrelationTest", "ExtendedPartialCorrelationTestMatrix", "ExtendedPartialCorrelationTestLinearRegression"][i % 4]
        k = {0: 0, 1: 1}.get(i % 4, rng.choice([1, 1, 2, 2, 3, 4, 5, 7]))
        f = rng.choice([0, 0.5, 0.8, 0.95, 0.98, 1.02, 1.05, 1.2, 1.6, 3]) * rng.choice([1, -1])
        if i % 4 < 3:
            alpha = rng.choice(list(ZC))
            df = rng.choice([1, 2, 3, 4, 5, 7, 10, 20, 50, 200, 900])
            z = min(4.0, max(-4.0, f * ZC[alpha] / math.sqrt(df)))
            res.append({"stat": "fisher", "test": test, "N": df + k + 3, "k": k, "alpha": alpha, "z": round(z * 1e4), "t": 0})
        else:
            alpha = rng.choice(list(ts))
            df = rng.choice(list(range(1, 16)) + [30, 60, 120])
            tc = more[alpha][df] if df > 15 else ts[alpha][df - 1]
            # beyond |r| = 0.99995 the code takes the variables as perfectly correlated
            res.append({"stat": "student", "test": test, "N": df + k + 2, "k": k, "alpha": alpha, "z": 0, "t": round(f * min(tc, 60) * 1e3)})
            if abs(res[-1]["t"]) > 40000 * math.sqrt(df):
                res.pop()
    # close to perfectly correlated and still not significant
    for k in range(1, 6):
        res += [{"stat": "student", "test": "ExtendedPartialCorrelationTestLinearRegression", "N": k + 3, "k": k, "alpha": 10, "z": 0, "t": t} for t in (33000, -35000, 38000, -39000)]
    return res


def perfect():
    """fixed inputs with perfectly correlated variables"""
    x = [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0]
    z = [1.0, -1.0, 1.0, -1.0, 1.0, -1.0, 1.0, -1.0]
    w = [1.0, 0.0, 0.0, -1.0, 2.0, -2.0, 1.0, -1.0]
    c = [v - sum(x) / 8 for v in x]
    shifted = [[11.0, 9, 10.5, 9.5, 10.2, 9.8, 10.1, 9.9], [10.0, 10.4, 9.4, 10.1, 9.9, 10.3, 9.8, 10.1], [5.0, 5, 6, 6, 5, 5, 6, 6], [7.0, 6, 7, 6, 7, 6, 6, 7]]
    return [
        ("x, x", "CorrelationCoefficientTest", [x, x], [0, 1]),
        ("x, 2x + 1", "CorrelationCoefficientTest", [x, [2 * v + 1 for v in x]], [0, 1]),
        ("x, -x", "CorrelationCoefficientTest", [x, [-v for v in x]], [0, 1]),
        ("x, x given z", "PartialCorrelationTest", [x, x, z], [0, 1, 2]),
        ("x, x given z, w", "ExtendedPartialCorrelationTestMatrix", [x, x, z, w], [0, 1, 2, 3]),
        ("x, x given z, w", "ExtendedPartialCorrelationTestLinearRegression", [c, c, z, w], [0, 1, 2, 3]),
    ]


def run():
    r = lib.Run("C07", "model_checking",
                "data constructed with an exact (partial) correlation just below, just above or far from the critical value, for sample sizes from the smallest possible to 900, up to 7 conditioning variables, 6 thresholds and both signs; several orders, scales and shifts per input; perfectly correlated inputs; non-trivial: all but correlation 0")
    js = jobs(r.rng, lib.pick(1200, 12000))
    recs = lib.pmap(observe, [(i, x, 3) for i, x in enumerate(js)])
    for case, test, cols, order in perfect():
        out, val = lib.call(decide, test, cols, 0.05, order, r.rng)
        recs.append({"stat": "perfect", "test": test, "case": case, "N": 8, "k": len(cols) - 2, "alpha": 50, "z": 0, "t": 0, "decisions": [val if out == "ok" else out]})
    # the regression test with variables away from mean 0 (fixed input)
    rec = {"stat": "student", "test": "ExtendedPartialCorrelationTestLinearRegression", "case": "shifted by 40", "N": 33, "k": 1, "alpha": 50, "z": 0, "t": 300}
    cols = [c + 40 for c in data(33, 1, 0.3 / math.sqrt(0.09 + 30), 2)]
    out, val = lib.call(decide, rec["test"], cols, 0.05, [0, 1, 2], random.Random(1))
    recs.append({**rec, "decisions": [val if out == "ok" else out]})
    r.evaluations = sum(len(x["decisions"]) for x in recs)
    r.nontrivial = sum(1 for x in recs if x["z"] or x["t"])
    r.samples = recs[:3]
    r.judge("SignificanceJudge", recs, describe=lambda x: str(x))
    return r.finish()
