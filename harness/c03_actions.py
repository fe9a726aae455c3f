import itertools
import json
import random

import lib
import pipe_common as pc

CLAIMS = ["final-graph", "log-entries", "log-entry", "edge-history"]


def shipped_steps(idx):
    """shipped steps, one after another on one graph, some of them not applied: what each did to the graph"""
    import graphs_common as gc
    import orient_steps as O
    import pc_common
    from causy.causal_discovery.constraint.independence_tests import common as T
    from causy.causal_discovery.constraint.orientation_rules import pc as R
    from causy.causal_effect_estimation.multivariate_regression import ComputeDirectEffectsInDAGsMultivariateRegression
    from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations
    from causy.edge_types import DirectedEdge, UndirectedEdge
    from causy.graph_model import graph_model_factory
    from causy.models import Algorithm

    seed = lib.subseed("steps", idx)
    rnd = random.Random(seed)
    n = rnd.choice([3, 4, 4, 5])
    X = pc_common.noisy_data(n, seed % 2**31)
    S = R.ColliderTestConflictResolutionStrategies
    th = rnd.choice([0.01, 0.1, 0.5])
    make = {"CalculatePearsonCorrelations": CalculatePearsonCorrelations,
            "CorrelationCoefficientTest": lambda: T.CorrelationCoefficientTest(threshold=th),
            "PartialCorrelationTest": lambda: T.PartialCorrelationTest(threshold=th, parallel=False),
            "ExtendedPartialCorrelationTestMatrix": lambda: T.ExtendedPartialCorrelationTestMatrix(threshold=th, parallel=False),
            "ExtendedPartialCorrelationTestLinearRegression": lambda: T.ExtendedPartialCorrelationTestLinearRegression(threshold=th, parallel=False),
            "ColliderTest": lambda: R.ColliderTest(conflict_resolution_strategy=rnd.choice(list(S))),
            "NonColliderTest": R.NonColliderTest, "FurtherOrientTripleTest": R.FurtherOrientTripleTest,
            "OrientQuadrupleTest": R.OrientQuadrupleTest, "FurtherOrientQuadrupleTest": R.FurtherOrientQuadrupleTest,
            "ComputeDirectEffects": ComputeDirectEffectsInDAGsMultivariateRegression}
    recs = []
    m = graph_model_factory(Algorithm(name="steps", pipeline_steps=[], edge_types=[DirectedEdge(), UndirectedEdge()], extensions=[]))()
    ids = gc.names(n, rnd)
    back = {v: k for k, v in ids.items()}
    m.create_graph_from_data({ids[k]: X[:, k - 1].tolist() for k in rnd.sample(range(1, n + 1), n)})
    m.create_all_possible_edges()
    g, values = m.graph, {"{}": 0}

    def simple(x):
        if isinstance(x, dict):
            return {str(k): simple(y) for k, y in x.items()}
        if isinstance(x, (list, tuple)):
            return [simple(y) for y in x]
        return x if isinstance(x, (int, str, float, bool, type(None))) else str(getattr(x, "id", x))

    def value(d):
        return values.setdefault(json.dumps(simple(d or {}), sort_keys=True), len(values))

    def full(acts):
        return [{"k": a.action.value, "u": back[a.u.id], "v": back[a.v.id], "t": a.edge_type.name if a.edge_type else "UNDIRECTED", "m": value(a.data)} for a in acts]

    def snap():
        return {(back[e.u.id], back[e.v.id]): (e.edge_type.name, simple(e.metadata or {})) for e in g.retrieve_edges()}

    def arcs(s):
        return [[u, v, t, value(d)] for (u, v), (t, d) in s.items()]

    def hist():
        return {(u, v): full(g.edge_history.get((ids[u], ids[v]), [])) for u, v in itertools.permutations(ids, 2)}

    O.CUTS[:] = [(ids[u], ids[v], [ids[w] for w in ids if w not in (u, v) and rnd.random() < 0.4])
                 for u, v in itertools.combinations(ids, 2) if idx % 5 and rnd.random() < 0.4]
    m.execute_pipeline_step(O.CutStep(generator=O.CutGenerator()))
    if rnd.random() < 0.5:
        g.purge_soft_deleted_edges()
    todo = rnd.sample(list(make), 6)
    if rnd.random() < 0.6:
        todo.insert(0, "CalculatePearsonCorrelations")
    for name in todo:
        if name in ("CorrelationCoefficientTest", "PartialCorrelationTest") and any("correlation" not in d for _, d in snap().values()):
            continue
        if name == "CorrelationCoefficientTest" and len(snap()) < n * (n - 1):  # this one is made for complete graphs
            continue
        dry = rnd.random() < 0.4
        before, h0 = snap(), hist()
        rec = {"n": n, "claims": ["applied"], "step": name, "dry": dry, "init": arcs(before), "o": {"out": "ok", "taken": [], "prop": [], "final": [], "eh": []}, "diff": []}
        o = rec["o"]

        def go():
            t, p = m.execute_pipeline_step(make[name](), apply_to_graph=not dry)
            o["taken"], o["prop"] = full(t), full(p)

        o["out"], val = lib.call(go, seconds=60)
        if o["out"] != "ok":
            o["error"] = repr(val)[:300]
        after, h1 = snap(), hist()
        o["final"] = arcs(after)
        o["eh"] = [{"u": u, "v": v, "new": h1[u, v][len(h0[u, v]):] if h1[u, v][:len(h0[u, v])] == h0[u, v] else [{"k": "rewritten", "u": 0, "v": 0, "t": "", "m": 0}]} for u, v in h1]
        rec["diff"] = sorted({k for p in before.keys() | after.keys() for k in
                              (["edges"] if p not in before or p not in after else
                               (["types"] if before[p][0] != after[p][0] else []) +
                               [k for k in before[p][1].keys() | after[p][1].keys() if before[p][1].get(k) != after[p][1].get(k)])}) if dry else []
        recs.append(rec)
        if rnd.random() < 0.5:
            g.purge_soft_deleted_edges()
    return recs


def run():
    r = lib.Run("C03", "model_checking",
                "programs generated by TLC from PipelineExec.tla: one per transition of the 2-node machine (every kind of change in every state of a pair), and random programs of steps with batches, chunks, synchronous and dry runs on 3 and 4 nodes, some with up to 30 batches of up to 18 changes; and sequences of the shipped steps on arbitrary data, some of them not applied, whose proposed changes are applied by the specification; non-trivial: at least one change was taken")
    progs = pc.bfs_programs(r, "bfs2", lib.pick(4000, 40000))
    progs += pc.rand_programs(r, "steps3", 3, lib.pick(8, 12), lib.pick(300, 3000), ("step",))
    progs += pc.rand_programs(r, "steps4", 4, lib.pick(6, 10), lib.pick(200, 2000), ("step", "dry"))
    progs += pc.rand_programs(r, "wide4", 4, 3, lib.pick(60, 600), ("step", "dry"), wide=True)
    pc.run_programs(r, progs, CLAIMS, direct=lambda i, p: any(e["kind"] == "dry" for e in p["prog"]) or i % 2 == 0)
    recs = [x for xs in lib.pmap(shipped_steps, range(lib.pick(400, 4000))) for x in xs]
    r.evaluations += len(recs)
    r.nontrivial += sum(1 for x in recs if x["o"]["taken"])
    const = pc.CONST.replace("{1, 2, 3, 4}", "{1, 2, 3, 4, 5}")
    r.judge("PipelineJudge", recs, constants=const, describe=lambda x: json.dumps(x)[:900], name="shipped")
    return r.finish()
