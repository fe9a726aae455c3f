import copy
import json
import random

import lib
import pipe_common as pc

CLAIMS = ["final-graph", "log-entries", "log-entry", "calls", "graph-seen-by-step", "log-replay"]


def real_run(idx):
    """a run of shipped steps on arbitrary data: its log must account for the resulting graph"""
    import fakepool
    import graphs_common as gc
    import pc_common
    from causy.causal_discovery.constraint.algorithms import pc as P
    from causy.causal_discovery.constraint.orientation_rules.pc import ColliderTest, ColliderTestConflictResolutionStrategies
    from causy.causal_effect_estimation.multivariate_regression import ComputeDirectEffectsInDAGsMultivariateRegression
    from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations
    from causy.common_pipeline_steps.logic import ApplyActionsTogether, Loop
    from causy.graph_model import graph_model_factory

    fakepool.install()
    fakepool.SCHEDULES[:] = []
    seed = lib.subseed("log", idx)
    rnd = random.Random(seed)
    n = rnd.choice([3, 4, 5, 5])
    X = pc_common.noisy_data(n, seed % 2**31)
    o = {"out": "ok", "final": [], "log": []}
    rec = {"n": n, "init": [[u, v, "UNDIRECTED", 0] for u in range(1, n + 1) for v in range(1, n + 1) if u != v], "prog": [], "hs": [], "np": 0, "o": o,
           "claims": ["shipped"], "failing": False, "kinds": []}

    def go():
        algo = copy.deepcopy(getattr(P, rnd.choice(["PC", "PCClassic", "PCStable", "ParallelPC"]))._original_algorithm)
        steps = list(algo.pipeline_steps)
        rec["variant"] = algo.name
        if rnd.random() < 0.5:
            for s in steps:
                if isinstance(s, ColliderTest):
                    s.conflict_resolution_strategy = ColliderTestConflictResolutionStrategies.KEEP_LAST
        if rnd.random() < 0.3:
            steps.append(ComputeDirectEffectsInDAGsMultivariateRegression())
        if rnd.random() < 0.3:
            steps.insert(rnd.randint(0, len(steps)), CalculatePearsonCorrelations())
        if rnd.random() < 0.3:  # the orientation rules in a group
            loops = [i for i, s in enumerate(steps) if isinstance(s, Loop)]
            if loops:
                steps.insert(loops[-1], ApplyActionsTogether(pipeline_steps=copy.deepcopy(steps[loops[-1]].pipeline_steps)))
        algo.pipeline_steps = steps
        algo.edge_types = algo.edge_types
        vs = {v.name: v.value for v in algo.variables}
        vs["threshold"] = rnd.choice([0.005, 0.05, 0.3, 0.7])
        m = graph_model_factory(algo, vs)()
        ids = gc.names(n, rnd)
        back = {v: k for k, v in ids.items()}
        keys = rnd.sample(range(1, n + 1), n)
        m.create_graph_from_data({ids[k]: X[:, k - 1].tolist() for k in keys})
        m.create_all_possible_edges()
        values = {"{}": 0}

        def value(d):
            def simple(x):
                if isinstance(x, dict):
                    return {str(k): simple(y) for k, y in x.items()}
                if isinstance(x, (list, tuple)):
                    return [simple(y) for y in x]
                return x if isinstance(x, (int, str, float, bool, type(None))) else str(getattr(x, "id", x))

            return values.setdefault(json.dumps(simple(d or {}), sort_keys=True), len(values))

        def full(acts):
            return [{"k": a.action.value, "u": back[a.u.id], "v": back[a.v.id], "t": a.edge_type.name if a.edge_type else "UNDIRECTED", "m": value(a.data)} for a in acts]

        m.execute_pipeline_steps()
        g = m.graph
        for s, h in zip(m.pipeline_steps, g.action_history):
            kind = "loop" if isinstance(s, Loop) else "group" if isinstance(s, ApplyActionsTogether) else "step"
            rec["kinds"].append({"kind": kind, "name": s.name, "inner": [x.name for x in s.pipeline_steps] if kind != "step" else []})
        rec["kinds"] += [{"kind": "missing", "name": "", "inner": []}] * (len(m.pipeline_steps) - len(rec["kinds"]))
        for h in g.action_history:
            o["log"].append({"name": h.name, "taken": full(h.actions), "acts": [full(h.actions)] + [full(s.actions) for s in h.steps],
                             "steps": [{"name": s.name, "taken": full(s.actions), "prop": full(s.all_proposed_actions)} for s in h.steps]})
        o["final"] = [[back[e.u.id], back[e.v.id], e.edge_type.name, value(e.metadata)] for e in g.retrieve_edges()]

    o["out"], val = lib.call(go, seconds=60)
    if o["out"] != "ok":
        o["error"] = repr(val)[:300]
    return rec


def run():
    r = lib.Run("C04", "model_checking",
                "random programs generated by TLC from PipelineExec.tla with steps, loops and action groups on 3 and 4 nodes, and loops of up to 40 iterations; log, graphs seen by the steps and final graph are compared with the specification, and the recorded log is replayed; and runs of the shipped pipelines (also with keep-last, groups of rules, correlation and effect steps) on arbitrary data whose log is replayed by the specification; non-trivial: at least one change was taken")
    progs = pc.rand_programs(r, "mixed3", 3, lib.pick(5, 8), lib.pick(500, 4000), ("step", "loop", "group"))
    progs += pc.rand_programs(r, "mixed4", 4, lib.pick(4, 7), lib.pick(300, 2500), ("step", "loop", "group"))
    progs += pc.rand_programs(r, "longloops", 3, 1, lib.pick(60, 400), ("loop",), iters=lib.pick(40, 80))
    pc.run_programs(r, progs, CLAIMS)
    recs = lib.pmap(real_run, range(lib.pick(240, 3000)))
    r.evaluations += len(recs)
    r.nontrivial += sum(1 for x in recs if any(any(a) for l in x["o"]["log"] for a in l["acts"]))
    const = pc.CONST.replace("{1, 2, 3, 4}", "{1, 2, 3, 4, 5}")
    r.judge("PipelineJudge", recs, constants=const, describe=lambda x: str({k: x[k] for k in ("n", "variant", "kinds")} | {"out": x["o"]["out"], "error": x["o"].get("error"), "final": x["o"]["final"], "log": [(l["name"], l["acts"]) for l in x["o"]["log"]]})[:2500], name="shipped")
    return r.finish()
