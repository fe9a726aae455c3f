import json
import os
import random
import shutil
import sys
import tempfile

import lib
import ws_common as ws


def rows_for(rnd):
    cols = [rnd.choice(["x", "Y ", "a.b", "\u00e4", "10"]) + str(i) for i in range(rnd.choice([3, 4, 5]))]
    coef = {(a, b): rnd.choice([0, 0, 0.7, -1.1]) for i, a in enumerate(cols) for b in cols[i + 1:]}
    rows = []
    for _ in range(rnd.choice([25, 200])):
        r = {}
        for c in cols:
            r[c] = rnd.gauss(0, 1) + sum(coef[(a, c)] * r[a] for a in r)
        rows.append(r)
    return rows


def algorithm(rnd):
    """a pipeline whose results carry metadata of all kinds"""
    from causy.causal_discovery.constraint.algorithms.pc import PC_ORIENTATION_RULES
    from causy.causal_discovery.constraint.independence_tests.common import CorrelationCoefficientTest, ExtendedPartialCorrelationTestMatrix, PartialCorrelationTest
    from causy.causal_discovery.constraint.orientation_rules.pc import ColliderTest
    from causy.causal_effect_estimation.multivariate_regression import ComputeDirectEffectsInDAGsMultivariateRegression
    from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations
    from causy.common_pipeline_steps.logic import ApplyActionsTogether
    from causy.edge_types import DirectedEdge, UndirectedEdge
    from causy.generators import AllCombinationsGenerator, PairsWithNeighboursGenerator
    from causy.models import Algorithm, ComparisonSettings
    from causy.variables import FloatVariable, StringVariable, VariableReference
    import copy

    skeleton = [CorrelationCoefficientTest(threshold=VariableReference(name="t")),
                PartialCorrelationTest(threshold=VariableReference(name="t"), parallel=False, generator=AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=3, max=3))),
                ExtendedPartialCorrelationTestMatrix(threshold=0.01, generator=PairsWithNeighboursGenerator(chunked=False, shuffle_combinations=False, comparison_settings=ComparisonSettings(min=4, max=5)))]
    if rnd.random() < 0.4:
        skeleton = [ApplyActionsTogether(pipeline_steps=skeleton)]
    steps = [CalculatePearsonCorrelations()] + skeleton + [ColliderTest(conflict_resolution_strategy=VariableReference(name="strategy"))]
    if rnd.random() < 0.7:
        steps.append(copy.deepcopy(PC_ORIENTATION_RULES[1]))
    if rnd.random() < 0.5:
        steps.append(ComputeDirectEffectsInDAGsMultivariateRegression())
    return Algorithm(name="faithful", pipeline_steps=steps, edge_types=[DirectedEdge(), UndirectedEdge()], extensions=[],
                     variables=[FloatVariable(name="t", value=rnd.choice([0.01, 0.2])), StringVariable(name="strategy", value=rnd.choice(["KEEP_FIRST", "KEEP_LAST"]))])


def plain(x):
    """values of the run as JSON would hold them"""
    import enum
    import torch

    if isinstance(x, enum.Enum):
        return plain(x.value)
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, set):
        return sorted(plain(v) for v in x)
    if hasattr(x, "id") and hasattr(x, "name") and hasattr(x, "values"):
        return {"id": x.id, "name": x.name}
    if type(x) is torch.Tensor:
        return None
    if isinstance(x, (str, int, float, type(None))):
        return x
    if hasattr(x, "model_dump"):
        return plain(x.model_dump())
    return repr(x)


def parts_of_run(g, variables):
    def action(a):
        return [[a.u.id, a.u.name], [a.v.id, a.v.name], a.action.value, plain(a.data or {})]

    def step(h):
        return [h.name, [action(a) for a in h.actions or []], [action(a) for a in h.all_proposed_actions or []], [step(s) for s in h.steps or []]]

    # direction, type and value of every edge, from the queries of the graph rather than from the list that is stored
    edges, names = [], list(g.nodes)
    for i, u in enumerate(names):
        for v in names[i + 1:]:
            a, b = g.directed_edge_exists(u, v), g.directed_edge_exists(v, u)
            if a or b:
                s, t = (u, v) if a else (v, u)
                e = g.edges[s][t]
                edges.append([*((sorted([s, t])) if a and b else [s, t]), e.edge_type.name, plain(e.metadata or {})])
    return {"nodes": ws.digest(sorted([k, n.id, n.name] for k, n in g.nodes.items())), "edges": ws.digest(sorted(json.dumps(e, sort_keys=True) for e in edges)),
            "log": ws.digest([step(h) for h in g.action_history]), "vars": ws.digest(variables), "n": len(edges)}


def parts_of_json(d):
    def action(a):
        return [[a["u"]["id"], a["u"]["name"]], [a["v"]["id"], a["v"]["name"]], a["action"], trim(a.get("data") or {})]

    def trim(x):
        if isinstance(x, dict):
            if set(x) >= {"id", "name"} and set(x) <= {"id", "name", "values", "metadata", "position"}:
                return {"id": x["id"], "name": x["name"]}
            return {k: trim(v) for k, v in x.items()}
        return [trim(v) for v in x] if isinstance(x, list) else x

    def step(h):
        return [h["name"], [action(a) for a in h.get("actions") or []], [action(a) for a in h.get("all_proposed_actions") or []], [step(s) for s in h.get("steps") or []]]

    edges = []  # an undirected edge may be listed once per direction
    for e in d["edges"]:
        u, v, t = e["u"]["id"], e["v"]["id"], e["edge_type"]["name"]
        edges.append([*(sorted([u, v]) if not e["edge_type"]["IS_DIRECTED"] else [u, v]), t, trim(e.get("metadata") or {})])
    return {"nodes": ws.digest(sorted([k, n["id"], n["name"]] for k, n in d["nodes"].items())), "edges": ws.digest(sorted({json.dumps(e, sort_keys=True) for e in edges})),
            "log": ws.digest([step(h) for h in d["action_history"]]), "vars": ws.digest(d.get("variables")), "n": len({json.dumps(e, sort_keys=True) for e in edges})}


def faithful(idx):
    import copy
    import fakepool
    from fastapi.testclient import TestClient
    from typer.testing import CliRunner

    from causy.cli import app
    from causy.data_loader import JSONDataLoader
    from causy.graph_model import graph_model_factory
    from causy.serialization import CausyJSONEncoder, deserialize_result, load_algorithm_by_reference
    from causy.ui.server import _create_ui_app, _set_model, _set_workspace
    import pydantic_yaml
    from causy.workspaces.models import Workspace

    fakepool.install()
    rnd = random.Random(lib.subseed("faithful", idx))
    d, old, path = tempfile.mkdtemp(prefix="c18_"), os.getcwd(), list(sys.path)
    os.chdir(d)
    none = {"nodes": "", "edges": "", "log": "", "vars": "", "n": 0}
    rec = {"kind": "result", "out": "ok", "run": none, "stored": none, "back": none, "again": False, "served": [], "error": ""}
    shipped = idx % 4 == 0
    try:
        def go():
            rows = rows_for(rnd)
            with open("d.json", "w") as f:
                json.dump(rows, f)
            if shipped:
                pipe, give = {"type": "name", "reference": "PC"}, {"threshold": rnd.choice([0.01, 0.1])} if rnd.random() < 0.5 else {}
            else:
                with open("a.json", "w") as f:
                    json.dump(algorithm(rnd).model_dump(), f)
                pipe, give = {"type": "file", "reference": "a.json"}, {"t": 0.05} if rnd.random() < 0.5 else {}
            with open("workspace.yml", "w") as f:
                json.dump({"name": "w", "author": "a", "pipelines": {"p": pipe}, "dataloaders": {"d": {"type": "json", "reference": "d.json", "options": None}},
                           "experiments": {"e": {"pipeline": "p", "dataloader": "d", "variables": give}}}, f)
            alg = load_algorithm_by_reference(pipe["type"], pipe["reference"])
            model = graph_model_factory(copy.deepcopy(alg), {v.name: give.get(v.name, v.value) for v in alg.variables})()
            model.create_graph_from_data(JSONDataLoader("d.json"))
            model.create_all_possible_edges()
            model.execute_pipeline_steps()
            rec["run"] = parts_of_run(model.graph, {v.name: give.get(v.name, v.value) for v in alg.variables})
            res = CliRunner().invoke(app, ["workspace", "execute"])
            if res.exception:
                raise res.exception
            files = [f for f in os.listdir() if f.startswith("e_") and f.endswith(".json")]
            if len(files) != 1:
                raise ValueError(f"stored {files}")
            with open(files[0]) as f:
                raw = json.load(f)
            rec["stored"] = parts_of_json(raw)
            back = deserialize_result(json.loads(json.dumps(raw)))
            rec["back"] = parts_of_json(json.loads(json.dumps(back.model_dump(), cls=CausyJSONEncoder)))
            rec["again"] = ws.canon(json.loads(json.dumps(back.model_dump(), cls=CausyJSONEncoder))) == ws.canon(raw)
            client = TestClient(_create_ui_app(with_static=False))
            _set_workspace(pydantic_yaml.parse_yaml_raw_as(Workspace, open("workspace.yml").read()))
            _set_model(json.loads(json.dumps(raw)))
            try:
                for p in ("experiments/e/latest", f"experiments/e/{files[0][2:-5]}", "model"):
                    r = client.get("/api/v1/" + p)
                    rec["served"].append(parts_of_json(r.json()) if r.status_code == 200 else dict(none, log=f"status {r.status_code}"))
            finally:
                _set_workspace(None)
                _set_model(None)
            if shipped and not give:  # the deprecated command stores results as well, without variables
                res = CliRunner().invoke(app, ["execute", "d.json", "--algorithm", "PC", "--output-file", "out.json"])
                if res.exception:
                    raise res.exception
                with open("out.json") as f:
                    rec["served"].append(dict(parts_of_json(json.load(f)), vars=rec["stored"]["vars"]))

        out, x = lib.call(go, seconds=120)
        if out != "ok":
            import traceback

            rec.update(out=out, error="".join(traceback.format_exception(x))[-600:] if isinstance(x, BaseException) else "")
    finally:
        os.chdir(old)
        sys.path[:] = path
        shutil.rmtree(d, ignore_errors=True)
    return rec


def run():
    r = lib.Run("C18", "model_checking",
                "histories of executions, clears and foreign files over experiments with prefix-related names (also long ones with 20 and more versions), generated by TLC from WorkspaceGen.tla, with every API answer recorded after every step; and results of runs on generated data compared with the graph of the run, part by part, as stored, read back and served; non-trivial: a stored version exists")
    progs = ws.generate(r, "serve", 9, lib.pick(160, 2500))
    progs += ws.generate(r, "pile", 26, lib.pick(24, 250))
    recs = lib.pmap(ws.history, [(i, p, True) for i, p in enumerate(progs)])
    recs += lib.pmap(faithful, range(lib.pick(100, 1500)))
    r.evaluations = sum(len(x.get("ops", [1])) for x in recs)
    r.nontrivial = sum(sum(1 for o in x["obs"] if o["files"]) if x["kind"] == "history" else 1 for x in recs)
    r.samples = [{"api": recs[0]["obs"][-1]["api"]}, recs[-1]]
    r.judge("WorkspaceJudge", recs, describe=ws.describe, env={"PROP": "C18"})
    return r.finish()
