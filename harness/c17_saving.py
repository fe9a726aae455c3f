import contextlib
import copy
import hashlib
import io
import json
import os
import random
import shutil
import tempfile

import algo_common as ac
import lib


class Answers:
    """stands in for questionary: answers prompts from a list"""

    def __init__(self, answers):
        self.answers = list(answers)

    def __call__(self, *a, **k):
        return self

    def ask(self):
        return self.answers.pop(0)


def ejected(alg, name):
    """through the workspace command: eject a preconfigured pipeline into a YAML file"""
    import causy.workspaces.cli as wcli
    from causy.causal_discovery import AVAILABLE_ALGORITHMS
    from causy.graph_model import graph_model_factory
    from causy.serialization import load_algorithm_by_reference
    from causy.workspaces.models import Workspace

    AVAILABLE_ALGORITHMS[name] = graph_model_factory(alg)
    q, old = Answers(["EJECT", name, "ejected"]), (wcli.questionary.select, wcli.questionary.text)
    wcli.questionary.select = wcli.questionary.text = q
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            w = wcli._create_pipeline(Workspace(name="w", author="a", pipelines={}, dataloaders={}, experiments={}))
    finally:
        wcli.questionary.select, wcli.questionary.text = old
        del AVAILABLE_ALGORITHMS[name]
    ref = list(w.pipelines.values())[0]
    return load_algorithm_by_reference(ref.type, ref.reference)


def cli_ejected(alg, name):
    from typer.testing import CliRunner

    from causy.causal_discovery import AVAILABLE_ALGORITHMS
    from causy.cli import app
    from causy.graph_model import graph_model_factory
    from causy.serialization import load_algorithm_by_reference

    AVAILABLE_ALGORITHMS[name] = graph_model_factory(alg)
    try:
        res = CliRunner().invoke(app, ["eject", name, "out.json"])
        if res.exception:
            raise res.exception
    finally:
        del AVAILABLE_ALGORITHMS[name]
    return load_algorithm_by_reference("file", "out.json")


def from_file(text, name):
    from causy.serialization import load_algorithm_by_reference

    with open(name, "w") as f:
        f.write(text)
    return load_algorithm_by_reference("file", name)


def ways(alg, buildable):
    import yaml

    from causy.serialization import load_algorithm_from_specification, serialize_algorithm
    from causy.graph_model import graph_model_factory

    plain = lambda: json.loads(json.dumps(alg.model_dump()))
    w = [("dictionary", lambda: load_algorithm_from_specification(plain())),
         ("json file", lambda: from_file(json.dumps(alg.model_dump(), indent=4), "a.json")),
         ("json text", lambda: from_file(alg.model_dump_json(), "b.json")),
         ("yaml file", lambda: from_file(yaml.dump(plain()), "c.yml")),
         ("empty parts left out", lambda: load_algorithm_from_specification({k: v for k, v in plain().items() if v not in (None, [])})),
         ("twice", lambda: load_algorithm_from_specification(json.loads(load_algorithm_from_specification(plain()).model_dump_json())))]
    if buildable:
        w += [("serialized model", lambda: load_algorithm_from_specification(json.loads(json.dumps(serialize_algorithm(graph_model_factory(alg)()))))),
              ("workspace eject", lambda: ejected(alg, alg.name)),
              ("eject", lambda: cli_ejected(alg, alg.name))]
    return w


def scratch(fn, *args):
    d, old = tempfile.mkdtemp(prefix="c17_"), os.getcwd()
    os.chdir(d)
    try:
        return fn(*args)
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def known(D):
    return all(not s["ref"] or s["name"] in D["vars"] for s in D["slots"].values())


def change(D, rnd):
    """another algorithm: one setting, default or choice differs"""
    E = copy.deepcopy(D)
    if D["vars"] and rnd.random() < 0.3:
        n = rnd.choice(sorted(E["vars"]))
        w = E["vars"][n]
        if w["choices"]:
            w["choices"] = [] if rnd.random() < 0.5 or w["t"] == "bool" else [c for c in range(5) if c not in w["choices"]] + [w["def"]["v"]]
        else:
            w["def"]["v"] = (w["def"]["v"] + 1) % (2 if w["t"] == "bool" else 5)
        return E
    s = E["slots"][rnd.choice(sorted(E["slots"]))]
    if s["ref"]:
        if rnd.random() < 0.5:
            s["name"] = s["name"] + "x"
        else:
            s["ref"] = False
    else:
        s["val"]["v"] = (s["val"]["v"] + 1) % (2 if s["val"]["t"] == "bool" else 5)
    return E


def saved(arg):
    idx, D = arg
    import fakepool

    fakepool.install()
    rnd = random.Random(lib.subseed("saved", idx))
    own = rnd.choice(["own", "own", "placeholder"])

    def go():
        alg = ac.build(D, own=own)
        if idx % 3 == 0:
            alg.extensions = []
        twin = ac.build(D, own=own)
        twin.extensions = copy.deepcopy(alg.extensions)
        rec = {"kind": "saved", "D": D, "loaded": [], "structure": ac.structure(alg), "hash": alg.hash(), "twin": twin.hash(),
               "others": [ac.build(change(D, rnd), own=own).hash() for _ in range(4)]}
        b = copy.deepcopy(alg)
        b.pipeline_steps[0], b.pipeline_steps[2] = b.pipeline_steps[2], b.pipeline_steps[0]
        e = copy.deepcopy(alg)
        e.edge_types = e.edge_types[1:]
        rec["others"] += [b.hash(), e.hash()]
        for via, load in ways(alg, known(D)):
            out, x = lib.call(load, seconds=30)
            o = {"via": via, "out": out, "slots": {}, "vars": [], "structure": "", "hash": ""}
            if out == "ok":
                out, y = lib.call(lambda: {"slots": ac.read(x.pipeline_steps), "vars": ac.read_vars(x.variables), "structure": ac.structure(x), "hash": x.hash()})
                o["out"] = out
                if out == "ok":
                    o.update(y)
                else:
                    o["error"] = str(y)[:200]
            else:
                o["error"] = str(x)[:200]
            rec["loaded"].append(o)
        return rec

    return scratch(go)


# --- behaviour of loaded algorithms -----------------------------------------------------------------
def runnable(D, rnd):
    from causy.causal_discovery.constraint.algorithms.pc import PC_ORIENTATION_RULES
    from causy.causal_discovery.constraint.independence_tests.common import CorrelationCoefficientTest, ExtendedPartialCorrelationTestMatrix, PartialCorrelationTest
    from causy.causal_discovery.constraint.orientation_rules.pc import ColliderTest
    from causy.causal_effect_estimation.multivariate_regression import ComputeDirectEffectsInDAGsMultivariateRegression
    from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations
    from causy.common_pipeline_steps.logic import ApplyActionsTogether
    from causy.edge_types import DirectedEdge, UndirectedEdge
    from causy.generators import AllCombinationsGenerator, PairsWithNeighboursGenerator, RandomSampleGenerator
    from causy.models import Algorithm, ComparisonSettings
    from causy.variables import FloatVariable, IntegerVariable, StringVariable, VariableReference

    ref = lambda n, v: VariableReference(name=n) if rnd.random() < 0.6 else v
    inner = PairsWithNeighboursGenerator(chunked=rnd.random() < 0.5, shuffle_combinations=False, comparison_settings=ComparisonSettings(min=rnd.choice([3, 4]), max=ref("size", 4)))
    skeleton = [CorrelationCoefficientTest(threshold=ref("t", 0.2)),
                PartialCorrelationTest(threshold=ref("t", 0.05), parallel=rnd.random() < 0.3, chunk_size_parallel_processing=ref("size", 3),
                                       generator=AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=3, max=3))),
                ExtendedPartialCorrelationTestMatrix(threshold=ref("t", 0.01), generator=inner)]
    if rnd.random() < 0.4:
        skeleton.insert(2, ExtendedPartialCorrelationTestMatrix(threshold=ref("t", 0.1), generator=RandomSampleGenerator(
            every_nth=ref("nth", 2), chunked=False, generator=PairsWithNeighboursGenerator(chunked=False, comparison_settings=ComparisonSettings(min=3, max=4)))))
    if rnd.random() < 0.4:
        skeleton = [ApplyActionsTogether(pipeline_steps=skeleton)]
    steps = [CalculatePearsonCorrelations()] + skeleton + [ColliderTest(conflict_resolution_strategy=ref("strategy", "KEEP_FIRST")), copy.deepcopy(PC_ORIENTATION_RULES[1]),
                                                           ComputeDirectEffectsInDAGsMultivariateRegression()]
    return Algorithm(name="runnable", pipeline_steps=steps, edge_types=[DirectedEdge(), UndirectedEdge()], extensions=[],
                     variables=[FloatVariable(name="t", value=rnd.choice([0.01, 0.1, 0.3])), IntegerVariable(name="size", value=4), IntegerVariable(name="nth", value=rnd.choice([0, 1, 3])),
                                StringVariable(name="strategy", value=rnd.choice(["KEEP_FIRST", "KEEP_LAST"]), choices=["KEEP_FIRST", "KEEP_LAST"])])


def outcome(alg, assign, data, seed):
    from causy.graph_model import graph_model_factory
    import torch

    random.seed(seed), torch.manual_seed(seed)
    model = graph_model_factory(copy.deepcopy(alg), assign)()
    model.create_graph_from_data(data)
    model.create_all_possible_edges()
    model.execute_pipeline_steps()
    g = model.graph

    def plain(x):
        if hasattr(x, "id") and hasattr(x, "name"):
            return x.id
        if isinstance(x, dict):
            return {k: plain(v) for k, v in sorted(x.items())}
        if isinstance(x, (list, tuple, set)):
            return [plain(v) for v in x]
        return x if isinstance(x, (str, int, type(None))) else repr(x)

    edges = sorted(json.dumps([e.u.id, e.v.id, e.edge_type.name, plain(e.metadata)]) for e in g.retrieve_edges())

    def entry(h):
        return [h.name, [[a.action.value, a.u.id, a.v.id, plain(a.data)] for a in h.actions], [[a.action.value, a.u.id, a.v.id, plain(a.data)] for a in h.all_proposed_actions],
                [entry(s) for s in h.steps]]

    log = [json.dumps(entry(h)) for h in g.action_history]
    return {"edges": edges, "log": [hashlib.sha256(x.encode()).hexdigest()[:24] for x in log]}


def runs(arg):
    idx, which = arg
    import fakepool
    from causy.causal_discovery.constraint.algorithms import pc

    fakepool.install()
    rnd = random.Random(lib.subseed("runs", idx))
    cols = ["x%d" % i for i in range(rnd.choice([4, 5]))]
    rows = []
    coef = {(a, b): rnd.choice([0, 0, 0.8, -1.2]) for i, a in enumerate(cols) for b in cols[i + 1:]}
    for _ in range(rnd.choice([30, 150])):
        r = {}
        for c in cols:
            r[c] = rnd.gauss(0, 1) + sum(coef[(a, c)] * r[a] for a in r)
        rows.append(r)
    alg = runnable(None, rnd) if which == "generated" else copy.deepcopy(getattr(pc, which)()._original_algorithm)
    name = "t" if which == "generated" else "threshold"
    assign = {name: rnd.choice([0.01, 0.2])} if rnd.random() < 0.5 else None
    seed = rnd.randint(1, 10 ** 6)

    def go():
        rec = {"kind": "runs", "which": which, "runs": []}
        for via, load in [("original", lambda: alg)] + ways(alg, True):
            if via in ("json text", "dictionary"):
                continue
            o = {"via": via, "out": "ok", "edges": [], "log": []}
            out, x = lib.call(lambda: outcome(load(), assign, rows, seed), seconds=60)
            o["out"] = out
            if out == "ok":
                o.update(x)
            else:
                o["error"] = str(x)[:300]
            rec["runs"].append(o)
        return rec

    return scratch(go)


def describe(r):
    if r["kind"] == "runs":
        return str({"which": r["which"], "runs": [(x["via"], x["out"], x.get("error"), x["edges"][:4]) for x in r["runs"]]})[:900]
    return str({"loaded": [(x["via"], x["out"], x.get("error"), x["hash"] == r["hash"], [(s, v) for s, v in x["slots"].items() if v["kind"] == "missing"][:3]) for x in r["loaded"]],
                "vars": r["D"]["vars"], "structure": [x["structure"] == r["structure"] for x in r["loaded"]]})[:900]


def run():
    r = lib.Run("C17", "model_checking",
                "random algorithms with 40 settings in all places of a pipeline, generated by TLC from AlgorithmsGen.tla, written and loaded in 9 ways (dictionary, JSON, YAML, ejected by both commands, twice); and runs of shipped and generated pipelines, original against loaded; non-trivial: the algorithm holds references or was executed")
    progs = [p["D"] for p in ac.generate(r, "algorithms", 1, lib.pick(400, 5000))]
    recs = lib.pmap(saved, list(enumerate(progs)))
    kinds = ["PC", "PCClassic", "PCStable", "ParallelPC"] * lib.pick(8, 60) + ["generated"] * lib.pick(60, 600)
    recs += lib.pmap(runs, list(enumerate(kinds)))
    r.evaluations = len(recs)
    r.nontrivial = sum(1 for x in recs if x["kind"] == "runs" or any(s["ref"] for s in x["D"]["slots"].values()))
    r.samples = [{"D": recs[0]["D"]["vars"]}, {"runs": recs[-1]["runs"][:1]}]
    r.judge("AlgorithmsJudge", recs, describe=describe)
    return r.finish()
