"""Builds the algorithms described by Algorithms.tla in the real code and reads them back."""
import json
import os

import lib

INTS = [0, 1, 2, 3, -4]
FLOATS = [0.0, 0.05, 1e-05, 0.5, 1.0]
STRINGS = ["KEEP_FIRST", "KEEP_LAST", "on", "1e3", " null: x "]


def value(x):
    t, v = x["t"], x["v"]
    return {"integer": INTS, "float": FLOATS, "string": STRINGS, "bool": [False, True]}[t][v]


def number(p):
    import enum

    if isinstance(p, enum.Enum):
        p = p.value
    if isinstance(p, bool):
        return {"t": "bool", "v": int(p)}
    for t, cls, vals in (("integer", int, INTS), ("float", float, FLOATS), ("string", str, STRINGS)):
        if type(p) is cls and p in vals:
            return {"t": t, "v": vals.index(p)}
    return {"t": "other", "v": -1}


def seen(p):
    from causy.variables import VariableReference

    if isinstance(p, VariableReference):
        return {"kind": "ref", "name": p.name, "t": "", "v": 0}
    return {"kind": "value", "name": "", **number(p)}


def norm(d):
    """TLC writes empty functions as []"""
    d["vars"] = d["vars"] or {}
    return d


def setting(slots):
    from causy.variables import VariableReference

    def get(s):
        x = slots[s]
        return VariableReference(name=x["name"]) if x["ref"] else value(x["val"])

    return get


def choice(t, c, k):
    """a choice as it may be written: 1 stands for 1.0"""
    x = value({"t": t, "v": c})
    return int(x) if t == "float" and x == int(x) and k % 2 else x


def variables(d):
    from causy.variables import BoolVariable, FloatVariable, IntegerVariable, StringVariable

    cls = {"integer": IntegerVariable, "float": FloatVariable, "string": StringVariable, "bool": BoolVariable}
    out = []
    for n, w in d["vars"].items():
        kw = {"choices": [choice(w["t"], c, len(n)) for c in w["choices"]]} if w["choices"] else {}
        out.append(cls[w["t"]](name=n, value=value(w["def"]), **kw))
    return out


def build(d, own="own", name="generated"):
    import algo_steps as A
    from causy.causal_discovery.constraint.independence_tests.common import CorrelationCoefficientTest, ExtendedPartialCorrelationTestMatrix, PartialCorrelationTest
    from causy.causal_discovery.constraint.orientation_rules.pc import ColliderTest, NonColliderTest
    from causy.common_pipeline_steps.logic import ApplyActionsTogether, Loop
    from causy.common_pipeline_steps.placeholder import PlaceholderTest
    from causy.contrib.graph_ui import GraphUIExtension
    from causy.edge_types import BiDirectedEdge, DirectedEdge, DirectedEdgeUIConfig, UndirectedEdge
    from causy.generators import AllCombinationsGenerator, PairsWithEdgesInBetweenGenerator, PairsWithNeighboursGenerator, RandomSampleGenerator
    from causy.models import Algorithm, ComparisonSettings

    g = setting(d["slots"])
    two = lambda **k: AllCombinationsGenerator(comparison_settings=ComparisonSettings(**k))
    if own == "own":
        own_step = A.OwnStep(generator=two(min=2, max=2), own_int=g("own_int"), own_float=g("own_float"), own_string=g("own_string"), own_bool=g("own_bool"))
    else:
        own_step = PlaceholderTest(generator=two(min=2, max=2), parallel=False, placeholder_int=g("own_int"), placeholder_float=g("own_float"),
                                   placeholder_str=g("own_string"), placeholder_bool=g("own_bool"))
    steps = [
        CorrelationCoefficientTest(threshold=g("top_threshold"), chunk_size_parallel_processing=g("top_chunk_size"), parallel=g("top_parallel"),
                                   apply_synchronous=g("top_sync"), display_name=g("top_display"),
                                   generator=AllCombinationsGenerator(chunked=g("top_gen_chunked"), comparison_settings=ComparisonSettings(min=g("top_gen_min"), max=g("top_gen_max")))),
        ExtendedPartialCorrelationTestMatrix(threshold=g("rnd_threshold"), generator=RandomSampleGenerator(
            every_nth=g("rnd_every_nth"), chunked=g("rnd_chunked"),
            generator=PairsWithNeighboursGenerator(shuffle_combinations=g("rnd_in_shuffle"), chunked=g("rnd_in_chunked"),
                                                   comparison_settings=ComparisonSettings(min=g("rnd_in_min"), max=g("rnd_in_max"))))),
        NonColliderTest(generator=PairsWithEdgesInBetweenGenerator(chunk_size=g("edges_chunk_size"), chunked=g("edges_chunked"))),
        own_step,
        ApplyActionsTogether(display_name=g("group_display"), pipeline_steps=[
            PartialCorrelationTest(threshold=g("group_threshold"), chunk_size_parallel_processing=g("group_chunk_size"), parallel=False,
                                   generator=AllCombinationsGenerator(shuffle_combinations=g("group_gen_shuffle"), comparison_settings=ComparisonSettings(min=3, max=g("group_gen_max")))),
            NonColliderTest()]),
        Loop(display_name=g("loop_display"), exit_condition=A.LimitExit(limit=g("loop_exit_limit")), pipeline_steps=[
            ColliderTest(threshold=g("loop_threshold"), conflict_resolution_strategy=g("loop_strategy"), parallel=g("loop_parallel"), generator=two(min=2, max=g("loop_gen_max"))),
            Loop(display_name=g("deep_display"), exit_condition=A.LimitExit(limit=1), pipeline_steps=[
                NonColliderTest(threshold=g("deep_threshold"), generator=two(min=g("deep_gen_min"), max=2))])]),
        ApplyActionsTogether(pipeline_steps=[
            Loop(exit_condition=A.LimitExit(limit=g("pit_exit_limit")), pipeline_steps=[
                ApplyActionsTogether(display_name=g("pit_display"), pipeline_steps=[
                    PartialCorrelationTest(threshold=g("pit_threshold"), parallel=g("pit_parallel"), generator=two(min=3, max=g("pit_gen_max")))])])]),
    ]
    return Algorithm(name=name, pipeline_steps=steps, edge_types=[DirectedEdge(), UndirectedEdge(), BiDirectedEdge()],
                     extensions=[GraphUIExtension(edges=[DirectedEdgeUIConfig()])], variables=variables(d))


def read(steps):
    """the settings as they are in a pipeline"""
    out = {}

    def put(slot, *path):
        o = steps
        try:
            for p in path:
                o = o[p] if isinstance(p, int) else getattr(o, p)
            out[slot] = seen(o)
        except (AttributeError, IndexError, KeyError, TypeError):
            out[slot] = {"kind": "missing", "name": "", "t": "", "v": 0}

    G, C = "generator", "comparison_settings"
    put("top_threshold", 0, "threshold"), put("top_chunk_size", 0, "chunk_size_parallel_processing"), put("top_parallel", 0, "parallel")
    put("top_sync", 0, "apply_synchronous"), put("top_display", 0, "display_name")
    put("top_gen_min", 0, G, C, "min"), put("top_gen_max", 0, G, C, "max"), put("top_gen_chunked", 0, G, "chunked")
    put("rnd_threshold", 1, "threshold"), put("rnd_every_nth", 1, G, "every_nth"), put("rnd_chunked", 1, G, "chunked")
    put("rnd_in_shuffle", 1, G, G, "shuffle_combinations"), put("rnd_in_chunked", 1, G, G, "chunked")
    put("rnd_in_min", 1, G, G, C, "min"), put("rnd_in_max", 1, G, G, C, "max")
    put("edges_chunk_size", 2, G, "chunk_size"), put("edges_chunked", 2, G, "chunked")
    pre = "own_" if type(steps[3]).__name__ == "OwnStep" else "placeholder_"
    for s, a in (("own_int", "int"), ("own_float", "float"), ("own_string", "string" if pre == "own_" else "str"), ("own_bool", "bool")):
        put(s, 3, pre + a)
    P = "pipeline_steps"
    put("group_display", 4, "display_name"), put("group_threshold", 4, P, 0, "threshold"), put("group_gen_shuffle", 4, P, 0, G, "shuffle_combinations")
    put("group_gen_max", 4, P, 0, G, C, "max"), put("group_chunk_size", 4, P, 0, "chunk_size_parallel_processing")
    put("loop_display", 5, "display_name"), put("loop_exit_limit", 5, "exit_condition", "limit"), put("loop_threshold", 5, P, 0, "threshold")
    put("loop_strategy", 5, P, 0, "conflict_resolution_strategy"), put("loop_gen_max", 5, P, 0, G, C, "max"), put("loop_parallel", 5, P, 0, "parallel")
    put("deep_threshold", 5, P, 1, P, 0, "threshold"), put("deep_gen_min", 5, P, 1, P, 0, G, C, "min"), put("deep_display", 5, P, 1, "display_name")
    put("pit_exit_limit", 6, P, 0, "exit_condition", "limit"), put("pit_display", 6, P, 0, P, 0, "display_name")
    put("pit_threshold", 6, P, 0, P, 0, P, 0, "threshold"), put("pit_parallel", 6, P, 0, P, 0, P, 0, "parallel"), put("pit_gen_max", 6, P, 0, P, 0, P, 0, G, C, "max")
    return out


def read_vars(vs):
    out = []
    for v in vs or []:
        d = number(v.value)
        out.append({"name": v.name, "t": v.type, "def": d["v"], "deft": d["t"], "choices": [number(float(c) if v.type == "float" and type(c) is int else c)["v"] for c in v.choices or []]})
    return out


def structure(alg):
    def step(s):
        if hasattr(s, "pipeline_steps"):
            return [s.name, [step(x) for x in s.pipeline_steps], s.exit_condition.name if s.exit_condition else ""]
        return [s.name, gen(s.generator)]

    def gen(g):
        return [] if g is None else [g.name, gen(g.generator)]

    return json.dumps([alg.name, [step(s) for s in alg.pipeline_steps], [[e.name, e.STR_REPRESENTATION, e.IS_DIRECTED] for e in alg.edge_types],
                       [[type(x).__name__, x.model_dump()] for x in alg.extensions or []]], default=str)


def generate(run, name, ops, num):
    out = os.path.join(run.build, name + ".prog")
    open(out, "w").close()
    run.model("AlgorithmsGen", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT NoRefsLeft\nPROPERTY NoLeak\nACTION_CONSTRAINT Emit\n",
              env={"GENOUT": out, "MAXOPS": ops}, name=name, args=["-simulate", f"num={num}", "-depth", str(ops + 3), "-seed", str(lib.SEED)], workers=1)
    progs = []
    with open(out) as f:
        for l in f:
            if l.strip():
                p = json.loads(json.loads(l)) if l.startswith('"') else json.loads(l)
                norm(p["D"])
                for o in p["ops"]:
                    o["a"] = o["a"] or {}
                progs.append(p)
    return progs
