"""Pipeline steps of the workspace histories (found by name from pipeline files)."""
from typing import Optional

from causy.generators import AllCombinationsGenerator
from causy.interfaces import PipelineStepInterface
from causy.models import ComparisonSettings, TestResult, TestResultAction
from causy.variables import BoolParameter, FloatParameter, IntegerParameter, StringParameter

FLOATS = [0.0, 0.05, 1e-05, 0.5, 1.0, 0.01]
STRINGS = ["KEEP_FIRST", "KEEP_LAST", "on", "1e3", " null: x "]
NODES = ["x", "y", "z"]


class DrawStep(PipelineStepInterface):
    """draws the graph which Workspace.tla gives for these settings and data"""

    parallel: BoolParameter = False
    base: IntegerParameter = 0
    i: IntegerParameter = 0
    n: IntegerParameter = 0
    f: FloatParameter = 0.0
    g: FloatParameter = 0.0
    o: IntegerParameter = 0
    b: BoolParameter = False
    s: StringParameter = "KEEP_FIRST"
    c: StringParameter = "KEEP_FIRST"

    def process(self, nodes, graph, unapplied_actions=None):
        u, v = sorted(nodes)
        code = int(graph.nodes["x"].values[0]) + self.base + self.i + self.n + self.o + FLOATS.index(self.f) + FLOATS.index(self.g) + 2 * int(self.b) + STRINGS.index(self.s) + STRINGS.index(self.c)
        k = [("x", "y"), ("x", "z"), ("y", "z")].index((u, v)) + 1
        kind = ((code + 1) * k) % 5
        a, b = graph.nodes[u], graph.nodes[v]
        up = [TestResult(u=a, v=b, action=TestResultAction.UPDATE_EDGE, data={"m": code + k, "odd": code % 2 == 1, "parts": [k, 0.5, "t"]})]
        if kind == 1:
            return up
        if kind == 2:
            return up + [TestResult(u=b, v=a, action=TestResultAction.REMOVE_EDGE_DIRECTED, data={})]
        if kind == 3:
            return up + [TestResult(u=a, v=b, action=TestResultAction.REMOVE_EDGE_DIRECTED, data={})]
        return TestResult(u=a, v=b, action=TestResultAction.REMOVE_EDGE_UNDIRECTED, data={})


class GraphStep(PipelineStepInterface):
    """draws the graph which is written in its setting: x>y;y-z;..."""

    parallel: BoolParameter = False
    graph: StringParameter = ""

    def process(self, nodes, graph, unapplied_actions=None):
        u, v = sorted(nodes)
        a, b = graph.nodes[u], graph.nodes[v]
        for p in self.graph.split(";"):
            if p in (f"{u}-{v}", f"{v}-{u}"):
                return TestResult(u=a, v=b, action=TestResultAction.DO_NOTHING, data={})
            if p == f"{u}>{v}":
                return TestResult(u=b, v=a, action=TestResultAction.REMOVE_EDGE_DIRECTED, data={})
            if p == f"{v}>{u}":
                return TestResult(u=a, v=b, action=TestResultAction.REMOVE_EDGE_DIRECTED, data={})
        return TestResult(u=a, v=b, action=TestResultAction.REMOVE_EDGE_UNDIRECTED, data={})


def draw_algorithm(content):
    from causy.edge_types import DirectedEdge, UndirectedEdge
    from causy.models import Algorithm
    from causy.variables import BoolVariable, FloatVariable, IntegerVariable, StringVariable, VariableReference

    defs = content["defs"]
    step = DrawStep(generator=AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=2, max=2)), base=content["set"],
                    **{x: VariableReference(name=x) for x in defs})
    cls = {"i": IntegerVariable, "n": IntegerVariable, "f": FloatVariable, "g": FloatVariable, "o": IntegerVariable, "b": BoolVariable, "s": StringVariable, "c": StringVariable}
    kw = {"n": {"choices": [1, 2]}, "c": {"choices": STRINGS[:2]}, "o": {"choices": [1]}, "g": {"choices": [0, 0.05, 1]}}
    return Algorithm(name="drawing", pipeline_steps=[step], edge_types=[DirectedEdge(), UndirectedEdge()], extensions=[],
                     variables=[cls[x](name=x, value=val(x, defs[x]), **kw.get(x, {})) for x in sorted(defs)])


def val(x, i):
    if x in ("i", "n", "o"):
        return i
    if x in ("f", "g", "threshold"):
        return FLOATS[i]
    return bool(i) if x == "b" else STRINGS[i]


def num(x, v):
    """number of a value, -1 when it is none (or of another type)"""
    want = {"i": int, "n": int, "f": float, "g": float, "o": int, "threshold": float, "b": bool, "s": str, "c": str}.get(x)
    if type(v) is not want:
        return -1
    pool = {int: list(range(10)), float: FLOATS, bool: [False, True], str: STRINGS}[want]
    return pool.index(v) if v in pool else -1
