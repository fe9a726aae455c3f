"""Pipeline steps, generators, hooks and edge types that follow a script (importable in worker processes)."""
from typing import List, Optional

from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
from causy.common_pipeline_steps.logic import ApplyActionsTogether, Loop
from causy.edge_types import BiDirectedEdge, DirectedEdge, UndirectedEdge
from causy.interfaces import GeneratorInterface, GraphUpdateHook, PipelineStepInterface
from causy.models import TestResult, TestResultAction

# set by the driver before a run
SCRIPT = {}      # (entry, inner) -> list of iterations, each a list of chunks of batches
COUNTER = {}     # (entry, inner) -> number of times the generator was started
LOG = {"calls": [], "pre": [], "post": [], "ety": [], "on": False}
IDS = {}         # number of a node -> its id
EMPTY = [0]      # the number of the change which carries no data
RET = {}         # (entry, inner, iteration, chunk, batch) -> how to return the batch
TYPES = {"DIRECTED": DirectedEdge, "UNDIRECTED": UndirectedEdge, "BIDIRECTED": BiDirectedEdge}


class Overrun(Exception):
    pass


def live_arcs(graph):
    back = {v: k for k, v in IDS.items()}
    return [[back[u], back[v]] for u in graph.nodes for v in graph.nodes if u != v and graph.directed_edge_exists(u, v)]


class ScriptGenerator(GeneratorInterface):
    entry: int = 0
    inner: int = 0

    def __init__(self, entry=0, inner=0, **kw):
        super().__init__(**kw)
        self.entry, self.inner = entry, inner

    def generate(self, graph, graph_model_instance_):
        key = (self.entry, self.inner)
        it = COUNTER.get(key, 0)
        COUNTER[key] = it + 1
        if it > 100:
            raise Overrun("loop does not end")
        chunks = SCRIPT[key][it] if it < len(SCRIPT[key]) else []
        for c, chunk in enumerate(chunks):
            combos = [(str(self.entry), str(self.inner), str(it), str(c), str(b)) for b in range(len(chunk))]
            if self.chunked:
                yield combos
            else:
                yield from combos


def value(data):
    return data.get("m", EMPTY[0])


def make(a, graph):
    kw = {}
    if a["k"] in ("UPDATE_EDGE_TYPE", "UPDATE_EDGE_TYPE_DIRECTED"):
        kw["edge_type"] = TYPES[a["t"]]()
    return TestResult(u=graph.nodes[IDS[a["u"]]], v=graph.nodes[IDS[a["v"]]], action=TestResultAction(a["k"]), data={"m": a["m"]} if a["m"] != EMPTY[0] else {}, **kw)


class StepOne(PipelineStepInterface):
    parallel: bool = False

    def process(self, nodes, graph, unapplied_actions=None):
        key = tuple(int(x) for x in nodes)
        batch = SCRIPT[key[:2]][key[2]][key[3]][key[4]]
        LOG["calls"].append(live_arcs(graph))
        rs = [make(a, graph) for a in batch]
        how = RET.get(key, 0)
        if not rs and how % 2 == 0:
            return None
        if len(rs) == 1 and how % 2 == 0:
            return rs[0]
        return rs


class StepTwo(StepOne):
    pass


class StepThree(StepOne):
    pass


STEPS = {1: StepOne, 2: StepTwo, 3: StepThree}


def describe(r):
    back = {v: k for k, v in IDS.items()}
    return [r.action.value, back[r.u.id], back[r.v.id], value(r.data)]


def changed(r, **kw):
    args = {"u": r.u, "v": r.v, "action": r.action, "data": r.data, "edge_type": r.edge_type}
    args.update(kw)
    return TestResult(**{k: v for k, v in args.items() if k != "edge_type" or v is not None})


class PreHook(GraphUpdateHook):
    number: int = 1
    kind: str = "id"

    def execute(self, graph, updates):
        LOG["pre"].append({"h": self.number, "b": [describe(u) for u in updates], "live": live_arcs(graph)})
        if self.kind == "id":
            return updates
        if self.kind == "dropfirst":
            return updates[1:]
        if self.kind == "keepfirst":
            return updates[:1]
        if self.kind == "droprem":
            return [u for u in updates if u.action != TestResultAction.REMOVE_EDGE_UNDIRECTED]
        if self.kind == "reverse":
            return updates[::-1]
        if self.kind == "double":
            return updates + updates
        if self.kind == "flip":
            return [changed(u, u=u.v, v=u.u) for u in updates]
        if self.kind == "addrem":
            return updates + [changed(u, u=u.v, v=u.u, action=TestResultAction.REMOVE_EDGE_UNDIRECTED, edge_type=None) for u in updates[-1:]]
        if self.kind == "noop":
            return [changed(u, action=TestResultAction.DO_NOTHING, edge_type=None) for u in updates[:1]] + updates[1:]
        return []


class PostHook(GraphUpdateHook):
    number: int = 1

    def execute(self, graph, updates):
        LOG["post"].append({"h": self.number, "b": [describe(u) for u in updates], "live": live_arcs(graph)})


def type_hook(when, group, fails):
    def hook(self, graph, change):
        if LOG["on"]:
            LOG["ety"].append({"w": when, "g": group, "a": describe(change), "t": self.name, "live": live_arcs(graph)})
        if fails:
            raise RuntimeError("edge type hook fails")
    return hook


def type_hooks(cls, fails):
    for group, name in (("remove", "remove"), ("update", "update"), ("type", "type_change")):
        for when in ("pre", "post"):
            setattr(cls, f"{when}_edge_{name}_hook", type_hook(when, group, fails))


for _t in TYPES.values():
    type_hooks(_t, False)


class _Failing:
    def _fail(self, *a):
        raise RuntimeError("edge type hook fails")

    pre_edge_add_hook = post_edge_add_hook = _fail


class FailingUndirected(_Failing, UndirectedEdge):
    pass


class FailingDirected(_Failing, DirectedEdge):
    pass


type_hooks(FailingUndirected, True)
type_hooks(FailingDirected, True)
