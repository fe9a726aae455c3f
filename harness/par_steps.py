"""Steps for the parallel runs; importable in worker processes, the script travels with the step."""
import os
from typing import Any, Dict, List, Optional

from causy.edge_types import BiDirectedEdge, DirectedEdge, UndirectedEdge
from causy.interfaces import GeneratorInterface, PipelineStepInterface
from causy.models import TestResult, TestResultAction

TYPES = {"DIRECTED": DirectedEdge, "UNDIRECTED": UndirectedEdge, "BIDIRECTED": BiDirectedEdge}


class CountGenerator(GeneratorInterface):
    count: int = 0

    def __init__(self, count=0, **kw):
        super().__init__(**kw)
        self.count = count

    def generate(self, graph, graph_model_instance_):
        for i in range(self.count):
            yield (str(i + 1),)


class ScriptedStep(PipelineStepInterface):
    script: Optional[Dict[str, Any]] = None  # {"ids": .., "results": ..}

    def process(self, nodes, graph, unapplied_actions=None):
        i = int(nodes[0])
        ids, results = self.script["ids"], self.script["results"]
        rs = []
        for a in results[i - 1]:
            kw = {"edge_type": TYPES[a["t"]]()} if "TYPE" in a["k"] else {}
            rs.append(TestResult(u=graph.nodes[ids[a["u"]]], v=graph.nodes[ids[a["v"]]], action=TestResultAction(a["k"]),
                                 data={"m": a["m"], "combo": i, "pid": os.getpid()}, **kw))
        HANDED.append(i)
        import fakepool
        INPOOL.append(fakepool.STATE["running"])
        if not rs:
            return None if i % 2 else []
        return rs[0] if len(rs) == 1 and i % 2 else rs


HANDED = []
INPOOL = []
