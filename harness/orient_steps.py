"""A step that removes the given edges with the given separating sets."""
from causy.interfaces import GeneratorInterface, PipelineStepInterface
from causy.models import TestResult, TestResultAction

CUTS = []


class CutGenerator(GeneratorInterface):
    def generate(self, graph, graph_model_instance_):
        for i in range(len(CUTS)):
            yield (str(i),)


class CutStep(PipelineStepInterface):
    parallel: bool = False

    def process(self, nodes, graph, unapplied_actions=None):
        u, v, z = CUTS[int(nodes[0])]
        u, v, z = graph.nodes[u], graph.nodes[v], [graph.nodes[w] for w in z]
        return TestResult(u=u, v=v, action=TestResultAction.REMOVE_EDGE_UNDIRECTED, data={"separatedBy": z, "triple": [u, v, z]})
