"""Importable user-defined pipeline parts with settings of their own."""
from causy.interfaces import ExitConditionInterface, PipelineStepInterface
from causy.models import TestResult, TestResultAction
from causy.variables import BoolParameter, FloatParameter, IntegerParameter, StringParameter


class OwnStep(PipelineStepInterface):
    parallel: BoolParameter = False
    own_int: IntegerParameter = 7
    own_float: FloatParameter = 7.5
    own_string: StringParameter = "seven"
    own_bool: BoolParameter = False

    def process(self, nodes, graph, unapplied_actions=None):
        return TestResult(u=graph.nodes[nodes[0]], v=graph.nodes[nodes[1]], action=TestResultAction.DO_NOTHING, data={})


class LimitExit(ExitConditionInterface):
    limit: IntegerParameter = 9

    def check(self, graph, graph_model_instance_, actions_taken, iteration):
        return iteration >= min(self.limit, 6)
