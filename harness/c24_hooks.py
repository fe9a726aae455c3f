import lib
import pipe_common as pc

CLAIMS = ["final-graph", "log-entries", "log-entry", "pre-hooks", "post-hooks", "edge-type-hooks"]


def run():
    r = lib.Run("C24", "model_checking",
                "random programs generated by TLC from PipelineExec.tla with up to 3 hooks before and 2 hooks after an update (some with 3 to 6 of each and long batches), in steps (serial, synchronous, chunked and parallel), loops and action groups on 3 and 4 nodes; hooks before an update filter, reorder, duplicate, rewrite and add changes; calls of the edge types' own hooks are recorded; a third of the runs has edge types whose own hooks all fail; non-trivial: at least one change was taken")
    progs = pc.rand_programs(r, "hooks3", 3, lib.pick(5, 8), lib.pick(600, 4000), ("step", "loop", "group"), hooks=True)
    progs += pc.rand_programs(r, "hooks4", 4, lib.pick(4, 7), lib.pick(400, 2500), ("step", "loop", "group"), hooks=True)
    progs += pc.rand_programs(r, "wide4", 4, 2, lib.pick(60, 600), ("step", "loop", "group"), hooks=True, wide=True)
    pc.run_programs(r, progs, CLAIMS, failing=lambda i: i % 3 == 0)
    return r.finish()
