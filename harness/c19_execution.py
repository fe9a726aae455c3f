import lib
import ws_common as ws


def run():
    r = lib.Run("C19", "model_checking",
                "histories of a workspace (executions of all, one, forced; variable updates; edits of data, pipelines, loader options; switches; clears) generated by TLC from WorkspaceGen.tla and replayed through the command line; non-trivial: an execution of all in a history of more than one execution")
    progs = ws.generate(r, "run", 12, lib.pick(300, 4000))
    progs += ws.generate(r, "pile", 26, lib.pick(24, 250))
    recs = lib.pmap(ws.history, [(i, p, False) for i, p in enumerate(progs)])
    r.evaluations = sum(len(x["ops"]) for x in recs)
    r.nontrivial = sum(1 for x in recs for o in x["ops"] if o["k"] == "executeall")
    r.samples = [{"ops": recs[0]["ops"], "versions": [[(f["n"], f["ver"]) for f in o["files"]] for o in recs[0]["obs"]]}]
    r.judge("WorkspaceJudge", recs, describe=ws.describe, env={"PROP": "C19"})
    return r.finish()
