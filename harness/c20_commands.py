import lib
import ws_common as ws


def run():
    r = lib.Run("C20", "model_checking",
                "histories of workspace commands (remove, clear, update-variable with valid and invalid texts, add) on workspaces with prefix-related names and foreign files (also long ones with 20 and more versions of an experiment), generated by TLC from WorkspaceGen.tla and replayed through the command line; non-trivial: a remove, clear or update")
    progs = ws.generate(r, "edit", 18, lib.pick(400, 4000))
    progs += ws.generate(r, "pile", 26, lib.pick(32, 300))
    recs = lib.pmap(ws.history, [(i, p, False) for i, p in enumerate(progs)])
    r.evaluations = sum(len(x["ops"]) for x in recs)
    r.nontrivial = sum(1 for x in recs for o in x["ops"] if o["k"] in ("rmpipe", "rmload", "rmexp", "clear", "update"))
    r.samples = [{"ops": recs[0]["ops"], "experiments": [o["exps"] for o in recs[0]["obs"]][-1]}]
    r.judge("WorkspaceJudge", recs, describe=ws.describe, env={"PROP": "C20"})
    return r.finish()
