import lib
import orient_common as oc


def run():
    r = lib.Run("C09", "model_checking",
                "the collider step on every skeleton with every family of separating sets for 2 and 3 nodes (4 in thorough, sampled in quick), random ones with 5 to 9, both strategies, shuffled node order; non-trivial: an edge is directed")
    oc.model(r)
    ins = oc.inputs(r, (3000, 1200, 400), (None, 12000, 4000))
    jobs = [(i, "colliders", n, *oc.decode(n, d), strat) for i, (n, d, strat) in enumerate((n, d, s) for n, d in ins for s in ("KEEP_FIRST", "KEEP_LAST"))]
    recs = lib.pmap(oc.do_phase, jobs)
    r.evaluations = len(recs)
    r.nontrivial = sum(1 for x in recs if len(x["final"]) != len(x["skel"]))
    r.samples = [recs[-1], recs[len(recs) // 2]]
    r.judge("OrientJudge", recs, describe=oc.describe)
    return r.finish()
