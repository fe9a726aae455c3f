import itertools

import graphs_common as gc
import lib
import orient_common as oc


def run():
    r = lib.Run("C08", "model_checking",
                "one pass of each rule over every partially directed graph with up to 3 nodes (4 in thorough, sampled in quick), random ones with 4 to 6 and graphs built from overlaid and contradicting patterns of the rule, one pattern among many near misses with 7 to 9 nodes, several patterns that share nodes with up to 9 nodes; non-trivial: the pass directs an edge")
    oc.model(r)
    graphs = []
    for n in (2, 3):
        graphs += [(n, d) for d in gc.all_digits(n, 4)]
    a4 = [(4, d) for d in gc.all_digits(4, 4)]
    graphs += a4 if lib.THOROUGH else r.rng.sample(a4, 1400)
    graphs += [(5, d) for d in gc.some_digits(r.rng, 5, (3, 2, 2, 3), lib.pick(500, 6000))]
    graphs += [(6, d) for d in gc.some_digits(r.rng, 6, (3, 2, 2, 3), lib.pick(200, 2000))]
    gs = gc.expand(r, [{"n": n, "ds": d, "kind": "mixed"} for n, d in graphs], "graphs")
    jobs = [(g["n"], g["live"], rule) for g in gs for rule in (1, 2, 3, 4)]
    for rule in (1, 2, 3, 4):
        for n in (4, 5, 6, 6):
            jobs += [(n, g, rule) for g in oc.overlays(r.rng, n, rule, lib.pick(80, 800))]
        jobs += [(n, g, rule) for n, g in oc.crowds(r.rng, rule, lib.pick(80, 800))]
        jobs += [(n, g, rule) for n, g in oc.fans(r.rng, rule, lib.pick(24, 300))]
    recs = lib.pmap(oc.do_pass, [(i, *j) for i, j in enumerate(jobs)])
    r.evaluations = len(recs)
    r.nontrivial = sum(1 for x in recs if len(x["final"]) != len(x["before"]))
    r.samples = [recs[-1], recs[len(recs) // 2]]
    r.judge("OrientJudge", recs, describe=oc.describe)
    return r.finish()
