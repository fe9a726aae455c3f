import lib
import num_common as nc


def run():
    r = lib.Run("C23", "model_checking",
                "integer data sets with correlated columns on all partially directed graphs with up to 3 nodes and random ones with 4 and 5 (also cyclic ones), nodes with up to 7 parents, up to 1500 rows; coefficients by Cramer's rule in exact arithmetic in TLC; non-trivial: the graph has a directed edge; data whose regression is not determined is not compared")
    nc.bignum(r)
    gs = nc.graphs(r, (1500, 900), (12000, 8000))
    gs += [g for g in gs if g["n"] <= 3] * 3
    jobs = [(g["n"], g["live"], 0) for g in gs]
    jobs += [(g["n"], g["live"], r.rng.choice([120, 700, 1500])) for g in r.rng.sample(gs, lib.pick(30, 300))]
    for _ in range(lib.pick(20, 200)):  # many parents
        n = r.rng.choice([6, 6, 6, 7, 7, 8])
        v = r.rng.randrange(1, n + 1)
        arcs = [[u, v] for u in range(1, n + 1) if u != v]
        for u, w in [(u, w) for u in range(1, n + 1) for w in range(1, u) if v not in (u, w)]:
            if r.rng.random() < 0.1:
                arcs.append([u, w])
        jobs.append((n, arcs, 0))
    recs = lib.pmap(nc.effect, [(i, *j) for i, j in enumerate(jobs)])
    r.evaluations = sum(len(x["obs"]) for x in recs)
    r.nontrivial = sum(1 for x in recs if any([a[1], a[0]] not in x["arcs"] for a in x["arcs"]))
    r.samples = recs[-2:]
    r.judge("NumJudge", recs, describe=nc.describe)
    return r.finish()
