import lib
import num_common as nc


def run():
    r = lib.Run("C27", "model_checking",
                "integer data sets (scaled by powers of two and shifted, with constant-free, dependent, perfectly correlated and sparse columns) on all graphs with up to 3 nodes and random ones with 4 and 5, complete ones with up to 11 nodes, long data sets of up to 3000 rows; exact rational comparison by TLC; non-trivial: the graph has an edge")
    nc.bignum(r)
    gs = nc.graphs(r, (1500, 900), (12000, 8000))
    jobs = [(i, g["n"], g["live"], 0) for i, g in enumerate(gs)]
    full = lambda n: [[u, v] for u in range(1, n + 1) for v in range(1, n + 1) if u != v]
    jobs += [(len(jobs) + i, n, full(n), 0) for i, n in enumerate([2, 3, 4, 5] * lib.pick(60, 500) + [7, 9, 11] * lib.pick(2, 20))]
    jobs += [(len(jobs) + i, 2 + i % 2, full(2 + i % 2), rows) for i, rows in enumerate([100, 300, 600, 1100, 2100, 3000] * lib.pick(5, 40))]
    recs = lib.pmap(nc.corr, jobs)
    r.evaluations = sum(len(x["obs"]) for x in recs)
    r.nontrivial = sum(1 for x in recs if x["arcs"])
    r.samples = recs[-2:]
    r.judge("NumJudge", recs, describe=nc.describe)
    return r.finish()
