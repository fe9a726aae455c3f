import random

import graphs_common as gc
import lib


def observe(arg):
    idx, g = arg
    from causy.generators import (AllCombinationsGenerator, PairsWithEdgesInBetweenGenerator, PairsWithNeighboursGenerator, RandomSampleGenerator)
    from causy.models import ComparisonSettings

    seed = lib.subseed("gen", idx)
    rnd = random.Random(seed)
    n = g["n"]
    m, ids = gc.build(n, g["live"], g["soft"], seed)
    back = {v: k for k, v in ids.items()}
    half = any(d in (5, 6) for d in g["ds"])
    cases = []
    many = n > 6  # few nodes per combination only
    for mn, mx in [(1, 2), (2, 3), (n - 1, n), (n, 0)] if many else [(1, 2), (2, 2), (2, 0), (3, 0), (0, 0), (2, n + 3), (n, n), (n + 1, 0), (3, 2), (1, n - 1 if n > 1 else 1)]:
        cases.append(("all", mn, mx, {}))
    cases.append(("pairs", 2, 2, {}))
    for c in (1, 2, 3, 100) if not many else (3, 10, 50, 100):
        cases.append(("pairs", 2, 2, {"chunked": True, "chunk_size": c}))
    if many:
        cases.append(("pairs", 2, 2, {"chunked": True}))
    if not half and (n < 9 or len(g["live"]) < 3 * n):
        for mn, mx in [(2, 2), (2, 3), (3, 4)] if many else [(2, 2), (2, 0), (3, 0), (4, 0), (3, 4), (n, n + 2), (4, 3)]:
            if mn < 2:
                continue
            for ch in (True, False):
                for sh in (True, False):
                    cases.append(("neigh", mn, mx, {"chunked": ch, "shuffle_combinations": sh}))
    recs = []
    for kind, mn, mx, opt in cases:
        if rnd.random() > 0.45:
            continue
        cs = ComparisonSettings(min=mn, max=mx)
        graph = rnd.choice([m, m.graph])
        r = {"n": n, "live": g["live"], "soft": g["soft"], "gen": kind, "min": mn, "max": mx, "opt": opt, "chunk": opt.get("chunk_size", 0) if opt.get("chunked") else 0, "sample": False, "nth": -1,
             "out": "ok", "got": [], "chunks": []}
        if rnd.random() < 0.2:
            r["nth"] = rnd.choice([0, 0, 1, 3])
            r["sample"] = r["nth"] != 0

        def go():
            G = {"all": AllCombinationsGenerator, "pairs": PairsWithEdgesInBetweenGenerator, "neigh": PairsWithNeighboursGenerator}[kind]
            gen = G(comparison_settings=cs, **opt) if kind != "pairs" else G(**opt)
            if r["nth"] >= 0:
                gen = RandomSampleGenerator(generator=gen, every_nth=r["nth"])
            random.seed(seed)
            got, chunks = [], []
            for c in gen.generate(graph, None):
                if opt.get("chunked"):
                    chunks.append(len(c))
                    got.extend([list(x) for x in c])
                else:
                    got.append(list(c))
            r["got"] = [[back[x] for x in c] for c in got]
            r["chunks"] = chunks

        r["out"] = lib.call(go)[0]
        recs.append(r)
    return recs


def describe(r):
    return f"{r['gen']} min={r['min']} max={r['max']} {r['opt']} nth={r['nth']} n={r['n']} live={r['live']} deleted={r['soft']} got={r['got'][:12]} {r['out']}"


def run():
    r = lib.Run("C14", "model_checking",
                "graphs with 1 to 12 nodes with directed, undirected, deleted and half deleted edges (all with 3 nodes, sampled above) times generator settings (bounds, chunking, shuffling, sampling); non-trivial: something was yielded")
    reqs = [{"n": n, "ds": d, "kind": "mixed"} for n in (1, 2, 3) for d in gc.all_digits(n, 7)]
    for n, c in ((4, lib.pick(250, 4000)), (5, lib.pick(150, 2000)), (6, lib.pick(40, 500))):
        reqs += [{"n": n, "ds": d, "kind": "mixed"} for d in gc.some_digits(r.rng, n, [2, 1, 1, 4, 1, 0.2, 0.2] if n < 6 else [4, 1, 1, 4, 1], c)]
        reqs += [{"n": n, "ds": d, "kind": "mixed"} for d in gc.some_digits(r.rng, n, [2, 0, 0, 4, 1], c // 3)]
    for n, c in ((7, lib.pick(12, 150)), (8, lib.pick(12, 150))):
        reqs += [{"n": n, "ds": d, "kind": "mixed"} for d in gc.some_digits(r.rng, n, [4, 1, 1, 4, 1], c)]
    for n in (9, 11, 12):  # long lists of edges, and sparse graphs
        reqs += [{"n": n, "ds": d, "kind": "mixed"} for d in gc.some_digits(r.rng, n, [1, 1, 1, 12, 1], lib.pick(4, 40)) + gc.long_graphs(r.rng, n, lib.pick(6, 60), True)]
    gs = gc.expand(r, reqs, "graphs")
    recs = [x for rs in lib.pmap(observe, list(enumerate(gs))) for x in rs]
    r.evaluations = len(recs)
    r.nontrivial = sum(1 for x in recs if x["got"])
    r.samples = [recs[len(recs) // 2], recs[-1]]
    r.judge("GeneratorsJudge", recs, describe=describe)
    return r.finish()
