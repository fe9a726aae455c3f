import itertools
import random

import graphs_common as gc
import lib


def observe(arg):
    idx, g = arg
    seed = lib.subseed("paths", idx)
    rnd = random.Random(seed)
    n = g["n"]
    m, ids = gc.build(n, g["live"], g["soft"], seed)
    back = {v: k for k, v in ids.items()}
    pick = lambda k: ids[k] if rnd.random() < 0.5 else m.nodes[ids[k]]
    pairs, nodes = [], []
    for u in range(1, n + 1):
        who = rnd.choice([m, m.graph])
        out, d = lib.call(who.descendants_of_node, pick(u), seconds=10)
        nodes.append({"u": u, "out": out, "desc": [back[x.id] for x in d] if out == "ok" else []})
        for v in range(1, n + 1):
            if u == v:
                continue
            r = {"u": u, "v": v, "out": "ok", "exists": False, "dpaths": [], "upaths": []}
            who = rnd.choice([m, m.graph])

            def ex():
                r["exists"] = bool(who.directed_path_exists(pick(u), pick(v)))
                for p in m.graph.directed_paths(pick(u), pick(v)):
                    assert all(a[1].id == b[0].id for a, b in zip(p, p[1:])), "not a path"
                    r["dpaths"].append([back[p[0][0].id]] + [back[e[1].id] for e in p])
                for p in who.all_paths_on_underlying_undirected_graph(pick(u), pick(v)):
                    r["upaths"].append([back[x.id] for x in p])

            r["out"] = lib.call(ex, seconds=10)[0]
            pairs.append(r)
    return {"n": n, "live": g["live"], "soft": g["soft"], "pairs": pairs, "nodes": nodes}


def describe(r):
    bad = [p for p in r["pairs"] + r["nodes"] if p["out"] != "ok"]
    return f"n={r['n']} live={r['live']} deleted={r['soft']} {bad[:1]}"


def run():
    r = lib.Run("C13", "model_checking",
                "all graphs with 2 and 3 nodes where each pair is one of: absent, directed, undirected, deleted, half deleted; all cyclic and acyclic graphs without deletions with 4 nodes sampled, random ones with 4 to 6 nodes, sparse ones with long paths with 8 to 14 nodes; non-trivial: at least two live arcs")
    reqs = [{"n": n, "ds": d, "kind": "mixed"} for n in (1, 2, 3) for d in gc.all_digits(n, 7)]
    d4 = gc.all_digits(4, 4)
    reqs += [{"n": 4, "ds": d, "kind": "mixed"} for d in (d4 if lib.THOROUGH else r.rng.sample(d4, 1200))]
    w = [3, 2, 2, 2, 1, 1, 1]
    for n, c in ((4, lib.pick(600, 6000)), (5, lib.pick(200, 2500)), (6, lib.pick(25, 300))):
        reqs += [{"n": n, "ds": d, "kind": "mixed"} for d in gc.some_digits(r.rng, n, w if n < 6 else [5, 2, 2, 1, 1, 1, 1], c)]
    for n in range(8, 15):
        reqs += [{"n": n, "ds": d, "kind": "mixed"} for d in gc.long_graphs(r.rng, n, lib.pick(10, 100), True)]
    gs = gc.expand(r, reqs, "graphs")
    recs = lib.pmap(observe, list(enumerate(gs)))
    r.evaluations = sum(len(x["pairs"]) * 3 + len(x["nodes"]) for x in recs)
    r.nontrivial = sum(1 for x in recs if len(x["live"]) > 1)
    r.samples = [recs[len(recs) // 2]]
    r.judge("PathsJudge", recs, describe=describe)
    return r.finish()
