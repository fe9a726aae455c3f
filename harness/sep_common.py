"""d-separation queries against the real graph (C11, C12)."""
import itertools
import random

import graphs_common as gc
import lib


def ask(fn, u, v, z):
    out, val = lib.call(fn, u, v, z)
    if out == "ok":
        return "true" if val is True else "false" if val is False else "other"
    return "rejected" if out.startswith("exc:ValueError") else out


def observe(arg):
    idx, g, which, limit = arg
    seed = lib.subseed("sep", which, idx)
    rnd = random.Random(seed)
    n = g["n"]
    arcs = g["dag"] if which == "dag" else g["cpdag"]
    extra = []
    if rnd.random() < 0.35:  # deleted edges must not matter
        have = {tuple(sorted(a)) for a in arcs}
        extra = [a for p in itertools.combinations(range(1, n + 1), 2) if p not in have and rnd.random() < 0.4 for a in (p, p[::-1])]
    m, ids = gc.build(n, arcs, extra, seed)
    qs = []
    if n > 6:  # many queries of far apart nodes, with few and with many nodes given
        for _ in range(limit):
            u, v = rnd.sample(range(1, n + 1), 2)
            rest = [k for k in range(1, n + 1) if k not in (u, v)]
            qs.append((u, v, rnd.sample(rest, min(len(rest), rnd.choice([0, 1, 1, 1, 2, 2, 3, 4, n])))))
    for u, v in itertools.combinations(range(1, n + 1), 2) if n <= 6 else []:
        for k in range(0, n + 1):
            for z in itertools.combinations(range(1, n + 1), k):
                if (u in z or v in z) and (k > 2 or rnd.random() < 0.7):
                    continue
                qs.append((u, v, list(z)))
    if limit and len(qs) > limit:
        qs = rnd.sample(qs, limit)
    res = []
    for u, v, z in qs:
        ans = []
        zz = list(z)
        rnd.shuffle(zz)
        for who in (m, m.graph):
            fn = who.are_nodes_d_separated_dag if which == "dag" else who.are_nodes_d_separated_cpdag
            style = rnd.choice(["obj", "id", "mix"])
            pick = {"obj": lambda k: m.nodes[ids[k]], "id": lambda k: ids[k],
                    "mix": lambda k: ids[k] if rnd.random() < 0.5 else m.nodes[ids[k]]}[style]
            a, b = (u, v) if who is m else (v, u)
            ans.append(ask(fn, pick(a), pick(b), [pick(k) for k in zz]))
        res.append([u, v, z, ans])
    return {"n": n, "dag": g["dag"], "arcs": arcs, "deleted": extra, "q": res}


def describe(r):
    return f"n={r['n']} dag={r['dag']} queried graph={r['arcs']} deleted={r['deleted']}"


def check(run, which):
    gc.theory(run)
    reqs = [{"n": n, "ds": d, "kind": "dag"} for n in (2, 3, 4) for d in gc.all_digits(n, 3)]
    full = [gc.relabelled(run.rng, 5, a) for a in gc.classes(5) for _ in range(lib.pick(1, 10))]
    reqs += [{"n": 5, "ds": d, "kind": "dag"} for d in full]
    some = gc.some_dags(run.rng, 5, lib.pick(200, 8000)) + gc.some_dags(run.rng, 6, lib.pick(60, 3000)) + gc.collider_tails(run.rng, 6, lib.pick(60, 1500))
    for n in range(8, 14):  # long paths, long tails of colliders
        some += gc.long_graphs(run.rng, n, lib.pick(10, 100), False) + gc.collider_tails(run.rng, n, lib.pick(6, 60), 0.6 / n)
    size = {n * (n - 1) // 2: n for n in range(2, 15)}
    reqs += [{"n": size[len(d)], "ds": d, "kind": "dag"} for d in some]
    gs = gc.expand(run, reqs, "graphs")
    full = {tuple(d) for d in full}
    jobs = [(i, g, which, None if g["n"] < 5 or tuple(g["ds"]) in full else {5: 40, 6: 60}.get(g["n"], 120)) for i, g in enumerate(gs)]
    recs = lib.pmap(observe, jobs)
    run.evaluations = sum(len(r["q"]) for r in recs)
    run.nontrivial = sum(1 for r in recs for q in r["q"] if r["arcs"] and q[3][0] in ("true", "false"))
    run.samples = [recs[len(recs) // 2], recs[-1]]
    run.judge("SeparationJudge", recs, describe=describe)
