import lib
import orient_common as oc


def conflicts(rng, rule, count):
    """inputs whose collider step gives a pattern of a rule in both directions on one edge (6 nodes): the directed
    edges of the overlaid patterns come from v-structures"""
    res = []
    while len(res) < count:
        nodes = list(range(1, 7))
        rng.shuffle(nodes)
        a, b, c, d, e, f = nodes
        # c -> b <- d and e -> a <- f, a - b, a - c, a - d, b - e, b - f
        adj = {frozenset(x) for x in [(a, b), (a, c), (a, d), (b, e), (b, f), (c, b), (d, b), (e, a), (f, a)]}
        for x in (c, d):
            for y in (e, f):
                if rng.random() < 0.9:
                    adj.add(frozenset((x, y)))
        skel = [list(p) for s in adj for p in (tuple(s), tuple(s)[::-1])]
        sep = []
        for u, v in oc.pairs(6):
            if frozenset((u, v)) in adj:
                continue
            if {u, v} == {c, d}:
                z = [w for w in nodes if w not in (u, v, b)]
            elif {u, v} == {e, f}:
                z = [w for w in nodes if w not in (u, v, a)]
            else:
                z = [w for w in nodes if w not in (u, v)]
            sep.append([u, v, z])
        res.append((6, skel, sep))
    return res


def chains(rng, lengths):
    """a collider at one end of a long chain: the directions have to travel along the whole of it"""
    res = []
    for n in lengths:
        nodes = list(range(1, n + 1))
        rng.shuffle(nodes)
        a, b = nodes[:2]
        line = nodes[2:]
        adj = {frozenset(x) for x in [(a, line[0]), (b, line[0])] + list(zip(line, line[1:]))}
        skel = [list(p) for s in adj for p in (tuple(s), tuple(s)[::-1])]
        sep = [[u, v, [] if {u, v} == {a, b} else [w for w in nodes if w not in (u, v)]] for u, v in oc.pairs(n) if frozenset((u, v)) not in adj]
        res.append((n, skel, sep))
    return res


def run():
    r = lib.Run("C10", "model_checking",
                "the shipped orientation phase (collider step and rule loop) on every skeleton with every family of separating sets for 2 and 3 nodes (4 in thorough, sampled in quick), random ones with 5 to 9 and constructed contradictions, both collider strategies; non-trivial: a rule directed an edge")
    oc.model(r)
    ins = [(n, *oc.decode(n, d)) for n, d in oc.inputs(r, (1500, 900, 400), (None, 8000, 4000))]
    ins += conflicts(r.rng, 3, lib.pick(20, 100))
    ins += chains(r.rng, lib.pick((8, 10, 12, 13, 14, 15, 16, 16), (9, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 20)))
    jobs = [(i, "phase", *x, r.rng.choice(["KEEP_FIRST", "KEEP_FIRST", "KEEP_LAST"])) for i, x in enumerate(ins)]
    recs = lib.pmap(oc.do_phase, jobs)
    r.evaluations = len(recs)
    r.nontrivial = sum(1 for x in recs if any(p["rule"] and p["removed"] for p in x["passes"]))
    r.samples = [recs[-1], recs[len(recs) // 2]]
    r.judge("OrientJudge", recs, describe=oc.describe)
    return r.finish()
