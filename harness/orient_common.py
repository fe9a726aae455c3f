"""The collider step, single rule passes and the whole orientation phase in the real code (C08, C09, C10)."""
import itertools
import random

import graphs_common as gc
import lib


def pairs(n):
    return [(i, j) for j in range(2, n + 1) for i in range(1, j)]


def decode(n, ds):
    """digits of Orientation.tla -> skeleton arcs and separating sets"""
    skel, sep = [], []
    for (u, v), d in zip(pairs(n), ds):
        if d == 0:
            skel += [[u, v], [v, u]]
        else:
            others = [w for w in range(1, n + 1) if w not in (u, v)]
            sep.append([u, v, [w for k, w in enumerate(others) if (d - 1) >> k & 1]])
    return skel, sep


def some_inputs(rng, n, count):
    """digits: random skeletons with random separating sets, biased to small sets and to common neighbours"""
    res = []
    m = 2 ** (n - 2)
    for c in range(count):
        dens = rng.choice([0.3, 0.5, 0.65, 0.8] if n < 7 else [0.4, 0.7, 0.85, 0.92])
        style = rng.choice(["any", "empty", "mixed"])
        ds = []
        for _ in pairs(n):
            if rng.random() < dens:
                ds.append(0)
            elif style == "empty" or (style == "mixed" and rng.random() < 0.5):
                ds.append(1)
            else:
                ds.append(1 + rng.randrange(m))
        res.append(ds)
    return res


# the patterns of the rules: (nodes, edges): which edges must be there to direct 1 - 2 into 1 -> 2
PATTERNS = {
    1: (3, {(1, 2): "u", (3, 1): "d", (2, 3): "n"}),
    2: (3, {(1, 2): "u", (1, 3): "d", (3, 2): "d"}),
    3: (4, {(1, 2): "u", (1, 3): "u", (1, 4): "u", (3, 2): "d", (4, 2): "d", (3, 4): "n"}),
    4: (4, {(1, 2): "u", (1, 3): "u", (1, 4): "u", (3, 4): "d", (4, 2): "d", (2, 3): "n"}),
}


def overlay(rng, n, want, fill):
    """graphs that contain the given patterns (rule, node mapping), the other pairs random"""
    kind = {}
    for rule, m in want:
        for (a, b), k in PATTERNS[rule][1].items():
            u, v = m[a], m[b]
            if k == "d":
                x = "f" if u < v else "b"
            else:
                x = k
            p = (min(u, v), max(u, v))
            if kind.get(p, x) != x:
                return None
            kind[p] = x
    res = []
    for u, v in pairs(n):
        x = kind.get((u, v)) or rng.choices("nufb", fill)[0]
        res += {"n": [], "u": [[u, v], [v, u]], "f": [[u, v]], "b": [[v, u]]}[x]
    return res


def overlays(rng, n, rule, count):
    """patterns of the rule on an edge, often several of them, also contradicting ones"""
    res = []
    while len(res) < count:
        nodes = list(range(1, n + 1))
        rng.shuffle(nodes)
        want = []
        k = PATTERNS[rule][0]
        style = rng.choice(["one", "both", "both", "two"])
        a, b, rest = nodes[0], nodes[1], nodes[2:]

        def put(x, y):
            r = rng.sample(rest, k - 2)
            want.append((rule, dict(zip(range(1, k + 1), [x, y] + r))))
        try:
            put(a, b)
            if style == "both":
                put(b, a)
            elif style == "two":
                put(a, b) if rng.random() < 0.5 else put(rest[0], rest[1])
        except (ValueError, IndexError):
            continue
        if any(len(set(m.values())) < len(m) for _, m in want):
            continue
        g = overlay(rng, n, want, rng.choice([(6, 2, 1, 1), (1, 6, 1, 1), (2, 3, 2, 2), (8, 1, 0, 0)]))
        if g is not None:
            res.append(g)
    return res


def crowds(rng, rule, count):
    """one pattern of the rule among many nodes that nearly fit it: copies of its nodes with one relation changed"""
    res = []
    k, pat = PATTERNS[rule]
    rel = {}
    for (a, b), x in pat.items():
        rel[(a, b)] = "f" if x == "d" else x
        rel[(b, a)] = "b" if x == "d" else x
    for _ in range(count):
        n = rng.choice([7, 8, 9])
        roles = list(range(1, k + 1)) + [rng.randrange(3, k + 1) for _ in range(n - k)]
        spoil = {w: rng.choice([1, 2]) for w in range(k + 1, n + 1)}  # the relation to this node is changed
        order = list(range(1, n + 1))
        rng.shuffle(order)
        rest = rng.choice([(1, 0, 0, 0), (0, 1, 0, 0), (1, 1, 1, 1), (0, 3, 1, 1)])
        arcs = []
        for i, j in itertools.combinations(range(1, n + 1), 2):
            x = rel.get((roles[i - 1], roles[j - 1]))
            if x is None or (i > k and j > k) or (rng.random() < 0.4 and i > 2 and j > k):
                x = rng.choices("nufb", rest)[0]
            elif spoil.get(j) == i or (i > 2 and j > k and rng.random() < 0.5):
                x = rng.choice([y for y in "nufb" if y != x])
            u, v = order[i - 1], order[j - 1]
            arcs += {"n": [], "u": [[u, v], [v, u]], "f": [[u, v]], "b": [[v, u]]}[x]
        res.append((n, arcs))
    return res


def fans(rng, rule, count):
    """the pattern of the rule several times at once, sharing all but one of its nodes"""
    res = []
    k, pat = PATTERNS[rule]
    rel = {}
    for (a, b), x in pat.items():
        rel[(a, b)] = "f" if x == "d" else x
        rel[(b, a)] = "b" if x == "d" else x
    for _ in range(count):
        n = k + rng.choice([3, 4, 5])
        roles = list(range(1, k + 1)) + [rng.randrange(1, k + 1)] * (n - k)
        among = rng.choice("nnuf")
        order = list(range(1, n + 1))
        rng.shuffle(order)
        arcs = []
        for i, j in itertools.combinations(range(1, n + 1), 2):
            x = among if roles[i - 1] == roles[j - 1] else rel.get((roles[i - 1], roles[j - 1]), "n")
            u, v = order[i - 1], order[j - 1]
            arcs += {"n": [], "u": [[u, v], [v, u]], "f": [[u, v]], "b": [[v, u]]}[x]
        res.append((n, arcs))
    return res


def model_for(n, seed, steps):
    from causy.edge_types import DirectedEdge, UndirectedEdge
    from causy.graph_model import graph_model_factory
    from causy.models import Algorithm

    rnd = random.Random(seed)
    m = graph_model_factory(Algorithm(name="orient", pipeline_steps=steps, edge_types=[DirectedEdge(), UndirectedEdge()], extensions=[]))()
    ids = gc.names(n, rnd)
    keys = list(ids.values())
    rnd.shuffle(keys)
    rows = [{k: rnd.random() for k in keys} for _ in range(3)]
    m.create_graph_from_data(rows)
    m.create_all_possible_edges()
    if rnd.random() < 0.5:  # names say nothing
        other = rnd.sample(keys, len(keys))
        for k, o in zip(keys, other):
            m.graph.nodes[k].name = o
    for u, v in itertools.combinations(ids.values(), 2):
        m.graph.update_edge(m.graph.nodes[u], m.graph.nodes[v], metadata={"tag": "-".join(sorted((u, v)))})
    back = {v: k for k, v in ids.items()}
    return m, ids, back, [back[i] for i in m.graph.nodes]


def final(m, ids, back):
    g = m.graph
    arcs, types = [], []
    for u in ids.values():
        for v in ids.values():
            if u != v and g.directed_edge_exists(g.nodes[u], g.nodes[v]):
                arcs.append([back[u], back[v]])
    for e in g.retrieve_edges():
        ok = (e.metadata or {}).get("tag") == "-".join(sorted((e.u.id, e.v.id)))
        types.append([back[e.u.id], back[e.v.id], e.edge_type.name, "kept" if ok else "lost"])
    return arcs, types


def do_pass(arg):
    idx, n, arcs, rule = arg
    from causy.causal_discovery.constraint.orientation_rules import pc as R
    from causy.edge_types import DirectedEdge

    seed = lib.subseed("pass", idx)
    rnd = random.Random(seed)
    step = {1: R.NonColliderTest, 2: R.FurtherOrientTripleTest, 3: R.OrientQuadrupleTest, 4: R.FurtherOrientQuadrupleTest}[rule]
    rec = {"kind": "pass", "n": n, "before": arcs, "rule": rule, "out": "ok", "final": [], "types": []}
    have = {tuple(a) for a in arcs}

    def go():
        m, ids, back, order = model_for(n, seed, [step()])
        g = m.graph
        purge = rnd.random() < 0.5
        for u, v in pairs(n):
            U, V = g.nodes[ids[u]], g.nodes[ids[v]]
            soft = rnd.random() < 0.5
            if (u, v) in have and (v, u) in have:
                continue
            if (u, v) not in have and (v, u) not in have:
                g.remove_edge(U, V, soft_delete=soft)
                continue
            if (u, v) not in have:
                U, V = V, U
            g.remove_directed_edge(V, U, soft_delete=soft)
            g.update_directed_edge(U, V, edge_type=DirectedEdge())
        if purge:
            g.purge_soft_deleted_edges()
        if rnd.random() < 0.5:
            m.execute_pipeline_steps()
        else:
            m.execute_pipeline_step(m.algorithm.pipeline_steps[0])
        rec["final"], rec["types"] = final(m, ids, back)

    rec["out"], val = lib.call(go, seconds=60)
    if rec["out"] != "ok":
        rec["error"] = repr(val)[:200]
    return rec


def phase_steps(kind, strat):
    from causy.causal_discovery.constraint.algorithms.pc import PC_ORIENTATION_RULES
    from causy.causal_discovery.constraint.orientation_rules import pc as R

    S = R.ColliderTestConflictResolutionStrategies
    first = PC_ORIENTATION_RULES[0]
    if strat == "KEEP_LAST" or kind == "colliders":
        first = R.ColliderTest(conflict_resolution_strategy=S(strat))
    return [first] if kind == "colliders" else [first] + PC_ORIENTATION_RULES[1:]


RULE = {"ColliderTest": 0, "NonColliderTest": 1, "FurtherOrientTripleTest": 2, "OrientQuadrupleTest": 3, "FurtherOrientQuadrupleTest": 4}


def do_phase(arg):
    idx, kind, n, skel, sep, strat = arg
    import orient_steps as O

    seed = lib.subseed("phase", kind, idx)
    rnd = random.Random(seed)
    rec = {"kind": kind, "n": n, "skel": skel, "sep": sep, "strat": strat, "out": "ok", "order": [], "final": [], "types": [], "passes": []}

    def go():
        m, ids, back, order = model_for(n, seed, [O.CutStep(generator=O.CutGenerator())] + phase_steps(kind, strat))
        rec["order"] = order
        cuts = []
        for u, v, z in sep:
            if rnd.random() < 0.5:
                u, v = v, u
            z = list(z)
            rnd.shuffle(z)
            cuts.append((ids[u], ids[v], [ids[w] for w in z]))
        rnd.shuffle(cuts)
        O.CUTS[:] = cuts
        m.execute_pipeline_steps()
        rec["final"], rec["types"] = final(m, ids, back)
        for h in m.graph.action_history[1:]:
            for s in h.steps or [h]:
                acts = {"REMOVE_EDGE_DIRECTED": [], "RESTORE_EDGE_DIRECTED": []}
                for a in s.actions:
                    acts.setdefault(a.action.value, []).append([back[a.u.id], back[a.v.id]])
                net = {}
                for a in s.actions:
                    net[(back[a.u.id], back[a.v.id])] = a.action.value
                rec["passes"].append({"rule": RULE.get(s.name.split(".")[-1], 9),
                                      "removed": [list(k) for k, x in net.items() if x == "REMOVE_EDGE_DIRECTED"],
                                      "restored": [list(k) for k, x in net.items() if x != "REMOVE_EDGE_DIRECTED"]})

    rec["out"], val = lib.call(go, seconds=60)
    if rec["out"] != "ok":
        rec["error"] = repr(val)[:200]
    return rec


def describe(r):
    k = {x: r[x] for x in ("kind", "n", "before", "rule", "skel", "sep", "order", "strat", "out", "error", "final") if x in r}
    return str(k)[:700]


def model(run):
    run.model("OrientModel", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS N = 4\nStrats = {\"KEEP_FIRST\", \"KEEP_LAST\"}\n"
              "INVARIANTS SkeletonKept DoneIsFix\nPROPERTIES NeverFlips PassIsOk Ends\n")


def inputs(run, quick, thorough):
    """(n, digits): exhaustive for n <= 3 (and 4 if thorough), random above"""
    res = [(n, list(d)) for n in (2, 3) for d in itertools.product(range(2 ** (n - 2) + 1), repeat=len(pairs(n)))]
    all4 = [(4, list(d)) for d in itertools.product(range(5), repeat=6)]
    q4, q5, q6 = lib.pick(quick, thorough)
    res += all4 if q4 is None else run.rng.sample(all4, q4)
    res += [(5, d) for d in some_inputs(run.rng, 5, q5)] + [(6, d) for d in some_inputs(run.rng, 6, q6)]
    for n in (7, 8, 9):
        res += [(n, d) for d in some_inputs(run.rng, n, q6 // 10)]
    return res
