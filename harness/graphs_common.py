"""Graphs enumerated by TLC (GraphGen.tla) and their construction in the real code."""
import itertools
import json
import os
import random

import lib

POOL = ["X", "a b", "Zeta", "n-1", "10", "2", "äö", "x_1", "A", "é", "node", "B", "x", "0"]


def theory(run, n=None):
    """the graph theory of Graphs.tla is checked against its own definitions"""
    n = n or 4
    run.model("TheoryCheck", f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT N = {n}\n"
              "INVARIANTS MoralIsPaths MeekIsUnion SameSeparations Rule4Idle\n")


def expand(run, reqs, name):
    """reqs: list of {n, ds, kind}; TLC says which graphs they are"""
    out = os.path.join(run.build, name + ".graphs")
    open(out, "w").close()
    before = run.traces
    run.judge("GraphGen", reqs, name=name, env={"GENOUT": out})
    run.traces = before
    run.states += len(reqs)
    run.transitions += len(reqs)
    with open(out) as f:
        gs = [json.loads(json.loads(l)) if l.startswith('"') else json.loads(l) for l in f if l.strip()]
    return sorted(gs, key=lambda g: (g["n"], g["ds"]))


def all_digits(n, base):
    return [list(d) for d in itertools.product(range(base), repeat=n * (n - 1) // 2)]


def some_digits(rng, n, weights, count):
    k = n * (n - 1) // 2
    base = list(range(len(weights)))
    return [rng.choices(base, weights, k=k) for _ in range(count)]


def some_dags(rng, n, count, density=(0.3, 0.5, 0.7, 0.95)):
    """digits of random DAGs: a random order decides the direction of each edge"""
    res = []
    pairs = [(i, j) for j in range(2, n + 1) for i in range(1, j)]
    for c in range(count):
        order = list(range(1, n + 1))
        rng.shuffle(order)
        d = density[c % len(density)]
        res.append([0 if rng.random() > d else (1 if order.index(p[0]) < order.index(p[1]) else 2) for p in pairs])
    return res


def classes(n):
    """one DAG (set of arcs u < v) of every isomorphism class"""
    pairs = [(i, j) for j in range(2, n + 1) for i in range(1, j)]
    perms = list(itertools.permutations(range(n)))
    seen, res = set(), []
    for bits in itertools.product((0, 1), repeat=len(pairs)):
        arcs = [p for p, b in zip(pairs, bits) if b]
        deg = sorted((sum(a == k for a, _ in arcs), sum(b == k for _, b in arcs)) for k in range(1, n + 1))
        key = (tuple(deg), min(sum(1 << (q[a - 1] * n + q[b - 1]) for a, b in arcs) for q in perms))
        if key not in seen:
            seen.add(key)
            res.append(arcs)
    return res


def relabelled(rng, n, arcs):
    """digits of the DAG with the nodes renamed at random"""
    order = list(range(1, n + 1))
    rng.shuffle(order)
    have = {(order[u - 1], order[v - 1]) for u, v in arcs}
    pairs = [(i, j) for j in range(2, n + 1) for i in range(1, j)]
    return [1 if p in have else 2 if p[::-1] in have else 0 for p in pairs]


def collider_tails(rng, n, count, more=0.12):
    """DAGs with a collider whose effects run down a chain: u -> c <- v, c -> d1 -> d2 -> ..., and a few more edges"""
    res = []
    for _ in range(count):
        arcs = {(1, 3), (2, 3)} | {(k, k + 1) for k in range(3, n)}
        if rng.random() < 0.5:  # the path enters the collider over another node
            arcs = {(1, 2), (2, 4), (3, 4)} | {(k, k + 1) for k in range(4, n)}
        for p in itertools.combinations(range(1, n + 1), 2):
            if p not in arcs and p != (1, 2) and rng.random() < more:
                arcs.add(p)
        res.append(relabelled(rng, n, sorted(arcs)))
    return res


def long_graphs(rng, n, count, mixed):
    """digits of sparse graphs with long paths: trees that are almost chains, most edges along the chain, and up to
    three more edges; mixed: some edges undirected or deleted, and cycles"""
    res = []
    for c in range(count):
        order = list(range(1, n + 1))
        rng.shuffle(order)
        keep = rng.choice([1.0, 0.9, 0.75])
        along = rng.choice([1.0, 0.9, 0.6, 0.3])
        kind = {}

        def put(i, j, fwd):  # positions i < j in the order
            u, v = order[i], order[j]
            if not fwd:
                u, v = v, u
            kind[(min(u, v), max(u, v))] = 1 if u < v else 2
        # a direction per position pair may go against the order: trees stay acyclic
        for j in range(1, n):
            put(j - 1 if rng.random() < keep else rng.randrange(j), j, rng.random() < along)
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            i, j = sorted(rng.sample(range(n), 2))
            if (min(order[i], order[j]), max(order[i], order[j])) not in kind and (mixed or along == 1.0):
                put(i, j, mixed and rng.random() < 0.5 or not mixed)
        if mixed:
            for p in list(kind):
                if rng.random() < 0.15:
                    kind[p] = rng.choice([3, 3, 4, 5, 6])
            for p in itertools.combinations(range(1, n + 1), 2):
                if p not in kind and rng.random() < 0.03:
                    kind[p] = 4
        res.append([kind.get((i, j), 0) for j in range(2, n + 1) for i in range(1, j)])
    return res


def names(n, rnd):
    pool = POOL + [f"v{i}" for i in range(n - len(POOL))]
    return dict(zip(range(1, n + 1), rnd.sample(pool, n)))


def build(n, live, soft, seed, values=None, directed_type=True):
    """A real graph with these live arcs and arcs marked as deleted; edges are put in in random order and in
    different ways; returns (manager, id of each node)."""
    from causy.graph import GraphManager, Graph
    from causy.edge_types import DirectedEdge, UndirectedEdge

    rnd = random.Random(seed)

    class G(Graph, DirectedEdge.GraphAccessMixin):
        pass

    g = GraphManager(graph_class=G)
    ids = names(n, rnd)
    order = list(range(1, n + 1))
    rnd.shuffle(order)
    called = rnd.sample(order, n) if rnd.random() < 0.5 else order
    for k, o in zip(order, called):
        g.add_node(("name " if rnd.random() < 0.3 else "") + ids[o], values[k] if values else [1.0, 2.0], id_=ids[k])
    live = {tuple(a) for a in live}
    soft = {tuple(a) for a in soft}
    N = lambda k: g.nodes[ids[k]]
    pairs = sorted({tuple(sorted(a)) for a in live | soft})
    rnd.shuffle(pairs)
    for u, v in pairs:
        if rnd.random() < 0.5:
            u, v = v, u
        f, b = (u, v), (v, u)
        if f in live and b in live:
            g.add_edge(N(u), N(v), {})
            continue
        if f in soft and b in soft:
            g.add_edge(N(u), N(v), {})
            g.remove_edge(N(u), N(v), soft_delete=True)
            continue
        if f not in live:
            u, v, f, b = v, u, b, f
        # f is live, b is not
        if b in soft:
            g.add_edge(N(u), N(v), {})
            g.remove_directed_edge(N(v), N(u), soft_delete=True)
            g.update_directed_edge(N(u), N(v), edge_type=DirectedEdge())
        elif rnd.random() < 0.3:
            g.add_edge(N(u), N(v), {})
            g.remove_directed_edge(N(v), N(u))
            g.update_directed_edge(N(u), N(v), edge_type=DirectedEdge())
        else:
            g.add_directed_edge(N(u), N(v), {})
    # edges that were there once and are gone
    if rnd.random() < 0.3:
        for u in range(1, n + 1):
            for v in range(1, u):
                if (u, v) not in live | soft and (v, u) not in live | soft and rnd.random() < 0.3:
                    g.add_edge(N(u), N(v), {})
                    g.remove_edge(N(u), N(v))
    return g, ids
