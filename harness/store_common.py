"""Drives the real graph through edit histories generated from GraphStore.tla (C01, C02)."""
import json
import os
import random

import lib

TYPES = '{"UNDIRECTED", "DIRECTED", "BIDIRECTED"}'
SIZES = (5, 8)  # ids there are to ask for: 5, or 8 for the larger graphs
JUDGE_CONST = {n: f'CONSTANTS Ids = {{{", ".join(map(str, range(1, n + 1)))}}}\n Types = ' + TYPES + '\n Vals = {1, 2, 3}\n' for n in SIZES}

STYLE = {"obj": 0, "id": 1}


def edge_types():
    from causy.edge_types import DirectedEdge, UndirectedEdge, BiDirectedEdge

    return {"DIRECTED": DirectedEdge(), "UNDIRECTED": UndirectedEdge(), "BIDIRECTED": BiDirectedEdge()}


def names(seed, n):
    """ids of the nodes in the implementation: arbitrary strings, not in alphabetical order"""
    r = random.Random(seed)
    pool = ["X", "a b", "Zeta", "n-1", "10", "2", "äö", "x_1", "A", "é"]
    return dict(zip(range(1, n + 1), r.sample(pool, n)))


class Driver:
    def __init__(self, seed, n):
        from causy.graph import GraphManager, Graph, Node
        from causy.edge_types import DirectedEdge

        self.T = edge_types()
        self.ids = names(seed, n)
        self.back = {v: k for k, v in self.ids.items()}

        class G(Graph, DirectedEdge.GraphAccessMixin):
            pass

        self.g = GraphManager(graph_class=G)
        self.made = {}  # name and values of the nodes as they were added
        import torch

        self.ghost = {k: Node(name="ghost", id=i, values=torch.tensor([0.0])) for k, i in self.ids.items()}
        self.rnd = random.Random(seed)
        # how the values of the specification look here; one of them may be the empty dictionary
        self.values = {0: {}, **{m: self.rnd.choice([{"m": m}, {"m": m, "x": [m, "t"]}, {"m": m, "flag": False}, {"corr": float(m)}]) for m in (1, 2, 3)}}
        if self.rnd.random() < 0.5:
            self.values[self.rnd.randint(1, 3)] = {}
        del self.values[0]
        # another graph with the same node ids, edited at the same time
        self.other = GraphManager(graph_class=G) if self.rnd.random() < 0.3 else None

    def value(self, md):
        for m, x in self.values.items():
            if x == md and all(type(x[k]) is type(md[k]) for k in x):
                return m
        return 99

    def disturb(self):
        """edits of the other graph"""
        g, r = self.other, self.rnd
        ids = [self.ids[k] for k in self.ids]
        i = r.choice(ids)
        if i not in g.nodes:
            g.add_node("other", [0.0], id_=i)
        have = list(g.nodes.values())
        if len(have) < 2:
            return
        u, v = r.sample(have, 2)
        k = r.randint(0, 3)
        if k == 0:
            g.add_edge(u, v, {"other": 1})
        elif k == 1:
            g.add_directed_edge(u, v, {"other": 2})
        elif k == 2:
            g.remove_edge(u, v)
        else:
            g.remove_edge(u, v, soft_delete=True)

    def n(self, k):
        return self.g.nodes.get(self.ids[k], self.ghost[k])

    def do(self, e):
        g, op = self.g, e["op"]
        u = self.n(e["u"]) if "u" in e else None
        v = self.n(e["v"]) if "v" in e else None
        md = dict(self.values[e["m"]]) if "m" in e else None
        t = self.T[e["t"]] if "t" in e else None
        if op == "add_node":
            i, r = self.ids[e["u"]], self.rnd
            name = r.choice(["name of " + i, "name of " + i, "same name", i])
            vals = [1.0, 2.0] if r.random() < 0.5 else [r.randint(-5, 5) for _ in range(r.randint(1, 4))]
            if i not in g.nodes:
                self.made[i] = (name, [float(x) for x in vals])
            f = lambda: g.add_node(name, vals, id_=i)
        elif op == "add_edge":
            f = lambda: g.add_edge(u, v, md, edge_type=t)
        elif op == "add_directed":
            f = lambda: g.add_directed_edge(u, v, md, edge_type=t)
        elif op == "remove_soft":
            f = lambda: g.remove_edge(u, v, soft_delete=True)
        elif op == "remove_hard":
            f = lambda: g.remove_edge(u, v)
        elif op == "remove_d_soft":
            f = lambda: g.remove_directed_edge(u, v, soft_delete=True)
        elif op == "remove_d_hard":
            f = lambda: g.remove_directed_edge(u, v)
        elif op == "restore":
            f = lambda: g.restore_edge(u, v)
        elif op == "restore_d":
            f = lambda: g.restore_directed_edge(u, v)
        elif op == "update_m":
            f = lambda: g.update_edge(u, v, metadata=md)
        elif op == "update_t":
            f = lambda: g.update_edge(u, v, edge_type=t)
        elif op == "update_dm":
            f = lambda: g.update_directed_edge(u, v, metadata=md)
        elif op == "update_dt":
            f = lambda: g.update_directed_edge(u, v, edge_type=t)
        elif op == "purge":
            f = lambda: g.purge_soft_deleted_edges()
        else:
            raise lib.MachineryError("unknown edit " + op)
        return lib.call(f)[0]

    def queries(self, which, style):
        """answers of all queries; which: the manager or the plain graph; style: objects or ids"""
        q = self.g if which == 0 else self.g.graph
        plain = self.g.graph
        ks = list(self.ids)
        known = [self.back[i] for i in self.g.nodes]
        a = (lambda k: self.n(k)) if style == 0 else (lambda k: self.ids[k])
        pairs = [(u, v) for u in ks for v in ks if u != v]
        for i, nd in self.g.nodes.items():
            if nd.id != i or (nd.name, [float(x) for x in nd.values]) != self.made.get(i) or q.node_by_id(i) is not nd:
                known = known + [99]
        o = {"nodes": known}
        o["ex"] = [p for p in pairs if q.edge_exists(a(p[0]), a(p[1]))]
        o["dir"] = [p for p in pairs if q.directed_edge_exists(a(p[0]), a(p[1]))]
        o["und"] = [p for p in pairs if q.undirected_edge_exists(a(p[0]), a(p[1]))]
        o["only"] = [p for p in pairs if plain.only_directed_edge_exists(a(p[0]), a(p[1]))]
        o["typ"], o["val"], o["oftype"], o["got"] = [], [], [], []
        for u, v in pairs:
            t = q.edge_type(a(u), a(v))
            if t is not None:
                o["typ"].append((u, v, t.name))
            m = q.edge_value(a(u), a(v))
            if m is not None:
                o["val"].append((u, v, self.value(m)))
            for name, ty in self.T.items():
                if q.edge_of_type_exists(a(u), a(v), ty):
                    o["oftype"].append((u, v, name))
            if u in known and v in known:
                try:
                    e = self.g.get_edge(self.n(u), self.n(v))
                    o["got"].append((self.back[e.u.id], self.back[e.v.id], e.edge_type.name, self.value(e.metadata)))
                except Exception as ex:
                    if type(ex).__name__ != "GraphError":
                        raise
        o["edges"] = [(self.back[e.u.id], self.back[e.v.id], e.edge_type.name, self.value(e.metadata)) for e in q.retrieve_edges()]
        o["par"] = [(u, self.back[p.id]) for u in known for p in q.parents_of_node(a(u))]
        o["sib"] = [(u, self.back[s if isinstance(s, str) else s.id]) for u in known for s in q.get_siblings(a(u))]
        return o

    def observe(self, i):
        out, o = lib.call(self.queries, (i // 2) % 2, i % 2)
        if out != "ok":
            o = dict(nodes=[], ex=[], dir=[], und=[], only=[], typ=[], val=[], oftype=[], got=[], edges=[], par=[], sib=[])
        o["q"] = out
        return o


def replay(arg):
    idx, ops, every, n = arg
    d = Driver(lib.subseed("store", idx), n)
    obs = []
    for i, e in enumerate(ops):
        if d.other is not None:
            d.disturb()
        out = d.do(e)
        full = every or i == len(ops) - 1
        o = d.observe(idx + i) if full else {}
        o["out"], o["full"] = out, full
        obs.append(o)
    return {"ops": ops, "obs": obs}


def generate(run, name, ids, types, vals, mode, maxlen, pre, num=0, next="GNext", last=None):
    out = os.path.join(run.build, name + ".hist")
    open(out, "w").close()
    cfg = f"""INIT GInit
NEXT {next}
CHECK_DEADLOCK FALSE
CONSTANTS Ids = {ids}
 Types = {types}
 Vals = {vals}
"""
    if mode == "bfs":
        cfg += "VIEW GView\nACTION_CONSTRAINT EmitAll\nINVARIANTS TypeOK NoDangling SoftRestore\nPROPERTY Locality\n"
        args = []
    else:
        cfg += "ACTION_CONSTRAINT EmitEnd\nCONSTRAINT Bound\nINVARIANTS TypeOK NoDangling\n"
        args = ["-simulate", f"num={num}", "-depth", str(maxlen + 5), "-seed", str(lib.SEED)]
    res = run.model("GraphStoreGen", cfg, env={"GENOUT": out, "MAXLEN": maxlen, "PRENODES": pre}, name=name, args=args,
                    workers=1)
    with open(out) as f:
        hs = [json.loads(json.loads(l)) if l.startswith('"') else json.loads(l) for l in f if l.strip()]
    if last:
        hs = [h for h in hs if h[-1]["op"] in last]
    return hs


def check(run, plans):
    jobs = []
    for p in plans:
        every = p.pop("every")
        limit = p.pop("limit", None)
        hs = generate(run, **p)
        if limit and len(hs) > limit:
            hs = run.rng.sample(hs, limit)
        run.parts.append({"histories": p["name"], "count": len(hs), "edits": sum(map(len, hs))})
        for h in hs:
            jobs.append((len(jobs), h, every, 8 if "8" in p["ids"] else 5))
    recs = lib.pmap(replay, jobs)
    run.evaluations = len(recs)
    seen = set()
    for r in recs:
        if any(o["out"] == "ok" and e["op"] not in ("add_node", "purge") for e, o in zip(r["ops"], r["obs"])):
            seen.add(json.dumps(r["ops"]))
    run.nontrivial = len(seen)
    run.samples = [recs[i]["ops"] for i in (0, len(recs) // 2, len(recs) - 1)]

    def describe(r):
        return "edits " + " ; ".join(" ".join(str(x) for x in e.values()) for e in r["ops"][-8:])

    for n in SIZES:
        part = [r for r, j in zip(recs, jobs) if j[3] == n]
        if part:
            run.judge("GraphStoreJudge", part, constants=JUDGE_CONST[n], describe=describe, name=f"histories{n}")
