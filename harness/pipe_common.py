"""Runs programs generated from PipelineExec.tla in the real pipeline (C03, C04, C24)."""
import json
import os
import random

import lib

CONST = 'CONSTANTS Ids = {1, 2, 3, 4}\n Types = {"UNDIRECTED", "DIRECTED", "BIDIRECTED"}\n Vals = {1, 2}\n'
NAMES = ["Xq", "b c", "9", "äö", "A"]


def rand_programs(run, name, nodes, entries, num, kinds, hooks=False, par=True, iters=3, wide=False):
    out = os.path.join(run.build, name + ".prog")
    open(out, "w").close()
    cfg = "INIT RInit\nNEXT RNext\nCHECK_DEADLOCK FALSE\nACTION_CONSTRAINT EmitR\n" + \
        f'CONSTANTS Ids = {{{", ".join(str(i + 1) for i in range(nodes))}}}\n Types = {{"UNDIRECTED", "DIRECTED", "BIDIRECTED"}}\n Vals = {{1, 2}}\n'
    env = {"GENOUT": out, "NN": nodes, "MAXENTRIES": entries, "MAXITERS": iters, "HOOKS": "yes" if hooks else "no", "PAR": "yes" if par else "no", "WIDE": "yes" if wide else "no"}
    for k in ("step", "loop", "group", "dry"):
        env["K_" + k] = "yes" if k in kinds else "no"
    run.model("PipelineGen", cfg, env=env, name=name, args=["-simulate", f"num={num}", "-depth", str(entries + 3), "-seed", str(lib.SEED)], workers=1)
    return read(out)


def read(out):
    with open(out) as f:
        return [json.loads(json.loads(l)) if l.startswith('"') else json.loads(l) for l in f if l.strip()]


def bfs_programs(run, name, limit):
    out = os.path.join(run.build, name + ".prog")
    open(out, "w").close()
    cfg = "INIT BInit\nNEXT BNext\nCHECK_DEADLOCK FALSE\nVIEW BView\nACTION_CONSTRAINT EmitB\n" + \
        'CONSTANTS Ids = {1, 2}\n Types = {"UNDIRECTED", "DIRECTED"}\n Vals = {1, 2}\n'
    run.model("PipelineGen", cfg, env={"GENOUT": out, "NN": 2, "MAXENTRIES": 0, "MAXITERS": 0, "HOOKS": "no", "PAR": "no", "WIDE": "no", "K_step": "yes", "K_loop": "no", "K_group": "no", "K_dry": "no"}, name=name, workers=1)
    hs = read(out)
    total = len(hs)
    if limit and len(hs) > limit:
        hs = run.rng.sample(hs, limit)
    progs = []
    for h in hs:
        prog = []
        for acts in h:
            mode = run.rng.choice(["batch", "sync", "chunked"])
            if mode == "sync":
                chunks = [[[a]] for a in acts]
            else:
                batches, i = [], 0
                while i < len(acts):
                    k = run.rng.choice([1, 1, 2, 3])
                    batches.append(acts[i:i + k])
                    i += k
                if mode == "batch":
                    chunks = [batches]
                else:
                    chunks, i = [], 0
                    while i < len(batches):
                        k = run.rng.choice([1, 2, 3])
                        chunks.append(batches[i:i + k])
                        i += k
            prog.append({"kind": "step", "iters": [[{"cls": run.rng.choice([1, 2, 3]), "mode": mode, "chunks": chunks}]]})
        progs.append({"n": 2, "init": [[1, 2, "UNDIRECTED", 0], [2, 1, "UNDIRECTED", 0]], "prog": prog, "hs": [], "np": 0})
    run.parts.append({"transitions": name, "total": total, "used": len(progs)})
    return progs


def execute(arg):
    idx, p, claims, direct, failing = arg
    import script_steps as S
    from causy.graph_model import graph_model_factory
    from causy.models import Algorithm
    from causy.edge_types import DirectedEdge, UndirectedEdge, BiDirectedEdge
    from causy.graph import GraphManager

    rnd = random.Random(lib.subseed("pipe", idx))
    n = p["n"]
    S.IDS.clear()
    S.IDS.update(zip(range(1, n + 1), rnd.sample(NAMES, n)))
    S.SCRIPT.clear(), S.COUNTER.clear(), S.RET.clear()
    S.LOG.update(calls=[], pre=[], post=[], ety=[], on="edge-type-hooks" in claims)
    S.EMPTY[0] = rnd.choice([1, 2, 3, 4, 5, 99])
    back = {v: k for k, v in S.IDS.items()}
    steps = []
    if any(st["mode"] == "parallel" for entry in p["prog"] for it in entry["iters"] for st in it):
        import fakepool

        fakepool.install()
        fakepool.SCHEDULES.clear()
    for e, entry in enumerate(p["prog"]):
        inner = []
        for i, st in enumerate(entry["iters"][0]):
            its = [it[i]["chunks"] for it in entry["iters"]]
            S.SCRIPT[(e, i)] = its
            for t, chunks in enumerate(its):
                for c, bs in enumerate(chunks):
                    for b in range(len(bs)):
                        S.RET[(e, i, t, c, b)] = rnd.randint(0, 1)
            kw = {"generator": S.ScriptGenerator(entry=e, inner=i, chunked=st["mode"] == "chunked"), "parallel": False}
            if st["mode"] == "parallel":
                kw["parallel"] = True
                kw["chunk_size_parallel_processing"] = rnd.choice([1, 2, 5])
            if st["mode"] == "sync":
                kw["apply_synchronous"] = True
            inner.append(S.STEPS[st["cls"]](**kw))
        if entry["kind"] == "loop":
            steps.append(S.Loop(pipeline_steps=inner, exit_condition=S.ExitOnNoActions()))
        elif entry["kind"] == "group":
            steps.append(S.ApplyActionsTogether(pipeline_steps=inner))
        else:
            steps.append(inner[0])
    o = {"out": "ok", "final": [], "log": [], "eh": [], "calls": [], "pre": [], "post": [], "ety": []}

    def acts(a):
        return [S.describe(x) for x in a]

    def full(a):
        return [{"k": x.action.value, "u": back[x.u.id], "v": back[x.v.id], "t": x.edge_type.name if x.edge_type else "UNDIRECTED", "m": S.value(x.data)} for x in a]

    def nm(name):
        last = name.split(".")[-1]
        return {"StepOne": "1", "StepTwo": "2", "StepThree": "3", "Loop": "loop", "ApplyActionsTogether": "group"}.get(last, last)

    def entry_log(h):
        return {"name": nm(h.name), "taken": acts(h.actions), "prop": acts(h.all_proposed_actions),
                "acts": [full(h.actions)] + [full(s.actions) for s in h.steps],
                "steps": [{"name": nm(s.name), "taken": acts(s.actions), "prop": acts(s.all_proposed_actions)} for s in h.steps]}

    def go():
        algo = Algorithm(name="script", pipeline_steps=[] if direct else steps, edge_types=[DirectedEdge(), UndirectedEdge(), BiDirectedEdge()], extensions=[],
                         pre_graph_update_hooks=[S.PreHook(number=i + 1, kind=k) for i, k in enumerate(p["hs"])],
                         post_graph_update_hooks=[S.PostHook(number=i + 1) for i in range(p["np"])])
        model = graph_model_factory(algo)()
        model.create_graph_from_data({S.IDS[k]: [1.0, 2.0] for k in rnd.sample(range(1, n + 1), n)})
        g = model.graph
        done = set()
        order = list(p["init"])
        rnd.shuffle(order)
        T = {"DIRECTED": S.FailingDirected, "UNDIRECTED": S.FailingUndirected} if failing else S.TYPES
        for u, v, t, m in order:
            if (u, v) in done:
                continue
            rev = [x for x in p["init"] if x[0] == v and x[1] == u]
            if rev:
                g.add_edge(g.nodes[S.IDS[u]], g.nodes[S.IDS[v]], {"m": 0}, edge_type=T[t]())
                done |= {(u, v), (v, u)}
            else:
                g.add_directed_edge(g.nodes[S.IDS[u]], g.nodes[S.IDS[v]], {"m": 0}, edge_type=T[t]())
                done.add((u, v))
        if direct:
            for e, s in zip(p["prog"], steps):
                taken, prop = model.execute_pipeline_step(s, apply_to_graph=e["kind"] != "dry")
                o["log"].append({"name": nm(s.name), "taken": acts(taken), "prop": acts(prop), "acts": [[]] if e["kind"] == "dry" else [full(taken)], "steps": []})
                g.purge_soft_deleted_edges()
        else:
            model.execute_pipeline_steps()
            o["log"] = [entry_log(h) for h in g.action_history]
        o["final"] = [[back[e.u.id], back[e.v.id], e.edge_type.name, S.value(e.metadata or {})] for e in g.retrieve_edges()]
        for u in S.IDS:
            for v in S.IDS:
                if u != v:
                    o["eh"].append({"u": u, "v": v, "b": acts(g.edge_history.get((S.IDS[u], S.IDS[v]), []))})

    o["out"], val = lib.call(go, seconds=60)
    if o["out"] != "ok":
        o["error"] = str(val)[:300]
    o["calls"], o["pre"], o["post"], o["ety"] = S.LOG["calls"], S.LOG["pre"], S.LOG["post"], S.LOG["ety"]
    return {"n": n, "init": p["init"], "prog": p["prog"], "hs": p["hs"], "np": p["np"], "o": o, "claims": claims, "failing": failing}


def describe(r):
    return json.dumps({"init": r["init"], "prog": r["prog"], "hooks": r["hs"], "observed": {k: r["o"][k] for k in ("out", "final", "log")}})[:900]


def run_programs(run, progs, claims, direct=lambda i, p: False, failing=lambda i: False):
    jobs = [(i, p, claims, direct(i, p), failing(i)) for i, p in enumerate(progs)]
    recs = lib.pmap(execute, jobs)
    run.evaluations += len(recs)
    run.nontrivial += sum(1 for r in recs if any(any(x["taken"] for x in [l] + l["steps"]) for l in r["o"]["log"]))
    run.samples.append({"init": recs[-1]["init"], "prog": recs[-1]["prog"], "final": recs[-1]["o"]["final"]})
    return run.judge("PipelineJudge", recs, constants=CONST, describe=describe, name=f"programs{len(run.samples)}")
