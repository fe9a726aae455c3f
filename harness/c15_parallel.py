import os
import random

import lib
import pipe_common as pc

CONST = pc.CONST


def build(p, rnd, real=False):
    import par_steps as P
    from causy.edge_types import BiDirectedEdge, DirectedEdge, UndirectedEdge
    from causy.graph_model import graph_model_factory
    from causy.models import Algorithm

    n = p["n"]
    ids = dict(zip(range(1, n + 1), rnd.sample(pc.NAMES, n)))
    steps = []
    for s in p["prog"]:
        steps.append(P.ScriptedStep(generator=P.CountGenerator(count=len(s["results"])), parallel=s["par"], chunk_size_parallel_processing=s["size"],
                                    script={"ids": ids, "results": s["results"]}))
    algo = Algorithm(name="par", pipeline_steps=steps, edge_types=[DirectedEdge(), UndirectedEdge(), BiDirectedEdge()], extensions=[])
    model = graph_model_factory(algo)()
    return model, ids, steps


def fill(model, p, ids):
    model.create_graph_from_data({i: [1.0, 2.0] for i in ids.values()})
    for u, v in p["init"]:
        model.graph.add_edge(model.graph.nodes[ids[u]], model.graph.nodes[ids[v]], {})


def tag(r, back):
    return [r.action.value, back[r.u.id], back[r.v.id], r.data["m"]]


def collect(model, p, ids, o, pid):
    back = {v: k for k, v in ids.items()}
    for h, s in zip(model.graph.action_history, p["prog"]):
        o["log"].append({"taken": [tag(a, back) for a in h.actions], "prop": [tag(a, back) for a in h.all_proposed_actions]})
        seen = []
        for a in h.all_proposed_actions:
            if a.data["combo"] not in seen:
                seen.append(a.data["combo"])
        o["order"].append(seen)
        o["local"].append(all(a.data["pid"] == pid for a in h.all_proposed_actions))
    o["final"] = [[back[e.u.id], back[e.v.id], e.edge_type.name, (e.metadata or {}).get("m", 0)] for e in model.graph.retrieve_edges()]


def chosen(arg):
    """run with a pool whose completion order is the one of the schedule"""
    idx, p = arg
    import fakepool
    import par_steps as P

    rnd = random.Random(lib.subseed("par", idx))
    fakepool.install()
    fakepool.SCHEDULES[:] = [s["chunks"] for s in p["prog"] if s["par"]]
    o = {"out": "ok", "order": [], "handed": [], "log": [], "final": [], "local": [], "pools": 0}

    def go():
        model, ids, steps = build(p, rnd)
        fill(model, p, ids)
        P.HANDED.clear(), P.INPOOL.clear()
        model.execute_pipeline_steps()
        collect(model, p, ids, o, os.getpid())
        k = 0
        for i, s in enumerate(p["prog"]):
            o["handed"].append(P.HANDED[k:k + len(s["results"])])
            inpool = P.INPOOL[k:k + len(s["results"])]
            o["local"][i] = o["local"][i] and not any(inpool)
            k += len(s["results"])
        if len(P.HANDED) != k:
            o["handed"][-1] = P.HANDED[k - len(p["prog"][-1]["results"]):]

    o["out"], val = lib.call(go, seconds=60)
    if o["out"] != "ok":
        o["error"] = repr(val)[:300]
    o["pools"] = fakepool.STATE["pools"]
    return {"n": p["n"], "init": p["init"], "prog": p["prog"], "schedule": "chosen", "o": o}


def real(progs, rnd):
    """the real pool (one model, real worker processes): completion order as it comes, read from the proposals"""
    recs = []
    from causy.models import ActionHistoryStep

    merged = {"n": progs[0]["n"], "init": progs[0]["init"], "prog": progs[0]["prog"]}
    model, ids, steps = build(merged, rnd)
    try:
        for p in progs:
            o = {"out": "ok", "order": [], "handed": [], "log": [], "final": [], "local": [], "pools": 1}

            def go():
                import par_steps as P

                fill(model, p, ids)
                model.pipeline_steps = [P.ScriptedStep(generator=P.CountGenerator(count=len(s["results"])), parallel=s["par"], chunk_size_parallel_processing=s["size"],
                                                       script={"ids": ids, "results": s["results"]}) for s in p["prog"]]
                model.execute_pipeline_steps()
                collect(model, p, ids, o, os.getpid())

            o["out"], val = lib.call(go, seconds=200)
            if o["out"] != "ok":
                o["error"] = repr(val)[:300]
            recs.append({"n": p["n"], "init": p["init"], "prog": p["prog"], "schedule": "observed", "o": o})
            if o["out"] == "timeout":
                break
    finally:
        if model.pool is not None:
            model.pool.terminate()
            model.pool.join()
            model.pool = None
    return recs


def gen(r, name, n, entries, num, wide=False):
    out = os.path.join(r.build, name + ".prog")
    open(out, "w").close()
    cfg = "INIT RInit\nNEXT RNext\nCHECK_DEADLOCK FALSE\nACTION_CONSTRAINT EmitR\n" + \
        f'CONSTANTS Ids = {{{", ".join(str(i + 1) for i in range(n))}}}\n Types = {{"UNDIRECTED", "DIRECTED", "BIDIRECTED"}}\n Vals = {{1, 2}}\n'
    r.model("ParallelGen", cfg, env={"GENOUT": out, "NN": n, "MAXENTRIES": entries, "WIDE": "yes" if wide else "no"}, name=name,
            args=["-simulate", f"num={num}", "-depth", str(entries + 3), "-seed", str(lib.SEED)], workers=1)
    return pc.read(out)


def run():
    r = lib.Run("C15", "model_checking",
                "programs of parallel and sequential steps with completion orders chosen by TLC (ParallelGen.tla; up to 160 combinations), executed with a pool that follows the chosen order, and a series of runs with the real process pool whose observed order is judged; all schedules of small independent programs are checked on the specification; non-trivial: at least one parallel step and one taken change")
    r.model("ParallelGen", 'INIT EInit\nNEXT ENext\nCHECK_DEADLOCK FALSE\nINVARIANT ScheduleFree\nCONSTANTS Ids = {1, 2, 3}\n Types = {"UNDIRECTED", "DIRECTED"}\n Vals = {1, 2}\n',
            env={"GENOUT": "/dev/null", "NN": 3, "MAXENTRIES": 1, "WIDE": "no"}, name="schedules")
    progs = gen(r, "par3", 3, 3, lib.pick(600, 6000)) + gen(r, "par4", 4, 3, lib.pick(400, 4000))
    wide = gen(r, "wide4", 4, 2, lib.pick(16, 200), True)
    progs += wide
    recs = lib.pmap(chosen, list(enumerate(progs)))
    # real pool: every combination proposes something, so that it can be observed
    rp = []
    for p in progs:
        q = {"n": p["n"], "init": p["init"], "prog": [s for s in p["prog"] if all(s["results"])]}
        if q["n"] == 4 and any(s["par"] for s in q["prog"]):
            rp.append(q)
    rp = rp[:lib.pick(60, 400)] + [q for q in rp if any(len(s["results"]) > 30 for s in q["prog"])][:lib.pick(4, 30)]
    recs += real(rp, r.rng)
    r.evaluations = len(recs)
    r.nontrivial = sum(1 for x in recs if any(s["par"] for s in x["prog"]) and any(l["taken"] for l in x["o"]["log"]))
    r.samples = [recs[0], recs[-1]]
    r.judge("ParallelJudge", recs, constants=CONST, describe=lambda x: str(x)[:900])
    return r.finish()
