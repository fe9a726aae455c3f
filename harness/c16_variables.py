import random

import algo_common as ac
import lib

DATA = [{"a": 1.0 * i, "b": (i * 7 % 5) * 1.0, "c": (i * 3 % 7) * 1.0 + i, "d": (i * 5 % 3) * 1.0} for i in range(12)]


def use(arg):
    idx, p = arg
    import fakepool
    from causy.graph_model import graph_model_factory
    from causy.serialization import serialize_algorithm
    from causy.variables import resolve_variables, validate_variable_values

    fakepool.install()
    rnd = random.Random(lib.subseed("use", idx))
    D = p["D"]
    alg = ac.build(D, own=rnd.choice(["own", "own", "placeholder"]))
    models, classes, obs = [], [], []
    for op in p["ops"]:
        o = {"out": "ok", "eff": {}}

        def go():
            a = {n: ac.value(x) for n, x in op["a"].items()}
            if op["k"] == "checked":
                validate_variable_values(alg, a)
                eff = resolve_variables(alg.variables, a)
                o["eff"] = {n: ac.number(x) for n, x in eff.items()}
                cls = graph_model_factory(alg, eff)
            elif op["k"] == "direct":
                cls = graph_model_factory(alg, a)
            elif op["k"] == "default":
                cls = graph_model_factory(alg)
            elif op["k"] == "again":
                cls = classes[op["i"] - 1]
            elif op["k"] == "run":
                m = models[op["i"] - 1]
                m.create_graph_from_data(DATA)
                m.create_all_possible_edges()
                try:
                    m.execute_pipeline_steps()
                except Exception:
                    pass  # not every generated pipeline can be executed; what it leaves behind counts
                return
            elif op["k"] == "save":
                serialize_algorithm(models[op["i"] - 1], algorithm_name="other name" if rnd.random() < 0.5 else None)
                return
            models.append(cls())
            classes.append(cls)

        n = len(models)
        out, val = lib.call(go, seconds=30)
        if op["k"] == "run":
            out = "ok"  # the outcome of a run is not at issue here
        if out != "ok":
            o["error"] = f"{out} {val}"[:200]
        o["out"] = "ok" if out == "ok" else ("rejected" if op["k"] in ("checked", "direct", "default") and out != "timeout" else "failed")
        o["decl"] = ac.read(alg.pipeline_steps)
        o["vars"] = ac.read_vars(alg.variables)
        o["models"] = [ac.read(m.pipeline_steps) for m in models]
        o["origs"] = [ac.read(m._original_algorithm.pipeline_steps) for m in models]
        obs.append(o)
    return {"kind": "use", "D": D, "ops": p["ops"], "obs": obs}


def describe(r):
    return str({"variables": r["D"]["vars"], "ops": r["ops"], "outcomes": [(o["out"], o.get("error", "")) for o in r["obs"]]})[:900]


def run():
    r = lib.Run("C16", "model_checking",
                "random algorithms with 40 settings (constants, references, unknown references) in all places of a pipeline and random histories of building models, running and saving them, generated by TLC from AlgorithmsGen.tla; non-trivial: at least one model with a resolved reference was built")
    progs = ac.generate(r, "histories", lib.pick(7, 10), lib.pick(700, 8000))
    recs = lib.pmap(use, list(enumerate(progs)))
    r.evaluations = len(recs)
    r.nontrivial = sum(1 for x in recs if x["obs"][-1]["models"] and any(s["ref"] for s in x["D"]["slots"].values()))
    r.samples = [{"vars": recs[0]["D"]["vars"], "ops": recs[0]["ops"]}]
    r.judge("AlgorithmsJudge", recs, describe=describe)
    return r.finish()
