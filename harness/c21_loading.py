import copy
import json
import os
import random
import shutil
import tempfile

import lib

NAMES = ["b", "a", "A", "x 1", "10", "9", "\u00fc", "_dict", "values", "Z", "id", "name"]
OPTIONS = [None, {"shift": 1, "note": "n"}, {"shift": 2, "note": "n"}, {"shift": 3, "note": "n"},
           {"shift": 0, "note": "n"}, {"note": "n"}, {"shift": 1}, {"shift": 1, "note": None}, {"shift": 1, "note": ""},
           {"shift": 1, "note": {"k": [1, 2]}}, {"shift": 1, "note": {"k": [2, 1]}}, {"shift": 1, "note": {"k": [1, 2], "j": 0}}, {"shift": 1, "note": {"k": [1, 2], "j": []}}, {"shift": 1, "note": {}}, {"shift": 1, "note": []}, {"shift": 1, "note": [{}]}, {"shift": 1, "note": False}]


def number(i, ints):
    from loaders import VALUES

    return VALUES[i] if ints else float(VALUES[i])


def rows_of(s, rnd, ints):
    out = []
    for r in s["rows"]:
        order = list(range(len(s["cols"])))
        rnd.shuffle(order)
        out.append({NAMES[s["cols"][c]]: number(r[c], ints) for c in order})
    return out


def cols_of(s, rnd, ints):
    order = list(range(len(s["cols"])))
    rnd.shuffle(order)
    return {NAMES[s["cols"][c]]: [number(r[c], ints) for r in s["rows"]] for c in order}


def turned(o):
    """the same options written down in another order"""
    return {k: turned(v) for k, v in reversed(list(o.items()))} if isinstance(o, dict) else o


def options(s, dynamic):
    o = copy.deepcopy(OPTIONS[s["opts"]])
    if dynamic:
        o = dict(o or {}, path="dyn.json")
    if o and s["order"]:
        o = turned(o)
    return o


def write(s):
    rnd = random.Random(s["layout"])
    ints = s["layout"] % 2 == 0
    indent = [None, 1, 4][s["layout"] % 3]
    rows, cols = rows_of(s, rnd, ints), cols_of(s, rnd, ints)
    for name, x in (("rows.json", rows), ("cols.json", cols), ("dyn.json", rows)):
        with open(name, "w") as f:
            f.write(json.dumps(x, indent=indent, ensure_ascii=s["layout"] < 5))
    with open("rows.jsonl", "w") as f:
        pad = [("", ""), ("", " "), (" ", ""), ("\t", "  ")][s["layout"] % 4]
        f.write("\n".join(pad[0] + json.dumps(r) + pad[1] for r in rows) + ("\n" if s["layout"] % 4 else ""))
    for name in ("rows.json", "cols.json", "dyn.json", "rows.jsonl"):
        os.utime(name, (1700000000, 1700000000))  # contents count, not file times
    return rows, cols


def loader(form, s):
    from causy.data_loader import DataLoaderReference, load_data_loader

    kind, ref = {"json rows": ("json", "rows.json"), "json columns": ("json", "cols.json"), "jsonl": ("jsonl", "rows.jsonl"), "dynamic": ("dynamic", "loaders.TableLoader")}[form]
    return load_data_loader(DataLoaderReference(type=kind, reference=ref, options=options(s, form == "dynamic")))


FORMS = ["json rows", "json columns", "jsonl", "dynamic"]


def nodes(model, src):
    from loaders import VALUES

    model.create_graph_from_data(src)
    out = []
    for i, x in model.graph.nodes.items():
        out.append({"name": NAMES.index(x.name) if x.name in NAMES else -1, "id": NAMES.index(i) if i in NAMES else -1,
                    "values": [VALUES.index(v) if v in VALUES else -1 for v in x.values.tolist()]})
    return out


def observe(s, model):
    rows, cols = write(s)
    o = {"forms": [], "hashes": []}
    for form in ["list", "dictionary"] + FORMS:
        src, kept = None, True
        if form in FORMS:
            out, src = lib.call(loader, form, s)
            if out != "ok":
                o["forms"].append({"form": form, "out": out, "nodes": [], "kept": True, "error": repr(src)[:200]})
                o["hashes"].append({"form": form, "out": out, "fresh": "", "again": ""})
                continue
            h, fresh = lib.call(src.hash)
        else:
            src = rows if form == "list" else cols
        before = copy.deepcopy(src) if form not in FORMS else None
        out, x = lib.call(nodes, model, src)
        if form not in FORMS:
            kept = json.dumps(before) == json.dumps(src)
        o["forms"].append({"form": form, "out": out, "nodes": x if out == "ok" else [], "kept": kept, "error": "" if out == "ok" else repr(x)[:200]})
        if form in FORMS:
            h2, again = lib.call(lambda: loader(form, s).hash())
            h3, used = lib.call(src.hash)
            bad = [z for z in (h, h2, h3) if z != "ok"]
            o["hashes"].append({"form": form, "out": bad[0] if bad else "ok", "fresh": str(fresh), "again": str(again) if again == used else f"{again} then {used}"})
    return o


def empty_model():
    from causy.edge_types import DirectedEdge, UndirectedEdge
    from causy.graph_model import graph_model_factory
    from causy.models import Algorithm

    return graph_model_factory(Algorithm(name="none", pipeline_steps=[], edge_types=[DirectedEdge(), UndirectedEdge()], extensions=[], variables=[]))()


def apply(s, op):
    s = copy.deepcopy(s)
    k, r, c, v = op["op"], op["r"] - 1, op["c"] - 1, op["v"]
    if k == "cell":
        s["rows"][r][c] = v
    elif k == "append":
        s["rows"].append(op["row"])
    elif k == "drop":
        del s["rows"][r]
    elif k == "swap":
        s["rows"][r], s["rows"][c] = s["rows"][c], s["rows"][r]
    elif k == "rename":
        s["cols"][c] = v
    elif k == "layout":
        s["layout"] = v
    elif k == "options":
        s["opts"] = v
    elif k == "order":
        s["order"] = v
    return s


def in_scratch(fn):
    d, old = tempfile.mkdtemp(prefix="c21_"), os.getcwd()
    os.chdir(d)
    try:
        return fn()
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def history(p):
    def go():
        s, model = p["first"], empty_model()
        obs = [observe(s, model)]
        for op in p["ops"]:
            s = apply(s, op)
            obs.append(observe(s, model))
        return {"kind": "source", "first": p["first"], "ops": p["ops"], "obs": obs}

    return in_scratch(go)


def ragged(p):
    s, (r, c) = p["first"], p["hole"]

    def go():
        rows, _ = write(s)
        del rows[r][NAMES[s["cols"][c]]]
        for name in ("rows.json", "dyn.json"):
            with open(name, "w") as f:
                json.dump(rows, f)
        with open("rows.jsonl", "w") as f:
            f.write("\n".join(json.dumps(x) for x in rows))
        rec = {"kind": "ragged", "s": s, "r": r, "c": c, "forms": []}
        for form in ["list", "json rows", "jsonl", "dynamic"]:
            out, x = lib.call(lambda: nodes(empty_model(), rows if form == "list" else loader(form, s)))
            rec["forms"].append({"form": form, "out": "rejected" if out.startswith("exc:") else out})
        for text in random.Random(lib.subseed("odd", r, c)).sample(["5", '"a"', "true", "null", "1.5"], 2):
            with open("rows.json", "w") as f:
                f.write(text)
            out, x = lib.call(lambda: nodes(empty_model(), loader("json rows", s)))
            rec["forms"].append({"form": "json " + text, "out": "rejected" if out.startswith("exc:") else out})
        return rec

    return in_scratch(go)


def big(idx):
    """a large file in which one digit changes"""
    from causy.data_loader import DataLoaderReference, load_data_loader

    rnd = random.Random(lib.subseed("big", idx))
    n, k = rnd.choice([300, 3000, 30000]), rnd.choice([1, 4])
    form = ["json rows", "json columns", "jsonl"][idx % 3]
    table = [[rnd.randrange(10) for _ in range(k)] for _ in range(n)]
    nested = {"a": {"b": [1, 2, {"c": rnd.randrange(5)}]}, "z": None}

    def save():
        rows = [{NAMES[c]: r[c] for c in range(k)} for r in table]
        with open("big", "w") as f:
            f.write("\n".join(json.dumps(r) for r in rows) if form == "jsonl" else json.dumps(rows if form == "json rows" else {NAMES[c]: [r[c] for r in table] for c in range(k)}))
        os.utime("big", (1700000000, 1700000000))
        src = load_data_loader(DataLoaderReference(type=form.split()[0], reference="big", options=copy.deepcopy(nested)))
        model = empty_model()
        out, _ = lib.call(model.create_graph_from_data, src)
        good = out == "ok" and set(model.graph.nodes) == set(NAMES[:k]) and all(model.graph.nodes[NAMES[c]].values.tolist() == [r[c] for r in table] for c in range(k))
        return {"out": out, "hash": lib.call(src.hash)[1], "all": good}

    def go():
        o = [save(), save()]
        r, c = rnd.choice([0, n - 1, n // 2, rnd.randrange(n)]), rnd.randrange(k)
        table[r][c] = (table[r][c] + 1) % 10
        o.append(save())
        table[r][c] = (table[r][c] - 1) % 10
        nested["a"]["b"][2]["c"] += 1
        o.append(save())
        return {"kind": "big", "form": form, "n": n, "k": k, "cell": [r, c], "obs": o}

    return in_scratch(go)


def describe(r):
    if r["kind"] != "source":
        return str(r)[:600]
    bad = [(i, f["form"], f["out"], f["error"]) for i, o in enumerate(r["obs"]) for f in o["forms"] if f["out"] != "ok"]
    return str({"first": r["first"], "ops": [(o["op"], o["r"], o["c"], o["v"]) for o in r["ops"]], "failed": bad[:3], "obs": r["obs"][-1]["forms"][:6]})[:900]


def run():
    r = lib.Run("C21", "model_checking",
                "histories of a table (cell edits, rows added, dropped and swapped, columns renamed, rewritten in other layouts, loader options changed and reordered), generated by TLC from DataSourceGen.tla; after every step the table is loaded in 6 ways and fingerprinted by 4 loaders; non-trivial: at least 2 columns and 2 rows")
    out = os.path.join(r.build, "tables.prog")
    open(out, "w").close()
    r.model("DataSourceGen", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Inv\nPROPERTY LayoutFree\nACTION_CONSTRAINT Emit\n",
            env={"GENOUT": out, "MAXOPS": 7, "NAMES": len(NAMES), "VALUES": 8}, name="tables",
            args=["-simulate", f"num={lib.pick(500, 6000)}", "-depth", "10", "-seed", str(lib.SEED)], workers=1)
    progs = []
    with open(out) as f:
        for l in f:
            progs.append(json.loads(json.loads(l)) if l.startswith('"') else json.loads(l))
    recs = lib.pmap(history, progs)
    holes = []
    for i, p in enumerate(progs[:len(progs) // 2]):
        n, k = len(p["first"]["rows"]), len(p["first"]["cols"])
        if n > 1:
            holes.append({"first": p["first"], "hole": (1 + r.rng.randrange(n - 1), r.rng.randrange(k))})
    recs += lib.pmap(ragged, holes)
    recs += lib.pmap(big, range(lib.pick(24, 240)))
    r.evaluations = sum(len(x.get("obs", [1])) for x in recs)
    r.nontrivial = sum(len(x["obs"]) for x in recs if x["kind"] == "source" and len(x["first"]["cols"]) > 1 and len(x["first"]["rows"]) > 1)
    r.samples = [{"first": recs[0]["first"], "ops": recs[0]["ops"], "obs": recs[0]["obs"][0]}]
    r.assumptions = ["values are taken from 11 numbers (integers, decimals, tiny, huge); column names are taken from 12 strings"]
    r.judge("DataSourceJudge", recs, describe=describe)
    return r.finish()
