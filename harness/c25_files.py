import json
import os
import random
import shutil
import tempfile
import urllib.parse

import lib


def text(i, yml):
    import yaml

    spec = {"name": f"algorithm {i}", "pipeline_steps": [], "edge_types": [], "extensions": [], "variables": []}
    return yaml.dump(spec) if yml else json.dumps(spec)


def build(root, fs, rnd):
    for e in sorted(fs, key=lambda e: len(e["p"])):
        p = os.path.join(root, *e["p"])
        x = e["e"]
        if x["kind"] == "dir":
            os.makedirs(p, exist_ok=True)
        elif x["kind"] == "file":
            with open(p, "w") as f:
                f.write(text(x["id"], p.endswith(".yml")))
    for e in fs:
        if e["e"]["kind"] == "link":
            os.symlink(string(root, e["e"], rnd), os.path.join(root, *e["p"]))


def string(root, r, rnd):
    sep = rnd.choice(["/", "/", "/", "//"])
    s = sep.join(r["to"])
    if r["abs"]:
        return root + "/" + s
    return s or "."


def ident(alg):
    name = getattr(alg, "name", None) or ""
    return int(name.split()[-1]) if name.startswith("algorithm ") else -1


def tree(arg):
    idx, p = arg
    from fastapi.testclient import TestClient

    from causy.models import AlgorithmReferenceType
    from causy.serialization import load_algorithm_by_reference
    from causy.ui.server import _create_ui_app

    rnd = random.Random(lib.subseed("tree", idx))
    top, old = tempfile.mkdtemp(prefix="c25_"), os.getcwd()
    root = os.path.realpath(os.path.join(top, "root"))
    os.mkdir(root)
    rec = {"kind": "tree", "fs": p["fs"], "cwd": p["cwd"], "refs": p["refs"], "obs": [], "api": []}
    try:
        build(root, p["fs"], rnd)
        cwd = os.path.join(root, *p["cwd"])
        # the same directory under another name, from a place that is not in the tree
        os.symlink(cwd, os.path.join(top, "entry"))

        def load(s, t):
            out, x = lib.call(load_algorithm_by_reference, t, s)
            return {"out": "rejected" if out.startswith("exc:") else out, "id": ident(x) if out == "ok" else 0, "as": s, "error": repr(x)[:120] if out != "ok" else ""}

        for r in p["refs"]:
            s = string(root, r, rnd)
            obs = []
            for d in (cwd, os.path.join(top, "entry")):
                os.chdir(d)
                obs.append(load(s, rnd.choice(["file", AlgorithmReferenceType.FILE])))
                if d != cwd and rnd.random() < 0.3 and not r["abs"]:
                    obs.append(load(os.path.join(d, s), "file"))
            rec["obs"].append(obs)
        os.chdir(cwd)
        client = TestClient(_create_ui_app(with_static=False))
        asked = [r for r in p["refs"] if rnd.random() < 0.5] + [{"abs": False, "to": [e["p"][-1]]} for e in p["fs"] if e["p"][:-1] == p["cwd"]]
        for r in asked:
            s = string(root, r, rnd)
            out, x = lib.call(lambda: client.get("/api/v1/algorithm/file/" + urllib.parse.quote(s, safe=rnd.choice(["", "/"]))))
            a = {"abs": r["abs"], "to": r["to"], "out": out, "id": 0, "as": s, "dots": ".." in s}
            if out == "ok":
                a["out"] = "ok" if x.status_code == 200 else "rejected" if 400 <= x.status_code < 500 else f"status {x.status_code}"
                if x.status_code == 200:
                    o2, name = lib.call(lambda: x.json()["name"])
                    a["id"] = int(name.split()[-1]) if o2 == "ok" and str(name).startswith("algorithm ") else -1
            rec["api"].append(a)
    finally:
        os.chdir(old)
        shutil.rmtree(top, ignore_errors=True)
    return rec


def describe(r):
    return str({"obs": [(x, o) for x, o in zip(r["refs"], r["obs"])], "api": r["api"]})[:1200]


def run():
    r = lib.Run("C25", "model_checking",
                "random directory trees (some of them deep) with symbolic links and similarly named siblings, and references into them, generated by TLC from FileRefsGen.tla; replayed on real files through the library (two ways into the working directory) and the API; non-trivial: the reference leads to an existing file")
    progs = []
    for name, grow, refs, depth, num in (("trees", 14, 12, 3, lib.pick(400, 5000)), ("deep", 26, 16, 9, lib.pick(60, 800))):
        out = os.path.join(r.build, name + ".prog")
        open(out, "w").close()
        r.model("FileRefsGen", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Inv Contained\nACTION_CONSTRAINT Emit\n",
                env={"GENOUT": out, "GROW": grow, "REFS": refs, "DEPTH": depth}, name=name,
                args=["-simulate", f"num={num}", "-depth", str(grow + refs + 4), "-seed", str(lib.SEED)], workers=1)
        with open(out) as f:
            for l in f:
                progs.append(json.loads(json.loads(l)) if l.startswith('"') else json.loads(l))
    recs = lib.pmap(tree, list(enumerate(progs)))
    r.evaluations = sum(len(x["refs"]) + len(x["api"]) for x in recs)
    r.nontrivial = sum(1 for x in recs for o in x["obs"] if o[0]["id"] > 0)
    r.samples = [{"fs": recs[0]["fs"][:6], "refs": recs[0]["refs"][:3], "obs": recs[0]["obs"][:3], "api": recs[0]["api"][:3]}]
    r.assumptions = ["the tree does not change while a reference is loaded"]
    r.judge("FileRefsJudge", recs, describe=describe)
    return r.finish()
