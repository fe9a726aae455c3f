import json
import os
import random
import re
import shutil
import sys
import tempfile

import lib

NAMES = ["b", "a x", "C", "a", "zz", "10", "q.r", "B"]  # node numbers are not in alphabetical order


def table(text):
    """the table printed by diff: number of columns, rows"""
    clean = lambda s: re.sub(r"\x1b\[[0-9;?]*[A-Za-z]", "", s)
    cols, rows = 0, []
    for line in text.splitlines():
        if "\u2503" in line:
            cols = len(clean(line).strip().strip("\u2503").split("\u2503")) - 1
        elif "\u2502" in line:
            cells = [c.strip() for c in clean(line).strip()[1:-1].split("\u2502")]
            colours = set(re.findall(r"\x1b\[(\d+)m", line)) - {"0", "1"}
            u, v = cells[0].split(" - ") if " - " in cells[0] else ("", "")
            i, j = sorted([NAMES.index(u) + 1 if u in NAMES else 0, NAMES.index(v) + 1 if v in NAMES else 0])
            rows.append({"p": [i, j], "cells": cells[1:], "same": colours == {"32"}, "colours": sorted(colours)})
    return cols, rows


def written(g):
    out = []
    for i, j, k in g:
        u, v = NAMES[i - 1], NAMES[j - 1]
        if k == "und":
            out.append(f"{u}-{v}")
        elif k in ("fwd", "bwd"):
            out.append(f"{u}>{v}" if k == "fwd" else f"{v}>{u}")
    return ";".join(out)


def history(arg):
    idx, p = arg
    from typer.testing import CliRunner

    import ws_steps
    from causy.cli import app
    from causy.edge_types import DirectedEdge, UndirectedEdge
    from causy.generators import AllCombinationsGenerator
    from causy.models import Algorithm, ComparisonSettings
    from causy.variables import StringVariable, VariableReference

    rnd = random.Random(lib.subseed("diff", idx))
    d, old, path, env = tempfile.mkdtemp(prefix="c26_"), os.getcwd(), list(sys.path), dict(os.environ)
    os.chdir(d)
    os.environ.pop("NO_COLOR", None)
    os.environ.update(FORCE_COLOR="1", COLUMNS="400", TERM="xterm")
    rec = {"n": p["n"], "ops": p["ops"], "obs": []}
    try:
        alg = Algorithm(name="g", pipeline_steps=[ws_steps.GraphStep(generator=AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=2, max=2)), graph=VariableReference(name="graph"))],
                        edge_types=[DirectedEdge(), UndirectedEdge()], extensions=[], variables=[StringVariable(name="graph", value="")])
        with open("g.json", "w") as f:
            json.dump(alg.model_dump(), f)

        def write(given):
            cols = NAMES[:p["n"]]
            rnd.shuffle(cols)  # the order of the nodes is not part of the result
            with open("d.json", "w") as f:
                json.dump([{c: float(r) for c in cols} for r in range(3)], f)
            with open("workspace.yml", "w") as f:
                json.dump({"name": "w", "author": "a", "pipelines": {"p": {"type": "file", "reference": "g.json"}}, "dataloaders": {"d": {"type": "json", "reference": "d.json"}},
                           "experiments": {e: {"pipeline": "p", "dataloader": "d", "variables": {"graph": given.get(e, "")}} for e in ("e", "e_1", "f", "e_f")}}, f)

        write({})
        versions = {e: [] for e in ("e", "e_1", "f", "e_f")}

        def files(e):
            return sorted(int(m.group(1)) for m in (re.fullmatch(re.escape(e) + r"_(\d+)\.json", x) for x in os.listdir()) if m)

        def cli(*args):
            res = CliRunner().invoke(app, ["workspace", *args])
            sys.path[:] = path
            return ("ok" if res.exception is None else "failed:" + type(res.exception).__name__), res.output

        for o in p["ops"]:
            if o["k"] == "run":
                write({o["e"]: written(o["g"])})
                before = files(o["e"])
                out, x = lib.call(cli, "execute", "--experiment-name", o["e"])
                new = [v for v in files(o["e"]) if v not in before]
                ok = out == "ok" and x[0] == "ok" and len(new) == 1 and new[0] > max(before, default=0)
                if ok and o["e"] == "e_1" and not before and idx % 2:  # a result under a number that is also part of the name
                    os.rename(f"e_1_{new[0]}.json", "e_1_1.json")
                    new = [1]
                versions[o["e"]] += new[-1:] or [0]
                rec["obs"].append({"out": "ok" if ok else f"{out} {x}"[:300], "cols": 0, "rows": []})
            else:
                args = []
                for a in o["args"]:
                    vs = versions.get(a["e"], [])
                    args.append(a["e"] if a["v"] == 0 else f"{a['e']}_{vs[a['v'] - 1] if a['v'] <= len(vs) else 999}")
                out, x = lib.call(cli, "diff", *args, *(["--only-differences"] if o["only"] else []))
                cols, rows = table(x[1]) if out == "ok" else (0, [])
                rec["obs"].append({"out": x[0] if out == "ok" else out, "cols": cols, "rows": rows, "text": x[1][-300:] if out == "ok" and not rows else ""})
    finally:
        os.chdir(old)
        sys.path[:] = path
        os.environ.clear()
        os.environ.update(env)
        shutil.rmtree(d, ignore_errors=True)
    return rec


def describe(r):
    return str([({k: v for k, v in o.items() if v}, x) for o, x in zip(r["ops"], r["obs"])])[:2500]


def run():
    r = lib.Run("C26", "model_checking",
                "histories of stored graphs on 3-8 nodes (each close to an earlier one) and comparisons of up to seven of them, by name or version, generated by TLC from DiffGen.tla, replayed through the command line, the printed tables judged by TLC; non-trivial: a comparison of existing results")
    out = os.path.join(r.build, "diff.prog")
    open(out, "w").close()
    r.model("DiffGen", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Symmetric\nACTION_CONSTRAINT Emit\n", env={"GENOUT": out, "MAXOPS": 14, "NODES": 8}, name="diff",
            args=["-simulate", f"num={lib.pick(250, 3000)}", "-depth", "17", "-seed", str(lib.SEED)], workers=1)
    with open(out) as f:
        progs = [json.loads(json.loads(l)) if l.startswith('"') else json.loads(l) for l in f if l.strip()]
    recs = lib.pmap(history, list(enumerate(progs)))
    r.evaluations = sum(1 for x in recs for o in x["ops"] if o["k"] == "diff")
    r.nontrivial = sum(1 for x in recs for o in x["obs"] if o["rows"])
    r.samples = [{"ops": recs[0]["ops"], "obs": recs[0]["obs"]}]
    r.assumptions = ["the table is read from the terminal output: one line per row, green marks equal rows"]
    r.judge("DiffJudge", recs, describe=describe)
    return r.finish()
