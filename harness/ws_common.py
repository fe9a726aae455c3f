"""Replays histories of a workspace through the command line and the API, in a scratch directory."""
import hashlib
import importlib
import json
import os
import random
import re
import shutil
import sys
import tempfile
from datetime import datetime

import lib

OPTIONS = [None, {"a": 1}, {"a": 2}, {"b": 1}, {"a": {"q": [1]}}, {"a": {"q": [2]}}]
IMPORTED = [999999999, 42, 5]
TEXTS = {"integer": ["0", "1", "2", "3", "x", "2.5", "True"], "float": ["0", "0.05", "1e-05", ".5", "1", "abc", "True"],
         "bool": ["true", "False", "TRUE", "false", "maybe", "x", ""]}
VARTYPE = {"i": "integer", "n": "integer", "f": "float", "g": "float", "o": "integer", "threshold": "float", "b": "bool", "s": "string", "c": "string"}
FOREIGN = ["e_old.json", "e_5.json.bak", "notes.json", "e_.json", "e_1x.json", "e_12.tmp.json", "ee_+5.json", "e_007.json", "e_1_.json"]


def text(x, t):
    import ws_steps

    return TEXTS[VARTYPE[x]][t - 1] if VARTYPE[x] != "string" else (ws_steps.STRINGS + ws_steps.STRINGS)[t - 1]


def digest(x):
    return hashlib.sha256(x if isinstance(x, bytes) else json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:20]


class Answers:
    """stands in for questionary: answers prompts from a list"""

    def __init__(self, answers):
        self.answers = list(answers)

    def __call__(self, *a, **k):
        return self

    def ask(self):
        return self.answers.pop(0)


def canon(d):
    """the parts of a result, from its JSON"""

    def name(n):
        return [n["id"], n["name"]]

    def action(a):
        return [name(a["u"]), name(a["v"]), a["action"], a.get("data") or {}]

    def step(h):
        return [h["name"], h.get("duration"), [action(a) for a in h.get("actions") or []], [action(a) for a in h.get("all_proposed_actions") or []], [step(s) for s in h.get("steps") or []]]

    return {"nodes": sorted([k] + name(n) for k, n in d["nodes"].items()),
            "edges": sorted(json.dumps([name(e["u"]), name(e["v"]), e["edge_type"]["name"], e["edge_type"]["IS_DIRECTED"], e.get("metadata") or {}], sort_keys=True, default=str) for e in d["edges"]),
            "log": [step(h) for h in d["action_history"]], "vars": d.get("variables"), "when": datetime.fromisoformat(d["created_at"]).isoformat(),
            "algorithm": [d["algorithm"]["type"], d["algorithm"]["reference"]], "hashes": [d.get("data_loader_hash"), d.get("algorithm_hash"), d.get("variables_hash")]}


def stored(path):
    """a stored result as the specification sees it"""
    import ws_steps
    from causy.serialization import CausyJSONEncoder, deserialize_result

    with open(path, "rb") as f:
        raw = f.read()
    out = {"dig": digest(raw), "nodes": [], "edges": [], "vars": [], "content": "", "back": False}

    def read():
        d = json.loads(raw)
        c = canon(d)
        number = {x: i + 1 for i, x in enumerate(ws_steps.NODES)}
        out["nodes"] = [number.get(k, 0) if k == i == n else 0 for k, i, n in c["nodes"]]
        for e in d["edges"]:
            u, v = number.get(e["u"]["id"], 0), number.get(e["v"]["id"], 0)
            if e["edge_type"]["name"] == "UNDIRECTED":
                u, v = sorted([u, v])
            m = (e.get("metadata") or {}).get("m", -1)
            out["edges"].append({"u": u, "v": v, "t": e["edge_type"]["name"], "m": m if type(m) is int else -1})
        out["vars"] = [{"x": x, "v": ws_steps.num(x, v)} for x, v in (d.get("variables") or {}).items()]
        out["content"] = digest(c)
        back = deserialize_result(json.loads(raw))
        again = json.loads(json.dumps(back.model_dump(), cls=CausyJSONEncoder))
        out["back"] = canon(again) == c
        return out

    o, x = lib.call(read)
    out["read"] = o if o == "ok" else o + " " + str(x)[:100]
    return out


class Scratch:
    def __init__(self, first, rnd, api):
        self.rnd, self.api, self.d, self.w = rnd, api, tempfile.mkdtemp(prefix="ws_"), None
        self.old, self.path = os.getcwd(), list(sys.path)
        os.chdir(self.d)
        self.foreign, self.ours = {}, {}
        self.pcontent = {f: {"set": c["set"], "defs": dict(c["defs"] or {})} for f, c in first["pfile"].items()}
        for f in self.pcontent:
            self.write_pipe(f)
        for f, v in first["dfile"].items():
            self.write_data(f, v)
        loads = {n: self.load_ref(x["file"], x["opts"]) for n, x in (first["loads"] or {}).items()}
        pipes = {n: self.pipe_ref(f) for n, f in (first["pipes"] or {}).items()}
        import ws_steps

        exps = {n: {"pipeline": x["pipe"], "dataloader": x["load"], "variables": {k: ws_steps.val(k, v) for k, v in (x["vars"] or {}).items()}} for n, x in (first["exps"] or {}).items()}
        self.save({"name": "my 1e3", "author": "on", "pipelines": pipes, "dataloaders": loads, "experiments": exps})

    def close(self):
        os.chdir(self.old)
        sys.path[:] = self.path
        shutil.rmtree(self.d, ignore_errors=True)

    # --- what a user does with an editor -----------------------------------------------------------
    def save(self, d):
        with open("workspace.yml", "w") as f:
            json.dump(d, f, indent=2)  # JSON is YAML

    def put(self, name, textual):
        with open(name, "w") as f:
            f.write(textual)
        self.ours[name] = digest(textual.encode())

    def write_data(self, f, v):
        rows = [{"x": v, "y": 1.5 * r, "z": r * r - v} for r in range(4)]
        rows = [dict(r, x=v + i) for i, r in enumerate(rows)]
        self.put(f, "\n".join(json.dumps(r) for r in rows) if f.endswith(".jsonl") else json.dumps(rows))

    def write_pipe(self, f):
        import ws_steps
        import yaml

        if f == "PC":
            return
        c = self.pcontent[f]
        if f == "m":
            self.put("m_pipe.py", f"import ws_steps\nfrom causy.graph_model import graph_model_factory\n\nPIPELINE = graph_model_factory(ws_steps.draw_algorithm({c!r}))\n")
            return
        plain = json.loads(json.dumps(ws_steps.draw_algorithm(c).model_dump()))
        self.put(f, yaml.dump(plain) if f.endswith(".yml") else json.dumps(plain))

    def load_ref(self, file, opts):
        return {"type": file.split(".")[-1], "reference": file, "options": OPTIONS[opts]}

    def pipe_ref(self, f):
        if f == "PC":
            return {"type": "name", "reference": "PC"}
        return {"type": "python_module", "reference": "m_pipe.PIPELINE"} if f == "m" else {"type": "file", "reference": f}

    def ws(self):
        import pydantic_yaml
        from causy.workspaces.models import Workspace

        with open("workspace.yml") as f:
            return pydantic_yaml.parse_yaml_raw_as(Workspace, f.read())

    def edit(self, fn):
        d = json.loads(self.ws().model_dump_json())
        fn(d)
        self.save(d)

    # --- commands ----------------------------------------------------------------------------------
    def cli(self, *args, typed=None):
        from typer.testing import CliRunner

        from causy.cli import app

        for m in ("m_pipe", "p", "p_1", "q", "1e3"):  # a command is a process of its own
            sys.modules.pop(m, None)
        sys.dont_write_bytecode = True
        importlib.invalidate_caches()
        out, res = lib.call(lambda: CliRunner().invoke(app, ["workspace", *args], input=typed), seconds=60)
        sys.path[:] = self.path
        if out != "ok":
            return out
        if res.exception is None or isinstance(res.exception, SystemExit):
            return "ok" if res.exit_code == 0 else "refused"
        self.error = repr(res.exception)[:300]
        return "failed:" + type(res.exception).__name__

    def asked(self, answers, *args, typed=None):
        import causy.workspaces.cli as wcli

        q = Answers(answers)
        old = wcli.questionary.select, wcli.questionary.text, wcli.questionary.path
        wcli.questionary.select = wcli.questionary.text = wcli.questionary.path = q
        try:
            return self.cli(*args, typed=typed)
        finally:
            wcli.questionary.select, wcli.questionary.text, wcli.questionary.path = old

    def do(self, o):
        import ws_steps

        k, e, x, y, v = o["k"], o["e"], o["x"], o["y"], o["v"]
        self.error = ""
        if k == "executeall":
            return self.cli("execute", *(["--force-reexecution"] if v else []))
        if k == "execute":
            return self.cli("execute", "--experiment-name", e)
        if k == "clear":
            return self.cli("experiment", "clear", e)
        if k == "rmexp":
            return self.cli("experiment", "rm", e)
        if k == "rmpipe":
            return self.cli("pipeline", "rm", e)
        if k == "rmload":
            return self.cli("dataloader", "rm", e)
        if k == "update":
            return self.cli("experiment", "update-variable", e, x, text(x, v))
        if k == "addexp":
            return self.asked([e, x, y], "experiment", "add")
        if k == "addload":
            return self.asked([x.split(".")[-1], e, x], "dataloader", "add")
        if k == "addpipe":
            r = self.asked([y, "PC", e] if y != "SKELETON" else [y, e], "pipeline", "add")
            self.made(e, y)
            return r
        if k == "init":
            if v == 0:
                return self.cli("init", typed="n\n")
            pipe, load, exp = v in (2, 4, 5), v >= 3, v == 5
            answers = (([y, "PC", x] if y != "SKELETON" else [y, x]) if pipe else []) + (["json", "x.json", "d_1"] if load else []) + ([e, x, "d_1"] if exp else [])
            yes = lambda b: "y\n" if b else "n\n"
            r = self.asked(answers, "init", typed="y\nmy 1e3\non\n" + yes(pipe) + yes(load) + (yes(exp) if pipe and load else ""))
            if pipe:
                self.made(x, y)
            return r
        if k == "editdata":
            self.write_data(e, v)
        elif k in ("editset", "editdef"):
            if k == "editset":
                self.pcontent[e]["set"] = v
            else:
                self.pcontent[e]["defs"][x] = v
            self.write_pipe(e)
        elif k == "editopts":
            self.edit(lambda d: d["dataloaders"][e].update(options=OPTIONS[v]))
        elif k == "usepipe":
            def use(d):
                d["experiments"][e]["pipeline"] = x
                names = self.names(d["pipelines"][x])
                d["experiments"][e]["variables"] = {a: b for a, b in d["experiments"][e]["variables"].items() if a in names}
            self.edit(use)
        elif k == "useload":
            self.edit(lambda d: d["experiments"][e].update(dataloader=x))
        elif k == "unset":
            self.edit(lambda d: d["experiments"][e]["variables"].pop(x))
        elif k == "import":  # a copy of the oldest version under an older number
            own = [int(m.group(1)) for m in (re.fullmatch(re.escape(e) + r"_(\d+)\.json", f) for f in os.listdir() if f not in self.ours) if m]
            if own:
                shutil.copy(f"{e}_{min(own)}.json", f"{e}_{IMPORTED[v]}.json")
        elif k == "badexec":
            with open("workspace.yml", "rb") as f:
                good = f.read()
            bad = {"unknown": 1, "type": 3 if VARTYPE.get(x) == "string" else "text", "choice": "other" if x == "c" else 7}[y]
            self.edit(lambda d: d["experiments"][e]["variables"].update({x: bad}))
            self.cli("execute", *([] if v else ["--experiment-name", e]))
            with open("workspace.yml", "wb") as f:
                f.write(good)
            self.error = ""
        elif k == "foreign":
            self.put(FOREIGN[v - 1], "{}" if v % 2 else "not json")
        return "ok"

    def made(self, name, kind):
        """the file of a new pipeline"""
        new = {"EJECT": name + ".yml", "SKELETON": name + ".py"}.get(kind)
        if new:
            if os.path.exists(new):
                with open(new, "rb") as f:
                    self.ours[new] = digest(f.read())
            else:
                self.ours[new] = "not there"

    def names(self, ref):
        f = self.pfile(ref)
        return self.pcontent[f]["defs"] if f in self.pcontent and f != "PC" else [] if f.endswith(".py") else ["threshold"]

    def pfile(self, ref):
        t, r = ref["type"], ref["reference"]
        if t == "python_module":
            return "m" if r == "m_pipe.PIPELINE" else r[:-len(".PIPELINE")] + ".py"
        return r

    # --- observations -------------------------------------------------------------------------------
    def observe(self, out):
        import ws_steps

        o = {"out": out, "error": getattr(self, "error", ""), "readable": False, "pipes": [], "loads": [], "exps": [], "files": [], "kept": True}
        got, w = lib.call(self.ws)
        if got == "ok":
            d = json.loads(w.model_dump_json())
            o["readable"] = d["name"] == "my 1e3" and d["author"] == "on"
            o["pipes"] = [{"n": n, "file": self.pfile(p)} for n, p in d["pipelines"].items()]
            o["loads"] = [{"n": n, "file": x["reference"], "opts": OPTIONS.index(x["options"]) if x["options"] in OPTIONS and x["type"] == x["reference"].split(".")[-1] else -1}
                          for n, x in d["dataloaders"].items()]
            o["exps"] = [{"n": n, "pipe": x["pipeline"], "load": x["dataloader"], "vars": [{"x": a, "v": ws_steps.num(a, b)} for a, b in w.experiments[n].variables.items()]}
                         for n, x in d["experiments"].items()]
        else:
            o["error"] += " " + repr(w)[:200]
        for f in sorted(os.listdir()):
            if f in self.ours or f in ("workspace.yml", "__pycache__"):
                continue
            m = re.fullmatch(r"(.+)_(\d+)\.json", f)
            if not m:
                o["kept"] = False
                o["error"] += " unexpected file " + f
                continue
            o["files"].append({"n": m.group(1), "ver": int(m.group(2)), **self.result(f)})
        for f, h in self.ours.items():
            if not os.path.exists(f) or digest(open(f, "rb").read()) != h:
                o["kept"] = False
                o["error"] += " changed file " + f
        if self.api:
            o["api"] = self.ask(o, w if got == "ok" else None)
        return o

    def result(self, f):
        cache = self.__dict__.setdefault("cache", {})
        with open(f, "rb") as h:
            key = (f, digest(h.read()))
        if key not in cache:
            cache[key] = stored(f)
        return cache[key]

    def ask(self, o, w):
        import ws_steps
        from causy.ui.server import _set_model, _set_workspace

        client = self.client()
        a = {"list": [], "latest": [], "version": [], "odd": [], "workspace": False, "status": False}
        get = lambda p: lib.call(lambda: client.get("/api/v1/" + p))

        def error(p):
            out, r = get(p)
            a["odd"].append("error" if out == "ok" and 400 <= r.status_code < 500 else f"{p}: {out} {r.status_code if out == 'ok' else r}")

        _set_model(None)
        _set_workspace(None)
        for p in ("workspace", "experiments", "experiments/e/latest", "experiments/e/1", "model"):
            error(p)
        if w is None:
            return a
        _set_workspace(w)
        try:
            out, r = get("experiments")
            if out == "ok" and r.status_code == 200:
                for x in r.json():
                    a["list"].append({"n": x["name"], "versions": [v["version"] for v in x["versions"]], "pipe": x["pipeline"], "load": x["dataloader"],
                                      "vars": [{"x": k, "v": ws_steps.num(k, v)} for k, v in x["variables"].items()]})
            own = {}
            for f in o["files"]:
                own.setdefault(f["n"], []).append(f["ver"])

            def served(p):
                out, r = get(p)
                if out == "ok" and r.status_code == 200:
                    c, d = lib.call(lambda: (r.json()["version"], digest(canon(r.json()))))
                    return {"status": "ok", "ver": d[0] if c == "ok" else -1, "content": d[1] if c == "ok" else str(d)[:80]}
                return {"status": "error" if out == "ok" and 400 <= r.status_code < 500 else f"{out} {getattr(r, 'status_code', r)}", "ver": 0, "content": ""}

            for e in w.experiments:
                a["latest"].append({"n": e, **served(f"experiments/{e}/latest")})
                for v in own.get(e, []):
                    a["version"].append({"n": e, "ask": v, **served(f"experiments/{e}/{v}")})
                wrong = {1, 7, 12, 5} | {v for vs in own.values() for v in vs} | {v + 1 for v in own.get(e, [])}
                for v in sorted(wrong - set(own.get(e, [])))[:6]:
                    error(f"experiments/{e}/{v}")
            for e in ("nope", "e_", "E", "e_1_2_"):
                if e in w.experiments:
                    continue
                error(f"experiments/{e}/latest")
                error(f"experiments/{e}/{self.rnd.choice([1, 5] + [v for vs in own.values() for v in vs])}")
            error("model")
            out, r = get("workspace")
            a["workspace"] = out == "ok" and r.status_code == 200 and r.json() == json.loads(w.model_dump_json())
            out, r = get("status")
            a["status"] = out == "ok" and r.status_code == 200 and r.json()["workspace_loaded"] is True and r.json()["model_loaded"] is False
        finally:
            _set_workspace(None)
        return a

    def client(self):
        from fastapi.testclient import TestClient

        from causy.ui.server import _create_ui_app

        if not hasattr(self, "_client"):
            self._client = TestClient(_create_ui_app(with_static=False))
        return self._client


def history(arg):
    idx, p, api = arg
    import fakepool

    fakepool.install()
    s = Scratch(p["first"], random.Random(lib.subseed("ws", idx)), api)
    try:
        obs = [s.observe("ok")]
        for o in p["ops"]:
            out, x = lib.call(s.do, o, seconds=120)
            obs.append(s.observe(x if out == "ok" else "failed:" + out))
    finally:
        s.close()
    return {"kind": "history", "first": p["first"], "ops": p["ops"], "obs": obs}


def describe(r):
    if r["kind"] != "history":
        return str(r)[:900]
    return str({"ops": [{k: v for k, v in o.items() if v not in ("", 0)} for o in r["ops"]], "outs": [(o["out"], o["error"]) for o in r["obs"]],
                "versions": [sorted((f["n"], f["ver"] % 1000) for f in o["files"]) for o in r["obs"]], "exps": r["first"]["exps"], "pipes": r["first"]["pipes"], "apis": [o.get("api", {}).get("odd") for o in r["obs"]][-1]})[:1800]


def generate(run, mode, maxops, num):
    out = os.path.join(run.build, mode + ".prog")
    open(out, "w").close()
    run.model("WorkspaceGen", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Inv\nPROPERTY Idempotent Apart OnlyAppend\nACTION_CONSTRAINT Emit\n",
              env={"GENOUT": out, "MAXOPS": maxops, "MODE": mode}, name="workspace_" + mode, args=["-simulate", f"num={num}", "-depth", str(maxops + 3), "-seed", str(lib.SEED)], workers=1)
    with open(out) as f:
        return [json.loads(json.loads(l)) if l.startswith('"') else json.loads(l) for l in f if l.strip()]
