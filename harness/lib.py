"""Shared machinery: TLC runs, observation files, known findings, evidence, verdicts."""
import hashlib
import json
import logging
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import time
from concurrent.futures import ProcessPoolExecutor
import multiprocessing

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
REPO = "/repo"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CPUS = min(8, os.cpu_count() or 1)


def setup_causy():
    """Import causy from /repo's working tree (never from anywhere else)."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    logging.disable(logging.CRITICAL)
    import warnings

    warnings.filterwarnings("ignore")
    import torch

    torch.set_num_threads(1)
    import causy

    assert os.path.realpath(causy.__file__).startswith(REPO + "/"), causy.__file__


def pick(quick, thorough):
    return thorough if THOROUGH else quick


class MachineryError(Exception):
    """The check itself is broken (exit 2)."""


class CallTimeout(BaseException):
    pass


class time_limit:
    """Bounds a call into the code under test; a call that does not come back is an observation."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def handler(signum, frame):
            raise CallTimeout()

        self.old = signal.signal(signal.SIGALRM, handler)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


SLOW = multiprocessing.get_context("fork").Value("i", 0)  # calls that did not come back, in all processes


def call(fn, *args, seconds=20, **kw):
    """Run code under test. Returns (outcome, value): outcome is 'ok' or 'exc:<Type>' / 'timeout'."""
    if SLOW.value > 24:  # the verdict is clear, do not wait for more of them
        seconds = min(seconds, 2)
    try:
        with time_limit(seconds):
            return "ok", fn(*args, **kw)
    except CallTimeout:
        with SLOW.get_lock():
            SLOW.value += 1
        return "timeout", None
    except RecursionError:
        return "exc:RecursionError", None
    except Exception as e:
        return "exc:" + type(e).__name__, e
    except SystemExit as e:
        return "exc:SystemExit", e


class Run:
    """One check of one property."""

    def __init__(self, pid, level, rule):
        self.pid, self.level, self.rule = pid, level, rule
        self.t0 = time.time()
        self.build = os.path.join(ROOT, "build", pid)
        shutil.rmtree(self.build, ignore_errors=True)
        os.makedirs(self.build)
        self.rng = random.Random(SEED * 1000003 + int(hashlib.sha256(pid.encode()).hexdigest()[:8], 16))
        self.violations = []  # (clause, record, description)
        self.known_hits = []
        self.cov = {"tlc_states": 0, "tlc_transitions": 0}
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.nontrivial = 0
        self.samples = []
        self.assumptions = []
        self.parts = []

    # --- TLC -------------------------------------------------------------
    def tlc(self, module, cfg_text, env=None, workers=None, name=None, args=(), timeout=800, expect_ok=True, heap="6g"):
        name = name or module
        d = os.path.join(self.build, "tlc_" + name)
        os.makedirs(d, exist_ok=True)
        cfg = os.path.join(d, name + ".cfg")
        with open(cfg, "w") as f:
            f.write(cfg_text)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC",
               "-config", cfg, "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE",
               "-workers", str(workers or CPUS), *args, os.path.join(SPEC, module + ".tla")]
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module}")
        out = r.stdout + r.stderr
        with open(os.path.join(d, "out.txt"), "w") as f:
            f.write(out)
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        if not m:
            m = re.findall(r"The number of states generated: ([\d,]+)", out)
            if m:
                gen = dist = int(m[-1].replace(",", ""))
        res = {"rc": r.returncode, "out": out, "generated": gen, "distinct": dist, "s": round(time.time() - t, 1)}
        if expect_ok and r.returncode != 0:
            raise MachineryError(f"TLC failed on {module} ({name}), rc={r.returncode}:\n" + out[-3000:])
        self.parts.append({"tlc": name, "generated": gen, "distinct": dist, "seconds": res["s"]})
        return res

    def model(self, module, cfg_text, **kw):
        """Model-check the specification itself (the design)."""
        res = self.tlc(module, cfg_text, **kw)
        self.states += res["distinct"]
        self.transitions += res["generated"]
        return res

    def judge(self, module, records, chunk=None, name=None, constants="", describe=None, key=None, env=None, heap="6g", timeout=800):
        """Let TLC judge observations: the module defines Judge(rec), total, 'ok' or the failing clause."""
        if not records:
            raise MachineryError("no observations for " + module)
        name = name or module
        path = os.path.join(self.build, name + ".obs.ndjson")
        bad = os.path.join(self.build, name + ".bad.ndjson")
        todo = list(range(len(records)))
        bads, n = {}, len(records)
        cfg = ("SPECIFICATION JSpec\nCHECK_DEADLOCK FALSE\nINVARIANT JOk\n" + constants)
        for attempt in range(4):
            with open(path, "w") as f:
                for i in todo:
                    f.write(json.dumps(records[i], separators=(",", ":")) + "\n")
            open(bad, "w").close()
            nch = chunk or max(1, min(64, len(todo)))
            e = {"OBS": path, "BAD": bad, "NCHUNK": nch}
            e.update(env or {})
            res = self.tlc(module, cfg, env=e, name="judge_" + name, expect_ok=False, heap=heap, timeout=timeout)
            with open(bad) as f:
                for line in f:
                    line = line.strip()
                    if line:
                        i, clause = line.split(";", 1)
                        bads[todo[int(i) - 1]] = clause.strip('"')
            if res["rc"] == 0:
                if res["distinct"] != len(todo) + nch:
                    raise MachineryError(f"TLC judged {res['distinct']} of {len(todo)} records of {name}")
                break
            k = unjudgeable(res["out"], len(todo), nch)
            if k is None:
                raise MachineryError(f"TLC failed judging {name}, rc={res['rc']}:\n" + res["out"][-3000:])
            # an observation for which the specification has no value at all
            # (e.g. the code gave fewer answers than there were questions)
            bads[todo[k]] = "no-such-observation-in-the-specification"
            del todo[k]
            if not todo:
                break
        self.traces += n
        bads = {i + 1: c for i, c in bads.items()}
        for i in sorted(bads):
            rec = records[i - 1]
            self.violation(bads[i], rec, describe(rec) if describe else None)
        return [bads.get(i + 1, "ok") for i in range(n)]

    # --- verdicts ----------------------------------------------------------
    def violation(self, clause, record, description=None):
        for kf in known_findings(self.pid):
            if kf["clause"] == clause and matches(kf["match"], record):
                if kf["what"] not in self.known_hits:
                    self.known_hits.append(kf["what"])
                return
        self.violations.append({"clause": clause, "description": description, "record": record})

    def finish(self, exhaustive=None):
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "evaluations": self.evaluations, "distinct_nontrivial": self.nontrivial,
                           "rule": self.rule, "samples": self.samples[:5], "parts": self.parts},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        if exhaustive is not None:
            ev["coverage"]["exhaustive"] = exhaustive
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for w in self.known_hits:
            print(f"KNOWN-FINDING: property={self.pid} {w}")
        if self.violations:
            path = os.path.join(self.build, "violation.json")
            with open(path, "w") as f:
                json.dump(self.violations[:20], f, indent=1, default=str)
            for v in self.violations[:5]:
                print(f"  clause {v['clause']}: {v['description'] or json.dumps(v['record'], default=str)[:300]}")
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        print(f"OK property={self.pid} observations={self.traces} states={self.states} wall={ev['wall_s']}s")
        return 0


def unjudgeable(out, n, nch):
    """index of the observation TLC could not evaluate, or None if TLC failed for another reason"""
    if "StackOverflow" in out or "OutOfMemory" in out or not re.search(r"Attempted to|In evaluation|evaluating the expression|The error occurred when TLC was evaluating", out):
        return None
    m = re.findall(r"jp = (\d+)", out)
    if not m:
        # the first observation of a chunk: no state was printed
        m = re.findall(r"jc = (\d+)", out)
        return None if not m else ((int(m[-1]) - 1) * n) // nch
    k = int(m[-1])
    return k if k < n else None


def known_findings(pid):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def matches(pattern, record):
    """Every key of the pattern has exactly that value in the record."""
    return all(record.get(k) == v for k, v in pattern.items())


# --- parallel drivers --------------------------------------------------------
def _init_worker():
    setup_causy()


def pmap(fn, items, procs=None, chunksize=None):
    """Run a driver function on items in worker processes (order kept)."""
    items = list(items)
    procs = procs or CPUS
    if procs == 1 or len(items) < 4:
        setup_causy()
        return [fn(i) for i in items]
    ctx = multiprocessing.get_context("fork")
    with ProcessPoolExecutor(procs, mp_context=ctx, initializer=_init_worker) as ex:
        return list(ex.map(fn, items, chunksize=chunksize or max(1, len(items) // (procs * 8))))


def subseed(*parts):
    return int(hashlib.sha256(repr((SEED,) + parts).encode()).hexdigest()[:12], 16)
