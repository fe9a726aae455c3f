--------------------------- MODULE WorkspaceJudge ---------------------------
(* Judges recorded histories of a workspace (C18, C19, C20).                   *)
(* rec.first, rec.ops: the history.  rec.obs[1]: before the first operation,    *)
(* rec.obs[i+1]: after operation i.  An observation holds the workspace file as  *)
(* read back (pipes, loads, exps), every stored result (files: experiment name,  *)
(* version, digest, content), whether all other files are as they were (kept),   *)
(* and what the API answers.                                                     *)
EXTENDS Judging, Workspace
Prop == IOEnv.PROP
Fn(f) == IF DOMAIN f = {} THEN [x \in {} |-> 0] ELSE f        \* JSON writes empty functions as []
Ws(f) == [pipes |-> Fn(f.pipes), loads |-> Fn(f.loads),
          exps |-> [e \in DOMAIN Fn(f.exps) |-> [f.exps[e] EXCEPT !.vars = Fn(@)]],
          pfile |-> [p \in DOMAIN f.pfile |-> [f.pfile[p] EXCEPT !.defs = Fn(@)]], dfile |-> f.dfile, store |-> [x \in {} |-> <<>>]]
Map(s) == {<<s[i].x, s[i].v>> : i \in DOMAIN s}
FnMap(f) == {<<x, f[x]>> : x \in DOMAIN f}
SameWs(o, w) ==
  /\ o.readable
  /\ SetIs([i \in DOMAIN o.pipes |-> [n |-> o.pipes[i].n, file |-> o.pipes[i].file]], {[n |-> p, file |-> w.pipes[p]] : p \in DOMAIN w.pipes})
  /\ SetIs([i \in DOMAIN o.loads |-> [n |-> o.loads[i].n, file |-> o.loads[i].file, opts |-> o.loads[i].opts]], {[n |-> l, file |-> w.loads[l].file, opts |-> w.loads[l].opts] : l \in DOMAIN w.loads})
  /\ SetIs([i \in DOMAIN o.exps |-> o.exps[i].n], DOMAIN w.exps)
  /\ \A i \in DOMAIN o.exps : LET x == w.exps[o.exps[i].n] IN o.exps[i].pipe = x.pipe /\ o.exps[i].load = x.load /\ Map(o.exps[i].vars) = FnMap(x.vars) /\ Len(o.exps[i].vars) = Cardinality(DOMAIN x.vars)
FilesOf(o, e) == {i \in DOMAIN o.files : o.files[i].n = e}
Known(o) == {[n |-> o.files[i].n, ver |-> o.files[i].ver, dig |-> o.files[i].dig] : i \in DOMAIN o.files}
NewFiles(p, o) == {i \in DOMAIN o.files : \A j \in DOMAIN p.files : <<p.files[j].n, p.files[j].ver>> # <<o.files[i].n, o.files[i].ver>>}
(* a stored result is what the run gives *)
GoodResult(f, r) ==
  /\ Map(f.vars) = FnMap(r.eff) /\ Len(f.vars) = Cardinality(DOMAIN r.eff)
  /\ SetIs(f.nodes, 1..3)
  /\ KnownGraph(r) => {f.edges[i] : i \in DOMAIN f.edges} = EdgesOf(r)
(* --- what the API says: p.list (experiments with their versions), p.latest, p.version, p.odd (requests that name nothing) --- *)
VersionsOf(o, e) == {o.files[i].ver : i \in FilesOf(o, e)}
NewestFirst(s, S) == SetIs(s, S) /\ \A i, j \in DOMAIN s : i < j => s[i] > s[j]
DigestOf(o, e, v) == LET i == CHOOSE i \in FilesOf(o, e) : o.files[i].ver = v IN o.files[i].content
GoodApi(o, w) ==
  LET a == o.api IN
  /\ SetIs([i \in DOMAIN a.list |-> a.list[i].n], DOMAIN w.exps)
  /\ \A i \in DOMAIN a.list : /\ NewestFirst(a.list[i].versions, VersionsOf(o, a.list[i].n))
                              /\ a.list[i].pipe = w.exps[a.list[i].n].pipe /\ a.list[i].load = w.exps[a.list[i].n].load
                              /\ Map(a.list[i].vars) = FnMap(w.exps[a.list[i].n].vars)
  /\ {a.latest[i].n : i \in DOMAIN a.latest} = DOMAIN w.exps
  /\ \A i \in DOMAIN a.latest : LET e == a.latest[i].n IN
        IF VersionsOf(o, e) = {} THEN a.latest[i].status = "error"
        ELSE a.latest[i].status = "ok" /\ a.latest[i].ver = Max(VersionsOf(o, e)) /\ a.latest[i].content = DigestOf(o, e, Max(VersionsOf(o, e)))
  /\ {<<a.version[i].n, a.version[i].ask>> : i \in DOMAIN a.version} = {<<o.files[i].n, o.files[i].ver>> : i \in {j \in DOMAIN o.files : o.files[j].n \in DOMAIN w.exps}}
  /\ \A i \in DOMAIN a.version : /\ a.version[i].status = "ok" /\ a.version[i].ver = a.version[i].ask
                                 /\ a.version[i].content = DigestOf(o, a.version[i].n, a.version[i].ask)
  /\ \A i \in DOMAIN a.odd : a.odd[i] = "error"
  /\ a.workspace
  /\ a.status

(* one operation: w before, p the observation before, o after *)
Ran(p, o) == {o.files[i].n : i \in NewFiles(p, o)}           \* the experiments with a new version
StepVerdict(w, op, p, o) ==
  LET copied == op.k = "import"                      \* copies a stored version: its new file is no run
      new == IF copied THEN {} ELSE NewFiles(p, o)
      ran == TLCEval(IF copied THEN {} ELSE Ran(p, o))
      w2 == TLCEval(Step(w, op, ran \cap DOMAIN w.exps))
      runs == Runs(w, op)
      gone == IF op.k \in {"clear", "rmexp"} /\ Enabled(w, op) THEN {op.e} ELSE {}
      kept == {f \in Known(p) : f.n \notin gone}
  IN Clauses(<<
    <<Prop # "C19" \/ op.k \notin {"execute", "executeall"} \/ o.out = "ok",                                "execution-failed">>,
    <<Prop # "C19" \/ runs \subseteq ran,                                                                   "not-executed">>,
    <<Prop # "C19" \/ ran \subseteq MayRuns(w, op),                                                         "executed-without-need">>,
    <<Prop # "C19" \/ \A e \in ran : Cardinality({i \in new : o.files[i].n = e}) = 1,                        "several-versions">>,
    <<Prop # "C19" \/ \A i \in new : \A j \in DOMAIN p.files : p.files[j].n = o.files[i].n => p.files[j].ver < o.files[i].ver, "new-version-not-newest">>,
    <<Prop # "C19" \/ kept \subseteq Known(o),                                                              "stored-version-touched">>,
    <<Prop # "C19" \/ \A i \in new : o.files[i].n \in DOMAIN w.exps => GoodResult(o.files[i], Inputs(w, o.files[i].n)), "result-of-other-inputs">>,
    <<Prop # "C19" \/ op.k \notin {"execute", "executeall", "badexec"} \/ (SameWs(o, w2) /\ o.kept),                    "execution-changed-the-workspace">>,
    <<Prop # "C20" \/ o.out \in {"ok", "refused"},                                                          "command-failed">>,
    <<Prop # "C20" \/ SameWs(o, w2),                                                                        "workspace-content">>,
    <<Prop # "C20" \/ Known(o) \cap {f \in Known(p) : f.n \in gone} = {},                                    "versions-left">>,
    <<Prop # "C20" \/ kept \subseteq Known(o),                                                              "other-versions-deleted">>,
    <<Prop # "C20" \/ op.k \in {"execute", "executeall"} \/ new = {},                                       "version-appeared">>,
    <<Prop # "C20" \/ o.kept,                                                                               "other-files-changed">>,
    <<Prop # "C18" \/ \A i \in new : o.files[i].n \in DOMAIN w.exps => GoodResult(o.files[i], Inputs(w, o.files[i].n)), "stored-result">>,
    <<Prop # "C18" \/ \A i \in new : o.files[i].back,                                                        "read-back">>,
    <<Prop # "C18" \/ GoodApi(o, w2),                                                                       "api">> >>)
RECURSIVE Play(_, _, _)
Play(w, rec, i) ==
  IF i > Len(rec.ops) THEN "ok"
  ELSE LET p == rec.obs[i]
           o == rec.obs[i + 1]
           v == StepVerdict(w, rec.ops[i], p, o)
       IN IF v # "ok" THEN v \o " at step " \o ToString(i)
          ELSE Play(TLCEval(Step(w, rec.ops[i], IF rec.ops[i].k = "import" THEN {} ELSE Ran(p, o) \cap DOMAIN w.exps)), rec, i + 1)
JudgeHistory(rec) == LET w == TLCEval(Ws(rec.first)) IN
  IF ~SameWs(rec.obs[1], w) THEN "first-observation" ELSE IF Prop = "C18" /\ ~GoodApi(rec.obs[1], w) THEN "api" ELSE Play(w, rec, 1)
(* a result of a run, as stored, as read back and as served (digests of its parts) against the run itself *)
JudgeResult(rec) == Clauses(<<
  <<rec.out = "ok",                                "run-or-store-failed">>,
  <<rec.stored.nodes = rec.run.nodes,              "stored-nodes">>,
  <<rec.stored.edges = rec.run.edges,              "stored-edges">>,
  <<rec.stored.log = rec.run.log,                  "stored-log">>,
  <<rec.stored.vars = rec.run.vars,                "stored-variables">>,
  <<rec.back = rec.stored,                         "read-back">>,
  <<rec.again,                                     "stored-again-differs">>,
  <<\A i \in DOMAIN rec.served : rec.served[i] = rec.stored, "served">> >>)
Judge(rec) == IF rec.kind = "history" THEN JudgeHistory(rec) ELSE JudgeResult(rec)
JInit == JStart
JNext == JStep(Judge)
JSpec == JInit /\ [][JNext]_jvars
JOk == JLogged
=============================================================================
