---------------------------- MODULE WorkspaceGen ----------------------------
(* Histories of a workspace.  MODE chooses the mix of commands.                *)
EXTENDS Workspace, Json, IOUtils, CSV
VARIABLES w, n, first, ops
vars == <<w, n, first, ops>>
MaxOps == atoi(IOEnv.MAXOPS)
Mode == IOEnv.MODE
Exps == {"e", "e_1", "ee", "e_1_2", "on", "p_x"}              \* names the add command leaves as they are
Odd == {"_e", "E", "e.1"}
Pipes == {"p", "p_1", "q", "1e3"}
Loads == {"d", "d_1", "0o7"}
PFiles == {"a.yml", "b.json", "m"}                     \* m: a python module
DFiles == {"x.json", "y.json", "z.jsonl"}
One(S) == RandomElement(S)
Rand(T, x) == LET t == VarType[x] IN One(IF x = "threshold" THEN 1..4 ELSE IF x \in DOMAIN ChoicesOf THEN ChoicesOf[x] ELSE IF t = "bool" THEN 0..1 ELSE IF t = "integer" THEN 0..3 ELSE 0..4)
RandDefs(z) == LET vs == TLCEval(One({VarNames, VarNames, {"i", "f"}, {"s", "b", "c"}, {"o", "g"}, {}})) IN TLCEval([x \in vs |-> Rand(z, x)])
RandPF(z) == [set |-> One(0..2), defs |-> TLCEval(RandDefs(z))]
RandVars(d, z) == LET vs == TLCEval(One(SUBSET DOMAIN d)) IN TLCEval([x \in vs |-> Rand(z, x)])
RandWs(z) ==
  LET ps == TLCEval(One({s \in SUBSET Pipes : s # {}}))
      ls == TLCEval(One({s \in SUBSET Loads : s # {}}))
      es == TLCEval(One({s \in SUBSET Exps : Cardinality(s) >= 2}) \cup One({{}, {}, {"_e"}, {"E"}, {"e.1"}, Odd}))
      pf == TLCEval([f \in PFiles \cup {"PC"} |-> IF f = "PC" THEN Shipped ELSE RandPF(f)])
      pipes == TLCEval([p \in ps |-> IF One(1..8) = 1 THEN "PC" ELSE One(PFiles)])
      mk(e) == LET p == TLCEval(One(ps)) IN [pipe |-> p, load |-> One(ls), vars |-> TLCEval(RandVars(pf[pipes[p]].defs, e))]
  IN [pipes |-> pipes, loads |-> TLCEval([l \in ls |-> [file |-> One(DFiles), opts |-> One(0..5)]]),
      exps |-> TLCEval([e \in es |-> mk(e)]), pfile |-> pf, dfile |-> TLCEval([f \in DFiles |-> One(0..2)]), store |-> [x \in {} |-> <<>>]]
Mk(k, e, x, y, v) == [k |-> k, e |-> e, x |-> x, y |-> y, v |-> v]
(* fresh or used up names now and then *)
SomeExp(z) == IF Mode = "pile" /\ One(1..9) > 1 /\ DOMAIN w.exps # {} THEN (CHOOSE e \in DOMAIN w.exps : TRUE)
              ELSE IF One(1..8) = 1 \/ DOMAIN w.exps = {} THEN One(Exps \cup {"nope"}) ELSE One(DOMAIN w.exps)
KnownExp(z) == One(DOMAIN w.exps)
Kinds == CASE Mode = "run"  -> <<"executeall", "executeall", "executeall", "execute", "force", "update", "update", "clear", "editdata", "editset", "editdef", "editopts", "usepipe", "useload", "unset", "rmexp", "foreign", "import", "badexec">>
           [] Mode = "edit" -> <<"execute", "executeall", "force", "force", "force", "update", "update", "update", "clear", "rmexp", "rmpipe", "rmpipe", "rmload", "rmload", "addexp", "addpipe", "addload", "usepipe", "useload", "unset", "foreign", "import", "init">>
           [] Mode = "pile" /\ n < MaxOps - 8 -> <<"execute", "execute", "execute", "execute", "execute", "execute", "force", "update", "import", "editdata">>   \* many versions
           [] Mode = "pile" -> <<"executeall", "executeall", "executeall", "update", "editdata", "editset", "import", "foreign", "executeall", "clear", "rmexp">>
           [] OTHER -> <<"execute", "execute", "executeall", "force", "update", "clear", "rmexp", "editdata", "foreign", "foreign", "addexp", "import", "import">>
Make(k) ==
  LET e0 == TLCEval(SomeExp(n)) IN
  CASE k = "executeall" -> Mk(k, "", "", "", 0)
    [] k = "force" -> Mk("executeall", "", "", "", 1)
    [] k = "execute" -> Mk(k, e0, "", "", 0)
    [] k \in {"clear", "rmexp"} -> Mk(k, e0, "", "", 0)
    [] k = "rmpipe" -> Mk(k, One(Pipes), "", "", 0)
    [] k = "rmload" -> Mk(k, One(Loads), "", "", 0)
    [] k = "update" -> LET own == TLCEval(IF e0 \in DOMAIN w.exps THEN DOMAIN w.pfile[w.pipes[w.exps[e0].pipe]].defs ELSE {})
                       IN Mk(k, e0, IF own # {} /\ One(1..8) > 1 THEN One(own) ELSE One(VarNames), "", One(1..NTexts))
    [] k = "editdata" -> Mk(k, One(DFiles), "", "", One(0..2))
    [] k = "editset" -> Mk(k, One(PFiles), "", "", One(0..2))
    [] k = "editdef" -> LET f == TLCEval(One(PFiles))
                            ds == DOMAIN w.pfile[f].defs
                        IN IF ds = {} THEN Mk("look", "", "", "", 0) ELSE LET x == TLCEval(One(ds)) IN Mk(k, f, x, "", Rand(n, x))
    [] k = "editopts" -> IF DOMAIN w.loads = {} THEN Mk("look", "", "", "", 0) ELSE Mk(k, One(DOMAIN w.loads), "", "", One(0..5))
    [] k = "usepipe" -> IF DOMAIN w.exps = {} THEN Mk("look", "", "", "", 0) ELSE Mk(k, KnownExp(n), One(DOMAIN w.pipes), "", 0)
    [] k = "useload" -> IF DOMAIN w.exps = {} THEN Mk("look", "", "", "", 0) ELSE Mk(k, KnownExp(n), One(DOMAIN w.loads), "", 0)
    [] k = "unset" -> IF DOMAIN w.exps = {} THEN Mk("look", "", "", "", 0)
                      ELSE LET e == TLCEval(KnownExp(n)) IN IF DOMAIN w.exps[e].vars = {} THEN Mk("look", "", "", "", 0) ELSE Mk(k, e, One(DOMAIN w.exps[e].vars), "", 0)
    [] k = "addexp" -> LET free == Exps \ DOMAIN w.exps IN
                       IF free = {} \/ DOMAIN w.pipes = {} \/ DOMAIN w.loads = {} THEN Mk("look", "", "", "", 0)
                       ELSE Mk(k, One(free), One(DOMAIN w.pipes), One(DOMAIN w.loads), 0)
    [] k = "addload" -> LET free == Loads \ DOMAIN w.loads IN IF free = {} THEN Mk("look", "", "", "", 0) ELSE Mk(k, One(free), One(DFiles), "", 0)
    [] k = "addpipe" -> LET free == Pipes \ DOMAIN w.pipes IN IF free = {} THEN Mk("look", "", "", "", 0) ELSE Mk(k, One(free), "", One({"PRECONFIGURED", "EJECT", "SKELETON"}), 0)
    [] k = "import" -> LET had == Cardinality({i \in DOMAIN ops : ops[i].k = "import"})
                           es == {e \in DOMAIN w.exps : Stored(w, e) # <<>>}
                       IN IF had > 2 \/ es = {} THEN Mk("look", "", "", "", 0) ELSE Mk(k, One(es), "", "", had)
    [] k = "init" -> Mk(k, One(Exps), One(Pipes), One({"PRECONFIGURED", "EJECT", "SKELETON"}), One({0, 0, 1, 2, 3, 4, 5, 5 + 0 * n}))
    [] k = "badexec" -> IF DOMAIN w.exps = {} THEN Mk("look", "", "", "", 0)
                        ELSE LET e   == TLCEval(KnownExp(n))
                                 own == DOMAIN w.pfile[w.pipes[w.exps[e].pipe]].defs
                                 y   == TLCEval(One({"unknown", "type", "choice"}))
                                 can == IF y = "choice" THEN own \cap DOMAIN ChoicesOf ELSE own
                             IN IF y = "unknown" \/ can = {} THEN Mk(k, e, "zz", "unknown", One(0..1)) ELSE Mk(k, e, One(can), y, One(0..1))
    [] k = "foreign" -> Mk(k, "", "", "", One(1..9))
Init == w = [pipes |-> <<>>, loads |-> <<>>, exps |-> <<>>, pfile |-> <<>>, dfile |-> <<>>, store |-> <<>>] /\ n = 0 /\ first = w /\ ops = <<>>
Start == n = 0 /\ n' = 1 /\ \E t \in {RandWs(n)} : w' = t /\ first' = t /\ UNCHANGED ops
Act == /\ n \in 1..MaxOps /\ n' = n + 1 /\ UNCHANGED first
       /\ \E i \in {One(DOMAIN Kinds)} : \E o \in {TLCEval(Make(Kinds[i]))} :
            ops' = Append(ops, o) /\ w' = Step(w, o, Runs(w, o))
Next == Start \/ Act
Inv == n > 0 => Closed(w)
(* after executing all, every experiment is up to date; a second time nothing runs *)
Idempotent == [][ops' # ops /\ Last(ops').k = "executeall" => \A e \in DOMAIN w'.exps : UpToDate(w', e) /\ ~MustRun(w', e, FALSE)]_vars
(* commands leave the results of other experiments alone *)
Apart == [][ops' # ops /\ Last(ops').k \in {"clear", "rmexp", "execute", "update"} =>
              \A e \in DOMAIN w.store \ {Last(ops').e} : e \in DOMAIN w'.store /\ w'.store[e] = w.store[e]]_vars
OnlyAppend == [][ops' # ops /\ Last(ops').k \notin {"clear", "rmexp", "import"} => \A e \in DOMAIN w.store : IsPrefix(w.store[e], w'.store[e])]_vars
Emit == n' # MaxOps + 1 \/ CSVWrite("%1$s", <<ToJson([first |-> first', ops |-> ops'])>>, IOEnv.GENOUT)
=============================================================================
