--------------------------- MODULE FileRefsJudge ---------------------------
EXTENDS Judging, FileRefs
(* rec.obs[i]: what loading rec.refs[i] gave: [out, id (of the file whose algorithm came back, 0 for none)] by the library,  *)
(* by the library in a working directory entered through a link, by a relative or absolute name as given; rec.api: the API  *)
Tree(rec) == [p \in {rec.fs[i].p : i \in DOMAIN rec.fs} |-> LET i == CHOOSE i \in DOMAIN rec.fs : rec.fs[i].p = p IN rec.fs[i].e]
Judge(rec) ==
  LET fs == TLCEval(Tree(rec))
      exp(r) == MayLoad(fs, rec.cwd, r)
      inner == TLCEval({fs[p].id : p \in {q \in DOMAIN fs : Inside(rec.cwd, q) /\ fs[q].kind = "file"}})
      (* a path through something that is no directory names nothing for the system, but may be read as a file inside *)
      open(i) == Resolve(fs, rec.cwd, rec.refs[i]) = Missing
      one(i, e, o) == Clauses(<<
        <<e # 0 \/ (o.id = 0 /\ o.out = "rejected") \/ (open(i) /\ o.out = "ok" /\ o.id \in inner), "outside-accepted">>,
        <<e = 0 \/ o.out = "ok",                    "inside-rejected">>,
        <<e = 0 \/ o.id = e,                        "other-file-loaded">> >>)
      first(i) == LET e == exp(rec.refs[i])
                      ks == {k \in DOMAIN rec.obs[i] : one(i, e, rec.obs[i][k]) # "ok"}
                  IN IF ks = {} THEN "ok" ELSE one(i, e, rec.obs[i][Min(ks)])
      lib(i) == first(i) = "ok"
      bad == {i \in DOMAIN rec.refs : ~lib(i)}
      (* through the API: nothing from outside, and plain names of files in the working directory *)
      api(j) == LET a == rec.api[j]
                    e == exp([abs |-> a.abs, to |-> a.to])
                IN IF a.out = "ok" THEN IF Len(a.to) = 1 /\ ~a.abs THEN e # 0 /\ a.id = e ELSE a.id \in inner   \* clients shorten paths themselves
                   ELSE a.out = "rejected" /\ (e = 0 \/ a.abs \/ Len(a.to) # 1 \/ a.dots)
      badApi == {j \in DOMAIN rec.api : ~api(j)}
  IN IF bad # {} THEN first(Min(bad)) ELSE IF badApi # {} THEN "api" ELSE "ok"
JInit == JStart
JNext == JStep(Judge)
JSpec == JInit /\ [][JNext]_jvars
JOk == JLogged
=============================================================================
