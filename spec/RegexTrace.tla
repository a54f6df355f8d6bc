----------------------------- MODULE RegexTrace -----------------------------
(***************************************************************************)
(* Regular expressions converted by the code and used to parse texts, one  *)
(* after another: every one finds its first match after the last.          *)
(***************************************************************************)
EXTENDS Regex, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

None == <<<<-1, -1>>>>

\* the matches of the expressions ks, each after the one before; <<>> if one of them has none
Finds(N, T, ks) ==
  FoldLeft(LAMBDA st, k :
             IF st = None THEN st
             ELSE LET p == IF st = <<>> THEN 0 ELSE st[Len(st)][2]
                      m == Find(N, T, k, p)
                  IN IF m = <<>> THEN None ELSE Append(st, m),
           <<>>, ks)

\* all matches of an expression that is never empty, each after the one before
RECURSIVE All(_, _, _, _)
All(N, T, k, p) ==
  LET m == Find(N, T, k, p) IN IF m = <<>> THEN <<>> ELSE <<m>> \o All(N, T, k, m[2])

Expected(rec, T) ==
  IF rec.use = "all" THEN All(rec.N, T, rec.ks[1], 0)
  ELSE Finds(rec.N, T, rec.ks)

RunOk(rec, r) ==
  LET e == Expected(rec, r.T)
  IN /\ r.x = ""
     /\ IF e = None THEN r.m = 0 ELSE r.m = 1 /\ r.c = e
     \* the specification against Go's implementation of the expressions
     /\ "go" \in DOMAIN r => (e = r.go \/ PrintT("@@VOID " \o rec.id))

Bad(rec, what) == PrintT("@@BAD " \o rec.id \o " " \o what)

CheckRec(rec) ==
  CASE rec.bad = 1 -> (rec.acc = 0 /\ rec.x = "") \/ Bad(rec, "not an expression: " \o rec.x)
    [] rec.bad = 0 /\ rec.x # "" -> Bad(rec, rec.x)
    [] rec.bad = 0 /\ rec.x = "" /\ rec.acc = 0 ->
         (\E x \in 1..Len(rec.ks) : ~Convertible(rec.N, rec.ks[x])) \/ Bad(rec, "rejected")
    [] OTHER ->
         \A j \in 1..Len(rec.runs) :
           RunOk(rec, rec.runs[j])
           \/ Bad(rec, "text " \o ToString(j) \o " " \o ToString(rec.runs[j]) \o " expected " \o ToString(Expected(rec, rec.runs[j].T)))

Init == i = 0
Next == /\ i < Len(Recs)
        /\ CheckRec(Recs[i + 1]) = TRUE
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").distinct - 1))
=============================================================================
