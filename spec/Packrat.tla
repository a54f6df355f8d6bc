------------------------------ MODULE Packrat ------------------------------
(***************************************************************************)
(* What memoization saves.  Every memoized pattern of a recorded parse     *)
(* logs each evaluation: <<id, 0, position, <<>>>> when it starts and      *)
(* <<id, 1, position, text>> when it succeeded, <<id, 3, position, <<>>>>  *)
(* when it failed (only in patterns with errors), and <<id, 2, position,   *)
(* <<>>>> tells of an error that is reported next.  Evaluating the pattern    *)
(* without memoization (PEG) gives every evaluation that can be needed,    *)
(* and its result.  With a table that remembers everything                 *)
(*   - exactly the evaluations that can be needed are made,                *)
(*   - each is made once, except that of results that are never stored:    *)
(*     those that consumed nothing, failures of the elements of a memoized *)
(*     repetition (rec.tree), and those during which an error was reported,*)
(*   - when the text is parsed again with the same table, only those that  *)
(*     are not stored are made.                                            *)
(***************************************************************************)
EXTENDS PEG, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE i

Entry(l) == <<l[1], l[2], l[3], l[4]>>
Set(log) == {Entry(log[x]) : x \in 1..Len(log)}
Key(e) == <<e[1], e[3]>>

\* What was being evaluated when an error was reported: open holds the
\* evaluations that have not ended.
RECURSIVE During(_, _, _, _)
During(log, x, open, found) ==
  IF x > Len(log) THEN found
  ELSE LET e == log[x]
       IN CASE e[2] = 0 -> During(log, x + 1, Append(open, Key(e)), found)
            [] e[2] = 2 -> During(log, x + 1, open, found \cup {open[y] : y \in 1..Len(open)})
            [] OTHER -> During(log, x + 1, SubSeq(open, 1, Len(open) - 1), found)

Judge(rec, run) ==
  LET exp == Outcome(rec.N, run.T, rec.r)
      all == Set(exp.l)
      ended == {e \in all : e[2] = 1}
      tree == {rec.tree[x] : x \in 1..Len(rec.tree)}
      nothing == {Key(e) : e \in {x \in ended : x[4] = <<>>}}
      failed == {Key(e) : e \in {x \in all : x[1] \in tree}} \ {Key(e) : e \in ended}
      erring == IF \E e \in all : e[2] = 2 THEN During(exp.l, 1, <<>>, {}) ELSE {}
      unstored == nothing \cup failed \cup erring
      times(log, k) == Cardinality({x \in 1..Len(log) : log[x][2] = 0 /\ Key(log[x]) = k})
      ok(o) == o.x = "" /\ o.m = exp.m /\ (o.m = 1 => o.p = exp.p)
      first == run.obs[1]
  IN /\ ok(first)
     /\ Set(first.l) = all
     /\ \A e \in all : e[2] = 0 => times(first.l, Key(e)) = 1 \/ Key(e) \in unstored
     /\ \A x \in 2..Len(run.obs) :
          /\ ok(run.obs[x])
          /\ \A e \in Set(run.obs[x].l) : e \in all /\ (e[2] = 2 \/ Key(e) \in unstored)

CheckRec(rec) ==
  \A j \in 1..Len(rec.runs) :
    \/ Judge(rec, rec.runs[j])
    \/ PrintT("@@BAD " \o rec.id \o " run " \o ToString(j) \o " obs " \o ToString(rec.runs[j].obs) \o " expected "
               \o ToString(Outcome(rec.N, rec.runs[j].T, rec.r)))

Init == i = 0
Next == /\ i < Len(Recs)
        /\ CheckRec(Recs[i + 1]) = TRUE
        /\ i' = i + 1
Spec == Init /\ [][Next]_i

Done == PrintT("@@DONE " \o ToString(TLCGet("stats").distinct - 1))
=============================================================================
