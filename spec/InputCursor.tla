----------------------------- MODULE InputCursor -----------------------------
(***************************************************************************)
(* The input cursor: a position in a sequence of bytes, and the furthest   *)
(* position that has been revealed.  The sequence is given by a formula,   *)
(* so that long texts need no long records.  The same sequence seen        *)
(* through the adapter from a stream to random access is judged by Read.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

\* t = [n |-> length, a, b, c]
ByteAt(t, k) == (k * t.a + (k \div 16) * t.b + (k \div 4096) * t.c + t.d) % 256
Has(t, k) == 0 <= k /\ k < t.n

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

(***************************************************************************)
(* State: st.p the position, st.f the furthest position revealed (or -1).  *)
(* An operation reports o.res; o.p and o.f are the position and furthest   *)
(* position the cursor reports after it.                                   *)
(***************************************************************************)
AtPos(t, k) == IF Has(t, k) THEN <<ByteAt(t, k)>> ELSE <<>>

\* the bytes [lo, hi) that exist
SliceIs(t, lo, hi, res) ==
  LET n == IF lo >= t.n THEN 0 ELSE MinI(hi, t.n) - lo
  IN /\ Len(res) = n
     /\ \A k \in 1..n : res[k] = ByteAt(t, lo + k - 1)

\* a failed advance ends no further than its target
AdvanceOk(t, p, n) == p + n <= t.n

Revealed(t, st, o) ==
  CASE o.k = "peek" -> st.p
    [] o.k = "adv" /\ o.n > 0 -> st.p + o.n - 1
    [] OTHER -> -1

\* a read of o.len bytes at o.off delivers o.res, and o.err = 1 if an error was reported
ReadOk(t, o) ==
  /\ SliceIs(t, o.off, o.off + o.len, o.res)
  /\ Len(o.res) < o.len => o.err = 1
  /\ o.off + o.len < t.n => o.err = 0

OpOk(t, st, o) ==
  CASE o.k = "peek" -> o.res = AtPos(t, st.p) /\ o.p = st.p
    [] o.k = "back" -> o.res = AtPos(t, st.p - 1) /\ o.p = st.p
    [] o.k = "seek" -> o.res = (IF Has(t, o.n) THEN 1 ELSE 0) /\ o.p = o.n
    [] o.k = "adv" -> IF AdvanceOk(t, st.p, o.n) THEN o.res = 1 /\ o.p = st.p + o.n
                      ELSE IF o.n = 0 THEN o.p = st.p
                      ELSE o.res = 0 /\ st.p <= o.p /\ o.p <= st.p + o.n
    [] o.k = "slice" -> SliceIs(t, o.lo, o.hi, o.res) /\ o.p = st.p
    [] o.k = "reset" -> o.p = st.p
    [] o.k = "read" -> ReadOk(t, o) /\ o.p = st.p
    [] o.k = "crash" -> FALSE

After(t, st, o) ==
  [st EXCEPT !.p = o.p, !.f = IF o.k = "reset" THEN -1 ELSE MaxI(st.f, Revealed(t, st, o)), !.j = @ + 1]

(***************************************************************************)
(* Histories.                                                              *)
(***************************************************************************)
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

Bad(rec, st, o) == PrintT("@@BAD " \o rec.id \o " via " \o rec.via \o " op " \o ToString(st.j + 1) \o " "
                           \o ToString(o) \o " at " \o ToString(st.p) \o " revealed " \o ToString(st.f))

Step(rec, st, o) ==
  IF st.bad THEN st
  ELSE IF ~OpOk(rec.t, st, o) \/ After(rec.t, st, o).f > o.f THEN [st EXCEPT !.bad = Bad(rec, st, o)]
  ELSE After(rec.t, st, o)

CheckRec(rec) ==
  LET end == FoldLeft(LAMBDA st, o : Step(rec, st, o), [p |-> 0, f |-> -1, j |-> 0, bad |-> FALSE], rec.ops)
  IN end.bad \/ end.j = Len(rec.ops)

Init == i = 0
Next == /\ i < Len(Recs)
        /\ CheckRec(Recs[i + 1]) = TRUE
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").distinct - 1))
=============================================================================
