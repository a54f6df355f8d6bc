------------------------------- MODULE Charset -------------------------------
(***************************************************************************)
(* Sets of bytes in registers, built from lists and ranges and combined.   *)
(* A set is written as the runs <<lo, hi>> of its members.  After every    *)
(* operation every register is observed.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Bytes == 0..255
Runs(rs) == UNION {rs[x][1]..rs[x][2] : x \in 1..Len(rs)}
Listed(l) == {l[x] : x \in 1..Len(l)}

Result(R, o) ==
  CASE o.k = "new" -> Listed(o.l)
    [] o.k = "range" -> o.lo..o.hi
    [] o.k = "add" -> R[o.x] \cup R[o.y]
    [] o.k = "sub" -> R[o.x] \ R[o.y]
    [] o.k = "comp" -> Bytes \ R[o.x]

Small(S) == S \subseteq 0..127

\* v: the members, the size, whether it is compactable, and if so the members and the size of the compact form
SeenOk(S, v) ==
  /\ Runs(v.m) = S
  /\ v.n = Cardinality(S)
  /\ (v.small = 1) <=> Small(S)
  /\ Small(S) => Runs(v.sm) = S /\ v.sn = Cardinality(S)

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

Bad(rec, st, o) == PrintT("@@BAD " \o rec.id \o " op " \o ToString(st.j + 1) \o " " \o ToString(o))

Step(rec, st, o) ==
  IF st.bad THEN st
  ELSE IF o.k = "crash" THEN [st EXCEPT !.bad = Bad(rec, st, o)]
  ELSE LET R2 == [st.R EXCEPT ![o.d] = Result(st.R, o)]
       IN IF \A r \in DOMAIN R2 : SeenOk(R2[r], o.seen[r]) THEN [st EXCEPT !.R = R2, !.j = @ + 1]
          ELSE [st EXCEPT !.bad = Bad(rec, st, o)]

CheckRec(rec) ==
  LET end == FoldLeft(LAMBDA st, o : Step(rec, st, o),
                      [R |-> [r \in 1..rec.regs |-> {}], j |-> 0, bad |-> FALSE], rec.ops)
  IN end.bad \/ end.j = Len(rec.ops)

Init == i = 0
Next == /\ i < Len(Recs)
        /\ CheckRec(Recs[i + 1]) = TRUE
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").distinct - 1))
=============================================================================
