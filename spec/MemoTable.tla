------------------------------ MODULE MemoTable ------------------------------
(***************************************************************************)
(* The memoization table: a set of entries                                 *)
(*   <<tag, id, pos, len, exam, st>>                                       *)
(* for the result of rule id at pos, which matched len bytes (-1: failed)  *)
(* and for which the bytes [pos, pos + exam) were examined.  tag names the *)
(* entry.  st is 1 if the table must hold the entry and 0 if it may: an    *)
(* edit that only touches an entry may remove it or keep it, and a small   *)
(* result need not be stored.  Whatever the implementation reveals about   *)
(* an entry of the second kind is from then on binding.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Tag(e) == e[1]
Id(e) == e[2]
Pos(e) == e[3]
Len_(e) == e[4]
Exam(e) == e[5]
Must(e) == e[6] = 1
High(e) == Pos(e) + Exam(e)

Tags(S) == {Tag(e) : e \in S}
Musts(S) == {e \in S : Must(e)}
Sure(e) == [e EXCEPT ![6] = 1]

(***************************************************************************)
(* Storing a result.                                                       *)
(***************************************************************************)
Entry(o) == <<o.tag, o.id, o.pos, o.len, IF o.exam > o.len THEN o.exam ELSE o.len,
              IF o.small = 1 \/ o.len = 0 THEN 0 ELSE 1>>

Put(S, o) == S \cup {Entry(o)}

(***************************************************************************)
(* An edit replaces [a, b) by n bytes.  An insertion also counts as        *)
(* touching the byte at a.                                                 *)
(***************************************************************************)
Overlaps(e, a, b) == Pos(e) < b /\ High(e) > a
Inside(e, a, b) == a = b /\ Pos(e) < a /\ High(e) > a
Touches(e, a, b) == Pos(e) <= (IF a = b THEN a + 1 ELSE b) /\ High(e) >= a

Moved(e, a, b, n) == IF Pos(e) >= b THEN [e EXCEPT ![3] = @ + n - (b - a)] ELSE e

Edit(S, a, b, n) ==
  {LET e2 == Moved(e, a, b, n) IN IF Touches(e, a, b) THEN [e2 EXCEPT ![6] = 0] ELSE e2 :
     e \in {x \in S : ~Overlaps(x, a, b) /\ ~Inside(x, a, b)}}

(***************************************************************************)
(* Observations: each operator says whether the table may answer so.       *)
(***************************************************************************)
At(S, id, pos) == {e \in S : Id(e) = id /\ Pos(e) = pos}

\* o.res = <<>> or <<tag, pos, len, exam>>
GetOk(S, o) ==
  LET c == At(S, o.id, o.pos) IN
  IF o.res = <<>> THEN Musts(c) = {}
  ELSE \E e \in c : /\ <<Tag(e), Pos(e), Len_(e), Exam(e)>> = o.res
                    /\ \A x \in Musts(c) : Exam(x) <= Exam(e)
GetNext(S, o) ==
  LET c == At(S, o.id, o.pos) IN
  IF o.res = <<>> THEN S \ c
  ELSE LET e == CHOOSE e \in c : Tag(e) = o.res[1]
       IN (S \ {x \in c : Exam(x) > Exam(e) \/ x = e}) \cup {Sure(e)}

\* o.es lists <<tag, pos, len, exam>>
AllOk(S, o) ==
  LET seen == {o.es[x] : x \in 1..Len(o.es)}
      view == [e \in S |-> <<Tag(e), Pos(e), Len_(e), Exam(e)>>]
  IN /\ Cardinality(seen) = Len(o.es)
     /\ o.size = Len(o.es)
     /\ seen \subseteq {view[e] : e \in S}
     /\ \A e \in Musts(S) : view[e] \in seen
AllNext(S, o) ==
  LET seen == {o.es[x][1] : x \in 1..Len(o.es)}
  IN {Sure(e) : e \in {x \in S : Tag(x) \in seen}}

\* a handle of an entry the table must hold, and a capture stored with it
PosOk(S, o) == \A e \in S : Tag(e) = o.tag /\ Must(e) => o.pos = Pos(e) /\ o.cap = Pos(e) + o.off

SizeOk(S, o) == Cardinality(Musts(S)) <= o.n /\ o.n <= Cardinality(S)

(***************************************************************************)
(* Histories.                                                              *)
(***************************************************************************)
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

Bad(rec, st, o) == PrintT("@@BAD " \o rec.id \o " op " \o ToString(st.j + 1) \o " " \o ToString(o)
                           \o " table " \o ToString(st.S))

Step(rec, st, o) ==
  LET S == st.S
      ok == CASE o.k \in {"put", "edit"} -> TRUE
              [] o.k = "get" -> GetOk(S, o)
              [] o.k = "all" -> AllOk(S, o)
              [] o.k = "pos" -> PosOk(S, o)
              [] o.k = "size" -> SizeOk(S, o)
              [] o.k = "crash" -> FALSE
  IN IF st.bad THEN st
     ELSE IF ~ok THEN [st EXCEPT !.bad = Bad(rec, st, o)]
     ELSE [st EXCEPT !.j = @ + 1,
             !.S = CASE o.k = "put" -> Put(S, o)
                     [] o.k = "edit" -> Edit(S, o.a, o.b, o.n)
                     [] o.k = "get" -> GetNext(S, o)
                     [] o.k = "all" -> AllNext(S, o)
                     [] OTHER -> S]

CheckRec(rec) ==
  LET end == FoldLeft(LAMBDA st, o : Step(rec, st, o), [S |-> {}, j |-> 0, bad |-> FALSE], rec.ops)
  IN end.bad \/ end.j = Len(rec.ops)

Init == i = 0
Next == /\ i < Len(Recs)
        /\ CheckRec(Recs[i + 1]) = TRUE
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").distinct - 1))
=============================================================================
