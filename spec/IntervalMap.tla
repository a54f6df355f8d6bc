---------------------------- MODULE IntervalMap ----------------------------
(***************************************************************************)
(* Interval maps: a set of entries <<tag, id, low, high, st>>.  Removing a *)
(* range removes what overlaps it and moves what begins at it or behind.   *)
(* Some implementations also remove what only touches the range (loose):   *)
(* then st is 0, the map may or may not hold the entry, until what it      *)
(* answers settles that.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Tag(e) == e[1]
Id(e) == e[2]
Low(e) == e[3]
High(e) == e[4]
Must(e) == e[5] = 1
Musts(S) == {e \in S : Must(e)}
Sure(e) == [e EXCEPT ![5] = 1]

Overlaps(e, lo, hi) == Low(e) < hi /\ High(e) > lo
Touches(e, lo, hi) == Low(e) <= hi /\ High(e) >= lo
Moved(e, lo, amt) == IF Low(e) >= lo THEN [e EXCEPT ![3] = @ + amt, ![4] = @ + amt] ELSE e

RemoveAndShift(S, lo, hi, amt, loose) ==
  {LET e2 == Moved(e, lo, amt) IN IF loose /\ Touches(e, lo, hi) THEN [e2 EXCEPT ![5] = 0] ELSE e2 :
     e \in {x \in S : ~Overlaps(x, lo, hi)}}

At(S, id, pos) == {e \in S : Id(e) = id /\ Low(e) = pos}

\* o.res is the tag found, or 0
FindOk(S, o) ==
  LET c == At(S, o.id, o.pos) IN
  IF o.res = 0 THEN Musts(c) = {}
  ELSE \E e \in c : Tag(e) = o.res /\ \A x \in Musts(c) : High(x) <= High(e)
FindNext(S, o) ==
  LET c == At(S, o.id, o.pos) IN
  IF o.res = 0 THEN S \ c
  ELSE LET e == CHOOSE e \in c : Tag(e) = o.res
       IN (S \ {x \in c : High(x) > High(e) \/ x = e}) \cup {Sure(e)}

AllOk(S, o) ==
  LET seen == ToSet(o.es) IN
  /\ Cardinality(seen) = Len(o.es)
  /\ seen \subseteq {Tag(e) : e \in S}
  /\ {Tag(e) : e \in Musts(S)} \subseteq seen
AllNext(S, o) == LET seen == ToSet(o.es) IN {Sure(e) : e \in {x \in S : Tag(x) \in seen}}

PosOk(S, o) == \A e \in S : Tag(e) = o.tag /\ Must(e) => o.pos = Low(e)
SizeOk(S, o) == Cardinality(Musts(S)) <= o.n /\ o.n <= Cardinality(S)

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

Bad(rec, st, o) == PrintT("@@BAD " \o rec.id \o " op " \o ToString(st.j + 1) \o " " \o ToString(o)
                           \o " map " \o rec.kind \o " " \o ToString(st.S))

Step(rec, st, o) ==
  LET S == st.S
      ok == CASE o.k \in {"add", "rem"} -> TRUE
              [] o.k = "find" -> FindOk(S, o)
              [] o.k = "all" -> AllOk(S, o)
              [] o.k = "pos" -> PosOk(S, o)
              [] o.k = "size" -> SizeOk(S, o)
              [] o.k = "crash" -> FALSE
  IN IF st.bad THEN st
     ELSE IF ~ok THEN [st EXCEPT !.bad = Bad(rec, st, o)]
     ELSE [st EXCEPT !.j = @ + 1,
             !.S = CASE o.k = "add" -> S \cup {<<o.tag, o.id, o.lo, o.hi, 1>>}
                     [] o.k = "rem" -> RemoveAndShift(S, o.lo, o.hi, o.amt, rec.loose = 1)
                     [] o.k = "find" -> FindNext(S, o)
                     [] o.k = "all" -> AllNext(S, o)
                     [] OTHER -> S]

CheckRec(rec) ==
  LET end == FoldLeft(LAMBDA st, o : Step(rec, st, o), [S |-> {}, j |-> 0, bad |-> FALSE], rec.ops)
  IN end.bad \/ end.j = Len(rec.ops)

Init == i = 0
Next == /\ i < Len(Recs)
        /\ CheckRec(Recs[i + 1]) = TRUE
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").distinct - 1))
=============================================================================
