-------------------------------- MODULE Linear --------------------------------
(***************************************************************************)
(* Operations on one memoization table by several goroutines.  Every       *)
(* operation has the times of its call and its return; the history is      *)
(* right if the operations can be put in an order in which none comes      *)
(* before one that had returned when it was called, and in which they are  *)
(* what the table of MemoTable, used by one, may answer.                   *)
(***************************************************************************)
EXTENDS MemoTable

\* every entry listed, as <<tag, len, exam>>
TagsOk(S, o) ==
  LET seen == {o.es[x] : x \in 1..Len(o.es)}
      view(e) == <<Tag(e), Len_(e), Exam(e)>>
  IN /\ Cardinality(seen) = Len(o.es)
     /\ seen \subseteq {view(e) : e \in S}
     /\ \A e \in Musts(S) : view(e) \in seen

\* the tables that may result from an operation, none if the table cannot answer as observed
After(S, o) ==
  CASE o.k = "put" -> {Put(S, o)}
    [] o.k = "edit" -> {Edit(S, o.a, o.b, o.n)}
    [] o.k = "get" -> IF GetOk(S, o) THEN {GetNext(S, o)} ELSE {}
    [] o.k = "tags" -> IF TagsOk(S, o) THEN {AllNext(S, o)} ELSE {}
    [] o.k = "pos" -> IF PosOk(S, o) THEN {S} ELSE {}
    [] o.k = "size" -> IF SizeOk(S, o) THEN {S} ELSE {}
    [] OTHER -> {}

LCheck(rec) ==
  LET ops == rec.ops
      n == Len(ops)
      before == [x \in 1..n |-> {y \in 1..n : ops[y].ret < ops[x].inv}]
      \* the ways to do one more operation: what is done, and the table
      more(C) == UNION {UNION {{[d |-> c.d \cup {x}, S |-> T] : T \in After(c.S, ops[x])} :
                               x \in {x \in (1..n) \ c.d : before[x] \subseteq c.d}} : c \in C}
      end == FoldLeft(LAMBDA st, k : IF st.C = {} THEN st ELSE [C |-> more(st.C), n |-> k],
                      [C |-> {[d |-> {}, S |-> {}]}, n |-> 0], [k \in 1..n |-> k])
  IN \/ end.C # {}
     \/ PrintT("@@BAD " \o rec.id \o " no order of the operations explains them, at most " \o ToString(end.n - 1)
               \o " of " \o ToString(n) \o ": " \o ToString(ops))

LNext == /\ i < Len(Recs)
         /\ LCheck(Recs[i + 1]) = TRUE
         /\ i' = i + 1
LSpec == Init /\ [][LNext]_i
=============================================================================
