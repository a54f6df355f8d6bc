----------------------------- MODULE RopeTreeGen -----------------------------
(***************************************************************************)
(* Prints a shortest history for every transition of RopeTree, which the   *)
(* code under test then goes through.  Ropes are named by their place.     *)
(***************************************************************************)
EXTENDS RopeTree, Json

VARIABLES first,  \* the text at the beginning
          hist    \* the steps since then

GInit == Init /\ first = R[1].f /\ hist = <<>>

Step(s) == /\ hist' = Append(hist, s)
           /\ first' = first
           /\ PrintT("@@H " \o ToJson([S |-> o[1], J |-> o[2], T |-> first, steps |-> hist']))

GNext ==
  \/ \E x \in 1..Len(R) :
       \/ \E p \in 0..Len(R[x].f) : \E b \in Strings(InsMax) :
            DoInsert(x, p, b) /\ Step([k |-> "ins", x |-> x, lo |-> p, b |-> b])
       \/ \E lo \in 0..Len(R[x].f) : \E hi \in lo..Len(R[x].f) :
            DoRemove(x, lo, hi) /\ Step([k |-> "rem", x |-> x, lo |-> lo, hi |-> hi])
       \/ DoRebuild(x) /\ Step([k |-> "rebuild", x |-> x])
       \/ DoRebalance(x) /\ Step([k |-> "rebalance", x |-> x])
  \/ \E p \in 0..Len(R[1].f) : DoSplit(p) /\ Step([k |-> "split", x |-> 1, lo |-> p])
  \/ DoJoin(1, 2) /\ Step([k |-> "join", x |-> 1])
  \/ DoJoin(2, 1) /\ Step([k |-> "join", x |-> 2])

GSpec == GInit /\ [][GNext]_<<o, R, first, hist>>
View == <<o, R>>
=============================================================================
