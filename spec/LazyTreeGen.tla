----------------------------- MODULE LazyTreeGen -----------------------------
(***************************************************************************)
(* Prints a shortest history for every transition of LazyTree, which the   *)
(* code under test then goes through.  Intervals are named by their place. *)
(***************************************************************************)
EXTENDS LazyTree, Json

VARIABLE hist

GInit == Init /\ hist = <<>>
Step(s) == hist' = Append(hist, s) /\ PrintT("@@H " \o ToJson([steps |-> hist']))

GNext ==
  \/ \E lo \in 0..P : \E w \in 1..Wide : DoAdd(lo, lo + w) /\ Step([k |-> "add", lo |-> lo, hi |-> lo + w])
  \/ \E lo \in 0..P : \E hi \in lo..P : \E amt \in (lo - hi)..1 :
       DoRemove(lo, hi, amt) /\ Step([k |-> "rem", lo |-> lo, hi |-> hi, amt |-> amt])
  \/ \E n \in 1..N : DoCatch(n) /\ Step([k |-> "pos", lo |-> Now(n)[1]])

GSpec == GInit /\ [][GNext]_<<vars, hist>>
=============================================================================
