---------------------------- MODULE InputBufGen ----------------------------
(***************************************************************************)
(* Prints a shortest history for every transition of InputBuf, which the   *)
(* code under test then goes through, with positions stretched to the size *)
(* of the window it has.                                                   *)
(***************************************************************************)
EXTENDS InputBuf, Json

VARIABLE hist   \* the operations so far, and how far the stream was read by then

GInit == Init /\ hist = << [k |-> "new", n |-> n, g |-> got, e |-> IF ended THEN 1 ELSE 0] >>

Step(k, x) == /\ hist' = Append(hist, [k |-> k, n |-> x, g |-> got', e |-> IF ended' THEN 1 ELSE 0])
              /\ PrintT("@@H " \o ToJson([w |-> Window, steps |-> hist']))

GNext ==
  \/ DoPeek /\ Step("peek", 0)
  \/ DoPeekBefore /\ Step("back", 0)
  \/ DoReset /\ Step("reset", 0)
  \/ \E k \in 0..Top : DoSeek(k) /\ Step("seek", k)
  \/ \E k \in 1..Top : p + k <= Top + 1 /\ DoAdvance(k) /\ Step("adv", k)

GSpec == GInit /\ [][GNext]_<<vars, hist>>
=============================================================================
