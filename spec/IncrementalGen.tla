--------------------------- MODULE IncrementalGen ---------------------------
(***************************************************************************)
(* Prints a shortest history for every transition of Incremental, which    *)
(* the code under test then goes through.                                  *)
(***************************************************************************)
EXTENDS Incremental, Json, IOUtils

VARIABLES first,  \* the text at the beginning
          hist    \* the steps since then

GInit == Init /\ mode = IOEnv.MODE /\ first = text /\ hist = <<>>

Step(s) == /\ hist' = Append(hist, s)
           /\ first' = first
           /\ PrintT("@@H " \o ToJson([p |-> prog, T |-> first, steps |-> hist']))

GNext ==
  \/ \E ad \in Places : \E ins \in Strings(InsMax(prog)) :
       /\ ad[2] > 0 \/ ins # <<>>
       /\ EditBy(ad[1], ad[2], ins)
       /\ Step([k |-> "edit", at |-> ad[1], del |-> ad[2], ins |-> ins])
  \/ Parse /\ Step([k |-> "parse"])
  \/ \E iv \in Intervals : IParseOn(iv) /\ Step([k |-> "iparse", lo |-> iv[1], hi |-> iv[2]])

GSpec == GInit /\ [][GNext]_<<vars, first, hist>>
View == vars
ASSUME PrintT("@@P " \o ToJson(Progs))
=============================================================================
