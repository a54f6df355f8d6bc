----------------------------- MODULE NamesTrace -----------------------------
(***************************************************************************)
(* Compiling patterns with undefined names.  If a name that matching can   *)
(* reach is not defined by an enclosing grammar, compilation must report   *)
(* it (or another undefined name) as not found; if every name is defined,  *)
(* it must succeed.  Names that are undefined only in definitions nothing  *)
(* refers to may or may not be reported.                                   *)
(***************************************************************************)
EXTENDS PEG, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

Right(mis, unr, o) ==
  CASE o.res = "ok" -> mis = {}
    [] o.res = "notfound" -> o.nm \in unr
    [] OTHER -> FALSE

CheckRec(rec) ==
  LET mis == Missing(rec.N, <<>>, rec.r, {})
      unr == Unresolved(rec.N, <<>>, rec.r)
  IN \A x \in 1..Len(rec.obs) :
       \/ Right(mis, unr, rec.obs[x])
       \/ PrintT("@@BAD " \o rec.id \o " obs " \o ToString(x) \o " undefined: " \o ToString(unr)
                  \o " reachable: " \o ToString(mis))

Init == i = 0
Next == /\ i < Len(Recs)
        /\ CheckRec(Recs[i + 1]) = TRUE
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").distinct - 1))
=============================================================================
