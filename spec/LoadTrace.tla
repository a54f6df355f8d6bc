------------------------------ MODULE LoadTrace ------------------------------
(***************************************************************************)
(* Attempts to save what cannot be saved, or to load altered data.  cut = 1 *)
(* means that only an error is right; otherwise the alteration may have no *)
(* effect, but what is loaded must then be the program that was saved.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

Acceptable(a) == a.res = "error" \/ (a.cut = 0 /\ a.res = "same")

CheckRec(rec) ==
  \A j \in 1..Len(rec.attempts) :
    \/ Acceptable(rec.attempts[j])
    \/ PrintT("@@BAD " \o rec.id \o " " \o rec.attempts[j].how \o ": " \o rec.attempts[j].res)

Init == i = 0
Next == /\ i < Len(Recs)
        /\ CheckRec(Recs[i + 1]) = TRUE
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").distinct - 1))
=============================================================================
