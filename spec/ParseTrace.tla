----------------------------- MODULE ParseTrace -----------------------------
(***************************************************************************)
(* Checks recorded parses against the denotational semantics PEG.  Each    *)
(* record holds a pattern (N, root r) and runs; each run is a text and the *)
(* outcomes that the implementation produced for it, possibly in several   *)
(* ways.  f names the components of the outcome the record is about.       *)
(***************************************************************************)
EXTENDS PEG, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE i

Has(f, x) == \E j \in 1..Len(f) : f[j] = x

Agrees(f, exp, o) ==
  /\ o.x = ""
  /\ (Has(f, "m") => o.m = exp.m)
  /\ (Has(f, "p") /\ o.m = 1 /\ exp.m = 1 => o.p = exp.p)
  /\ (Has(f, "c") /\ o.m = 1 /\ exp.m = 1 => o.c = exp.c)
  /\ (Has(f, "e") => o.e = exp.e)
  /\ (Has(f, "l") => o.l = exp.l)

\* An interval parse: iv = <<low, high>> keeps the overlapping captures.
KeepIv(run, exp) ==
  IF "iv" \in DOMAIN run /\ exp.m = 1
  THEN [exp EXCEPT !.c = Filter(run.iv[1], run.iv[2], @)]
  ELSE exp

CheckRun(rec, j) ==
  LET run == rec.runs[j]
      exp == KeepIv(run, Outcome(rec.N, run.T, rec.r))
  IN \A x \in 1..Len(run.obs) :
       \/ Agrees(rec.f, exp, run.obs[x])
       \/ PrintT("@@BAD " \o rec.id \o " run " \o ToString(j) \o " obs " \o ToString(x)
                  \o " expected " \o ToString(exp))

CheckRec(rec) == \A j \in 1..Len(rec.runs) : CheckRun(rec, j)

Init == i = 0
Next == /\ i < Len(Recs)
        /\ CheckRec(Recs[i + 1]) = TRUE
        /\ i' = i + 1
Spec == Init /\ [][Next]_i

Done == PrintT("@@DONE " \o ToString(TLCGet("stats").distinct - 1))
=============================================================================
