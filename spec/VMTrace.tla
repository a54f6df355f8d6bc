------------------------------ MODULE VMTrace ------------------------------
(***************************************************************************)
(* Checks recorded executions of instruction sequences against the parsing *)
(* machine VM.  A record holds a program P, what became of encoding it     *)
(* (enc: "ok", "refused" or a crash), the number of its instructions (size)*)
(* and runs, one after the other; a run that keeps uses the memoization    *)
(* table the one before left.                                              *)
(***************************************************************************)
EXTENDS VM, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

Insns(P) == FoldLeft(LAMBDA a, n : a + IF n.o = "fill" THEN n.n ELSE 1, 0, P)

SetOf(q) == {q[x] : x \in 1..Len(q)}

RunOk(s, o) ==
  CASE s.ph \in {"stuck", "run"} -> TRUE  \* means nothing, or not here
    [] OTHER -> /\ o.x = ""
                /\ o.m = IF s.ph = "match" THEN 1 ELSE 0
                /\ o.m = 1 => o.p = s.pos
                \* what was captured within something unfinished is lost or not
                /\ o.m = 1 /\ s.st = <<>> => o.c = s.c
                /\ o.e = s.g.e
                /\ o.l = s.g.l
                /\ SetOf(o.tb) = SetOf(s.tb)

Shown(s) == ToString([ph |-> s.ph, pos |-> s.pos, c |-> s.c, g |-> s.g, tb |-> s.tb])

OneRun(rec, tb, j) ==
  LET run == rec.runs[j]
      s == Run(rec.P, run.T, Start(IF run.keep = 1 THEN tb ELSE <<>>), 200)
      ok == RunOk(s, run.o) \/ PrintT("@@BAD " \o rec.id \o " run " \o ToString(j) \o " expected " \o Shown(s))
  IN IF (s.ph \in {"stuck", "run"} => PrintT("@@VOID " \o rec.id)) /\ ok THEN s.tb ELSE s.tb

CheckRec(rec) ==
  LET want == Encodable(rec.P) IN
  IF (want /\ rec.enc # "ok") \/ (~want /\ rec.enc # "refused") \/ rec.size # Insns(rec.P)
  THEN PrintT("@@BAD " \o rec.id \o " program of " \o ToString(rec.size) \o " instructions, encoding it said "
              \o rec.enc \o (IF want THEN "" ELSE ", but it cannot be encoded"))
  ELSE IF ~want THEN TRUE
  ELSE Len(FoldLeft(LAMBDA tb, j : OneRun(rec, tb, j), <<>>, [j \in 1..Len(rec.runs) |-> j])) >= 0

Init == i = 0
Next == /\ i < Len(Recs)
        /\ CheckRec(Recs[i + 1]) = TRUE
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").distinct - 1))
=============================================================================
