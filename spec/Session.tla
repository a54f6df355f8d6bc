------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* An editing session: a text, a program and one memoization table.  The   *)
(* user edits the text (announcing each edit to the table) and parses it,  *)
(* wholly or restricted to an interval of captures.                        *)
(*                                                                         *)
(* The table is meant to be invisible: the specified outcome of a parse    *)
(* depends only on the current text.  What a table may save is specified   *)
(* too: known holds the memoized elements whose results are still valid,   *)
(* and a parse of kind "reuse" must not parse these again and must stay    *)
(* within its budget of table lookups.                                     *)
(*                                                                         *)
(* Each record of the trace is one session: rec.T is the initial text and  *)
(* rec.steps are edits and parses, with what the implementation did.       *)
(***************************************************************************)
EXTENDS PEG, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE i    \* the number of sessions checked

Has(f, x) == \E y \in 1..Len(f) : f[y] = x

Agrees(f, exp, o) ==
  /\ o.x = ""
  /\ (Has(f, "m") => o.m = exp.m)
  /\ (Has(f, "p") /\ o.m = 1 /\ exp.m = 1 => o.p = exp.p)
  /\ (Has(f, "c") /\ o.m = 1 /\ exp.m = 1 => o.c = exp.c)
  /\ (Has(f, "e") => o.e = exp.e)

(***************************************************************************)
(* Replace del bytes at position at by the bytes ins.                      *)
(***************************************************************************)
Replace(t, at, del, ins) == SubSeq(t, 1, at) \o ins \o SubSeq(t, at + del + 1, Len(t))

\* An element survives an edit that does not touch what was examined for it.
Survive(k, at, del, n) ==
  {IF e[1] >= at + del THEN <<e[1] + n - del, e[2] + n - del, e[3] + n - del>> ELSE e :
     e \in {x \in k : x[3] < at \/ x[1] > at + (IF del = 0 THEN 1 ELSE del)}}

(***************************************************************************)
(* The elements of a repetition: where N[k] matches again and again from   *)
(* position p, each as <<start, end, far>>.  far bounds what is examined   *)
(* to match an element: slack bytes beyond its end.                        *)
(***************************************************************************)
Elements(N, T, k, slack) ==
  LET Step(st, x) ==
        IF st.d = 1 THEN st
        ELSE LET r == Eval(N, T, <<>>, k, st.p, G0) IN
             IF r.p < 0 \/ r.p = st.p THEN [st EXCEPT !.d = 1]
             ELSE [p |-> r.p, d |-> 0, e |-> Append(st.e, <<st.p, r.p, r.p + slack>>)]
      res == FoldLeft(Step, [p |-> 0, d |-> 0, e |-> <<>>], [x \in 1..(Size(T) + 1) |-> x])
  IN {res.e[x] : x \in 1..Len(res.e)}

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2((n + 1) \div 2)

(***************************************************************************)
(* The transitions.  A state of a session is                               *)
(*   [text |-> the text, known |-> elements that need not be parsed again, *)
(*    j |-> the number of steps taken].                                    *)
(* (The states of a session are the accumulator of a fold rather than TLC  *)
(* states, because TLC compares whole states to reuse values.)             *)
(***************************************************************************)
Bad(rec, st, exp) ==
  PrintT("@@BAD " \o rec.id \o " step " \o ToString(st.j + 1) \o " text " \o ToString(st.text)
          \o " expected " \o ToString(exp))

Text(st) == [pad |-> 0, pb |-> 0, t |-> st.text]

Edit(rec, st, s) ==
  [st EXCEPT !.text = Replace(@, s.at, s.del, s.ins),
             !.known = Survive(@, s.at, s.del, Len(s.ins))]

Parse(rec, st, s) ==
  LET exp == Outcome(rec.N, Text(st), rec.r)
  IN IF Agrees(rec.f, exp, s.o) \/ Bad(rec, st, exp) THEN st ELSE st

IntervalParse(rec, st, s) ==
  LET full == Outcome(rec.N, Text(st), rec.r)
      exp == IF full.m = 1 THEN [full EXCEPT !.c = Filter(s.lo, s.hi, @)] ELSE full
  IN IF Agrees(rec.f, exp, s.o) \/ Bad(rec, st, exp) THEN st ELSE st

\* s.parsed: the positions at which elements were parsed; s.gets: lookups;
\* s.edits: the number of edits since the last parse, or -1 if it is the first.
Reuse(rec, st, s) ==
  LET exp == Outcome(rec.N, Text(st), rec.r)
      els == Elements(rec.N, Text(st), rec.el, rec.slack)
      p == {s.parsed[x] : x \in 1..Len(s.parsed)}
      again == {e \in st.known : e[1] \in p /\ e \in els}
      n == Cardinality(els)
      new == IF st.known = els THEN 0 ELSE Cardinality(els \ st.known)
      budget == IF s.edits < 0 THEN 3 * n + 20
                ELSE 12 + 2 * new + (s.edits + 1) * 3 * Log2(n + 2)
  IN IF /\ Agrees(rec.f, exp, s.o) \/ Bad(rec, st, exp)
        /\ again = {} \/ Bad(rec, st, "elements parsed again: " \o ToString(again))
        /\ s.gets <= budget \/ Bad(rec, st, "at most " \o ToString(budget) \o " lookups")
     THEN [st EXCEPT !.known = els] ELSE st

Step(rec, st, s) ==
  LET next == CASE s.k = "edit" -> Edit(rec, st, s)
                [] s.k = "parse" -> Parse(rec, st, s)
                [] s.k = "iparse" -> IntervalParse(rec, st, s)
                [] s.k = "reuse" -> Reuse(rec, st, s)
  IN [next EXCEPT !.j = @ + 1]

CheckRec(rec) ==
  LET end == FoldLeft(LAMBDA st, s : Step(rec, st, s),
                      [text |-> rec.T, known |-> {}, j |-> 0], rec.steps)
  IN end.j = Len(rec.steps)

Init == i = 0
Next == /\ i < Len(Recs)
        /\ CheckRec(Recs[i + 1]) = TRUE
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").distinct - 1))
=============================================================================
