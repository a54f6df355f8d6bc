------------------------------- MODULE ReSyntax -------------------------------
(***************************************************************************)
(* The textual PEG notation: which texts are in it and what they denote.   *)
(* One operator per rule of the documented grammar (re/grammar.go); a rule *)
(* applied at position i of the text s gives                               *)
(*   [p |-> position after it, or FAILED, v |-> what was read,             *)
(*    N |-> the nodes built so far]                                        *)
(* where v is a byte, a name, a set of bytes or the index of a node of the *)
(* pattern denoted, in the sense of module PEG.                            *)
(***************************************************************************)
EXTENDS PEG, Json, IOUtils

At(s, i) == IF i < Len(s) THEN s[i + 1] ELSE -1
No(N) == [p |-> FAILED, v |-> 0, N |-> N]
Yes(p, v, N) == [p |-> p, v |-> v, N |-> N]

(***************************************************************************)
(* Spaces and comments.  A comment ends with its line: without an end of   *)
(* line there is no comment.                                               *)
(***************************************************************************)
IsEol(b) == b = 10 \/ b = 13

RECURSIVE EolFrom(_, _)
EolFrom(s, i) == IF i >= Len(s) THEN FAILED ELSE IF IsEol(At(s, i)) THEN i ELSE EolFrom(s, i + 1)

RECURSIVE Spacing(_, _)
Spacing(s, i) ==
  LET b == At(s, i) IN
  IF b = 32 \/ b = 9 \/ IsEol(b) THEN Spacing(s, i + 1)
  ELSE IF b = 35 THEN LET e == EolFrom(s, i + 1) IN IF e = FAILED THEN i ELSE Spacing(s, e)
  ELSE i

\* a token consisting of one byte
Token(s, i, b) == IF At(s, i) = b THEN Spacing(s, i + 1) ELSE FAILED
Token2(s, i, b, c) == IF At(s, i) = b /\ At(s, i + 1) = c THEN Spacing(s, i + 2) ELSE FAILED
LeftArrow(s, i) == Token2(s, i, 60, 45)

(***************************************************************************)
(* Characters.                                                             *)
(***************************************************************************)
Octal(b) == 48 <= b /\ b <= 55
\* \n \r \t \' \" \[ \] \\ \-
Special(b) == CASE b = 110 -> 10 [] b = 114 -> 13 [] b = 116 -> 9
                [] b \in {39, 34, 91, 93, 92, 45} -> b
                [] OTHER -> -1

Char(s, i, N) ==
  LET b == At(s, i) b1 == At(s, i + 1) b2 == At(s, i + 2) b3 == At(s, i + 3) IN
  IF b = -1 THEN No(N)
  ELSE IF b # 92 THEN Yes(i + 1, b, N)
  ELSE IF Special(b1) # -1 THEN Yes(i + 2, Special(b1), N)
  ELSE IF 48 <= b1 /\ b1 <= 50 /\ Octal(b2) /\ Octal(b3)
       THEN Yes(i + 4, (b1 - 48) * 64 + (b2 - 48) * 8 + (b3 - 48), N)
  ELSE IF Octal(b1) /\ Octal(b2) THEN Yes(i + 3, (b1 - 48) * 8 + (b2 - 48), N)
  ELSE IF Octal(b1) THEN Yes(i + 2, b1 - 48, N)
  ELSE No(N)

Node(p, n, N) == Yes(p, Len(N) + 1, Append(N, n))

\* the bytes up to the quote q
RECURSIVE Chars(_, _, _, _)
Chars(s, i, q, bs) ==
  IF At(s, i) = q THEN [p |-> i, v |-> bs]
  ELSE LET c == Char(s, i, <<>>) IN
       IF c.p = FAILED THEN [p |-> i, v |-> bs] ELSE Chars(s, c.p, q, Append(bs, c.v))

Literal(s, i, N) ==
  LET q == At(s, i) IN
  IF q # 39 /\ q # 34 THEN No(N)
  ELSE LET r == Chars(s, i + 1, q, <<>>) IN
       IF At(s, r.p) = q THEN Node(Spacing(s, r.p + 1), [t |-> "lit", s |-> r.v], N) ELSE No(N)

RECURSIVE Ranges(_, _, _)
Ranges(s, i, rs) ==
  IF At(s, i) = 93 THEN [p |-> i, v |-> rs]
  ELSE LET c1 == Char(s, i, <<>>) IN
       IF c1.p = FAILED THEN [p |-> i, v |-> rs]
       ELSE LET c2 == IF At(s, c1.p) = 45 THEN Char(s, c1.p + 1, <<>>) ELSE No(<<>>) IN
            IF c2.p # FAILED THEN Ranges(s, c2.p, Append(rs, <<c1.v, c2.v>>))
            ELSE Ranges(s, c1.p, Append(rs, <<c1.v, c1.v>>))

\* the complement of a set of bytes, as ranges
Others(rs) == SetToSeq({<<b, b>> : b \in {x \in 0..255 : ~InSet(rs, x)}})

Class(s, i, N) ==
  IF At(s, i) # 91 THEN No(N)
  ELSE LET caret == Token(s, i + 1, 94)
           r == Ranges(s, IF caret = FAILED THEN i + 1 ELSE caret, <<>>)
       IN IF At(s, r.p) = 93
          THEN Node(Spacing(s, r.p + 1), [t |-> "set", r |-> IF caret = FAILED THEN r.v ELSE Others(r.v)], N)
          ELSE No(N)

IdStart(b) == (97 <= b /\ b <= 122) \/ (65 <= b /\ b <= 90) \/ b = 95
IdCont(b) == IdStart(b) \/ (48 <= b /\ b <= 57)

RECURSIVE IdEnd(_, _)
IdEnd(s, i) == IF IdCont(At(s, i)) THEN IdEnd(s, i + 1) ELSE i

Identifier(s, i) ==
  IF ~IdStart(At(s, i)) THEN No(<<>>)
  ELSE LET e == IdEnd(s, i) IN Yes(Spacing(s, e), SubSeq(s, i + 1, e), <<>>)

(***************************************************************************)
(* Expressions.                                                            *)
(***************************************************************************)
RECURSIVE Expression(_, _, _), ExprRest(_, _, _, _), SeqRest(_, _, _, _), Prefix(_, _, _), Primary(_, _, _)

\* several nodes into one of type t, to the right; of none the empty pattern
RECURSIVE Chain(_, _, _)
Chain(t, ks, N) ==
  IF ks = <<>> THEN [v |-> Len(N) + 1, N |-> Append(N, [t |-> "empty"])]
  ELSE IF Len(ks) = 1 THEN [v |-> ks[1], N |-> N]
  ELSE LET r == Chain(t, Tail(ks), N)
       IN [v |-> Len(r.N) + 1, N |-> Append(r.N, [t |-> t, a |-> ks[1], b |-> r.v])]

Sequence_(s, i, N) ==
  LET r == SeqRest(s, i, N, <<>>)
      c == Chain("seq", r.v, r.N)
  IN Yes(r.p, c.v, c.N)

SeqRest(s, i, N, ks) ==
  LET r == Prefix(s, i, N) IN
  IF r.p = FAILED THEN Yes(i, ks, N) ELSE SeqRest(s, r.p, r.N, Append(ks, r.v))

Expression(s, i, N) ==
  LET r1 == Sequence_(s, i, N)
      r == ExprRest(s, r1.p, r1.N, <<r1.v>>)
      c == Chain("alt", r.v, r.N)
  IN Yes(r.p, c.v, c.N)

ExprRest(s, i, N, ks) ==
  LET j == Token(s, i, 47) IN
  IF j = FAILED THEN Yes(i, ks, N)
  ELSE LET r == Sequence_(s, j, N) IN ExprRest(s, r.p, r.N, Append(ks, r.v))

Suffix(s, i, N) ==
  LET r == Primary(s, i, N) IN
  IF r.p = FAILED THEN r
  ELSE LET b == At(s, r.p)
           t == CASE b = 63 -> "opt" [] b = 42 -> "star" [] b = 43 -> "plus" [] OTHER -> ""
       IN IF t = "" THEN r ELSE Node(Spacing(s, r.p + 1), [t |-> t, a |-> r.v], r.N)

Prefix(s, i, N) ==
  LET b == At(s, i)
      t == CASE b = 38 -> "and" [] b = 33 -> "not" [] OTHER -> ""
      r == Suffix(s, IF t = "" THEN i ELSE Spacing(s, i + 1), N)
  IN IF r.p = FAILED THEN No(N)
     ELSE IF t = "" THEN r ELSE Node(r.p, [t |-> t, a |-> r.v], r.N)

Primary(s, i, N) ==
  LET b == At(s, i) IN
  IF IdStart(b)
  THEN LET id == Identifier(s, i) IN
       IF LeftArrow(s, id.p) # FAILED THEN No(N) ELSE Node(id.p, [t |-> "nt", nm |-> id.v], N)
  ELSE IF b = 40
  THEN LET r == Expression(s, Spacing(s, i + 1), N)
           e == Token(s, r.p, 41)
       IN IF e = FAILED THEN No(N) ELSE Yes(e, r.v, r.N)
  ELSE IF b = 39 \/ b = 34 THEN Literal(s, i, N)
  ELSE IF b = 91 THEN Class(s, i, N)
  ELSE IF b = 123
  THEN LET o == Token2(s, i, 123, 123) IN
       IF o = FAILED THEN No(N)
       ELSE LET r == Expression(s, o, N)
                e == Token2(s, r.p, 125, 125)
            IN IF e = FAILED THEN No(N) ELSE Node(e, [t |-> "memo", a |-> r.v], r.N)
  ELSE IF b = 46 THEN Node(Spacing(s, i + 1), [t |-> "any", n |-> 1], N)
  ELSE No(N)

(***************************************************************************)
(* Grammars.                                                               *)
(***************************************************************************)
RECURSIVE Definitions(_, _, _, _)
\* ds: the definitions [nm, k] read so far
Definitions(s, i, N, ds) ==
  LET id == Identifier(s, i)
      a == IF id.p = FAILED THEN FAILED ELSE LeftArrow(s, id.p)
  IN IF a = FAILED THEN Yes(i, ds, N)
     ELSE LET r == Expression(s, a, N) IN Definitions(s, r.p, r.N, Append(ds, [nm |-> id.v, k |-> r.v]))

\* The pattern that a text denotes: [p, v |-> root, N, ds].
Denoted(s) ==
  LET i == Spacing(s, 0)
      g == Definitions(s, i, <<>>, <<>>)
      r == IF g.v = <<>> THEN Expression(s, i, <<>>)
           ELSE Node(g.p, [t |-> "gram", nm |-> g.v[1].nm, d |-> g.v], g.N)
  IN [p |-> IF r.p = Len(s) THEN r.p ELSE FAILED, v |-> r.v, N |-> r.N, ds |-> g.v]

Twice(ds) == \E x, y \in 1..Len(ds) : x # y /\ ds[x].nm = ds[y].nm

(***************************************************************************)
(* Automatic captures: every rule becomes a capture with the id reported   *)
(* for its name.                                                           *)
(***************************************************************************)
IdOf(ids, nm) == LET x == CHOOSE x \in 1..Len(ids) : ids[x][1] = nm IN ids[x][2]

Captured(d, ids) ==
  IF d.ds = <<>> THEN d
  ELSE LET n == Len(d.N)
           caps == [x \in 1..Len(d.ds) |-> [t |-> "cap", a |-> d.ds[x].k, n |-> IdOf(ids, d.ds[x].nm)]]
           gr == [d.N[d.v] EXCEPT !.d = [x \in 1..Len(d.ds) |-> [nm |-> d.ds[x].nm, k |-> n + x]]]
       IN [d EXCEPT !.N = Append(d.N \o caps, gr), !.v = n + Len(d.ds) + 1]

IdsOk(d, ids) ==
  /\ {ids[x][1] : x \in 1..Len(ids)} = {d.ds[x].nm : x \in 1..Len(d.ds)}
  /\ \A x, y \in 1..Len(ids) : x # y => ids[x][2] # ids[y][2] /\ ids[x][1] # ids[y][1]

(***************************************************************************)
(* Observations of one text:                                               *)
(*   res   "ok", "error" or a crash, from reading the text                 *)
(*   cres  "ok", "notfound" (nm: which name) or something else, from       *)
(*         compiling and encoding what it denotes ("" if not tried)        *)
(*   ids   with automatic captures, the reported ids, as <<name, id>>      *)
(*   runs  parses, with or without captures                                *)
(*   gets  for each run, how often the memoization table was asked (or -1) *)
(***************************************************************************)
Has(f, x) == \E j \in 1..Len(f) : f[j] = x
Memos(N) == {k \in 1..Len(N) : N[k].t = "memo"}

\* a memoized pattern is the first thing tried
FirstMemo(d) ==
  LET r == d.N[d.v]
      k == IF r.t = "gram" THEN d.ds[1].k ELSE d.v
  IN d.N[k].t = "memo"

GetsOk(d, n) == n = -1 \/ (IF Memos(d.N) = {} THEN n = 0 ELSE FirstMemo(d) => n > 0)

RunOk(d, f, run) ==
  LET exp == Outcome(d.N, run.T, d.v) IN
  /\ run.x = ""
  /\ run.m = exp.m
  /\ Has(f, "p") /\ exp.m = 1 => run.p = exp.p
  /\ Has(f, "c") /\ exp.m = 1 => run.c = exp.c
  /\ GetsOk(d, run.gets)

CompiledOk(d, o) ==
  CASE o.cres = "" -> TRUE
    [] o.cres = "ok" -> Missing(d.N, <<>>, d.v, {}) = {}
    [] o.cres = "notfound" -> o.nm \in Unresolved(d.N, <<>>, d.v)
    [] OTHER -> FALSE

TextOk(o) ==
  LET d == Denoted(o.s) IN
  IF d.p = FAILED THEN o.res = "error"
  ELSE IF o.res = "error" THEN Twice(d.ds)
  ELSE /\ o.res = "ok"
       /\ Twice(d.ds) \/ CompiledOk(d, o)
       /\ IF Twice(d.ds) THEN TRUE
          ELSE IF o.cap = 1
          THEN IdsOk(d, o.ids) /\ LET d2 == Captured(d, o.ids) IN \A x \in 1..Len(o.runs) : RunOk(d2, o.f, o.runs[x])
          ELSE \A x \in 1..Len(o.runs) : RunOk(d, o.f, o.runs[x])

(***************************************************************************)
(* Text that is too deep to be read here: n opening groups around 'a' and  *)
(* n or n - 1 closing ones.  What it denotes follows from its kind.  Up to *)
(* 9000 levels it must be accepted, beyond that it may be refused.         *)
(***************************************************************************)
DeepWant(kind, n, T) ==
  LET a == Size(T) > 0 /\ Byte(T, 0) = 97 IN
  CASE kind \in {"group", "memo"} -> IF a THEN 1 ELSE FAILED
    [] kind = "opt" -> IF a THEN 1 ELSE 0
    [] kind = "not" -> IF a = (n % 2 = 0) THEN 0 ELSE FAILED

DeepOk(o) ==
  IF o.closed # o.n THEN o.res = "error"
  ELSE \/ o.n > 9000 /\ o.res = "error"
       \/ /\ o.res = "ok" /\ o.cres = "ok"
          /\ \A x \in 1..Len(o.runs) :
               LET run == o.runs[x]
                   w == DeepWant(o.kind, o.n, run.T)
               IN run.x = "" /\ (IF w = FAILED THEN run.m = 0 ELSE run.m = 1 /\ run.p = w)

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

CheckRec(rec) ==
  IF "deep" \in DOMAIN rec
  THEN \/ DeepOk(rec.deep)
       \/ PrintT("@@BAD " \o rec.id \o " nested " \o ToString(rec.deep.n) \o " deep said " \o rec.deep.res \o " " \o rec.deep.cres)
  ELSE
  \A x \in 1..Len(rec.texts) :
    LET o == rec.texts[x] IN
    \/ TextOk(o)
    \/ PrintT("@@BAD " \o rec.id \o " text " \o ToString(x) \o " " \o o.str \o " said " \o o.res \o " "
               \o o.cres \o " but denotes "
               \o (LET d == Denoted(o.s) IN IF d.p = FAILED THEN "nothing"
                   ELSE ToString([root |-> d.v, nodes |-> d.N, ends |-> [y \in 1..Len(o.runs) |->
                     Eval(d.N, o.runs[y].T, <<>>, d.v, 0, G0).p]])))

Init == i = 0
Next == /\ i < Len(Recs)
        /\ CheckRec(Recs[i + 1]) = TRUE
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").distinct - 1))
=============================================================================
