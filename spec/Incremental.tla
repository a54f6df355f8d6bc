----------------------------- MODULE Incremental -----------------------------
(***************************************************************************)
(* The design of incremental packrat parsing: a parser that keeps results  *)
(* in a table, with how far it looked to find each; edits drop the results *)
(* that looked at what they touch and move the others.  All histories of   *)
(* edits and parses of small texts are explored, for some programs.        *)
(*                                                                         *)
(* It shows that the table is invisible (C03, C04): whatever the history,  *)
(* a parse with the table has the outcome that PEG gives for the current   *)
(* text.  In "interval" mode parses are restricted to an interval of       *)
(* captures (C06), and a parse has the captures that overlap it.           *)
(*                                                                         *)
(* The constants describe variations of the design.  With any of them      *)
(* other than as in Incremental.cfg, TLC finds a history that breaks it:   *)
(*   Inclusive    an edit also drops results that it only touches          *)
(*                (needed because assertions look at the byte before)      *)
(*   ReuseExtends reusing a result counts as looking as far as it did      *)
(*   FailuresLook failed attempts count as looking                         *)
(*   KeepErrors   results with errors are stored as well (wrong)           *)
(***************************************************************************)
EXTENDS PEG

CONSTANTS MaxLen, Inclusive, ReuseExtends, FailuresLook, KeepErrors

MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b

A == [t |-> "lit", s |-> <<97>>]
B == [t |-> "lit", s |-> <<98>>]
AB == [t |-> "lit", s |-> <<97, 98>>]
AAB == [t |-> "lit", s |-> <<97, 97, 98>>]
AnyN(n) == [t |-> "any", n |-> n]
Bin(t, a, b) == [t |-> t, a |-> a, b |-> b]
Un(t, a) == [t |-> t, a |-> a]
Cap(a, n) == [t |-> "cap", a |-> a, n |-> n]
Eop(n) == [t |-> "eop", n |-> n]

\* programs; the last node is the root
Short == <<
  \* (memo a+ b)* with captures
  << A, Un("plus", 1), B, Bin("seq", 2, 3), Cap(4, 1), Un("memo", 5), Un("star", 6) >>,
  \* memo(a !..) / a memo(.)
  << A, AnyN(2), Un("not", 2), Bin("seq", 1, 3), Un("memo", 4), AnyN(1), Un("memo", 6), Bin("seq", 1, 7), Cap(8, 2),
     Bin("alt", 5, 9) >>,
  \* memo(&ab .) then memo({.})*
  << AB, Un("and", 1), AnyN(1), Bin("seq", 2, 3), Un("memo", 4), Cap(3, 3), Un("memo", 6), Un("star", 7), Un("opt", 5),
     Bin("seq", 9, 8) >>,
  \* search for memo(\b a $ / \b b)
  << Eop(16), A, Eop(8), Bin("seq", 1, 2), Bin("seq", 4, 3), B, Bin("seq", 1, 6), Bin("alt", 5, 7), Cap(8, 4), Un("memo", 9),
     Un("search", 10) >>,
  \* nested: memo(memo(aab / a) b?)*
  << AAB, A, Bin("alt", 1, 2), Cap(3, 5), Un("memo", 4), B, Un("opt", 6), Bin("seq", 5, 7), Cap(8, 6), Un("memo", 9),
     Un("star", 10) >>,
  \* memo(error(.) / b)*, errors for every a
  << B, AnyN(1), [t |-> "err", a |-> 2, n |-> 1], Bin("alt", 1, 3), Cap(4, 7), Un("memo", 5), Un("star", 6), AnyN(2), Un("memo", 8),
     Bin("seq", 7, 9), Bin("alt", 10, 7) >>,
  \* S <- memo(a S b / a)
  << A, B, [t |-> "nt", nm |-> "S"], Bin("seq", 1, 3), Bin("seq", 4, 2), Cap(1, 8), Bin("alt", 5, 6), Cap(7, 9), Un("memo", 8),
     [t |-> "gram", nm |-> "S", d |-> <<[nm |-> "S", k |-> 9]>>] >>,
  \* !memo(a b) memo({a}) / memo({.}) memo(a b)
  << A, B, Bin("seq", 1, 2), Un("memo", 3), Un("not", 4), Cap(1, 1), Un("memo", 6), Bin("seq", 5, 7), AnyN(1), Cap(9, 2),
     Un("memo", 10), Bin("seq", 11, 4), Bin("alt", 8, 12) >>
>>

\* programs that look further ahead, for longer texts
Long == <<
  \* memo(a !...) / a memo(.)
  << A, AnyN(3), Un("not", 2), Bin("seq", 1, 3), Un("memo", 4), AnyN(1), Un("memo", 6), Bin("seq", 1, 7), Cap(8, 2),
     Bin("alt", 5, 9) >>,
  \* memo(b* memo(a !...)) / .*
  << B, Un("star", 1), A, AnyN(3), Un("not", 4), Bin("seq", 3, 5), Un("memo", 6), Bin("seq", 2, 7), Cap(8, 1), Un("memo", 9),
     AnyN(1), Un("star", 11), Bin("alt", 10, 12) >>
>>
Progs == Short \o Long
Longest(x) == IF x <= Len(Short) THEN MaxLen ELSE MaxLen + 3
InsMax(x) == IF x <= Len(Short) THEN 2 ELSE 1

(***************************************************************************)
(* The parser.  Its state s has the table tb, how far it looked (far) and  *)
(* the errors e.  An entry is <<node, position, length or -1, examined,    *)
(* captures>>, the captures relative to the position.  iv is <<>> or the   *)
(* interval <<lo, hi>> of an interval parse.                               *)
(***************************************************************************)
See(T, s, i) == [s EXCEPT !.far = MaxI(@, i)]
R(p, c, s) == [p |-> p, c |-> c, s |-> s]
RFail(s0, s) == R(FAILED, <<>>, IF FailuresLook THEN s ELSE [s EXCEPT !.far = s0.far])

RECURSIVE Moved(_, _)
Moved(cs, n) == [x \in 1..Len(cs) |-> <<cs[x][1], cs[x][2] + n, cs[x][3], Moved(cs[x][4], n)>>]

Kept(iv, id, lo, n, kids) ==
  IF iv = <<>> \/ (iv[1] < lo + n /\ iv[2] > lo) THEN <<<<id, lo, n, kids>>>> ELSE <<>>

RECURSIVE P(_, _, _, _, _, _, _), PStar(_, _, _, _, _, _, _, _), PSearch(_, _, _, _, _, _, _)

PRef(N, T, E, iv, nm, i, s) ==
  LET d == ScopeOf(N, E, nm, Len(E)) IN P(N, T, SubSeq(E, 1, d), iv, BodyOf(N, E[d], nm), i, s)

P(N, T, E, iv, k, i, s) ==
  LET n == N[k] IN
  CASE n.t = "lit" ->
         LET same == CHOOSE m \in 0..Len(n.s) :
                       /\ \A j \in 1..m : i + j <= Size(T) /\ Byte(T, i + j - 1) = n.s[j]
                       /\ m < Len(n.s) => i + m >= Size(T) \/ Byte(T, i + m) # n.s[m + 1]
         IN IF same = Len(n.s) THEN R(i + same, <<>>, See(T, s, i + same - 1))
            ELSE RFail(s, See(T, See(T, s, i + same - 1), i + same))
    [] n.t = "any" ->
         LET s2 == See(T, See(T, s, MinI(i + n.n, Size(T)) - 1), i + n.n - 1) IN
         IF i + n.n <= Size(T) THEN R(i + n.n, <<>>, s2) ELSE RFail(s, s2)
    [] n.t = "eop" -> LET s2 == See(T, s, i) IN IF AssertHolds(n.n, T, i) THEN R(i, <<>>, s2) ELSE RFail(s, s2)
    [] n.t = "seq" ->
         LET r1 == P(N, T, E, iv, n.a, i, s) IN
         IF r1.p < 0 THEN r1
         ELSE LET r2 == P(N, T, E, iv, n.b, r1.p, r1.s) IN
              IF r2.p < 0 THEN RFail(s, r2.s) ELSE R(r2.p, r1.c \o r2.c, r2.s)
    [] n.t = "alt" -> LET r1 == P(N, T, E, iv, n.a, i, s) IN IF r1.p # FAILED THEN r1 ELSE P(N, T, E, iv, n.b, i, r1.s)
    [] n.t = "opt" -> LET r1 == P(N, T, E, iv, n.a, i, s) IN IF r1.p # FAILED THEN r1 ELSE R(i, <<>>, r1.s)
    [] n.t = "not" -> LET r1 == P(N, T, E, iv, n.a, i, s) IN IF r1.p = FAILED THEN R(i, <<>>, r1.s) ELSE RFail(s, r1.s)
    [] n.t = "and" -> LET r1 == P(N, T, E, iv, n.a, i, s) IN IF r1.p < 0 THEN r1 ELSE R(i, r1.c, r1.s)
    [] n.t = "star" -> PStar(N, T, E, iv, n.a, i, <<>>, s)
    [] n.t = "plus" -> LET r1 == P(N, T, E, iv, n.a, i, s) IN
                       IF r1.p < 0 THEN r1 ELSE PStar(N, T, E, iv, n.a, r1.p, r1.c, r1.s)
    [] n.t = "search" -> PSearch(N, T, E, iv, n.a, i, s)
    [] n.t = "nt" -> PRef(N, T, E, iv, n.nm, i, s)
    [] n.t = "gram" -> PRef(N, T, Append(E, k), iv, n.nm, i, s)
    [] n.t = "cap" -> LET r1 == P(N, T, E, iv, n.a, i, s) IN
                      IF r1.p < 0 THEN r1 ELSE R(r1.p, Kept(iv, n.n, i, r1.p - i, r1.c), r1.s)
    [] n.t = "err" -> P(N, T, E, iv, n.a, i, [s EXCEPT !.e = Append(@, <<i, n.n>>)])
    [] n.t = "memo" ->
         LET hits == {e \in s.tb : e[1] = k /\ e[2] = i} IN
         IF hits # {} THEN
           LET e == CHOOSE e \in hits : \A x \in hits : x[4] <= e[4]
               s2 == IF ReuseExtends THEN [s EXCEPT !.far = MaxI(@, i + e[4] - 1)] ELSE s
           IN IF e[3] = -1 THEN R(FAILED, <<>>, s2) ELSE R(i + e[3], Moved(e[5], i), s2)
         ELSE
           LET r1 == P(N, T, E, iv, n.a, i, s)
               ent == <<k, i, IF r1.p < 0 THEN -1 ELSE r1.p - i, MaxI(r1.s.far, r1.p) - i + 1, Moved(r1.c, -i)>>
           IN IF \/ r1.p = i
                 \/ ~KeepErrors /\ r1.s.e # s.e
                 \/ iv # <<>> /\ r1.c # <<>>
                 \/ ent[4] <= 0
              THEN r1 ELSE [r1 EXCEPT !.s.tb = @ \cup {ent}]

PStar(N, T, E, iv, k, i, c, s) ==
  LET r1 == P(N, T, E, iv, k, i, s) IN
  IF r1.p < 0 THEN R(i, c, r1.s) ELSE PStar(N, T, E, iv, k, r1.p, c \o r1.c, r1.s)

PSearch(N, T, E, iv, k, i, s) ==
  LET r1 == P(N, T, E, iv, k, i, s) IN
  IF r1.p # FAILED THEN r1
  ELSE LET s2 == See(T, r1.s, i) IN IF i >= Size(T) THEN R(FAILED, <<>>, s2) ELSE PSearch(N, T, E, iv, k, i + 1, s2)

(***************************************************************************)
(* Edits.                                                                  *)
(***************************************************************************)
Dropped(e, a, b) ==
  LET hi == IF a = b THEN a + 1 ELSE b IN
  IF Inclusive THEN e[2] <= hi /\ e[2] + e[4] >= a ELSE e[2] < hi /\ e[2] + e[4] > a

EditTable(tb, a, b, n) ==
  {IF e[2] >= b THEN [e EXCEPT ![2] = @ + n - (b - a)] ELSE e : e \in {x \in tb : ~Dropped(x, a, b)}}

(***************************************************************************)
(* Histories.                                                              *)
(***************************************************************************)
VARIABLES prog, mode, text, tb

vars == <<prog, mode, text, tb>>

N == Progs[prog]
T == [pad |-> 0, pb |-> 0, t |-> text]
Root == Len(N)
S0(t) == [tb |-> t, far |-> -1, e |-> <<>>]

Parsed(iv, t) == P(N, T, <<>>, iv, Root, 0, S0(t))
\* an interval parse first forgets what overlaps the interval
IParsed(lo, hi) == Parsed(<<lo, hi>>, EditTable(tb, lo, hi, hi - lo))

Strings(m) == UNION {[1..n -> {97, 98}] : n \in 0..m}
Intervals == {<<lo, hi>> \in (0..Len(text)) \X (0..Len(text)) : lo <= hi}

Init == /\ prog \in 1..Len(Progs)
        /\ mode \in (IF prog <= Len(Short) THEN {"whole", "interval"} ELSE {"whole"})
        /\ text \in Strings(Longest(prog))
        /\ tb = {}

EditBy(at, del, ins) ==
  /\ Len(text) - del + Len(ins) <= Longest(prog)
  /\ text' = SubSeq(text, 1, at) \o ins \o SubSeq(text, at + del + 1, Len(text))
  /\ tb' = EditTable(tb, at, at + del, Len(ins))
  /\ UNCHANGED <<prog, mode>>

\* the places and sizes of edits
Places == {<<at, del>> \in (0..Len(text)) \X (0..InsMax(prog)) : at + del <= Len(text)}

Edit == \E ad \in Places : \E ins \in Strings(InsMax(prog)) : EditBy(ad[1], ad[2], ins)

Parse == /\ mode = "whole"
         /\ tb' = Parsed(<<>>, tb).s.tb
         /\ UNCHANGED <<prog, mode, text>>

IParseOn(iv) == /\ mode = "interval"
                /\ tb' = IParsed(iv[1], iv[2]).s.tb
                /\ UNCHANGED <<prog, mode, text>>
IParse == \E iv \in Intervals : IParseOn(iv)

Next == Edit \/ Parse \/ IParse
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What the design guarantees.                                             *)
(***************************************************************************)
Same(r, exp) == r.p = exp.p /\ r.c = exp.c /\ r.s.e = exp.g.e

Invisible ==
  LET exp == Eval(N, T, <<>>, Root, 0, G0) IN
  IF mode = "whole" THEN Same(Parsed(<<>>, tb), exp)
  ELSE \A iv \in Intervals : Same(IParsed(iv[1], iv[2]), [exp EXCEPT !.c = Filter(iv[1], iv[2], @)])

\* every stored result is the result of its pattern on the current text
Sound ==
  \A e \in tb :
    LET r == Eval(N, T, IF Root = 10 /\ N[10].t = "gram" THEN <<10>> ELSE <<>>, e[1], e[2], G0) IN
    /\ r.p = (IF e[3] = -1 THEN FAILED ELSE e[2] + e[3])
    /\ mode = "whole" /\ r.p >= 0 => r.c = Moved(e[5], e[2])

\* no two results of a pattern for one position
OnePerKey == \A e, f \in tb : e[1] = f[1] /\ e[2] = f[2] => e = f
=============================================================================
