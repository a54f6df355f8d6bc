-------------------------------- MODULE PEG --------------------------------
(***************************************************************************)
(* Denotational semantics of gpeg patterns.                                *)
(*                                                                         *)
(* A pattern is an index k into a sequence N of nodes (records with a      *)
(* field t naming the construct).  A text is T = [pad, pb, t]: pad copies  *)
(* of the byte pb followed by the bytes t.  E is the lexical environment:  *)
(* the sequence of enclosing grammar nodes, innermost last.                *)
(*                                                                         *)
(* Eval(N, T, E, k, i, g) is the result of matching N[k] at position i     *)
(* (0-based) in a parse whose side effects so far are g.  A result is      *)
(*    [p |-> position after the match, or FAILED, or HALTED,               *)
(*     c |-> captures made by the match, each <<id, start, length, kids>>, *)
(*     g |-> side effects after the attempt].                              *)
(* Side effects are g.e, the errors reported so far, g.s, the text bound   *)
(* to each back-reference id, and g.l, the checker calls made.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

FAILED == -1
HALTED == -2

Byte(T, i) == IF i < T.pad THEN T.pb ELSE T.t[i - T.pad + 1]
Size(T) == T.pad + Len(T.t)
Slice(T, i, j) == [x \in 1..(j - i) |-> Byte(T, i + x - 1)]

G0 == [e |-> <<>>, s |-> <<>>, l |-> <<>>]

Fail(g) == [p |-> FAILED, c |-> <<>>, g |-> g]
Ok(p, c, g) == [p |-> p, c |-> c, g |-> g]

(***************************************************************************)
(* Zero-width assertions (the flags of Go's regexp/syntax.EmptyOp).        *)
(***************************************************************************)
IsWord(b) == \/ b \in 48..57 \/ b \in 65..90 \/ b \in 97..122 \/ b = 95

AssertHolds(op, T, i) ==
  LET atStart == i = 0
      atEnd == i >= Size(T)
      before == IF atStart THEN -1 ELSE Byte(T, i - 1)
      after == IF atEnd THEN -1 ELSE Byte(T, i)
      boundary == IsWord(before) # IsWord(after)
  IN CASE op = 1 -> atStart \/ before = 10
       [] op = 2 -> atEnd \/ after = 10
       [] op = 4 -> atStart
       [] op = 8 -> atEnd
       [] op = 16 -> boundary
       [] op = 32 -> ~boundary

InSet(rs, b) == \E j \in 1..Len(rs) : rs[j][1] <= b /\ b <= rs[j][2]

MatchesAt(T, i, s) ==
  /\ i + Len(s) <= Size(T)
  /\ \A j \in 1..Len(s) : Byte(T, i + j - 1) = s[j]

(***************************************************************************)
(* Back-reference symbols: an association list id -> text, newest first.   *)
(***************************************************************************)
RECURSIVE Lookup(_, _)
Lookup(s, id) == IF s = <<>> THEN <<>>
                 ELSE IF s[1][1] = id THEN s[1][2] ELSE Lookup(Tail(s), id)
Bind(s, id, b) == <<<<id, b>>>> \o SelectSeq(s, LAMBDA x : x[1] # id)

(***************************************************************************)
(* Checkers: the verdict for matched bytes [i, j) is -1 (reject) or the    *)
(* number of additional bytes matched.                                     *)
(***************************************************************************)
Verdict(n, T, i, j, g) ==
  LET b == Slice(T, i, j) IN
  CASE n.k = "map" -> IF \E x \in 1..Len(n.ss) : n.ss[x] = b THEN 0 ELSE -1
    [] n.k = "mod" -> IF (j - i) % n.m = n.q THEN 0 ELSE -1
    [] n.k = "ext" -> IF (j - i) % n.m = n.q /\ j + n.x <= Size(T) THEN n.x ELSE -1
    [] n.k = "def" -> 0
    [] n.k = "use" -> LET w == Lookup(g.s, <<n.x, n.n>>) IN IF MatchesAt(T, j, w) THEN Len(w) ELSE -1
    [] n.k = "blk" -> 0

AfterCheck(n, T, i, j, g) ==
  IF n.k = "def" THEN [g EXCEPT !.s = Bind(g.s, <<n.x, n.n>>, Slice(T, i, j))]
  ELSE IF n.k \in {"mod", "ext"} /\ n.lg = 1
       THEN [g EXCEPT !.l = Append(@, <<n.n, n.f, i, Slice(T, i, j)>>)]
       ELSE g

(***************************************************************************)
(* Names.  ScopeOf is the depth in E of the innermost grammar that defines *)
(* nm (0 if there is none).                                                *)
(***************************************************************************)
Defines(N, gr, nm) == \E x \in 1..Len(N[gr].d) : N[gr].d[x].nm = nm
BodyOf(N, gr, nm) == N[gr].d[CHOOSE x \in 1..Len(N[gr].d) : N[gr].d[x].nm = nm].k

RECURSIVE ScopeOf(_, _, _, _)
ScopeOf(N, E, nm, d) == IF d = 0 THEN 0
                        ELSE IF Defines(N, E[d], nm) THEN d ELSE ScopeOf(N, E, nm, d - 1)

RECURSIVE Eval(_, _, _, _, _, _), EvalStar(_, _, _, _, _, _, _),
          EvalRep(_, _, _, _, _, _, _, _), EvalSearch(_, _, _, _, _, _)

EvalRef(N, T, E, nm, i, g) ==
  LET d == ScopeOf(N, E, nm, Len(E)) IN
  Eval(N, T, SubSeq(E, 1, d), BodyOf(N, E[d], nm), i, g)

Eval(N, T, E, k, i, g) ==
  LET n == N[k] IN
  CASE n.t = "lit" -> IF MatchesAt(T, i, n.s) THEN Ok(i + Len(n.s), <<>>, g) ELSE Fail(g)
    [] n.t = "set" -> IF i < Size(T) /\ InSet(n.r, Byte(T, i))
                      THEN Ok(i + 1, <<>>, g) ELSE Fail(g)
    [] n.t = "any" -> IF i + n.n <= Size(T) THEN Ok(i + n.n, <<>>, g) ELSE Fail(g)
    [] n.t = "seq" ->
         LET r1 == Eval(N, T, E, n.a, i, g) IN
         IF r1.p < 0 THEN r1
         ELSE LET r2 == Eval(N, T, E, n.b, r1.p, r1.g) IN
              IF r2.p < 0 THEN r2
              ELSE Ok(r2.p, IF r1.c = <<>> THEN r2.c ELSE r1.c \o r2.c, r2.g)
    [] n.t = "alt" ->
         LET r1 == Eval(N, T, E, n.a, i, g) IN
         IF r1.p # FAILED THEN r1 ELSE Eval(N, T, E, n.b, i, r1.g)
    [] n.t = "nt" -> EvalRef(N, T, E, n.nm, i, g)
    [] n.t = "gram" -> EvalRef(N, T, Append(E, k), n.nm, i, g)
    [] n.t = "star" -> EvalStar(N, T, E, n.a, i, <<>>, g)
    [] n.t = "plus" ->
         LET r1 == Eval(N, T, E, n.a, i, g) IN
         IF r1.p < 0 THEN r1 ELSE EvalStar(N, T, E, n.a, r1.p, r1.c, r1.g)
    [] n.t = "opt" ->
         LET r1 == Eval(N, T, E, n.a, i, g) IN
         IF r1.p # FAILED THEN r1 ELSE Ok(i, <<>>, r1.g)
    [] n.t = "rep" ->  \* exactly n.n times
         EvalRep(N, T, E, n.a, n.n, i, <<>>, g)
    [] n.t = "not" ->
         LET r1 == Eval(N, T, E, n.a, i, g) IN
         IF r1.p = FAILED THEN Ok(i, <<>>, r1.g)
         ELSE IF r1.p = HALTED THEN r1 ELSE Fail(r1.g)
    [] n.t = "and" ->
         LET r1 == Eval(N, T, E, n.a, i, g) IN
         IF r1.p < 0 THEN r1 ELSE Ok(i, r1.c, r1.g)
    [] n.t = "cap" ->
         LET r1 == Eval(N, T, E, n.a, i, g) IN
         IF r1.p < 0 THEN r1 ELSE Ok(r1.p, <<<<n.n, i, r1.p - i, r1.c>>>>, r1.g)
    [] n.t = "memo" -> Eval(N, T, E, n.a, i, g)
    [] n.t = "search" -> EvalSearch(N, T, E, n.a, i, g)
    [] n.t = "eop" -> IF AssertHolds(n.n, T, i) THEN Ok(i, <<>>, g) ELSE Fail(g)
    [] n.t = "chk" ->
         LET r1 == Eval(N, T, E, n.a, i, g) IN
         IF r1.p < 0 THEN r1
         ELSE LET v == Verdict(n, T, i, r1.p, r1.g)
                  g2 == AfterCheck(n, T, i, r1.p, r1.g)
              IN IF v = -1 THEN Fail(g2) ELSE Ok(r1.p + v, r1.c, g2)
    [] n.t = "err" ->
         LET g2 == [g EXCEPT !.e = Append(@, <<i, n.n>>)] IN
         IF n.a = 0 THEN [p |-> HALTED, c |-> <<>>, g |-> g2]
         ELSE Eval(N, T, E, n.a, i, g2)
    [] n.t = "empty" -> Ok(i, <<>>, g)

\* Repetitions are folds over blocks of attempts (TLC evaluates a fold without
\* recursion).  The state of a fold is a result with a field d: 1 once it ended.
Block(n) == [x \in 1..(IF n < 64 THEN n ELSE 64) |-> x]
More(c1, c2) == IF c2 = <<>> THEN c1 ELSE c1 \o c2

\* A pattern that matches exactly the byte b is repeated over the whole padding
\* of a text at once (PEGLaws checks that this makes no difference).
Takes(n, b) == \/ n.t = "lit" /\ n.s = <<b>>
               \/ n.t = "set" /\ InSet(n.r, b)
               \/ n.t = "any" /\ n.n = 1

EvalStar(N, T, E, k, i, c, g) ==
  IF i < T.pad /\ Takes(N[k], T.pb) THEN EvalStar(N, T, E, k, T.pad, c, g) ELSE
  LET Step(st, x) ==
        IF st.d = 1 THEN st
        ELSE LET r == Eval(N, T, E, k, st.p, st.g) IN
             IF r.p = FAILED THEN [p |-> st.p, c |-> st.c, g |-> r.g, d |-> 1]
             ELSE IF r.p = HALTED THEN [p |-> HALTED, c |-> <<>>, g |-> r.g, d |-> 1]
             ELSE [p |-> r.p, c |-> More(st.c, r.c), g |-> r.g, d |-> 0]
      res == FoldLeft(Step, [p |-> i, c |-> c, g |-> g, d |-> 0], Block(Size(T) - i + 1))
  IN IF res.d = 0 THEN EvalStar(N, T, E, k, res.p, res.c, res.g)
     ELSE [p |-> res.p, c |-> res.c, g |-> res.g]

EvalRep(N, T, E, k, n, i, c, g) ==
  IF n <= 0 THEN Ok(i, c, g)
  ELSE IF N[k].t = "any" THEN (IF i + n * N[k].n <= Size(T) THEN Ok(i + n * N[k].n, c, g) ELSE Fail(g))
  ELSE LET Step(st, x) ==
             IF st.p < 0 THEN st
             ELSE LET r == Eval(N, T, E, k, st.p, st.g) IN
                  IF r.p < 0 THEN r ELSE Ok(r.p, More(st.c, r.c), r.g)
           res == FoldLeft(Step, Ok(i, c, g), Block(n))
       IN IF res.p < 0 THEN res
          ELSE EvalRep(N, T, E, k, n - Len(Block(n)), res.p, res.c, res.g)

EvalSearch(N, T, E, k, i, g) ==
  LET Step(st, x) ==
        IF st.d = 1 THEN st
        ELSE LET r == Eval(N, T, E, k, i + x - 1, st.g) IN
             [p |-> r.p, c |-> r.c, g |-> r.g, d |-> IF r.p = FAILED THEN 0 ELSE 1]
      res == FoldLeft(Step, [p |-> FAILED, c |-> <<>>, g |-> g, d |-> 0], Block(Size(T) - i + 1))
  IN IF res.d = 0 /\ Size(T) - i + 1 > 64 THEN EvalSearch(N, T, E, k, i + 64, res.g)
     ELSE [p |-> res.p, c |-> res.c, g |-> res.g]

(***************************************************************************)
(* The outcome of parsing T with pattern k: what a caller of Exec sees.    *)
(* The end position and the captures are only specified for a match.       *)
(***************************************************************************)
Outcome(N, T, k) ==
  LET r == Eval(N, T, <<>>, k, 0, G0) IN
  IF r.p < 0 THEN [m |-> 0, e |-> r.g.e, l |-> r.g.l]
  ELSE [m |-> 1, p |-> r.p, c |-> r.c, e |-> r.g.e, l |-> r.g.l]

(***************************************************************************)
(* The captures kept by an interval parse: those overlapping [lo, hi).     *)
(***************************************************************************)
Overlaps(lo, hi, c) == lo < c[2] + c[3] /\ hi > c[2]

RECURSIVE Filter(_, _, _)
Filter(lo, hi, cs) ==
  IF cs = <<>> THEN <<>>
  ELSE LET c == cs[1]
           rest == Filter(lo, hi, Tail(cs))
       IN IF Overlaps(lo, hi, c)
          THEN <<<<c[1], c[2], c[3], Filter(lo, hi, c[4])>>>> \o rest
          ELSE rest

(***************************************************************************)
(* All names referred to that no enclosing grammar defines, from node k.   *)
(***************************************************************************)
Kids(n) == CASE n.t \in {"seq", "alt"} -> <<n.a, n.b>>
             [] n.t \in {"star", "plus", "opt", "rep", "not", "and", "cap", "memo",
                         "search", "chk"} -> <<n.a>>
             [] n.t = "err" -> IF n.a = 0 THEN <<>> ELSE <<n.a>>
             [] OTHER -> <<>>

RECURSIVE Unresolved(_, _, _)
\* names that occur free in the text of the pattern, in any definition
Unresolved(N, E, k) ==
  LET n == N[k] IN
  CASE n.t = "nt" -> IF ScopeOf(N, E, n.nm, Len(E)) = 0 THEN {n.nm} ELSE {}
    [] n.t = "gram" ->
         LET E2 == Append(E, k) IN
         UNION {Unresolved(N, E2, n.d[x].k) : x \in 1..Len(n.d)}
           \cup (IF ScopeOf(N, E2, n.nm, Len(E2)) = 0 THEN {n.nm} ELSE {})
    [] OTHER -> UNION {Unresolved(N, E, Kids(n)[x]) : x \in 1..Len(Kids(n))}

(***************************************************************************)
(* The names that a parse can actually reach and that nothing defines:     *)
(* Reach walks references, starting from k, visited is a set of <<d, nm>>. *)
(***************************************************************************)
\* What can be seen at a glance never to fail.  The alternatives after it and
\* the contents of an empty repetition are dropped before they are compiled.
RECURSIVE NeverFails(_, _)
NeverFails(N, k) ==
  LET n == N[k] IN
  CASE n.t \in {"empty", "star", "opt"} -> TRUE
    [] n.t = "lit" -> n.s = <<>>
    [] n.t = "rep" -> n.n <= 0 \/ NeverFails(N, n.a)
    [] n.t = "seq" -> NeverFails(N, n.a) /\ NeverFails(N, n.b)
    [] n.t = "alt" -> NeverFails(N, n.a) \/ NeverFails(N, n.b)
    [] n.t \in {"cap", "memo", "and", "search"} -> NeverFails(N, n.a)
    [] OTHER -> FALSE

RECURSIVE Walk(_, _, _, _)
\* st = [vis |-> what has been walked, mis |-> names missing so far]
Walk(N, E, k, st) ==
  LET n == N[k]
      ref(E2, nm) ==
        LET d == ScopeOf(N, E2, nm, Len(E2))
            key == <<SubSeq(E2, 1, d), nm>>
        IN IF d = 0 THEN [st EXCEPT !.mis = @ \cup {nm}]
           ELSE IF key \in st.vis THEN st
           ELSE Walk(N, key[1], BodyOf(N, E2[d], nm), [st EXCEPT !.vis = @ \cup {key}])
  IN CASE n.t = "nt" -> ref(E, n.nm)
       [] n.t = "gram" -> ref(Append(E, k), n.nm)
       [] n.t = "rep" /\ n.n <= 0 -> st
       [] n.t = "alt" /\ NeverFails(N, n.a) -> Walk(N, E, n.a, st)
       [] OTHER -> FoldLeft(LAMBDA a, kid : Walk(N, E, kid, a), st, Kids(n))

Missing(N, E, k, visited) == Walk(N, E, k, [vis |-> visited, mis |-> {}]).mis
=============================================================================
