------------------------------- MODULE PEGLaws -------------------------------
(***************************************************************************)
(* Model checks the semantics PEG itself: every pattern of a small         *)
(* universe, on every small text, from every position, obeys the laws that *)
(* parsing expression grammars are known to have.  A state is a pattern,   *)
(* a transition puts it into a larger one.                                 *)
(***************************************************************************)
EXTENDS PEG

CONSTANTS Deep,     \* the number of leaves that are combined with patterns
          Constructs, \* the most constructs of a pattern
          MaxLen    \* longest text

Lit(s) == [t |-> "lit", s |-> s]
Bin(t, a, b) == [t |-> t, a |-> a, b |-> b]
Un(t, a) == [t |-> t, a |-> a]
UnN(t, a, n) == [t |-> t, a |-> a, n |-> n]

Leaves == << Lit(<<97>>), Lit(<<98>>), [t |-> "any", n |-> 1], [t |-> "empty"],
             Lit(<<97, 98>>), [t |-> "any", n |-> 2], [t |-> "eop", n |-> 8],
             [t |-> "err", a |-> 4, n |-> 1], [t |-> "err", a |-> 0, n |-> 2] >>
L == Len(Leaves)

\* never matches the empty string (approximately, from below)
RECURSIVE Eats(_, _)
Eats(M, k) ==
  LET n == M[k] IN
  CASE n.t = "lit" -> n.s # <<>>
    [] n.t = "set" -> TRUE
    [] n.t = "any" -> n.n > 0
    [] n.t = "seq" -> Eats(M, n.a) \/ Eats(M, n.b)
    [] n.t = "alt" -> Eats(M, n.a) /\ Eats(M, n.b)
    [] n.t \in {"plus", "cap", "memo", "search"} -> Eats(M, n.a)
    [] OTHER -> FALSE

\* A pattern is a sequence of nodes, beginning with the leaves, whose last node
\* is its root.  Over(M) are the patterns with one construct more, made of the
\* root of M and of leaves.
Over(M) ==
  LET k == Len(M) IN
  {Append(M, n) : n \in
     {Bin(t, k, x) : t \in {"seq", "alt"}, x \in 1..Deep} \cup {Bin(t, x, k) : t \in {"seq", "alt"}, x \in 1..Deep}
     \cup {Un(t, k) : t \in {"opt", "not", "and", "search", "memo"}}
     \cup (IF Eats(M, k) THEN {Un("star", k), Un("plus", k)} ELSE {})
     \cup {UnN("cap", k, Len(M)), UnN("rep", k, 2)}}

Texts == {[pad |-> 0, pb |-> 0, t |-> s] : s \in UNION {[1..n -> {97, 98}] : n \in 0..MaxLen}}

VARIABLES M,   \* the pattern
          d    \* the constructs it has

k == Len(M)
U == Len(M)
With(n) == Append(M, n)
With2(n, m) == M \o <<n, m>>
With3(n, m, o) == M \o <<n, m, o>>
Same(r, s) == r = s
SameButCaps(r, s) == r.p = s.p /\ r.g = s.g

Ev(N, T, x, i) == Eval(N, T, <<>>, x, i, G0)

\* captures lie in [lo, hi], in order, each enclosing its kids
RECURSIVE Nested(_, _, _)
Nested(cs, lo, hi) ==
  \A x \in 1..Len(cs) :
     /\ cs[x][2] >= lo /\ cs[x][2] + cs[x][3] <= hi /\ cs[x][3] >= 0
     /\ x > 1 => cs[x - 1][2] <= cs[x][2]
     /\ Nested(cs[x][4], cs[x][2], hi)

HasLook(x) == \* a predicate may capture beyond the end of the match
  LET RECURSIVE LL(_) LL(y) == M[y].t = "and" \/ \E z \in 1..Len(Kids(M[y])) : LL(Kids(M[y])[z]) IN LL(x)

Laws(T, i) ==
  LET r == Ev(M, T, k, i) IN
  \* the end is within the text, and what never fails never fails
  /\ r.p = FAILED \/ r.p = HALTED \/ (i <= r.p /\ r.p <= Size(T))
  /\ NeverFails(M, k) => r.p # FAILED
  /\ Eats(M, k) => r.p # i
  /\ r.p < 0 => r.c = <<>>
  /\ r.p >= 0 /\ ~HasLook(k) => Nested(r.c, i, r.p)
  \* side effects only grow: those at the start come first
  /\ LET g1 == [G0 EXCEPT !.e = <<<<0, 9>>>>] IN
     LET r1 == Eval(M, T, <<>>, k, i, g1) IN
     r1.p = r.p /\ r1.c = r.c /\ r1.g.e = g1.e \o r.g.e
  \* choice
  /\ Same(Ev(With(Bin("alt", k, k)), T, U + 1, i).p, r.p)
  /\ Same(Ev(With(Un("opt", k)), T, U + 1, i), Ev(With(Bin("alt", k, 4)), T, U + 1, i))
  \* sequence with the empty pattern
  /\ Same(Ev(With(Bin("seq", k, 4)), T, U + 1, i), r)
  /\ Same(Ev(With(Bin("seq", 4, k)), T, U + 1, i), r)
  \* predicates
  /\ SameButCaps(Ev(With(Un("and", k)), T, U + 1, i), Ev(With2(Un("not", k), Un("not", U + 1)), T, U + 2, i))
  /\ Ev(With(Un("not", k)), T, U + 1, i).c = <<>>
  /\ LET s == Ev(With2(Un("not", k), Bin("seq", k, U + 1)), T, U + 2, i) IN s.p >= 0 => r.p >= 0
  \* associativity, with a leaf on either side
  /\ \A a, b \in 1..4 :
       /\ Same(Ev(With2(Bin("seq", a, k), Bin("seq", U + 1, b)), T, U + 2, i),
               Ev(With2(Bin("seq", k, b), Bin("seq", a, U + 1)), T, U + 2, i))
       /\ Same(Ev(With2(Bin("alt", a, k), Bin("alt", U + 1, b)), T, U + 2, i),
               Ev(With2(Bin("alt", k, b), Bin("alt", a, U + 1)), T, U + 2, i))
  \* a common prefix may be factored out, up to the effects of matching it twice
  /\ \A b \in 1..3 :
       Ev(With3(Bin("seq", 1, k), Bin("seq", 1, b), Bin("alt", U + 1, U + 2)), T, U + 3, i).p =
       Ev(With2(Bin("alt", k, b), Bin("seq", 1, U + 1)), T, U + 2, i).p
  \* repetition
  /\ Eats(M, k) =>
       /\ Same(Ev(With(Un("star", k)), T, U + 1, i),
               Ev(With3(Un("star", k), Bin("seq", k, U + 1), Un("opt", U + 2)), T, U + 3, i))
       /\ Same(Ev(With(Un("plus", k)), T, U + 1, i), Ev(With2(Un("star", k), Bin("seq", k, U + 1)), T, U + 2, i))
       \* possessive: nothing is left for the same pattern
       /\ LET s == Ev(With2(Un("star", k), Bin("seq", U + 1, k)), T, U + 2, i) IN s.p < 0
  /\ Same(Ev(With(UnN("rep", k, 2)), T, U + 1, i), Ev(With(Bin("seq", k, k)), T, U + 1, i))
  \* search
  /\ Same(Ev(With(Un("search", k)), T, U + 1, i),
          Ev(With3(Un("search", k), Bin("seq", 3, U + 1), Bin("alt", k, U + 2)), T, U + 3, i))
  \* marks for memoization mean nothing, captures only add themselves
  /\ Same(Ev(With(Un("memo", k)), T, U + 1, i), r)
  /\ LET s == Ev(With(UnN("cap", k, 3)), T, U + 1, i) IN
     s.p = r.p /\ s.g = r.g /\ (r.p >= 0 => s.c = <<<<3, i, r.p - i, r.c>>>>)
  \* captures of an interval: filtering is idempotent, and a wide interval loses nothing
  /\ \A l \in 0..Size(T) : \A h \in l..Size(T) :
       LET f == Filter(l, h, r.c) IN Filter(l, h, f) = f /\ Filter(-1, Size(T) + 1, f) = f
  /\ Filter(-1, Size(T) + 1, r.c) = r.c

\* what repeats one byte skips the padding of a text at once
PadLaw(T) ==
  Eats(M, k) =>
    \A n \in 0..3 :
      LET P == [pad |-> n, pb |-> 97, t |-> T.t]
          F == [pad |-> 0, pb |-> 0, t |-> [x \in 1..n |-> 97] \o T.t]
          S == With(Un("star", k))
      IN Ev(S, P, U + 1, 0) = Ev(S, F, U + 1, 0)

Init == M \in {Append(Leaves, Leaves[x]) : x \in 1..L} /\ d = 0
Next == d < Constructs /\ d' = d + 1 /\ M' \in Over(M)
Spec == Init /\ [][Next]_<<M, d>>

Inv == \A T \in Texts : (\A i \in 0..Size(T) : Laws(T, i)) /\ PadLaw(T)
=============================================================================
