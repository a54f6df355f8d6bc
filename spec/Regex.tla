-------------------------------- MODULE Regex --------------------------------
(***************************************************************************)
(* What a Go regular expression matches in a text of UTF-8: the leftmost   *)
(* match, and of those that start there the one that a backtracking search *)
(* would find first.                                                       *)
(*                                                                         *)
(* An expression is an index k into a sequence N of nodes, as parsed by    *)
(* Go's regexp/syntax.  Ends(N, T, k, i) is the sequence of the positions  *)
(* where a match of N[k] that starts at i can end, in the order in which   *)
(* they are tried, each once.                                              *)
(***************************************************************************)
EXTENDS PEG

\* the number of bytes of the character that begins with b, and the character at i
Width(b) == IF b < 128 THEN 1 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3 ELSE 4

Rune(T, i) ==
  LET b == Byte(T, i)
      c(j) == Byte(T, i + j) % 64
  IN CASE Width(b) = 1 -> b
       [] Width(b) = 2 -> (b % 32) * 64 + c(1)
       [] Width(b) = 3 -> (b % 16) * 4096 + c(1) * 64 + c(2)
       [] Width(b) = 4 -> (b % 8) * 262144 + c(1) * 4096 + c(2) * 64 + c(3)

RuneStart(T, i) == i = Size(T) \/ Byte(T, i) \notin 128..191

\* where a literal that begins at i ends, or -1; rs[j] are the characters its j-th one may be
LitEnd(T, rs, i) ==
  FoldLeft(LAMBDA e, r : IF e = -1 \/ e >= Size(T) THEN -1
                         ELSE LET c == Rune(T, e) IN IF \E x \in 1..Len(r) : r[x] = c THEN e + Width(Byte(T, e)) ELSE -1,
           i, rs)

Add(s, x) == IF \E j \in 1..Len(s) : s[j] = x THEN s ELSE Append(s, x)
AddAll(s, t) == FoldLeft(Add, s, t)

RECURSIVE Ends(_, _, _, _), Loop(_, _, _, _, _), Times(_, _, _, _, _, _)

(***************************************************************************)
(* Loop: after some iterations of the body k have ended at i, try another  *)
(* (first, or last when lazy) or go on.  st.seen are the positions where   *)
(* this has been tried, and st.out the ends found.  An iteration that      *)
(* consumes nothing ends the loop.                                         *)
(***************************************************************************)
Loop(N, T, n, i, st) ==
  IF i \in st.seen THEN st
  ELSE LET s0 == [st EXCEPT !.seen = @ \cup {i}]
           out(s) == [s EXCEPT !.out = Add(@, i)]
           more(s) == FoldLeft(LAMBDA a, j : IF j = i THEN out(a) ELSE Loop(N, T, n, j, a), s, Ends(N, T, n.k[1], i))
       IN IF n.g = 1 THEN out(more(s0)) ELSE more(out(s0))

L0 == [seen |-> {}, out |-> <<>>]

\* lo to hi times (without limit if hi is -1)
Times(N, T, n, lo, hi, i) ==
  LET next(is, lo2, hi2) == FoldLeft(LAMBDA a, j : AddAll(a, Times(N, T, n, lo2, hi2, j)), <<>>, is)
      body == Ends(N, T, n.k[1], i)
  IN IF lo > 0 THEN next(body, lo - 1, IF hi = -1 THEN -1 ELSE hi - 1)
     ELSE IF hi = 0 THEN <<i>>
     ELSE IF hi = -1 THEN Loop(N, T, n, i, L0).out
     ELSE LET more == next(SelectSeq(body, LAMBDA j : j # i), 0, hi - 1)
          IN IF n.g = 1 THEN Add(more, i) ELSE AddAll(<<i>>, more)

Ends(N, T, k, i) ==
  LET n == N[k]
      here(b) == IF b THEN <<i>> ELSE <<>>
      char(P(_)) == IF i < Size(T) /\ P(Rune(T, i)) THEN <<i + Width(Byte(T, i))>> ELSE <<>>
  IN CASE n.o = "empty" -> <<i>>
       [] n.o = "nomatch" -> <<>>
       [] n.o = "lit" -> LET e == LitEnd(T, n.r, i) IN IF e = -1 THEN <<>> ELSE <<e>>
       [] n.o = "class" -> char(LAMBDA b : InSet(n.s, b))
       [] n.o = "any" -> char(LAMBDA b : TRUE)
       [] n.o = "anynl" -> char(LAMBDA b : b # 10)
       [] n.o = "at" -> here(AssertHolds(n.a, T, i))
       [] n.o = "cap" -> Ends(N, T, n.k[1], i)
       [] n.o = "cat" -> FoldLeft(LAMBDA is, x : FoldLeft(LAMBDA a, j : AddAll(a, Ends(N, T, x, j)), <<>>, is), <<i>>, n.k)
       [] n.o = "alt" -> FoldLeft(LAMBDA a, x : AddAll(a, Ends(N, T, x, i)), <<>>, n.k)
       [] n.o = "star" -> Loop(N, T, n, i, L0).out
       [] n.o = "plus" -> FoldLeft(LAMBDA st, j : Loop(N, T, n, j, st), L0, Ends(N, T, n.k[1], i)).out
       [] n.o = "quest" -> LET more == Ends(N, T, n.k[1], i)
                           IN IF n.g = 1 THEN Add(more, i) ELSE AddAll(<<i>>, more)
       [] n.o = "rep" -> Times(N, T, n, n.lo, n.hi, i)

(***************************************************************************)
(* The first match that starts at or after p.                              *)
(***************************************************************************)
Find(N, T, k, p) ==
  FoldLeft(LAMBDA m, i : IF m # <<>> THEN m
                         ELSE IF ~RuneStart(T, i) THEN <<>>
                         ELSE LET e == Ends(N, T, k, i) IN IF e = <<>> THEN <<>> ELSE <<i, e[1]>>,
           <<>>, [x \in 1..(Size(T) - p + 1) |-> p + x - 1])

(***************************************************************************)
(* The expressions that can be converted: without counted repetition and   *)
(* without repetition of what may be empty.                                *)
(***************************************************************************)
RECURSIVE Nullable(_, _), Convertible(_, _)
Nullable(N, k) ==
  LET n == N[k]
  IN CASE n.o \in {"lit", "class", "any", "anynl", "nomatch"} -> FALSE
       [] n.o = "cat" -> \A x \in 1..Len(n.k) : Nullable(N, n.k[x])
       [] n.o = "alt" -> \E x \in 1..Len(n.k) : Nullable(N, n.k[x])
       [] n.o \in {"cap", "plus"} -> Nullable(N, n.k[1])
       [] n.o \in {"empty", "at", "star", "quest"} -> TRUE
       [] n.o = "rep" -> n.lo = 0 \/ Nullable(N, n.k[1])

Convertible(N, k) ==
  LET n == N[k]
  IN /\ n.o \notin {"rep", "nomatch"}
     /\ n.o \in {"star", "plus"} => ~Nullable(N, n.k[1])
     /\ "k" \in DOMAIN n => \A x \in 1..Len(n.k) : Convertible(N, n.k[x])
=============================================================================
