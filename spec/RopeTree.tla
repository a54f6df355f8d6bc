------------------------------ MODULE RopeTree ------------------------------
(***************************************************************************)
(* The design of ropes: trees of short pieces of text, with the length and *)
(* the line/column extent of every subtree, that are split above SplitLen  *)
(* and merged below JoinLen.  All histories of operations on one rope or   *)
(* two, with small tuning parameters, are explored.                        *)
(*                                                                         *)
(* It shows that the trees stand for the flat texts that the same          *)
(* operations make of plain byte sequences (C09: Rope.tla's operations),   *)
(* and that finding lines, columns, offsets and slices by descending the   *)
(* trees gives what counting separators in the flat text gives (C10).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS MaxLen,   \* longest text of all ropes together
          Options,  \* a set of <<SplitLen, JoinLen>>
          InsMax,   \* longest insertion
          MaxPieces,\* most leaves of all trees together
          Sep       \* what separates lines: a sequence of bytes

Newline == <<10>>
CrLf == <<13, 10>>
FewOptions == {<<1, 1>>, <<2, 1>>, <<2, 2>>}
AllOptions == {<<1, 0>>, <<1, 1>>, <<2, 1>>, <<2, 3>>, <<3, 2>>}

(***************************************************************************)
(* Flat texts.                                                             *)
(***************************************************************************)
Cut(s, lo, hi) == SubSeq(s, lo + 1, hi)
From(s, k) == SubSeq(s, k + 1, Len(s))
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

LineCols(s) ==
  LET m == Len(Sep) IN
  FoldLeft(LAMBDA a, k : LET p == a[k] IN
             Append(a, IF p[2] + 1 >= m /\ SubSeq(s, k - m + 1, k) = Sep THEN <<p[1] + 1, 0>> ELSE <<p[1], p[2] + 1>>),
           << <<0, 0>> >>, [k \in 1..Len(s) |-> k])
LcEnd(s) == LET t == LineCols(s) IN t[Len(t)]

(***************************************************************************)
(* Line/column extents.                                                    *)
(***************************************************************************)
AddLc(a, b) == IF b[1] # 0 THEN <<a[1] + b[1], b[2]>> ELSE <<a[1], a[2] + b[2]>>
SubLc(a, b) == IF a[1] = b[1] THEN <<0, a[2] - b[2]>> ELSE <<a[1] - b[1], a[2]>>
LcLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
MinLc(a, b) == IF LcLess(a, b) THEN a ELSE b
MaxLc(a, b) == IF LcLess(b, a) THEN a ELSE b
LcZero == <<0, 0>>

(***************************************************************************)
(* Trees, for options o = <<SplitLen, JoinLen>>.                           *)
(***************************************************************************)
Leaf(v) == [k |-> "leaf", v |-> v, n |-> Len(v), e |-> LcEnd(v)]

RECURSIVE Flat(_), New(_, _), Build(_, _)
Flat(t) == IF t.k = "leaf" THEN t.v ELSE Flat(t.l) \o Flat(t.r)

Over(l, r) == [k |-> "node", l |-> l, r |-> r, n |-> l.n + r.n, e |-> AddLc(l.e, r.e)]

Adjust(o, t) ==
  IF t.k = "leaf" THEN (IF t.n > o[1] THEN LET h == t.n \div 2 IN Over(New(o, Cut(t.v, 0, h)), New(o, From(t.v, h))) ELSE t)
  ELSE IF t.n < o[2] THEN Leaf(Flat(t)) ELSE t

Join2(o, l, r) == Adjust(o, Over(l, r))

New(o, b) ==
  LET n == Len(b) \div o[1]
  IN Build(o, [x \in 1..n |-> Leaf(Cut(b, (x - 1) * o[1], x * o[1]))] \o <<Leaf(From(b, n * o[1]))>>)

Build(o, ts) ==
  IF Len(ts) = 1 THEN ts[1]
  ELSE LET m == Len(ts)
           even == IF m % 2 = 0 THEN ts ELSE Append(SubSeq(ts, 1, m - 2), Join2(o, ts[m - 1], ts[m]))
       IN Build(o, [x \in 1..(Len(even) \div 2) |-> Join2(o, even[2 * x - 1], even[2 * x])])

RECURSIVE Ins(_, _, _, _), Rem(_, _, _, _), SplitAt(_, _, _), Rebalance(_, _)
Ins(o, t, p, b) ==
  Adjust(o, IF t.k = "leaf" THEN Leaf(Cut(t.v, 0, p) \o b \o From(t.v, p))
            ELSE IF p < t.l.n THEN Over(Ins(o, t.l, p, b), t.r) ELSE Over(t.l, Ins(o, t.r, p - t.l.n, b)))

Rem(o, t, lo, hi) ==
  Adjust(o, IF t.k = "leaf" THEN Leaf(Cut(t.v, 0, lo) \o From(t.v, hi))
            ELSE LET m == t.l.n
                     l == IF MinI(lo, m) < m THEN Rem(o, t.l, MinI(lo, m), MinI(hi, m)) ELSE t.l
                     rh == MaxI(0, MinI(hi - m, t.r.n))
                     r == IF rh > 0 THEN Rem(o, t.r, MaxI(0, MinI(lo - m, t.r.n)), rh) ELSE t.r
                 IN Over(l, r))

SplitAt(o, t, i) ==
  IF t.k = "leaf" THEN <<New(o, Cut(t.v, 0, i)), New(o, From(t.v, i))>>
  ELSE IF i = t.l.n THEN <<t.l, t.r>>
  ELSE IF i < t.l.n THEN LET s == SplitAt(o, t.l, i) IN <<s[1], Join2(o, s[2], t.r)>>
  ELSE LET s == SplitAt(o, t.r, i - t.l.n) IN <<Join2(o, t.l, s[1]), s[2]>>

\* a ratio of more than 1.2
Rebalance(o, t) ==
  IF t.k = "leaf" THEN t
  ELSE IF 5 * t.l.n > 6 * t.r.n \/ 5 * t.r.n > 6 * t.l.n THEN New(o, Flat(t))
  ELSE Over(Rebalance(o, t.l), Rebalance(o, t.r))

(***************************************************************************)
(* Looking things up.                                                      *)
(***************************************************************************)
\* the offset after the n-th separator
AfterSep(v, n) == LET t == LineCols(v) IN CHOOSE p \in 0..Len(v) : t[p + 1] = <<n, 0>>

RECURSIVE Pieces(_)
Pieces(t) == IF t.k = "leaf" THEN <<t.n>> ELSE Pieces(t.l) \o Pieces(t.r)

RECURSIVE OffsetAt(_, _), LineColAt(_, _), SliceT(_, _, _), SliceLc(_, _, _)
OffsetAt(t, lc) ==
  IF t.k = "leaf" THEN AfterSep(t.v, lc[1]) + lc[2]
  ELSE IF LcLess(lc, t.l.e) THEN OffsetAt(t.l, lc) ELSE t.l.n + OffsetAt(t.r, SubLc(lc, t.l.e))

LineColAt(t, p) ==
  IF t.k = "leaf" THEN LineCols(t.v)[p + 1]
  ELSE IF p < t.l.n THEN LineColAt(t.l, p) ELSE AddLc(t.l.e, LineColAt(t.r, p - t.l.n))

SliceT(t, lo, hi) ==
  IF lo >= hi THEN <<>>
  ELSE IF t.k = "leaf" THEN Cut(t.v, lo, hi)
  ELSE LET m == t.l.n IN
       SliceT(t.l, MinI(lo, m), MinI(hi, m)) \o SliceT(t.r, MaxI(0, MinI(lo - m, t.r.n)), MaxI(0, MinI(hi - m, t.r.n)))

SliceLc(t, a, b) ==
  IF ~LcLess(a, b) THEN <<>>
  ELSE IF t.k = "leaf" THEN Cut(t.v, AfterSep(t.v, a[1]) + a[2], AfterSep(t.v, b[1]) + b[2])
  ELSE LET e == t.l.e
           la == MinLc(a, e)
           lb == MinLc(b, e)
           ra == MaxLc(LcZero, MinLc(SubLc(a, e), t.r.e))
           rb == MaxLc(LcZero, MinLc(SubLc(b, e), t.r.e))
       IN SliceLc(t.l, la, lb) \o SliceLc(t.r, ra, rb)

(***************************************************************************)
(* Histories.  Every rope is a tree t and the flat text f it should be.    *)
(***************************************************************************)
VARIABLES o, R

Strings(m) == UNION {[1..n -> {97} \cup ToSet(Sep)] : n \in 0..m}
Total == FoldLeft(LAMBDA a, x : a + Len(x.f), 0, R)

Init == /\ o \in Options
        /\ \E s \in Strings(MaxLen) : R = <<[t |-> New(o, s), f |-> s]>>

DoInsert(x, p, b) ==
  /\ Total + Len(b) <= MaxLen
  /\ R' = [R EXCEPT ![x] = [t |-> Ins(o, @.t, p, b), f |-> Cut(@.f, 0, p) \o b \o From(@.f, p)]] /\ o' = o
DoRemove(x, lo, hi) ==
  R' = [R EXCEPT ![x] = [t |-> Rem(o, @.t, lo, hi), f |-> Cut(@.f, 0, lo) \o From(@.f, hi)]] /\ o' = o
DoSplit(p) ==
  /\ Len(R) = 1
  /\ LET s == SplitAt(o, R[1].t, p)
     IN R' = <<[t |-> s[1], f |-> Cut(R[1].f, 0, p)], [t |-> s[2], f |-> From(R[1].f, p)]>>
  /\ o' = o
DoJoin(x, y) ==
  /\ Len(R) = 2
  /\ R' = <<[t |-> Join2(o, R[x].t, R[y].t), f |-> R[x].f \o R[y].f]>> /\ o' = o
DoRebuild(x) == R[x].t.k = "node" /\ R' = [R EXCEPT ![x].t = New(o, Flat(@))] /\ o' = o
DoRebalance(x) == R' = [R EXCEPT ![x].t = Rebalance(o, @)] /\ o' = o

Next ==
  \/ \E x \in 1..Len(R) :
       \/ \E p \in 0..Len(R[x].f) : \E b \in Strings(InsMax) : DoInsert(x, p, b)
       \/ \E lo \in 0..Len(R[x].f) : \E hi \in lo..Len(R[x].f) : DoRemove(x, lo, hi)
       \/ DoRebuild(x)
       \/ DoRebalance(x)
  \/ \E p \in 0..Len(R[1].f) : DoSplit(p)
  \/ DoJoin(1, 2)
  \/ DoJoin(2, 1)

\* nothing bounds the number of empty pieces
Bounded == FoldLeft(LAMBDA a, x : a + Len(Pieces(x.t)), 0, R) <= MaxPieces

Spec == Init /\ [][Next]_<<o, R>>

(***************************************************************************)
(* What the design guarantees.                                             *)
(***************************************************************************)
RECURSIVE Kept(_)
Kept(t) == LET f == Flat(t) IN
           t.n = Len(f) /\ t.e = LcEnd(f) /\ (t.k = "node" => Kept(t.l) /\ Kept(t.r))

\* No separator lies partly in one leaf and partly in the next.  Single bytes
\* never do; longer separators can, and are then not seen: known finding.
Whole(x) ==
  LET f == x.f
      lc == LineCols(f)
      ends == FoldLeft(LAMBDA a, n : Append(a, a[Len(a)] + n), <<0>>, Pieces(x.t))
  IN \A y \in 1..Len(ends) : \A p \in 1..Len(f) :
        lc[p + 1][2] = 0 => ~(p - Len(Sep) < ends[y] /\ ends[y] < p)

IsFlat == \A x \in 1..Len(R) : Flat(R[x].t) = R[x].f
Bookkeeping == \A x \in 1..Len(R) : Whole(R[x]) => Kept(R[x].t)
BookkeepingAlways == \A x \in 1..Len(R) : Kept(R[x].t)
Lookups ==
  \A x \in {y \in 1..Len(R) : Whole(R[y])} :
    LET t == R[x].t
        f == R[x].f
        lc == LineCols(f)
    IN \A p \in 0..Len(f) :
         /\ LineColAt(t, p) = lc[p + 1]
         /\ OffsetAt(t, lc[p + 1]) = p
         /\ \A q \in p..Len(f) : SliceT(t, p, q) = Cut(f, p, q) /\ SliceLc(t, lc[p + 1], lc[q + 1]) = Cut(f, p, q)
\* pieces stay small
Small == o[2] <= o[1] + 1 => \A x \in 1..Len(R) : \A y \in 1..Len(Pieces(R[x].t)) : Pieces(R[x].t)[y] <= o[1]
=============================================================================
