------------------------------ MODULE LazyTree ------------------------------
(***************************************************************************)
(* The design of interval maps as binary search trees with postponed       *)
(* shifts.  A tree has a log of shifts; every node knows how much of the   *)
(* log it has seen, and catches up only when an operation comes by.  Every *)
(* node also has a bound on the ends of all intervals below it, by which   *)
(* removals pass over subtrees.                                            *)
(*                                                                         *)
(* Nodes may catch up at any time (reading the position of an interval     *)
(* does that, without the nodes above) and trees may be rotated anywhere   *)
(* at any time, which covers every way of balancing.  The tree stands for  *)
(* the set of intervals that the same operations make of a plain set, with *)
(* IntervalMap.tla's removal.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS N,       \* most intervals ever added
          P,       \* greatest position at which one is added or removed
          Wide,    \* longest interval
          Shifts,  \* most removals
          Loose,   \* removals also remove what only touches
          Floor,   \* FALSE: bounds move as if they were ends of intervals
          Renew,   \* shifts renew the bound with the interval and the nodes below
          CatchUp  \* FALSE: rotations do not make the two nodes catch up

VARIABLES nd,   \* node -> its record
          root, \* a node, or 0
          log,  \* all shifts: <<from, by>>
          done, \* nodes used so far
          S     \* what the tree stands for: {<<low, high>>}
vars == <<nd, root, log, done, S>>

Hi(a, b) == IF a > b THEN a ELSE b
MaxOf(d, n) == IF n = 0 THEN 0 ELSE d[n].max

UpdMax(d, n) == [d EXCEPT ![n].max = Hi(Hi(@, d[n].hi), Hi(MaxOf(d, d[n].l), MaxOf(d, d[n].r)))]

OneShift(d, n, s) ==
  LET r == d[n] IN
  IF r.max < s[1] THEN d
  ELSE LET m == IF Floor THEN Hi(r.max + s[2], s[1]) ELSE r.max + s[2]
           e == [d EXCEPT ![n].max = m]
           f == IF r.lo >= s[1] THEN [e EXCEPT ![n].lo = @ + s[2], ![n].hi = @ + s[2]] ELSE e
       IN IF Renew THEN UpdMax(f, n) ELSE f

Apply(d, n) ==
  IF n = 0 THEN d
  ELSE [FoldLeft(LAMBDA a, s : OneShift(a, n, s), d, SubSeq(log, d[n].t + 1, Len(log))) EXCEPT ![n].t = Len(log)]

(***************************************************************************)
(* The operations, on pairs <<nodes, root>>.                               *)
(***************************************************************************)
RECURSIVE AddAt(_, _, _), RemoveKey(_, _, _), Smallest(_, _), RemoveIn(_, _, _, _)

AddAt(d0, n, x) ==
  IF n = 0 THEN <<d0, x>>
  ELSE LET d == Apply(d0, n) IN
       IF d[x].lo < d[n].lo
       THEN LET a == AddAt(d, d[n].l, x) IN <<UpdMax([a[1] EXCEPT ![n].l = a[2]], n), n>>
       ELSE LET a == AddAt(d, d[n].r, x) IN <<UpdMax([a[1] EXCEPT ![n].r = a[2]], n), n>>

\* the leftmost node, and the nodes after everything on the way has caught up
Smallest(d, n) ==
  IF d[n].l = 0 THEN <<d, n>> ELSE Smallest(Apply(d, d[n].l), d[n].l)

RemoveKey(d0, n, key) ==
  IF n = 0 THEN <<d0, 0>>
  ELSE
  LET d == Apply(d0, n) r == d[n] IN
  CASE key < r.lo -> LET a == RemoveKey(d, r.l, key) IN <<UpdMax([a[1] EXCEPT ![n].l = a[2]], n), n>>
    [] key > r.lo -> LET a == RemoveKey(d, r.r, key) IN <<UpdMax([a[1] EXCEPT ![n].r = a[2]], n), n>>
    [] OTHER ->
       IF r.l # 0 /\ r.r # 0
       THEN LET b == Smallest(Apply(Apply(d, r.l), r.r), r.r)
                m == b[2]
                e == [b[1] EXCEPT ![n].lo = b[1][m].lo, ![n].hi = b[1][m].hi]
                a == RemoveKey(e, r.r, e[m].lo)
            IN <<UpdMax([a[1] EXCEPT ![n].r = a[2]], n), n>>
       ELSE IF r.l # 0 THEN LET e == Apply(d, r.l) IN <<UpdMax(e, r.l), r.l>>
       ELSE IF r.r # 0 THEN LET e == Apply(d, r.r) IN <<UpdMax(e, r.r), r.r>>
       ELSE <<d, 0>>

Hit(lo, hi, a, b) == IF Loose THEN a <= hi /\ b >= lo ELSE a < hi /\ b > lo
Beyond(lo, max) == IF Loose THEN lo > max ELSE lo >= max
Reaches(hi, key) == IF Loose THEN hi >= key ELSE hi > key

RemoveIn(d0, n, lo, hi) ==
  IF n = 0 THEN <<d0, 0>>
  ELSE
  LET d == Apply(d0, n) IN
  IF Beyond(lo, d[n].max) THEN <<d, n>>
  ELSE
  LET a == RemoveIn(d, d[n].l, lo, hi)
      e == [a[1] EXCEPT ![n].l = a[2]]
      right == Reaches(hi, e[n].lo)
  IN IF Hit(lo, hi, e[n].lo, e[n].hi)
     THEN LET b == RemoveKey(e, n, e[n].lo) IN IF right THEN RemoveIn(b[1], b[2], lo, hi) ELSE b
     ELSE IF ~right THEN <<e, n>>
     ELSE LET b == RemoveIn(e, e[n].r, lo, hi) IN <<[b[1] EXCEPT ![n].r = b[2]], n>>

(***************************************************************************)
(* Steps.                                                                  *)
(***************************************************************************)
Empty == [l |-> 0, r |-> 0, lo |-> 0, hi |-> 0, max |-> 0, t |-> 0]

Init == /\ nd = [n \in 1..N |-> Empty]
        /\ root = 0 /\ log = <<>> /\ done = 0 /\ S = {}

DoAdd(lo, hi) ==
  /\ done < N
  /\ \A e \in S : e[1] # lo
  /\ LET x == done + 1
         a == AddAt([nd EXCEPT ![x] = [Empty EXCEPT !.lo = lo, !.hi = hi, !.max = hi, !.t = Len(log)]], root, x)
     IN /\ nd' = a[1] /\ root' = a[2]
        /\ done' = x
        /\ S' = S \cup {<<lo, hi>>}
        /\ UNCHANGED log

Moved(e, lo, amt) == IF e[1] >= lo THEN <<e[1] + amt, e[2] + amt>> ELSE e

DoRemove(lo, hi, amt) ==
  /\ Len(log) < Shifts
  /\ LET a == RemoveIn(nd, root, lo, hi) IN nd' = a[1] /\ root' = a[2]
  /\ log' = Append(log, <<lo, amt>>)
  /\ S' = {Moved(e, lo, amt) : e \in {x \in S : ~Hit(lo, hi, x[1], x[2])}}
  /\ UNCHANGED done

RECURSIVE Below(_, _)
Below(d, n) == IF n = 0 THEN {} ELSE {n} \cup Below(d, d[n].l) \cup Below(d, d[n].r)
In == Below(nd, root)

DoCatch(n) ==
  /\ n \in In /\ nd[n].t < Len(log)
  /\ nd' = Apply(nd, n)
  /\ UNCHANGED <<root, log, done, S>>

\* p is the node above n, or 0
Above(n) == IF \E p \in In : n \in {nd[p].l, nd[p].r} THEN CHOOSE p \in In : n \in {nd[p].l, nd[p].r} ELSE 0
Hang(d, p, n, m) ==
  /\ nd' = IF p = 0 THEN d ELSE IF d[p].l = n THEN [d EXCEPT ![p].l = m] ELSE [d EXCEPT ![p].r = m]
  /\ root' = IF p = 0 THEN m ELSE root

DoRotate(n, left) ==
  /\ n \in In
  /\ LET m == IF left THEN nd[n].r ELSE nd[n].l
         c == IF CatchUp THEN Apply(Apply(nd, n), m) ELSE nd
         d == IF left THEN [c EXCEPT ![n].r = c[m].l, ![m].l = n] ELSE [c EXCEPT ![n].l = c[m].r, ![m].r = n]
     IN m # 0 /\ Hang(UpdMax(UpdMax(d, n), m), Above(n), n, m)
  /\ UNCHANGED <<log, done, S>>

Next ==
  \/ \E lo \in 0..P : \E w \in 1..Wide : DoAdd(lo, lo + w)
  \/ \E lo \in 0..P : \E hi \in lo..P : \E amt \in (lo - hi)..1 : DoRemove(lo, hi, amt)
  \/ \E n \in 1..N : DoCatch(n) \/ DoRotate(n, TRUE) \/ DoRotate(n, FALSE)

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What holds.                                                             *)
(***************************************************************************)
Now(n) == LET d == Apply(nd, n) IN <<d[n].lo, d[n].hi>>

Refines == {Now(n) : n \in In} = S
Ordered == \A n \in In : /\ \A k \in Below(nd, nd[n].l) : Now(k)[1] < Now(n)[1]
                         /\ \A k \in Below(nd, nd[n].r) : Now(k)[1] > Now(n)[1]
Bounds == \A n \in In : \A k \in Below(nd, n) : Apply(nd, n)[n].max >= Now(k)[2]
Sized == Cardinality(In) = Cardinality(S)

\* the tree without the names of nodes, and what is left to catch up with
RECURSIVE Term(_)
Term(n) == IF n = 0 THEN <<>>
           ELSE <<nd[n].lo, nd[n].hi, nd[n].max, Len(log) - nd[n].t, Term(nd[n].l), Term(nd[n].r)>>
Behind == LET m == {Len(log) - nd[n].t : n \in In} IN IF m = {} THEN 0 ELSE CHOOSE k \in m : \A j \in m : j <= k
View == <<Term(root), Len(log), SubSeq(log, Len(log) - Behind + 1, Len(log)), done, S>>
=============================================================================
