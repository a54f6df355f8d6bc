-------------------------------- MODULE Rope --------------------------------
(***************************************************************************)
(* Ropes as the flat byte sequences they stand for, and the lines and      *)
(* columns of their bytes.  st.R holds the ropes alive: a rope that is     *)
(* split or joined is gone, and new ones take its place.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

Cut(s, lo, hi) == SubSeq(s, lo + 1, hi)          \* bytes [lo, hi)
From(s, k) == SubSeq(s, k + 1, Len(s))
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

(***************************************************************************)
(* Operations.                                                             *)
(***************************************************************************)
Without(R, ids) == [r \in DOMAIN R \ ids |-> R[r]]
With(R, id, s) == (id :> s) @@ R

Do(R, o) ==
  CASE o.k = "new" -> With(R, o.id, o.b)
    [] o.k = "ins" -> [R EXCEPT ![o.id] = Cut(@, 0, o.pos) \o o.b \o From(@, o.pos)]
    [] o.k = "rem" -> [R EXCEPT ![o.id] = Cut(@, 0, o.lo) \o From(@, o.hi)]
    [] o.k = "split" -> With(With(Without(R, {o.id}), o.l, Cut(R[o.id], 0, o.pos)), o.r, From(R[o.id], o.pos))
    [] o.k = "join" -> With(Without(R, ToSet(o.ids)), o.id, Concat([x \in 1..Len(o.ids) |-> R[o.ids[x]]]))
    [] OTHER -> R

(***************************************************************************)
(* Lines and columns.  The separator sep is a sequence of bytes; its       *)
(* bytes belong to the line that it ends.  Separators that can overlap     *)
(* themselves are excluded.                                                *)
(***************************************************************************)
\* the line/column of every offset 0..Len(s)
LineCols1(s, sep) ==
  FoldLeft(LAMBDA a, b : Append(a, LET p == a[Len(a)] IN IF b = sep THEN <<p[1] + 1, 0>> ELSE <<p[1], p[2] + 1>>),
           << <<0, 0>> >>, s)
LineColsN(s, sep) ==
  LET m == Len(sep) IN
  FoldLeft(LAMBDA a, k : LET p == a[k] IN          \* a[k] is that of offset k - 1
             Append(a, IF p[2] + 1 >= m /\ SubSeq(s, k - m + 1, k) = sep THEN <<p[1] + 1, 0>> ELSE <<p[1], p[2] + 1>>),
           << <<0, 0>> >>, [k \in 1..Len(s) |-> k])
LineCols(s, sep) == IF Len(sep) = 1 THEN LineCols1(s, sep[1]) ELSE LineColsN(s, sep)
LcEnd(s, sep) == LET t == LineCols(s, sep) IN t[Len(t)]

LcLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

(***************************************************************************)
(* Observations.                                                           *)
(***************************************************************************)
ReadOk(s, o) ==
  LET n == IF o.off >= Len(s) THEN 0 ELSE MinI(o.len, Len(s) - o.off)
  IN /\ o.res = Cut(s, o.off, o.off + n)
     /\ n < o.len => o.err = "EOF"
     /\ o.off + o.len < Len(s) => o.err = ""
     /\ o.err \in {"", "EOF"}

\* all pieces, or the first o.stop of them
LeavesOk(s, o) ==
  LET got == Concat(o.pieces) IN
  IF o.ret = 1 THEN Len(o.pieces) = o.stop /\ IsPrefix(got, s)
  ELSE got = s /\ (o.stop = 0 \/ Len(o.pieces) < o.stop)

\* a writer that takes o.max bytes
WriteOk(s, o) ==
  /\ o.n = Len(o.res)
  /\ IsPrefix(o.res, s)
  /\ IF o.max >= Len(s) THEN o.err = 0 /\ o.res = s ELSE o.err = 1 /\ Len(o.res) <= o.max

\* the text between the offsets of two positions
SliceLcOk(s, o) == o.res = (IF o.lo < o.hi THEN Cut(s, o.lo, o.hi) ELSE <<>>)

ObsOk(R, o, sep) ==
  CASE o.k = "val" -> o.res = R[o.id] /\ o.n = Len(R[o.id])
    [] o.k = "at" -> o.res = R[o.id][o.pos + 1]
    [] o.k = "read" -> ReadOk(R[o.id], o)
    [] o.k = "leaves" -> LeavesOk(R[o.id], o)
    [] o.k = "each" -> o.res = R[o.id] /\ o.top = R[o.id]
    [] o.k = "write" -> WriteOk(R[o.id], o)
    [] o.k = "held" -> o.now = o.was
    [] o.k = "llen" -> o.res = LcEnd(R[o.id], sep) /\ o.n = o.res[1]
    [] o.k = "table" -> LET t == LineCols(R[o.id], sep) IN
                        /\ o.lc = t
                        /\ o.offs = [x \in 1..Len(t) |-> x - 1]
    [] o.k = "lc" -> LET t == LineCols(R[o.id], sep) IN
                     \A x \in 1..Len(o.at) : o.lc[x] = t[o.at[x] + 1] /\ o.offs[x] = o.at[x]
    [] o.k = "slc" -> SliceLcOk(R[o.id], o)
    [] o.k = "crash" -> FALSE
    [] OTHER -> TRUE

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

Bad(rec, st, o) == PrintT("@@BAD " \o rec.id \o " op " \o ToString(st.j + 1) \o " " \o ToString(o)
                           \o (IF "id" \in DOMAIN o /\ o.id \in DOMAIN st.R /\ Len(st.R[o.id]) < 200
                               THEN " rope " \o ToString(st.R[o.id]) ELSE ""))

Step(rec, st, o) ==
  IF st.bad THEN st
  ELSE IF ~ObsOk(st.R, o, rec.sep) THEN [st EXCEPT !.bad = Bad(rec, st, o)]
  ELSE [st EXCEPT !.R = Do(@, o), !.j = @ + 1]

CheckRec(rec) ==
  LET end == FoldLeft(LAMBDA st, o : Step(rec, st, o), [R |-> <<>>, j |-> 0, bad |-> FALSE], rec.ops)
  IN end.bad \/ end.j = Len(rec.ops)

Init == i = 0
Next == /\ i < Len(Recs)
        /\ CheckRec(Recs[i + 1]) = TRUE
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
Done == PrintT("@@DONE " \o ToString(TLCGet("stats").distinct - 1))
=============================================================================
