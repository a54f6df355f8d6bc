------------------------------ MODULE InputBuf ------------------------------
(***************************************************************************)
(* The design of the input cursor: a window of Window bytes onto the text, *)
(* filled on demand, perhaps from a stream that is remembered as far as it *)
(* has been read and that delivers as much as it likes at a time.  It is   *)
(* shown to refine the cursor of InputCursor.tla: a position, and how far  *)
(* the text has been revealed (C07, C08).                                  *)
(*                                                                         *)
(* Variations of the design, which break it:                               *)
(*   Advances = "window"  a skip out of the window fails (the first version *)
(*                        of the code)                                     *)
(*   Marks = FALSE        skips do not count as looking (likewise)         *)
(*   Clears = FALSE       an empty window keeps its old size               *)
(*   Early = TRUE         a short read ends the stream                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Window, MaxLen, Advances, Marks, Clears, Early

VARIABLES n,      \* the length of the text; its byte at position k is k
          base,   \* the position of the window
          off,    \* the offset of the cursor in the window
          size,   \* the bytes in the window
          win,    \* the window itself, of which the rest is stale
          far,    \* the furthest position looked at
          got,    \* the bytes of the stream read so far, -1 for random access
          ended,  \* the stream has reported its end
          p, f,   \* the specification's cursor
          ok      \* everything reported so far is right

vars == <<n, base, off, size, win, far, got, ended, p, f, ok>>

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
None == -1

(***************************************************************************)
(* The text.  Reads(at, len) are the outcomes that a read may have: what   *)
(* it delivers, and how much of the stream has been read afterwards.       *)
(***************************************************************************)
Exact(at, len) == [k \in 1..MaxI(0, MinI(at + len, n) - at) |-> at + k - 1]

\* a stream is asked for Window bytes at a time until there is enough or it ends;
\* it may deliver less than asked for, even nothing
RECURSIVE Pulls(_, _, _)
Pulls(g, e, want) ==
  IF g >= want \/ e THEN {<<g, e>>}
  ELSE UNION {LET m == g + d IN
              {<<m, TRUE>> : x \in {y \in {0} : m = n}} \* the end comes with the last bytes
              \cup (IF d = 0 THEN {} ELSE IF Early /\ d < Window THEN {<<m, TRUE>>} ELSE Pulls(m, FALSE, want))
              : d \in 0..MinI(Window, n - g)}

Reads(at, len) ==
  IF got = -1 THEN {[b |-> Exact(at, len), g |-> -1, e |-> FALSE]}
  ELSE {[b |-> [k \in 1..MaxI(0, MinI(at + len, x[1]) - at) |-> at + k - 1], g |-> x[1], e |-> x[2]]
        : x \in Pulls(got, ended, at + len)}

(***************************************************************************)
(* The code.  A buffer is [base, off, size, win, got, ended].              *)
(***************************************************************************)
Filled(w, b) == [k \in 1..Window |-> IF k <= Len(b) THEN b[k] ELSE w[k]]

\* the ways to fill the window from position at
Fills(at, w) ==
  {[base |-> at, off |-> 0, size |-> IF Clears \/ r.b # <<>> THEN Len(r.b) ELSE size,
    win |-> Filled(w, r.b), got |-> r.g, ended |-> r.e] : r \in Reads(at, Window)}

Now == [base |-> base, off |-> off, size |-> size, win |-> win, got |-> got, ended |-> ended]

Become(s) == /\ base' = s.base /\ off' = s.off /\ size' = s.size /\ win' = s.win
             /\ got' = s.got /\ ended' = s.ended

Byte(k) == IF 0 <= k /\ k < n THEN k ELSE None

DoPeek ==
  /\ far' = MaxI(far, base + off)
  /\ f' = MaxI(f, p)
  /\ ok' = (ok /\ off < Window /\ (IF size # 0 THEN win[off + 1] ELSE None) = Byte(p))
  /\ UNCHANGED <<n, base, off, size, win, got, ended, p>>

DoPeekBefore ==
  /\ IF base + off - 1 < 0 THEN /\ ok' = (ok /\ Byte(p - 1) = None)
                                /\ UNCHANGED <<got, ended>>
     ELSE IF off >= 1 THEN /\ ok' = (ok /\ (IF size # 0 THEN win[off] ELSE None) = Byte(p - 1))
                           /\ UNCHANGED <<got, ended>>
     ELSE \E r \in Reads(base + off - 1, 1) :
            /\ got' = r.g /\ ended' = r.e
            /\ ok' = (ok /\ (IF r.b # <<>> THEN r.b[1] ELSE None) = Byte(p - 1))
  /\ UNCHANGED <<n, base, off, size, win, far, p, f>>

DoSeek(k) ==
  /\ p' = k /\ f' = f /\ far' = far /\ n' = n
  /\ IF k < base + size /\ k >= base THEN /\ off' = k - base
                                          /\ ok' = (ok /\ k < n)
                                          /\ UNCHANGED <<base, size, win, got, ended>>
     ELSE \E s \in Fills(k, win) : Become(s) /\ ok' = (ok /\ ((s.size # 0) <=> (k < n)))

\* after a failed skip the cursor may be anywhere between here and there
Failed(k, s) == /\ Become(s)
                /\ p' = s.base + s.off
                /\ ok' = (ok /\ p + k > n /\ p <= p' /\ p' <= p + k)
Went(k, s) == /\ Become(s)
              /\ p' = p + k
              /\ ok' = (ok /\ p + k <= n /\ s.base + s.off = p + k)

\* the end of the window is the beginning of the next
Turn(k, s) == IF s.off # s.size THEN Went(k, s)
              ELSE \E r \in Reads(s.base + s.off, Window) :
                     Went(k, [base |-> s.base + s.off, off |-> 0,
                              size |-> IF Clears \/ r.b # <<>> THEN Len(r.b) ELSE s.size,
                              win |-> Filled(s.win, r.b), got |-> r.g, ended |-> r.e])

DoAdvance(k) ==
  /\ n' = n
  /\ f' = MaxI(f, p + k - 1)
  /\ far' = IF Marks THEN MaxI(far, base + off + k - 1) ELSE far
  /\ IF size = 0 THEN Failed(k, Now)
     ELSE IF off + k <= size THEN Turn(k, [Now EXCEPT !.off = off + k])
     ELSE IF Advances = "window" THEN \E s \in Fills(base + off + k, win) : Failed(k, s)
     ELSE \E s \in Fills(base + off + k - 1, win) :
            IF s.size = 0 THEN Failed(k, [s EXCEPT !.base = base + off + k])
            ELSE \* the stream has been read far enough for what follows, or further
                 IF s.size # 1 THEN Went(k, [s EXCEPT !.off = 1])
                 ELSE \E x \in IF got = -1 THEN {<<-1, FALSE>>} ELSE Pulls(s.got, s.ended, base + off + k + Window) :
                      LET b == [y \in 1..MaxI(0, MinI(base + off + k + Window, IF got = -1 THEN n ELSE x[1]) - base - off - k)
                                  |-> base + off + k + y - 1]
                      IN Went(k, [base |-> base + off + k, off |-> 0, size |-> IF Clears \/ b # <<>> THEN Len(b) ELSE s.size,
                                  win |-> Filled(s.win, b), got |-> x[1], ended |-> x[2]])

DoReset == far' = 0 /\ f' = -1 /\ UNCHANGED <<n, base, off, size, win, got, ended, p, ok>>

Init ==
  /\ n \in 0..MaxLen
  /\ p = 0 /\ f = -1 /\ far = 0
  /\ \E g \in {-1, 0} :
       LET pulls == IF g = -1 THEN {<<-1, FALSE>>} ELSE Pulls(0, FALSE, Window) IN
       \E x \in pulls :
         LET m == MinI(Window, IF g = -1 THEN n ELSE x[1]) IN
         /\ got = x[1] /\ ended = x[2]
         /\ base = 0 /\ off = 0 /\ size = m
         /\ win = [y \in 1..Window |-> IF y <= m THEN y - 1 ELSE 0]
         /\ ok = TRUE

Top == n + 2  \* positions beyond the end as well

Next ==
  \/ DoPeek \/ DoPeekBefore \/ DoReset
  \/ \E k \in 0..Top : DoSeek(k)
  \/ \E k \in 1..Top : p + k <= Top + 1 /\ DoAdvance(k)

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The properties.                                                         *)
(***************************************************************************)
\* what is reported is what the specification's cursor would report
Refines == ok
\* the cursor is where it should be, and what was looked at is marked
Agrees == base + off = p /\ far >= f
\* the window holds the text
Holds == /\ off < Window
         /\ size = MaxI(0, MinI(base + Window, n) - base)
         /\ \A k \in 1..size : win[k] = base + k - 1
         /\ got <= n
=============================================================================
