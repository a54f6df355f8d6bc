--------------------------------- MODULE VM ---------------------------------
(***************************************************************************)
(* The parsing machine.                                                    *)
(*                                                                         *)
(* A program P is a sequence of instructions, records with the operation o *)
(* and its operands; jump targets l are indices into P (labels have been   *)
(* resolved), and Len(P) + 1 is the end of the program, which is a match.  *)
(* A text T is as in PEG.                                                  *)
(*                                                                         *)
(* A machine state s is a record of                                        *)
(*   ip    the next instruction                                            *)
(*   pos   the position in the text                                        *)
(*   st    the stack, top last: records of k ("bt", "ret", "memo", "tree", *)
(*         "cap" or "chk"), ip and pos to go back to, id, n (a count or a  *)
(*         flag), ne (errors reported before), and c, captures completed   *)
(*         while the entry was on top                                      *)
(*   c     captures completed with an empty stack                          *)
(*   g     errors, back-references and checker calls, as in PEG            *)
(*   tb    the memoization table, a sequence of results                    *)
(*         <<id, pos, length or -1, count, captures>>; a table may decline *)
(*         results, this one declines those of length 0                    *)
(*   ph    "run", "match", "fail", or "stuck": the stack does not hold     *)
(*         what an instruction needs, or a capture starts before the text  *)
(***************************************************************************)
EXTENDS PEG

Start(tb) == [ip |-> 1, pos |-> 0, st |-> <<>>, c |-> <<>>, g |-> G0, tb |-> tb, ph |-> "run"]

Entry(k, ip, pos, id, n, ne) == [k |-> k, ip |-> ip, pos |-> pos, id |-> id, n |-> n, ne |-> ne, c |-> <<>>]

Top(s) == s.st[Len(s.st)]
TopIs(s, k) == s.st # <<>> /\ Top(s).k = k
Push(s, e) == [s EXCEPT !.st = Append(@, e)]
Drop(s) == [s EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
Give(s, cs) == IF cs = <<>> THEN s
               ELSE IF s.st = <<>> THEN [s EXCEPT !.c = @ \o cs]
               ELSE [s EXCEPT !.st[Len(s.st)].c = @ \o cs]
\* removes the top entry, whose captures go to the one below
PopKeep(s) == Give(Drop(s), Top(s).c)

Go(s, ip) == [s EXCEPT !.ip = ip]
Eat(s, n, ip) == [s EXCEPT !.ip = ip, !.pos = @ + n]
Stuck(s) == [s EXCEPT !.ph = "stuck"]

\* A result that reported errors is not given to the table.
Store(s, e, len, n, cs) ==
  IF Len(s.g.e) # e.ne \/ len = 0 THEN s
  ELSE [s EXCEPT !.tb = Append(SelectSeq(@, LAMBDA x : <<x[1], x[2]>> # <<e.id, e.pos>>), <<e.id, e.pos, len, n, cs>>)]

Found(s, id) == SelectSeq(s.tb, LAMBDA x : <<x[1], x[2]>> = <<id, s.pos>>)

\* Failure: back to the latest alternative.  Memoized patterns on the way failed.
RECURSIVE Back(_)
Back(s) ==
  IF s.st = <<>> THEN [s EXCEPT !.ph = "fail"]
  ELSE LET e == Top(s) IN
       CASE e.k = "bt" -> [Drop(s) EXCEPT !.ip = e.ip, !.pos = e.pos]
         [] e.k = "memo" -> Back(Store(Drop(s), e, -1, 0, <<>>))
         [] OTHER -> Back(Drop(s))

\* The top entries of a memoized repetition are joined while the ones above
\* cover at least as many repetitions as the one below.
RECURSIVE Joined(_), Covers(_, _, _)
Covers(s, seen, acc) ==
  \* how many entries to join with the one below them (0: none)
  LET d == Len(s.st) - seen IN
  IF d < 2 THEN 0
  ELSE IF s.st[d].k # "tree" \/ s.st[d - 1].k # "tree" THEN 0
  ELSE IF acc + s.st[d].n >= s.st[d - 1].n THEN seen + 1
  ELSE Covers(s, seen + 1, acc + s.st[d].n)

Joined(s) ==
  LET k == Covers(s, 0, 0) IN
  IF k = 0 THEN s
  ELSE LET base == Len(s.st) - k
           sum == FoldLeft(LAMBDA a, x : a + s.st[x].n, 0, [x \in 1..(k + 1) |-> base + x - 1])
           cs == FoldLeft(LAMBDA a, x : a \o s.st[x].c, <<>>, [x \in 1..(k + 1) |-> base + x - 1])
           s2 == [s EXCEPT !.st = [SubSeq(@, 1, base) EXCEPT ![base].c = cs, ![base].n = sum]]
           e == s2.st[base]
       IN Joined(Store(s2, e, s.pos - e.pos, sum, cs))

RECURSIVE DropTrees(_, _)
DropTrees(s, id) == IF TopIs(s, "tree") /\ Top(s).id = id THEN DropTrees(PopKeep(s), id) ELSE s

Step(P, T, s) ==
  IF s.ip > Len(P) THEN [s EXCEPT !.ph = "match"] ELSE
  LET n == P[s.ip]
      nx == s.ip + 1
      more == s.pos < Size(T)
      isChar == more /\ Byte(T, s.pos) = n.b
      isSet == more /\ InSet(n.r, Byte(T, s.pos))
      alt == Entry("bt", n.l, s.pos, 0, 0, 0)
  IN
  CASE n.o = "char" -> IF isChar THEN Eat(s, 1, nx) ELSE Back(s)
    [] n.o = "set" -> IF isSet THEN Eat(s, 1, nx) ELSE Back(s)
    [] n.o = "any" -> IF s.pos + n.n <= Size(T) THEN Eat(s, n.n, nx) ELSE Back(s)
    [] n.o = "span" ->
         LET e == FoldLeft(LAMBDA a, x : IF a = x /\ InSet(n.r, Byte(T, x)) THEN x + 1 ELSE a,
                           s.pos, [x \in 1..(Size(T) - s.pos) |-> s.pos + x - 1])
         IN Eat(s, e - s.pos, nx)
    [] n.o = "jump" -> Go(s, n.l)
    [] n.o = "choice" -> Go(Push(s, alt), nx)
    [] n.o = "call" -> Go(Push(s, Entry("ret", nx, 0, 0, 0, 0)), n.l)
    [] n.o = "ret" -> IF TopIs(s, "ret") THEN Go(PopKeep(s), Top(s).ip) ELSE Stuck(s)
    [] n.o = "commit" -> IF s.st = <<>> THEN Stuck(s) ELSE Go(PopKeep(s), n.l)
    [] n.o = "pcommit" ->
         IF ~TopIs(s, "bt") THEN Stuck(s)
         ELSE Go(Push(PopKeep(s), [Top(s) EXCEPT !.pos = s.pos, !.c = <<>>]), n.l)
    [] n.o = "bcommit" ->
         IF ~TopIs(s, "bt") THEN Stuck(s) ELSE [PopKeep(s) EXCEPT !.pos = Top(s).pos, !.ip = n.l]
    [] n.o = "fail" -> Back(s)
    [] n.o = "fail2" -> IF s.st = <<>> THEN Stuck(s) ELSE Back(Drop(s))
    [] n.o = "empty" -> IF AssertHolds(n.n, T, s.pos) THEN Go(s, nx) ELSE Back(s)
    [] n.o = "tchar" -> IF isChar THEN Eat(Push(s, alt), 1, nx) ELSE Go(s, n.l)
    [] n.o = "tset" -> IF isSet THEN Eat(Push(s, alt), 1, nx) ELSE Go(s, n.l)
    [] n.o = "tany" -> IF s.pos + n.n <= Size(T) THEN Eat(Push(s, alt), n.n, nx) ELSE Go(s, n.l)
    [] n.o = "tchar0" -> IF isChar THEN Eat(s, 1, nx) ELSE Go(s, n.l)
    [] n.o = "tset0" -> IF isSet THEN Eat(s, 1, nx) ELSE Go(s, n.l)
    [] n.o = "end" -> [s EXCEPT !.ph = IF n.n = 1 THEN "fail" ELSE "match"]
    [] n.o = "cbegin" -> Go(Push(s, Entry("cap", 0, s.pos, n.id, 0, 0)), nx)
    [] n.o \in {"clate", "cfull"} /\ n.n > s.pos -> Stuck(s)
    [] n.o = "clate" -> Go(Push(s, Entry("cap", 0, s.pos - n.n, n.id, 0, 0)), nx)
    [] n.o = "cfull" -> Go(Give(s, <<<<n.id, s.pos - n.n, n.n, <<>>>>>>), nx)
    [] n.o = "cend" ->
         IF ~TopIs(s, "cap") THEN Stuck(s)
         ELSE LET e == Top(s) IN Go(Give(Drop(s), <<<<e.id, e.pos, s.pos - e.pos, e.c>>>>), nx)
    [] n.o = "kbegin" -> Go(Push(s, Entry("chk", 0, s.pos, n.id, n.n, 0)), nx)
    [] n.o = "kend" ->
         IF ~TopIs(s, "chk") THEN Stuck(s)
         ELSE LET e == Top(s)
                  c == [n EXCEPT !.n = e.id, !.f = e.n,
                                 !.k = IF @ # "ref" THEN @
                                       ELSE CASE e.n = 0 -> "def" [] e.n = 1 -> "use" [] OTHER -> "blk"]
                  v == Verdict(c, T, e.pos, s.pos, s.g)
                  s2 == [PopKeep(s) EXCEPT !.g = AfterCheck(c, T, e.pos, s.pos, s.g)]
              IN IF v = -1 THEN Back(s2) ELSE Eat(s2, v, nx)
    [] n.o = "error" -> [s EXCEPT !.g.e = Append(@, <<s.pos, n.n>>), !.ip = nx]
    [] n.o = "mopen" ->
         LET f == Found(s, n.id) IN
         IF f = <<>> THEN Go(Push(s, Entry("memo", 0, s.pos, n.id, 0, Len(s.g.e))), nx)
         ELSE IF f[1][3] = -1 THEN Back(s)
         ELSE Eat(Give(s, f[1][5]), f[1][3], n.l)
    [] n.o = "mclose" ->
         IF ~TopIs(s, "memo") THEN Stuck(s)
         ELSE LET e == Top(s) IN Go(Store(PopKeep(s), e, s.pos - e.pos, 1, e.c), nx)
    [] n.o = "topen" ->
         LET f == Found(s, n.id)
             e == Entry("tree", 0, s.pos, n.id, 0, Len(s.g.e))
         IN IF f = <<>> THEN Go(Push(s, e), nx)
            ELSE IF f[1][3] = -1 THEN Back(s)
            ELSE Eat(Push(s, [e EXCEPT !.n = f[1][4], !.c = f[1][5]]), f[1][3], n.l)
    [] n.o = "tinsert" ->
         IF ~TopIs(s, "tree") THEN Stuck(s)
         ELSE LET s2 == [s EXCEPT !.st[Len(s.st)].n = @ + 1]
                  e == Top(s2)
              IN Go(Store(s2, e, s.pos - e.pos, e.n, e.c), nx)
    [] n.o = "tree" -> Go(Joined(s), nx)
    [] n.o = "tclose" -> Go(DropTrees(s, n.id), nx)
    [] n.o = "fill" -> Back(s)      \* n.n instructions that fail, or are never reached

\* Runs are folds over blocks of steps.
Steps64 == [x \in 1..64 |-> x]
RECURSIVE Run(_, _, _, _)
Run(P, T, s, left) ==
  IF s.ph # "run" THEN s
  ELSE IF left = 0 THEN s
  ELSE Run(P, T, FoldLeft(LAMBDA a, x : IF a.ph = "run" THEN Step(P, T, a) ELSE a, s, Steps64), left - 1)

(***************************************************************************)
(* Encoding.  Operands have 16 bits (ids, flags, indices of sets) or 24    *)
(* (jump targets, indices of messages and checkers).  Bytes says how long  *)
(* the code is.                                                            *)
(***************************************************************************)
OpBytes(o) == CASE o \in {"tchar", "tset", "tany", "tchar0", "tset0", "mopen", "topen", "kbegin"} -> 6
                [] o \in {"jump", "choice", "call", "commit", "pcommit", "bcommit", "set", "span", "cbegin", "clate",
                          "cfull", "tclose", "kend", "error"} -> 4
                [] OTHER -> 2
Bytes(n) == IF n.o = "fill" THEN n.n * OpBytes(n.k) ELSE OpBytes(n.o)

I16(x) == -32768 <= x /\ x <= 32767

IdsFit(n) == CASE n.o \in {"cbegin", "clate", "cfull", "mopen", "topen", "tclose"} -> I16(n.id)
               [] n.o = "kbegin" -> I16(n.id) /\ I16(n.n)
               [] OTHER -> TRUE

Offsets(P) == FoldLeft(LAMBDA a, n : Append(a, a[Len(a)] + Bytes(n)), <<0>>, P)
Jumps(P) == {x \in 1..Len(P) : "l" \in DOMAIN P[x] /\ P[x].l > 0}

\* sets and messages are stored once; fill instructions have as many of their own
Sets(P) == Cardinality({{b \in 0..255 : InSet(P[x].r, b)} : x \in {y \in 1..Len(P) : P[y].o \in {"set", "span", "tset", "tset0"}}})
           + FoldLeft(LAMBDA a, n : IF n.o = "fill" /\ n.k = "set" THEN a + n.n ELSE a, 0, P)

Encodable(P) ==
  /\ \A x \in 1..Len(P) : IdsFit(P[x])
  /\ Sets(P) <= 65536
  /\ \A x \in Jumps(P) : P[x].l <= Len(P) + 1  \* the label is in the program
  /\ LET off == Offsets(P) IN \A x \in Jumps(P) : off[P[x].l] < 16777216
=============================================================================
