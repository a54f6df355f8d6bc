------------------------------- MODULE Compile -------------------------------
(***************************************************************************)
(* The design of the compiler: a scheme that turns patterns (PEG) into     *)
(* programs of the parsing machine (VM), with the optimizations that make  *)
(* them fast.  Every pattern of a small universe, alone and as part of     *)
(* recursive grammars, is compiled and run on every small text, with an    *)
(* empty memoization table and with the one that the first run has left:   *)
(* match, end, captures and errors are those of PEG.                       *)
(*                                                                         *)
(* Jumps are relative here (l is added to the index of the instruction)    *)
(* until the program is complete.                                          *)
(***************************************************************************)
EXTENDS VM

CONSTANTS Deep,       \* the number of leaves that are combined with patterns
          Constructs, \* the most constructs of a pattern
          MaxLen,     \* longest text
          Scheme      \* the optimizations in use

AllOpts == {"span", "head", "jumps", "disjoint", "option", "late", "tail", "search", "combine"}
None == {}
\* variations that must not work
Careless == [disjoint |-> AllOpts \cup {"any two are disjoint"},
             head |-> AllOpts \cup {"heads with labels"},
             late |-> AllOpts \cup {"spans have a length"},
             tail |-> AllOpts \cup {"calls are tails"},
             search |-> AllOpts \cup {"searches skip what they find"},
             tree |-> AllOpts \cup {"repetitions keep their entries"}]
Disjoint1 == Careless.disjoint
Head1 == Careless.head
Late1 == Careless.late
Tail1 == Careless.tail
Search1 == Careless.search
Tree1 == Careless.tree

Has(o) == o \in Scheme

(***************************************************************************)
(* Instructions.                                                           *)
(***************************************************************************)
J(o, d) == [o |-> o, l |-> d]
Op(o) == [o |-> o]
Concats(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)

\* the bytes that one instruction tests, as ranges
IsOne(n) == n.o \in {"char", "set"}
Ranges(n) == IF n.o = "char" THEN <<<<n.b, n.b>>>> ELSE n.r
Bytes1(rs) == {b \in 0..255 : InSet(rs, b)}
OneByte(c) == Len(c) = 1 /\ IsOne(c[1])
Others(rs) == SetToSeq({<<b, b>> : b \in 0..255 \ Bytes1(rs)})

Test0(n, d) == IF n.o = "char" THEN [o |-> "tchar0", b |-> n.b, l |-> d] ELSE [o |-> "tset0", r |-> n.r, l |-> d]

AltCode(a, b) ==
  IF Has("combine") /\ OneByte(a) /\ OneByte(b) THEN <<[o |-> "set", r |-> Ranges(a[1]) \o Ranges(b[1])]>>
  ELSE IF /\ Has("disjoint") /\ a # <<>> /\ b # <<>> /\ IsOne(a[1]) /\ IsOne(b[1])
          /\ (Has("any two are disjoint") \/ Bytes1(Ranges(a[1])) \cap Bytes1(Ranges(b[1])) = {})
  THEN <<Test0(a[1], Len(a) + 1)>> \o Tail(a) \o <<J("jump", Len(b) + 1)>> \o b
  ELSE <<J("choice", Len(a) + 2)>> \o a \o <<J("commit", Len(b) + 1)>> \o b

OptCode(a) ==
  IF Has("option") /\ OneByte(a) THEN <<Test0(a[1], 1)>> ELSE AltCode(a, <<>>)

StarCode(s) ==
  IF Has("span") /\ OneByte(s) THEN <<[o |-> "span", r |-> Ranges(s[1])]>>
  ELSE <<J("choice", Len(s) + 2)>> \o s \o <<J("pcommit", -Len(s))>>

TreeCode(s, id) ==
  <<[o |-> "topen", id |-> id, l |-> Len(s) + 4], J("choice", Len(s) + 5)>> \o s
  \o <<J("commit", 1), Op("tinsert"), Op("tree"), J("jump", -(Len(s) + 5))>>
  \o (IF Has("repetitions keep their entries") THEN <<J("jump", 1)>> ELSE <<[o |-> "tclose", id |-> id]>>)

\* how many instructions at the beginning of s have a fixed length, and that length
Fixed(s) == FoldLeft(LAMBDA a, n : IF a[3] = 1 THEN a
                                   ELSE CASE IsOne(n) -> <<a[1] + 1, a[2] + 1, 0>>
                                          [] n.o = "any" -> <<a[1] + 1, a[2] + n.n, 0>>
                                          [] n.o = "span" /\ Has("spans have a length") -> <<a[1] + 1, a[2] + 1, 0>>
                                          [] OTHER -> <<a[1], a[2], 1>>,
                     <<0, 0, 0>>, s)
CapCode(s, id) ==
  LET f == Fixed(s)
      end == <<Op("cend")>>
  IN IF ~Has("late") \/ f[1] = 0 THEN <<[o |-> "cbegin", id |-> id]>> \o s \o end
     ELSE IF f[1] = Len(s) THEN s \o <<[o |-> "cfull", id |-> id, n |-> f[2]]>>
     ELSE SubSeq(s, 1, f[1]) \o <<[o |-> "clate", id |-> id, n |-> f[2]]>> \o SubSeq(s, f[1] + 1, Len(s)) \o end

SearchCode(s) ==
  LET skip == IF Has("search") /\ s # <<>> /\ IsOne(s[1])
              THEN <<[o |-> "span", r |-> IF Has("searches skip what they find") THEN <<<<0, 255>>>> ELSE Others(Ranges(s[1]))]>>
              ELSE <<>>
      rest == <<[o |-> "any", n |-> 1]>> \o skip
      body == <<J("choice", Len(s) + 2)>> \o s \o <<J("commit", Len(rest) + 2)>> \o rest
  IN <<J("call", 2), J("jump", Len(body) + 3)>> \o body \o <<J("jump", -Len(body)), Op("ret")>>

(***************************************************************************)
(* Grammars: calls of names are left open until the grammar that defines   *)
(* the name is complete.  A call just before a return is a jump.           *)
(***************************************************************************)
GramCode(start, names, bodies) ==
  LET sizes == [x \in 1..Len(bodies) |-> Len(bodies[x]) + 1]
      at == [x \in 1..Len(bodies) |-> 3 + FoldLeft(LAMBDA a, y : a + sizes[y], 0, [y \in 1..(x - 1) |-> y])]
      all == <<[o |-> "open", nm |-> start], J("jump", 1)>>
             \o Concats([x \in 1..Len(bodies) |-> Append(bodies[x], Op("ret"))])
      c == [all EXCEPT ![2].l = Len(all) - 1]
      targets == {x + c[x].l : x \in {y \in 1..Len(c) : "l" \in DOMAIN c[y]}}
      Resolve(x) ==
        LET n == c[x] IN
        IF n.o # "open" \/ ~\E y \in 1..Len(names) : names[y] = n.nm THEN n
        ELSE LET d == at[CHOOSE y \in 1..Len(names) : names[y] = n.nm] - x IN
             IF Has("tail") /\ x < Len(c) /\ (c[x + 1].o = "ret" \/ (Has("calls are tails") /\ x > 1))
             THEN J("jump", d) ELSE J("call", d)
  IN [x \in 1..Len(c) |-> Resolve(x)]

RECURSIVE Code(_, _)
Code(N, k) ==
  LET n == N[k] IN
  CASE n.t = "lit" -> [x \in 1..Len(n.s) |-> [o |-> "char", b |-> n.s[x]]]
    [] n.t = "set" -> <<[o |-> "set", r |-> n.r]>>
    [] n.t = "any" -> <<[o |-> "any", n |-> n.n]>>
    [] n.t = "empty" -> <<>>
    [] n.t = "eop" -> <<[o |-> "empty", n |-> n.n]>>
    [] n.t = "seq" -> Code(N, n.a) \o Code(N, n.b)
    [] n.t = "alt" -> AltCode(Code(N, n.a), Code(N, n.b))
    [] n.t = "opt" -> OptCode(Code(N, n.a))
    [] n.t = "star" -> IF N[n.a].t = "memo" THEN TreeCode(Code(N, N[n.a].a), 100 + k) ELSE StarCode(Code(N, n.a))
    [] n.t = "plus" -> Code(N, n.a) \o (IF N[n.a].t = "memo" THEN TreeCode(Code(N, N[n.a].a), 200 + k)
                                        ELSE StarCode(Code(N, n.a)))
    [] n.t = "rep" -> Concats([x \in 1..n.n |-> Code(N, n.a)])
    [] n.t = "not" -> LET s == Code(N, n.a) IN <<J("choice", Len(s) + 2)>> \o s \o <<Op("fail2")>>
    [] n.t = "and" -> LET s == Code(N, n.a) IN <<J("choice", Len(s) + 2)>> \o s \o <<J("bcommit", 2), Op("fail")>>
    [] n.t = "cap" -> CapCode(Code(N, n.a), n.n)
    [] n.t = "memo" -> LET s == Code(N, n.a) IN <<[o |-> "mopen", id |-> k, l |-> Len(s) + 2]>> \o s \o <<Op("mclose")>>
    [] n.t = "search" -> SearchCode(Code(N, n.a))
    [] n.t = "err" -> <<[o |-> "error", n |-> n.n]>> \o (IF n.a = 0 THEN <<[o |-> "end", n |-> 1]>> ELSE Code(N, n.a))
    [] n.t = "nt" -> <<[o |-> "open", nm |-> n.nm]>>
    [] n.t = "gram" -> GramCode(n.nm, [x \in 1..Len(n.d) |-> n.d[x].nm], [x \in 1..Len(n.d) |-> Code(N, n.d[x].k)])

(***************************************************************************)
(* The whole program, with absolute jumps, and the last pass.              *)
(***************************************************************************)
Placed(c) == [x \in 1..Len(c) |-> IF "l" \in DOMAIN c[x] THEN [c[x] EXCEPT !.l = @ + x] ELSE c[x]]

Heads(P) ==
  LET targets == {P[x].l : x \in {y \in 1..Len(P) : "l" \in DOMAIN P[y]}}
      Led(x) == /\ x < Len(P) /\ P[x].o = "choice" /\ (x + 1 \notin targets \/ Has("heads with labels"))
                /\ P[x + 1].o \in {"char", "set", "any"}
      New(x) == IF Led(x) THEN LET n == P[x + 1] IN
                               CASE n.o = "char" -> [o |-> "tchar", b |-> n.b, l |-> P[x].l]
                                 [] n.o = "set" -> [o |-> "tset", r |-> n.r, l |-> P[x].l]
                                 [] n.o = "any" -> [o |-> "tany", n |-> n.n, l |-> P[x].l]
                ELSE IF x > 1 /\ Led(x - 1) THEN J("jump", x + 1)
                ELSE P[x]
  IN [x \in 1..Len(P) |-> New(x)]

Jumped(P) == [x \in 1..Len(P) |->
                IF P[x].o = "jump" /\ P[x].l <= Len(P)
                   /\ P[P[x].l].o \in {"pcommit", "bcommit", "commit", "jump", "ret", "fail", "fail2", "end"}
                THEN P[P[x].l] ELSE P[x]]

Program(N, k) ==
  LET P == Placed(Code(N, k))
      Q == IF Has("head") THEN Heads(P) ELSE P
  IN IF Has("jumps") THEN Jumped(Q) ELSE Q

(***************************************************************************)
(* The universe, as in PEGLaws: sequences of nodes that begin with the     *)
(* leaves.  Two of the leaves refer to the rule of a grammar around.       *)
(***************************************************************************)
Lit(s) == [t |-> "lit", s |-> s]
Bin(t, a, b) == [t |-> t, a |-> a, b |-> b]
Un(t, a) == [t |-> t, a |-> a]
UnN(t, a, n) == [t |-> t, a |-> a, n |-> n]

Leaves == << Lit(<<97>>), [t |-> "set", r |-> <<<<98, 99>>>>], Lit(<<97, 98>>), [t |-> "any", n |-> 1], [t |-> "empty"],
             Lit(<<98>>), [t |-> "eop", n |-> 8], [t |-> "err", a |-> 5, n |-> 1], [t |-> "err", a |-> 0, n |-> 2],
             [t |-> "nt", nm |-> "S"] >>
NtS == 10

RECURSIVE Eats(_, _), Refers(_, _)
Eats(M, k) ==
  LET n == M[k] IN
  CASE n.t = "lit" -> n.s # <<>>
    [] n.t = "set" -> TRUE
    [] n.t = "any" -> n.n > 0
    [] n.t = "seq" -> Eats(M, n.a) \/ Eats(M, n.b)
    [] n.t = "alt" -> Eats(M, n.a) /\ Eats(M, n.b)
    [] n.t \in {"plus", "cap", "memo", "search", "rep"} -> Eats(M, n.a)
    [] OTHER -> FALSE
Refers(M, k) == M[k].t = "nt" \/ \E x \in 1..Len(Kids(M[k])) : Refers(M, Kids(M[k])[x])

Over(M) ==
  LET k == Len(M) IN
  {Append(M, n) : n \in
     {Bin(t, k, x) : t \in {"seq", "alt"}, x \in (1..Deep) \cup {NtS}} \cup {Bin(t, x, k) : t \in {"seq", "alt"}, x \in (1..Deep) \cup {NtS}}
     \cup {Un(t, k) : t \in {"opt", "not", "and", "search", "memo"}}
     \cup (IF Eats(M, k) THEN {Un("star", k), Un("plus", k)} ELSE {})
     \cup {UnN("cap", k, Len(M)), UnN("rep", k, 2)}}

Texts == {[pad |-> 0, pb |-> 0, t |-> s] : s \in UNION {[1..n -> {97, 98}] : n \in 0..MaxLen}}

VARIABLES M, d

\* The pattern itself, or as the rest of a rule that first takes a byte: then it
\* may refer to the rule.
Closed ==
  LET k == Len(M)
      g(ns, ds) == M \o ns \o <<[t |-> "gram", nm |-> "S", d |-> ds]>>
      rule(nm, x) == [nm |-> nm, k |-> x]
  IN (IF Refers(M, k) THEN {} ELSE {M})
     \cup {g(<<Bin("seq", 1, k), Bin("alt", k + 1, 6)>>, <<rule("S", k + 2)>>),
           g(<<Bin("seq", 4, k)>>, <<rule("S", k + 1)>>),
           g(<<Bin("seq", 1, NtS), Bin("alt", k + 1, 2), [t |-> "nt", nm |-> "R"], Bin("seq", 4, k), Bin("alt", k + 4, k + 2)>>,
             <<rule("R", k + 2), rule("S", k + 5)>>)}

Agrees(N, T) ==
  LET k == Len(N)
      P == Program(N, k)
      want == Outcome(N, T, k)
      Seen(s) == IF s.ph = "match" THEN [m |-> 1, p |-> s.pos, c |-> s.c, e |-> s.g.e, l |-> s.g.l]
                 ELSE [m |-> IF s.ph = "fail" THEN 0 ELSE 2, e |-> s.g.e, l |-> s.g.l]
      one == Run(P, T, Start(<<>>), 40)
      two == Run(P, T, Start(one.tb), 40)
  IN /\ Seen(one) = want /\ (one.ph = "match" => one.st = <<>>)
     /\ Seen(two) = want /\ (two.ph = "match" => two.st = <<>>)

Init == M \in {Append(Leaves, Leaves[x]) : x \in 1..Len(Leaves)} /\ d = 0
Next == d < Constructs /\ d' = d + 1 /\ M' \in Over(M)
Spec == Init /\ [][Next]_<<M, d>>

Correct == \A N \in Closed : \A T \in Texts : Agrees(N, T)
=============================================================================
