---------------------------- MODULE AtomicMemories ----------------------------
(***************************************************************************)
(* AtomicMemory and AtomicTaggedMemory (util/memory): load linked / store  *)
(* conditional with 8 byte reservation granules, and read-modify-write     *)
(* operations, in front of a byte addressable (tagged) memory.             *)
(* Configuration: <<"reset", kind, origin, fill, gran>>.                   *)
(* Values of atomic operations are little endian byte sequences, of any    *)
(* width TLC's 32-bit integers could not hold.                             *)
(***************************************************************************)
EXTENDS MemBytes, Bitwise

CONSTANTS Cfgs, Addrs, Sizes, Vecs, Vals, Keys, TagLists, AmoOps, AmoVals

VARIABLES s, ev

Configs == Cfgs
M0(c) == MInit(1, c[4], c[5])
\* res: granules with a live reservation, and the bytes they had when it was made (a ghost).
Init0(c) == [m |-> M0(c), res |-> <<>>]
ResetOut(c) == MkOut(M0(c), <<>>, <<>>, <<>>)

RG(a, n) == (a \div 8)..((a + n - 1) \div 8)
Drop(res, gs) == [g \in DOMAIN res \ gs |-> res[g]]

\* Arithmetic on byte sequences of equal length.
RECURSIVE AddC(_, _, _)
AddC(x, y, c) == IF x = <<>> THEN <<>>
                 ELSE LET t == x[1] + y[1] + c IN <<t % 256>> \o AddC(Tail(x), Tail(y), t \div 256)
Inv(y) == [i \in 1..Len(y) |-> 255 - y[i]]
LessU(x, y) == \E i \in 1..Len(x) : x[i] < y[i] /\ \A j \in (i + 1)..Len(x) : x[j] = y[j]
Flip(x) == [x EXCEPT ![Len(x)] = (@ + 128) % 256]
LessS(x, y) == LessU(Flip(x), Flip(y))
Bw(f(_, _), x, y) == [i \in 1..Len(x) |-> f(x[i], y[i])]
New(o, x, y) == \* x: memory, y: operand
  CASE o = "swap" -> y
    [] o = "add" -> AddC(x, y, 0)
    [] o = "sub" -> AddC(x, Inv(y), 1)
    [] o = "and" -> Bw(&, x, y)
    [] o = "or" -> Bw(|, x, y)
    [] o = "xor" -> Bw(^^, x, y)
    [] o = "max" -> IF LessS(x, y) THEN y ELSE x
    [] o = "maxu" -> IF LessU(x, y) THEN y ELSE x
    [] o = "min" -> IF LessS(y, x) THEN y ELSE x
    [] o = "minu" -> IF LessU(y, x) THEN y ELSE x

Lens == {1, 2, 4, 8}
Ops(st) ==
  {<<"st", a, n, v>> : a \in Addrs, n \in Sizes, v \in Vals}
  \cup {<<"ld", a, n, 0, 0>> : a \in Addrs, n \in Sizes}
  \cup {<<"vst", v[1], v[2], v[3], x>> : v \in Vecs, x \in Vals}
  \cup {<<"vld", v[1], v[2], v[3], 1, 1>> : v \in Vecs}
  \cup (IF st.m.gran = 0 THEN {} ELSE {<<"tst", a, t, v>> : a \in Addrs, t \in TagLists, v \in Vals}
                                       \cup {<<"tld", a, 1, 0, 12>> : a \in Addrs})
  \cup UNION {UNION {{<<"amo", o, a, v, k>> : k \in Keys, o \in AmoOps} : v \in {x \in AmoVals : a % Len(x) = 0}} : a \in Addrs}
  \cup {<<"adv">>}

\* <<status, data, log, instructions, contexts>>
AOut(m, ok, data, k) == <<ok, data, IF k = 0 \/ ~ok THEN <<>> ELSE << <<k, data, <<>>>> >>, LiveI(m), LiveC(m)>>
One(st, out) == {[s |-> st, out |-> out]}
Amo(st, o, a, v, k) ==
  LET n == Len(v)
      old == Bytes(st.m, a, n)
      gs == RG(a, n)
      Sc(r) == [i \in 1..n |-> IF i = 1 THEN r ELSE 0]
  IN IF o = "ll" THEN
       LET rs == [g \in DOMAIN st.res \cup {a \div 8} |-> IF g = a \div 8 THEN Bytes(st.m, g * 8, 8) ELSE st.res[g]]
       IN One([st EXCEPT !.res = rs], AOut(st.m, TRUE, old, k))
     ELSE IF n \notin Lens THEN One(st, AOut(st.m, FALSE, v, k))
     ELSE IF o = "sc" THEN
       (IF (a \div 8) \notin DOMAIN st.res THEN One(st, AOut(st.m, TRUE, Sc(1), k))
        ELSE One([st EXCEPT !.m = Put(st.m, a, v), !.res = Drop(@, gs)], AOut(st.m, TRUE, Sc(0), k)))
     ELSE One([st EXCEPT !.m = Put(st.m, a, New(o, old, v)), !.res = Drop(@, gs)], AOut(st.m, TRUE, old, k))

\* Reservation granules an access stores to.
Stored(st, op) ==
  CASE op[1] = "st" -> RG(op[2], op[3])
    [] op[1] = "vst" -> UNION {RG(EAddr(st.m, op[2], op[4], i), op[4]) : i \in On(op[3])}
    [] op[1] = "tst" -> IF Aligned(st.m, op[2], 0) THEN RG(op[2], Len(op[3]) * st.m.gran) ELSE {}
    [] OTHER -> {}
\* A tagged store that the memory refuses (not aligned) stores nothing; whether it ends a reservation is left open.
Eff(st, op) ==
  IF op[1] = "amo" THEN Amo(st, op[2], op[3], op[4], op[5])
  ELSE LET r == Access(st.m, op)
       IN One([m |-> r.m, res |-> Drop(st.res, Stored(st, op))], r.out)

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>
----------------------------------------------------------------------------
\* While a reservation is live no byte of its granule has changed.
Intact == \A g \in DOMAIN s.res : s.res[g] = Bytes(s.m, g * 8, 8)
IsSc == ev'[1][1] = "amo" /\ ev'[1][2] = "sc" /\ ev'[2][1]
Ok == ev'[2][2][1] = 0
\* A store conditional succeeds only where there is a reservation, consumes it, and changes memory iff it succeeds.
ScRule == [][IsSc => /\ Ok <=> (ev'[1][3] \div 8) \in DOMAIN s.res
                     /\ (ev'[1][3] \div 8) \notin DOMAIN s'.res
                     /\ ~Ok => s' = s
                     /\ Ok => Bytes(s'.m, ev'[1][3], Len(ev'[1][4])) = ev'[1][4]]_<<s, ev>>
\* Only load linked makes reservations; reading ends none.
OnlyLL == [][ev'[1][1] # "reset" => /\ (DOMAIN s'.res # DOMAIN s.res /\ ~(DOMAIN s'.res \subseteq DOMAIN s.res) =>
                                            ev'[1][1] = "amo" /\ ev'[1][2] = "ll")
                                    /\ ev'[1][1] \in {"ld", "vld", "tld", "adv"} => s'.res = s.res]_<<s, ev>>
\* Read-modify-write: the old value is returned, the operations have their algebraic properties.
Algebra == LET V == {v \in AmoVals : Len(v) \in Lens} IN
  \A x, y \in V : Len(x) = Len(y) =>
     /\ New("sub", New("add", x, y), y) = x /\ New("add", x, y) = New("add", y, x)
     /\ New("xor", New("xor", x, y), y) = x
     /\ New("add", New("and", x, y), New("or", x, y)) = New("add", x, y)
     /\ {New("max", x, y), New("min", x, y)} = {x, y} /\ {New("maxu", x, y), New("minu", x, y)} = {x, y}
     /\ ~LessS(New("max", x, y), New("min", x, y)) /\ ~LessU(New("maxu", x, y), New("minu", x, y))
=============================================================================
