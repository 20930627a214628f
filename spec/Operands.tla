------------------------------- MODULE Operands -------------------------------
(***************************************************************************)
(* Source operands (generic/immediate_operand.h, literal_operand.h,        *)
(* register.h, fifo.h, status_register.h, wrapper_operand.h) and the state *)
(* items behind them.                                                      *)
(*                                                                         *)
(* A value is a sequence of bytes, least significant first (TLC integers   *)
(* are 32 bit).  Reading element i as an integer of w bytes gives its      *)
(* first w bytes, extended when w is larger than the element.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Kinds, Types, Corner, MaxSets

VARIABLES s, ev

Width(t) == CASE t \in {"i8", "u8", "b"} -> 1 [] t \in {"i16", "u16"} -> 2
              [] t \in {"i32", "u32"} -> 4 [] t \in {"i64", "u64"} -> 8
SignedT(t) == t \in {"i8", "i16", "i32", "i64"}

\* Shapes and number of elements.
Shape(k) == CASE k \in {"imm", "reg", "fifo", "sreg", "wrap"} -> <<1>>
              [] k = "vimm" -> <<3>> [] k = "immv" -> <<4, 2>>
              [] k = "vreg" -> <<4>> [] k = "mreg" -> <<2, 3>> [] k = "vfifo" -> <<4>>
              [] k \in {"lit", "blit"} -> <<>>
              [] k = "litv" -> <<7>>
NElem(k) == CASE k = "vimm" -> 3 [] k \in {"vreg", "vfifo"} -> 4 [] k = "mreg" -> 6 [] OTHER -> 1
\* Operands that ignore the index.
Broadcast(k) == k \in {"imm", "immv", "lit", "litv", "blit", "sreg", "wrap"}
HasItem(k) == k \in {"reg", "vreg", "mreg", "fifo", "vfifo", "sreg"}
HasDest(k) == k \in {"reg", "vreg", "mreg", "fifo", "vfifo"}
Literal(k) == k \in {"lit", "litv", "blit"}

Zero(t) == [j \in 1..Width(t) |-> 0]

\* How a value is extended.
ReadsSigned(k, t, asSigned) ==
  CASE k \in {"reg", "vreg", "mreg"} -> IF asSigned /\ t # "b" THEN TRUE ELSE SignedT(t)
    [] k \in {"fifo", "vfifo"} -> asSigned
    [] OTHER -> SignedT(t)
Ext(v, w, sx) ==
  [j \in 1..w |-> IF j <= Len(v) THEN v[j]
                  ELSE IF sx /\ v[Len(v)] >= 128 THEN 255 ELSE 0]
NonZero(v) == \E j \in 1..Len(v) : v[j] # 0

As(k, t, v) ==
  IF k = "wrap" THEN <<FALSE, <<0>>, <<0>>, <<0, 0>>, <<0, 0>>, [j \in 1..4 |-> 0], [j \in 1..4 |-> 0],
                       [j \in 1..8 |-> 0], [j \in 1..8 |-> 0]>>
  ELSE LET S(w) == Ext(v, w, ReadsSigned(k, t, TRUE))
           U(w) == Ext(v, w, ReadsSigned(k, t, FALSE))
       IN <<NonZero(v), S(1), U(1), S(2), U(2), S(4), U(4), S(8), U(8)>>

\* Decimal rendering.
RECURSIVE DivMod10(_, _, _, _)
DivMod10(v, j, rem, q) ==
  IF j = 0 THEN <<q, rem>>
  ELSE LET x == rem * 256 + v[j] IN DivMod10(v, j - 1, x % 10, [q EXCEPT ![j] = x \div 10])
RECURSIVE Dec(_)
Dec(v) == LET r == DivMod10(v, Len(v), 0, v)
          IN IF NonZero(r[1]) THEN Dec(r[1]) \o ToString(r[2]) ELSE ToString(r[2])
RECURSIVE Negate(_, _, _)
Negate(v, j, c) == IF j > Len(v) THEN v
                   ELSE LET x == (255 - v[j]) + c
                        IN Negate([v EXCEPT ![j] = x % 256], j + 1, x \div 256)
Str(t, v) == IF SignedT(t) /\ v[Len(v)] >= 128 THEN "-" \o Dec(Negate(v, 1, 1)) ELSE Dec(v)

\* named = 1: constructed with an explicit display string.
AsString(st) ==
  CASE st.k = "wrap" -> "wrapped"
    [] st.k = "vimm" -> "[" \o Str(st.t, st.e[1]) \o "..." \o Str(st.t, st.e[3]) \o "]"
    [] st.named = 1 -> "alias"
    [] HasItem(st.k) -> "R7"
    [] OTHER -> Str(st.t, st.e[1])

Legal(c) == /\ (c[2] \in {"fifo", "vfifo", "sreg", "wrap"} => c[3] # "b")
            /\ (c[2] \in {"lit", "litv"} => c[3] = "i32") /\ (c[2] = "blit" => c[3] = "b")
            /\ (c[2] \in {"vimm"} => c[4] = 0 /\ c[3] # "b")
            /\ (c[2] = "wrap" => c[3] = "u32" /\ c[4] = 0)
Configs == {c \in {<<"reset", k, t, n>> : k \in Kinds, t \in Types, n \in {0, 1}} : Legal(c)}
Init0(c) == [k |-> c[2], t |-> c[3], named |-> c[4], n |-> 0,
             e |-> [j \in 1..NElem(c[2]) |-> Zero(c[3])]]
Describe(st) ==
  <<Shape(st.k), AsString(st)>>
  \o (IF HasItem(st.k)
      THEN <<"R7", Width(st.t),
             Width(st.t) * (IF Len(Shape(st.k)) = 2 THEN Shape(st.k)[1] * Shape(st.k)[2] ELSE Shape(st.k)[1])>>
      ELSE <<>>)
  \o (IF HasDest(st.k) THEN <<Shape(st.k), IF st.named = 1 THEN "alias" ELSE "R7">> ELSE <<>>)
ResetOut(c) == Describe(Init0(c))

Elem(st, i) == IF Broadcast(st.k) THEN st.e[1] ELSE st.e[i + 1]
Read(st, i) == As(st.k, st.t, Elem(st, i))

RECURSIVE AndByte(_, _, _)
AndByte(a, b, n) == IF n = 0 THEN 0
                    ELSE (IF a % 2 = 1 /\ b % 2 = 1 THEN 1 ELSE 0) + 2 * AndByte(a \div 2, b \div 2, n - 1)
And(v, m) == [j \in 1..Len(v) |-> AndByte(v[j], m[j], 8)]

\* Values offered in exhaustive exploration: all combinations of corner bytes for one and
\* two byte types, uniform runs with a distinguished byte for wider ones.
Values(t) ==
  IF t = "b" THEN {<<0>>, <<1>>}
  ELSE IF Width(t) <= 2 THEN [1..Width(t) -> Corner]
  ELSE {[j \in 1..Width(t) |-> IF j = p THEN x ELSE y] : p \in 1..Width(t), x \in Corner, y \in {0, 255}}
\* Literals are template arguments: these are the instances.
Lits == {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<255, 255, 255, 255>>, <<127, 0, 0, 0>>, <<128, 0, 0, 0>>,
         <<255, 0, 0, 0>>, <<0, 1, 0, 0>>, <<128, 255, 255, 255>>, <<127, 255, 255, 255>>,
         <<255, 127, 0, 0>>, <<0, 128, 0, 0>>, <<255, 255, 0, 0>>, <<0, 0, 1, 0>>, <<0, 128, 255, 255>>,
         <<255, 255, 255, 127>>, <<0, 0, 0, 128>>}
Offered(st) == IF st.k \in {"lit", "litv"} THEN Lits ELSE Values(st.t)

Ops(st) ==
  (IF st.n < MaxSets
   THEN {<<"set", i, v>> : i \in 0..(IF NElem(st.k) > 2 THEN 2 ELSE NElem(st.k) - 1), v \in Offered(st)}
   ELSE {})
  \cup {<<"read", i>> : i \in (IF Broadcast(st.k) THEN {0, 1, 5} ELSE 0..(NElem(st.k) - 1))}
  \cup (IF st.k = "sreg" THEN {<<"mask", [j \in 1..Width(st.t) |-> IF j = p THEN x ELSE y]>> :
                                 p \in 1..Width(st.t), x \in Corner, y \in {0, 255}} ELSE {})

Eff(st, op) ==
  CASE op[1] = "set" -> {LET t == [st EXCEPT !.e[op[2] + 1] = op[3], !.n = @ + 1]
                         IN [s |-> t, out |-> <<Read(t, op[2]), AsString(t)>>]}
    [] op[1] = "read" -> {[s |-> st, out |-> <<Read(st, op[2]), AsString(st)>>]}
    [] op[1] = "mask" -> {[s |-> st, out |-> <<And(st.e[1], op[2])>>]}

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>
----------------------------------------------------------------------------
\* Derived facts, checked on every reachable observation.
Reading == ev[2][1]
IsRead == ev[1][1] \in {"set", "read"} /\ s.k # "wrap"
\* Each narrower reading is a prefix of each wider one.
NarrowPrefix == IsRead => LET r == Reading IN
                  /\ \A q \in {2, 4, 6} : r[q] = SubSeq(r[8], 1, Len(r[q]))
                  /\ \A q \in {3, 5, 7} : r[q] = SubSeq(r[9], 1, Len(r[q]))
\* Signed and unsigned readings agree on the bytes that are stored.
SameBytes == IsRead => LET r == Reading w == Width(s.t) IN
               SubSeq(r[8], 1, w) = SubSeq(r[9], 1, w)
BoolIsNonZero == IsRead => Reading[1] = NonZero(SubSeq(Reading[9], 1, Width(s.t)))
=============================================================================
