------------------------------ MODULE FloatFormats ------------------------------
(***************************************************************************)
(* IEEE 754 encodings as generic/type_helpers.h describes them.            *)
(* An encoding is <<sign, exponent field, hi, lo>>: the fraction field is  *)
(* split into a high part (with the quiet bit on top) and a low part, so   *)
(* that 64-bit encodings fit TLC's integers.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS HalfExps, FloatExps, DoubleExps, FloatHi, FloatLo, DoubleHi, DoubleLo

VARIABLES s, ev

Half == {"half", "u16", "i16"}
Single == {"float", "u32", "i32"}
Double == {"double", "u64", "i64"}
Types == Half \cup Single \cup Double

ExpBits(t) == IF t \in Half THEN 5 ELSE IF t \in Single THEN 8 ELSE 11
HiBits(t) == IF t \in Half THEN 5 ELSE IF t \in Single THEN 12 ELSE 26
LoBits(t) == IF t \in Half THEN 5 ELSE IF t \in Single THEN 11 ELSE 26
MaxExp(t) == 2^ExpBits(t) - 1
Bias(t) == 2^(ExpBits(t) - 1) - 1

IsInf(t, e, hi, lo) == e = MaxExp(t) /\ hi = 0 /\ lo = 0
IsNaN(t, e, hi, lo) == e = MaxExp(t) /\ (hi # 0 \/ lo # 0)
Quiet(t, hi) == hi >= 2^(HiBits(t) - 1)
Classify(t, sg, e, hi, lo) ==
  << IsInf(t, e, hi, lo), IsNaN(t, e, hi, lo),
     IsNaN(t, e, hi, lo) /\ ~Quiet(t, hi), IsNaN(t, e, hi, lo) /\ Quiet(t, hi), sg = 1 >>

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)

\* The single precision encoding <<sign, exponent, fraction>> of a half precision value;
\* a NaN becomes some NaN of the same sign.
Convert(sg, e, f) ==
  CASE e = 31 /\ f # 0 -> <<sg, "nan">>
    [] e = 31 /\ f = 0 -> <<sg, 255, 0>>
    [] e = 0 /\ f = 0 -> <<sg, 0, 0>>
    [] e = 0 /\ f # 0 -> LET k == Log2(f) IN <<sg, k - 24 + 127, (f - 2^k) * 2^(23 - k)>>
    [] OTHER -> <<sg, e - 15 + 127, f * 2^13>>

Configs == {<<"reset">>}
Init0(c) == 0
ResetOut(c) == <<>>

TypeTable == << <<16, 1>>, <<32, 1>>, <<64, 1>>, <<128, 1>>, <<16, 0>>, <<32, 0>>, <<64, 0>>, <<128, 0>>,
                <<8, 1>>, <<16, 1>>, <<32, 1>>, <<8, 0>>, <<16, 0>>, <<32, 0>>,
                <<32, 1>>, <<32, 0>>, <<64, 0>>, <<8, 1>>, <<128, 0>>, <<128, 0>>, <<16, 0>> >>
EnumTable == <<3, 200, -7, 0>>

\* All operations are pure: one step after each reset shows everything (s counts to 1).
Ops(st) == IF st = 1 THEN {} ELSE
  {<<"half", sg, e>> : sg \in {0, 1}, e \in HalfExps}
  \cup {<<"row", t, sg, e>> : t \in Half, sg \in {0, 1}, e \in HalfExps}
  \cup {<<"cls", t, sg, e, hi, lo>> : t \in Single, sg \in {0, 1}, e \in FloatExps, hi \in FloatHi, lo \in FloatLo}
  \cup {<<"cls", t, sg, e, hi, lo>> : t \in Double, sg \in {0, 1}, e \in DoubleExps, hi \in DoubleHi, lo \in DoubleLo}
  \cup {<<"const", t>> : t \in Types}
  \cup {<<"types">>}

Eff(st, op) ==
  {[s |-> 1, out |->
     CASE op[1] = "half" -> [f \in 1..1024 |-> Convert(op[2], op[3], f - 1)]
       [] op[1] = "row" -> [f \in 1..1024 |-> Classify(op[2], op[3], op[4], (f - 1) \div 32, (f - 1) % 32)]
       [] op[1] = "cls" -> Classify(op[2], op[3], op[4], op[5], op[6])
       [] op[1] = "const" ->
            LET t == op[2]
            IN << 1 + ExpBits(t) + HiBits(t) + LoBits(t), ExpBits(t), Bias(t), HiBits(t) + LoBits(t),
                  <<0, MaxExp(t), 0, 0>>,                      \* +infinity
                  <<1, MaxExp(t), 0, 0>>,                      \* -infinity
                  <<0, MaxExp(t), 2^(HiBits(t) - 1), 0>>,      \* canonical NaN
                  <<0, MaxExp(t), 0, 0>>,                      \* exponent mask
                  <<0, 0, 2^HiBits(t) - 1, 2^LoBits(t) - 1>>,  \* fraction mask
                  <<0, MaxExp(t), 2^HiBits(t) - 1, 2^LoBits(t) - 1>>,   \* all but the sign
                  t \in {"half", "float", "double"} >>
       [] op[1] = "types" -> <<TypeTable, EnumTable>>]}

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>
----------------------------------------------------------------------------
\* Exactly one of infinite, NaN, finite; a NaN is exactly one of signalling and quiet.
ClassOk(r, t, e) == /\ ~(r[1] /\ r[2])
                    /\ ((r[1] \/ r[2]) <=> e = MaxExp(t))
                    /\ (r[2] <=> (r[3] \/ r[4]))
                    /\ ~(r[3] /\ r[4])
Partition == /\ (ev[1][1] = "cls" => ClassOk(ev[2], ev[1][2], ev[1][4]))
             /\ (ev[1][1] = "row" => \A i \in 1..1024 : ClassOk(ev[2][i], ev[1][2], ev[1][4]))
\* The value of a finite encoding, as odd mantissa and binary exponent.
RECURSIVE Norm(_, _)
Norm(m, x) == IF m = 0 THEN <<0, 0>> ELSE IF m % 2 = 1 THEN <<m, x>> ELSE Norm(m \div 2, x + 1)
Value(e, f, bits, bias) == IF e = 0 THEN Norm(f, 1 - bias - bits) ELSE Norm(2^bits + f, e - bias - bits)
Exact == ev[1][1] = "half" =>
           \A i \in 1..1024 :
             LET o == ev[2][i] IN
             IF ev[1][3] = 31 /\ i > 1 THEN o = <<ev[1][2], "nan">>
             ELSE IF ev[1][3] = 31 THEN o = <<ev[1][2], 255, 0>>
             ELSE /\ o[1] = ev[1][2] /\ o[2] < 255 /\ o[3] < 2^23
                  /\ Value(o[2], o[3], 23, 127) = Value(ev[1][3], i - 1, 10, 15)
=============================================================================
