------------------------------ MODULE Semantics ------------------------------
(* Instructions whose semantic functions are written with the helpers of instruction_helpers.h, executed on
   the registers of an architecture state.  An instruction reads its sources when it is executed, element by
   element for the vector forms, each converted to the argument type; the result, converted to the result
   type, reaches the destination after the latency of the destination operand. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Programs,  \* set of programs, sequences of instructions
          MaxPend

VARIABLES s, ev

\* an instruction: <<form, fn, types, dst, srcs, lat>>; form "u" "b" "t" and vector forms "uv" "bv" "tv";
\* types: the result type and the argument types (one: all the same; two: all arguments the same)
Configs == {<<"reset", p>> : p \in Programs}
Regs == 1..6
Ty == <<"i16", "u8", "i8", "u16", "i32", "u16">>
Size == <<1, 1, 4, 3, 1, 1>>
Init0(c) == [prog |-> c[2], val |-> [r \in Regs |-> [i \in 1..Size[r] |-> 0]], pend |-> <<>>]
ResetOut(c) == <<>>

Bits(t) == CASE t \in {"i8", "u8"} -> 256 [] t \in {"i16", "u16"} -> 65536 [] OTHER -> 0
SignedT(t) == t \in {"i8", "i16", "i32"}
Cast(v, t) == IF t = "i32" THEN v
              ELSE LET m == v % Bits(t) IN IF SignedT(t) /\ m >= Bits(t) \div 2 THEN m - Bits(t) ELSE m
AsSigned(t) == CASE t = "u8" -> "i8" [] t = "u16" -> "i16" [] OTHER -> t
\* signed reads extend the sign of what the register holds
FromReg(v, t, a) == IF SignedT(a) THEN Cast(Cast(v, AsSigned(t)), a) ELSE Cast(v, a)
Elem(st, src, i, a) ==
  CASE src[1] = "r" -> FromReg(st.val[src[2]][i], Ty[src[2]], a)
    [] src[1] = "i" -> Cast(src[2], a)
    [] src[1] = "v" -> Cast(src[2][i], a)

ArgType(ts, k) == CASE Len(ts) = 1 -> ts[1] [] Len(ts) = 2 -> ts[2] [] OTHER -> ts[k + 1]
B(x) == IF x THEN 1 ELSE 0
Fn(f, a) == CASE f = "add" -> LET RECURSIVE Sum(_) Sum(k) == IF k = 0 THEN 0 ELSE a[k] + Sum(k - 1) IN Sum(Len(a))
              [] f = "fst" -> a[1]
              [] f = "lst" -> a[Len(a)]
              [] f = "neg" -> -a[1]
              [] f = "lt" -> B(a[1] < a[Len(a)])
              [] f = "mix" -> 3 * a[1] - 2 * a[Len(a)]
              [] f = "pos" -> B(a[1] > 0)
              [] f = "mid" -> a[(Len(a) + 1) \div 2]
Vector(inst) == inst[1] \in {"uv", "bv", "tv"}
Result(st, inst) ==
  LET R == inst[3][1]
  IN [i \in 1..(IF Vector(inst) THEN Size[inst[4]] ELSE 1) |->
        Cast(Fn(inst[2], [k \in DOMAIN inst[5] |-> Elem(st, inst[5][k], i, ArgType(inst[3], k))]), R)]

Ops(st) == (IF Len(st.pend) < MaxPend THEN {<<"exec", k>> : k \in DOMAIN st.prog} ELSE {}) \cup {<<"adv">>, <<"regs">>}

Eff(st, op) ==
  CASE op[1] = "exec" ->
         LET inst == st.prog[op[2]]
             w == [r |-> inst[4], v |-> Result(st, inst), left |-> inst[6]]
         IN {[s |-> IF inst[6] = 0 THEN [st EXCEPT !.val[inst[4]] = w.v] ELSE [st EXCEPT !.pend = Append(@, w)], out |-> <<>>]}
    [] op[1] = "adv" ->
         LET now == SelectSeq(st.pend, LAMBDA w : w.left = 1)
             later == SelectSeq(st.pend, LAMBDA w : w.left > 1)
             RECURSIVE Put(_, _)
             Put(val, ws) == IF ws = <<>> THEN val ELSE Put([val EXCEPT ![Head(ws).r] = Head(ws).v], Tail(ws))
         IN {[s |-> [st EXCEPT !.val = Put(@, now), !.pend = [i \in DOMAIN later |-> [later[i] EXCEPT !.left = @ - 1]]], out |-> <<>>]}
    [] op[1] = "regs" -> {[s |-> st, out |-> [r \in Regs |-> st.val[r]]]}

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>

-----------------------------------------------------------------------------
InRange(t, v) == Cast(v, t) = v
TypesOK == \A r \in Regs : Len(s.val[r]) = Size[r] /\ \A i \in DOMAIN s.val[r] : InRange(Ty[r], s.val[r][i])
\* an instruction writes its destination and nothing else
OnlyDestination == [][ev'[1][1] = "exec" => \A r \in Regs : r /= s.prog[ev'[1][2]][4] => s'.val[r] = s.val[r]]_<<s, ev>>
\* a result is not visible before its latency has passed
NotEarly == [][ev'[1][1] = "exec" /\ s.prog[ev'[1][2]][6] > 0 => s'.val = s.val]_<<s, ev>>
\* the value that arrives was fixed when the instruction was executed
Fixed == [][\A i \in DOMAIN s.pend : s.pend[i].left > 1 \/ ev'[1][1] /= "adv"
             => \E j \in DOMAIN s'.pend : s'.pend[j].v = s.pend[i].v /\ s'.pend[j].r = s.pend[i].r]_<<s, ev>>
=============================================================================
