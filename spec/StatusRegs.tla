------------------------------ MODULE StatusRegs ------------------------------
(***************************************************************************)
(* Status registers (generic/status_register.h): a read-only register of w *)
(* bits (g: signed type) whose bits are computed by functions when read.   *)
(*                                                                         *)
(* wired[i] is the condition that bit i shows (-1: the default, false),    *)
(* conds the set of conditions that hold.  Values are sequences of the     *)
(* positions of their set bits; reads also yield the bits evaluated.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Widths, Pos, Conds, Masks, Types

VARIABLES s, ev

Configs == {<<"reset", w, g>> : w \in Widths, g \in {0, 1}}
Init0(c) == [w |-> c[2], g |-> c[3] = 1, wired |-> [i \in 0..(c[2] - 1) |-> -1], conds |-> {}]
ResetOut(c) == <<>>

Sorted(S) == SetToSortSeq(S, <)
Bits(st) == 0..(st.w - 1)
Value(st) == {i \in Bits(st) : st.wired[i] \in st.conds}
Wired(st) == {i \in Bits(st) : st.wired[i] # -1}
\* Conversion to an integer of n bits (0: bool).
Conv(st, n) == LET v == Value(st)
               IN IF n = 0 THEN IF v = {} THEN {} ELSE {0}
                  ELSE {i \in 0..(n - 1) : IF i < st.w THEN i \in v ELSE st.g /\ (st.w - 1) \in v}
P(st) == {i \in Pos : i < st.w} \cup {st.w - 1}

Ops(st) ==
  {<<"wire", i, c>> : i \in P(st), c \in Conds}
  \cup {<<"cond", c>> : c \in Conds}
  \cup {<<"read">>, <<"write">>}
  \cup {<<"readm", m>> : m \in Masks \cup {Sorted(P(st)), Sorted(Bits(st)), <<st.w - 1>>}}
  \cup {<<"as", t>> : t \in Types}
ToSet2(q) == {q[i] : i \in 1..Len(q)}
Eff(st, op) ==
  CASE op[1] = "wire" -> {[s |-> [st EXCEPT !.wired[op[2]] = op[3]], out |-> <<>>]}
    [] op[1] = "cond" -> {[s |-> [st EXCEPT !.conds = IF op[2] \in @ THEN @ \ {op[2]} ELSE @ \cup {op[2]}], out |-> <<>>]}
    [] op[1] = "read" -> {[s |-> st, out |-> <<Sorted(Value(st)), Sorted(Wired(st))>>]}
    [] op[1] = "readm" -> LET m == ToSet2(op[2])
                          IN {[s |-> st, out |-> <<Sorted(Value(st) \cap m), Sorted(Wired(st) \cap m)>>]}
    [] op[1] = "as" -> {[s |-> st, out |-> <<Sorted(Conv(st, op[2])), Sorted(Wired(st))>>]}
    \* writes are ignored
    [] op[1] = "write" -> {[s |-> st, out |-> <<1>>]}

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>
----------------------------------------------------------------------------
\* Reading is without effect and a bit is set exactly if its condition holds at that time.
ReadsPure == [][ ev'[1][1] \notin {"wire", "cond"} => s' = s ]_<<s, ev>>
BitIffCondition ==
  [][ ev'[1][1] = "read" => \A i \in Bits(s) : (i \in ToSet2(ev'[2][1])) <=> s.wired[i] \in s.conds ]_<<s, ev>>
MaskSelects ==
  [][ ev'[1][1] = "readm" => /\ ToSet2(ev'[2][1]) \subseteq ToSet2(ev'[1][2])
                             /\ ToSet2(ev'[2][2]) \subseteq ToSet2(ev'[1][2]) ]_<<s, ev>>
=============================================================================
