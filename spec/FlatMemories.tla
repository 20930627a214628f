----------------------------- MODULE FlatMemories -----------------------------
(***************************************************************************)
(* FlatMemory and FlatDemandMemory (util/memory).                          *)
(* Configuration: <<"reset", kind, unit, origin, size, fill>>; the memory  *)
(* has size units, at addresses 0..size-1 from its origin.                 *)
(***************************************************************************)
EXTENDS MemBytes

CONSTANTS Cfgs, Addrs, Sizes, Vecs, Vals, Lats, Keys

VARIABLES s, ev

Configs == Cfgs
Init0(c) == [kind |-> c[2], size |-> c[5], m |-> MInit(c[3], c[6], 0)]
ResetOut(c) == MkOut(MInit(c[3], c[6], 0), <<>>, <<>>, <<>>)

Units(m, n) == (n + m.unit - 1) \div m.unit
In(st, a, n) == a >= 0 /\ a + Units(st.m, n) <= st.size
\* The demand memory moves whole units; a vector of consecutive elements has elements of whole units.
Fits(st, n) == st.kind = "flat" \/ n % st.m.unit = 0
VFits(st, v) == /\ Fits(st, v[3]) /\ (Len(v[1]) > 1 \/ v[3] >= st.m.unit)
                /\ \A i \in 1..Len(v[2]) : v[2][i] = 1 => In(st, EAddr(st.m, v[1], v[3], i), v[3])

AllOps(st) ==
  {<<"st", a, n, v>> : a \in {x \in Addrs : In(st, x, 1)}, n \in {x \in Sizes : Fits(st, x)}, v \in Vals}
  \cup {<<"ld", a, n, l, k>> : a \in {x \in Addrs : In(st, x, 1)}, n \in {x \in Sizes : Fits(st, x)}, l \in Lats, k \in Keys}
  \cup UNION {{<<"vst", v[1], v[2], v[3], x>> : x \in Vals} : v \in {w \in Vecs : VFits(st, w)}}
  \cup UNION {{<<"vld", v[1], v[2], v[3], l, k>> : l \in Lats, k \in Keys} : v \in {w \in Vecs : VFits(st, w)}}
  \cup {<<"adv">>}
  \cup (IF st.kind = "demand" THEN {<<"clear">>} ELSE {})

\* Refused accesses end the process: bounded behaviours leave them to the recorded executions.
Ops(st) == {op \in AllOps(st) : op[1] = "st" \/ (op[1] = "ld" /\ st.kind = "flat") => In(st, op[2], op[3])}

Good(st, op) == IF op[1] \in {"st", "ld"} THEN In(st, op[2], op[3]) ELSE TRUE
Wrap(st, r) == {[s |-> [st EXCEPT !.m = r.m], out |-> r.out]}

Eff(st, op) ==
  IF IsAccess(op[1]) THEN
     (IF ~Good(st, op) THEN \* Outside: refused, no effect.  (Flat demand loads read the fill value there.)
        (IF op[1] = "ld" /\ st.kind = "demand" THEN Wrap(st, Access(st.m, op))
         ELSE {[s |-> st, out |-> <<"refused">>]})
      ELSE Wrap(st, Access(st.m, op)))
  ELSE IF op[1] = "clear" THEN Wrap(st, Silent([st.m EXCEPT !.mem = <<>>]))
  ELSE {}

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>
----------------------------------------------------------------------------
\* Every byte of the memory is what was last stored there: a second, per-byte,
\* account of a step.
ByteOf(st, op, b) == \* new value of byte b
  LET u == st.m.unit IN
  CASE op[1] = "st" /\ Good(st, op) /\ b >= op[2] * u /\ b < op[2] * u + op[3] -> (op[4] + (b - op[2] * u)) % 256
    [] op[1] = "vst" -> LET hit == {i \in On(op[3]) : LET lo == EAddr(st.m, op[2], op[4], i) * u IN b >= lo /\ b < lo + op[4]}
                        IN IF hit = {} THEN Byte(st.m, b)
                           ELSE LET i == CHOOSE x \in hit : \A y \in hit : y <= x
                                IN (op[5] + (i - 1) * op[4] + (b - EAddr(st.m, op[2], op[4], i) * u)) % 256
    [] op[1] = "clear" -> st.m.fill
    [] OTHER -> Byte(st.m, b)
LastWritten == [][ev'[1][1] # "reset" => \A b \in 0..(s.size * s.m.unit - 1) : Byte(s'.m, b) = ByteOf(s, ev'[1], b)]_<<s, ev>>
\* Masked-off elements are not read; loads change no byte; each issued load is executed exactly once.
LoadsPure == [][ev'[1][1] \in {"ld", "vld", "adv"} => s'.m.mem = s.m.mem]_<<s, ev>>
NoLoss == [][ev'[2] # <<"refused">> /\ ev'[1][1] # "reset" =>
              Len(s'.m.pend) + Len(ev'[2][3]) = Len(s.m.pend) +
                 (IF (ev'[1][1] = "ld" /\ ev'[1][5] > 0) \/ (ev'[1][1] = "vld" /\ ev'[1][6] > 0) THEN 1 ELSE 0)]_<<s, ev>>
InBounds == DOMAIN s.m.mem \subseteq 0..(s.size * s.m.unit - 1)
=============================================================================
