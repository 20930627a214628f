-------------------------------- MODULE Extract --------------------------------
(***************************************************************************)
(* Bit extraction recipes (decoder/extract.h).  A 64-bit word is the set   *)
(* of its one-positions (0..63).  Extracting with a mask packs the bits of *)
(* the value at the mask's positions, in order, from bit 0 upwards.        *)
(* ExtractScan checks the run-based recipe construction against this.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

CONSTANTS Offsets, Win   \* exploration: masks and values within windows of Win bits

VARIABLES s, ev

Rank(M, b) == Cardinality({m \in M : m < b})
Pack(M, V) == {Rank(M, b) : b \in M \cap V}
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

Configs == {<<"reset">>}
Init0(c) == [mask |-> {}, set |-> FALSE]
ResetOut(c) == <<TRUE>>
Window(o) == o..(o + Win - 1)
Ops(st) == IF ~st.set THEN UNION {{<<"mask", Sorted(M)>> : M \in SUBSET Window(o)} : o \in Offsets}
           ELSE UNION {IF st.mask \subseteq Window(o) /\ (st.mask # {} \/ o = Min(Offsets))
                       THEN {<<"ext", Sorted(V)>> : V \in SUBSET Window(o)} ELSE {} : o \in Offsets}
Eff(st, op) ==
  CASE op[1] = "mask" -> {[s |-> [mask |-> Range(op[2]), set |-> TRUE], out |-> <<TRUE>>]}
    [] op[1] = "ext" -> {LET r == Sorted(Pack(st.mask, Range(op[2]))) IN [s |-> st, out |-> <<r>>]}

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>
----------------------------------------------------------------------------
IsExt == ev[1][1] = "ext"
\* As many result bits as the value has under the mask, all below the mask's population.
Dense == IsExt => /\ Len(ev[2][1]) = Cardinality(s.mask \cap Range(ev[1][2]))
                  /\ \A b \in Range(ev[2][1]) : b < Cardinality(s.mask)
\* Order is preserved.
Monotone == \A a, b \in s.mask : a < b => Rank(s.mask, a) < Rank(s.mask, b)
=============================================================================
