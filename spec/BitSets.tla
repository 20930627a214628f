-------------------------------- MODULE BitSets --------------------------------
(***************************************************************************)
(* generic/resource_bitset.h: growable bit sets are mathematical sets of   *)
(* indices.  Three sets are kept so that all two-operand operations,       *)
(* including those of a set with itself, are exercised.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Bits, Sizes, MaxCard

VARIABLES s, ev

Idx == 1..3
Configs == {<<"reset">>}
Init0(c) == [i \in Idx |-> {}]
Obs(st) == [i \in Idx |->
             << SetToSortSeq(st[i], <), Cardinality(st[i]),
                IF st[i] = {} THEN -1 ELSE Min(st[i]),
                [j \in Idx |-> st[i] \cap st[j] # {}] >>]
ResetOut(c) == Obs(Init0(c))

R(t) == {[s |-> t, out |-> Obs(t)]}
Ops(st) ==
  {<<"set", i, b>> : i \in {j \in Idx : Cardinality(st[j]) < MaxCard}, b \in Bits}
  \cup {<<o, i, j>> : o \in {"or", "andnot", "assign", "copy"}, i \in Idx, j \in Idx}
  \cup {<<"move", i, j>> : i \in Idx, j \in Idx}
  \cup {<<o, i, n>> : o \in {"resize", "new"}, i \in Idx, n \in Sizes}
  \cup {<<"next", i, b>> : i \in Idx, b \in Bits \cup Sizes}

Eff(st, op) ==
  LET i == op[2]  x == op[3] IN
  CASE op[1] = "set" -> R([st EXCEPT ![i] = @ \cup {x}])
    [] op[1] = "or" -> R([st EXCEPT ![i] = @ \cup st[x]])
    [] op[1] = "andnot" -> R([st EXCEPT ![i] = @ \ st[x]])
    [] op[1] \in {"assign", "copy"} -> R([st EXCEPT ![i] = st[x]])
    \* construct a set from x by moving, then put the result into i
    [] op[1] = "move" -> R([[st EXCEPT ![x] = {}] EXCEPT ![i] = st[x]])
    \* at least x bits long, and empty from bit x on
    [] op[1] = "resize" -> R([st EXCEPT ![i] = {b \in @ : b < x}])
    [] op[1] = "new" -> R([st EXCEPT ![i] = {}])
    \* first member at or after x
    [] op[1] = "next" -> {[s |-> st, out |-> <<IF \E b \in st[i] : b >= x
                                               THEN Min({b \in st[i] : b >= x}) ELSE -1>>]}

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>
----------------------------------------------------------------------------
\* No operation invents members, and only the target (and a moved-from source) changes.
NoInvention == [][ \A i \in Idx : \A b \in s'[i] \ s[i] :
                     \/ ev'[1] = <<"set", i, b>>
                     \/ ev'[1][1] \in {"or", "assign", "copy", "move"} /\ ev'[1][2] = i /\ b \in s[ev'[1][3]] ]_<<s, ev>>
Frame == [][ \A i \in Idx : s'[i] # s[i] =>
               i = ev'[1][2] \/ (ev'[1][1] = "move" /\ i = ev'[1][3]) ]_<<s, ev>>
NextIsSearch == ev[1][1] = "next" => LET x == ev[1][3]  r == ev[2][1]  S == s[ev[1][2]] IN
                  IF r = -1 THEN \A b \in S : b < x
                  ELSE r \in S /\ r >= x /\ \A b \in S : b >= x => b >= r
=============================================================================
