----------------------------- MODULE ResourcePools -----------------------------
(***************************************************************************)
(* Simple resources (generic/simple_resource.h, simple_resource_operand.h) *)
(*                                                                         *)
(* res[i] is the name of the resource with index i-1; sets is the list of  *)
(* resource sets created from the pool; held is the set of resources that  *)
(* are acquired; pend are the releases scheduled in the delay line.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Widths, Names, MaxSets, Lats, MaxPend

VARIABLES s, ev

Configs == {<<"reset", w>> : w \in Widths}
Init0(c) == [w |-> c[2], res |-> <<>>, sets |-> <<>>, held |-> {}, pend |-> <<>>]

Has(st, n) == \E i \in 1..Len(st.res) : st.res[i] = n
Index(st, n) == CHOOSE i \in 1..Len(st.res) : st.res[i] = n
\* members of S (names), in index order
Listed(st, S) == SelectSeq(st.res, LAMBDA n : n \in S)
Obs(st, ret) ==
  << ret, st.w, Listed(st, st.held),
     [i \in 1..Len(st.res) |-> <<st.res[i], i - 1, st.res[i] \notin st.held>>],
     [k \in 1..Len(st.sets) |-> <<Listed(st, st.sets[k]), st.sets[k] \cap st.held = {}>>] >>
ResetOut(c) == Obs(Init0(c), 0)
R(t, ret) == {[s |-> t, out |-> Obs(t, ret)]}

Add(st, n) == [st EXCEPT !.res = Append(@, n)]
Full(st) == Len(st.res) = st.w

Ops(st) ==
  {<<o, n>> : o \in {"add", "getadd", "get"}, n \in Names}
  \cup {<<"at", i>> : i \in 0..2}
  \cup (IF Len(st.sets) < MaxSets THEN {<<"newset">>} ELSE {})
  \cup {<<o, k, n>> : o \in {"sadd", "saddp"}, k \in 1..Len(st.sets), n \in Names}
  \cup {<<"sforeign", k>> : k \in 1..Len(st.sets)}
  \cup {<<o, k>> : o \in {"sacq", "srel"}, k \in 1..Len(st.sets)}
  \cup {<<o, n>> : o \in {"racq", "rrel"}, n \in {st.res[i] : i \in 1..Len(st.res)}}
  \cup (IF Len(st.pend) < MaxPend
        THEN {<<o, k, l>> : o \in {"oacq", "orel", "orel2"}, k \in 1..Len(st.sets), l \in Lats} ELSE {})
  \cup {<<"adv">>}

Later(st, k, l) == IF l = 0 THEN [st EXCEPT !.held = @ \ st.sets[k]]
                   ELSE [st EXCEPT !.pend = Append(@, <<k, l>>)]

Eff(st, op) ==
  CASE op[1] = "add" -> IF Full(st) \/ Has(st, op[2]) THEN R(st, 0) ELSE R(Add(st, op[2]), 1)
    [] op[1] = "getadd" -> IF Has(st, op[2]) THEN R(st, Index(st, op[2]))
                           ELSE IF Full(st) THEN R(st, 0)
                           ELSE R(Add(st, op[2]), Len(st.res) + 1)
    [] op[1] = "get" -> R(st, IF Has(st, op[2]) THEN Index(st, op[2]) ELSE 0)
    [] op[1] = "at" -> R(st, IF op[2] < Len(st.res) THEN op[2] + 1 ELSE 0)
    [] op[1] = "newset" -> R([st EXCEPT !.sets = Append(@, {})], 0)
    \* by name: the resource is added to the pool if it does not exist
    [] op[1] = "sadd" -> IF ~Has(st, op[3]) /\ Full(st) THEN R(st, 0)
                         ELSE LET t == IF Has(st, op[3]) THEN st ELSE Add(st, op[3])
                              IN R([t EXCEPT !.sets[op[2]] = @ \cup {op[3]}], 1)
    \* by pointer; a null pointer is accepted and adds nothing
    [] op[1] = "saddp" -> IF Has(st, op[3]) THEN R([st EXCEPT !.sets[op[2]] = @ \cup {op[3]}], 1)
                          ELSE R(st, 1)
    [] op[1] = "sforeign" -> R(st, 0)
    [] op[1] = "sacq" -> R([st EXCEPT !.held = @ \cup st.sets[op[2]]], 0)
    [] op[1] = "srel" -> R([st EXCEPT !.held = @ \ st.sets[op[2]]], 0)
    [] op[1] = "racq" -> R([st EXCEPT !.held = @ \cup {op[2]}], 0)
    [] op[1] = "rrel" -> R([st EXCEPT !.held = @ \ {op[2]}], 0)
    \* a resource operand acquires its set and releases it after its latency
    [] op[1] = "oacq" -> LET f == st.sets[op[2]] \cap st.held = {}
                         IN R(Later([st EXCEPT !.held = @ \cup st.sets[op[2]]], op[2], op[3]),
                              IF f THEN 1 ELSE 0)
    [] op[1] \in {"orel", "orel2"} -> R(Later(st, op[2], op[3]), 0)
    [] op[1] = "adv" ->
         LET due == {st.pend[i][1] : i \in {j \in 1..Len(st.pend) : st.pend[j][2] = 1}}
             rest == SelectSeq(st.pend, LAMBDA x : x[2] > 1)
         IN R([st EXCEPT !.held = @ \ UNION {st.sets[k] : k \in due},
                         !.pend = [i \in 1..Len(rest) |-> <<rest[i][1], rest[i][2] - 1>>]],
              Len(rest))

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>
----------------------------------------------------------------------------
Members == {s.res[i] : i \in 1..Len(s.res)}
TypeOk == /\ Len(s.res) <= s.w
          /\ s.held \subseteq Members
          /\ \A k \in 1..Len(s.sets) : s.sets[k] \subseteq Members
UniqueNames == \A i, j \in 1..Len(s.res) : s.res[i] = s.res[j] => i = j
\* Resources keep their index for ever.
StableIndex == [][IsPrefix(s.res, s'.res)]_<<s, ev>>
\* A resource becomes free only by a release (or due release) that names it.
OnlyReleased == [][ \A n \in s.held \ s'.held :
                      \/ ev'[1] = <<"rrel", n>>
                      \/ ev'[1][1] \in {"srel", "orel", "orel2", "oacq"} /\ n \in s.sets[ev'[1][2]]
                      \/ ev'[1][1] = "adv" /\ \E i \in 1..Len(s.pend) : s.pend[i][2] = 1
                                                   /\ n \in s.sets[s.pend[i][1]] ]_<<s, ev>>
OnlyAcquired == [][ \A n \in s'.held \ s.held :
                      \/ ev'[1] = <<"racq", n>>
                      \/ ev'[1][1] \in {"sacq", "oacq"} /\ n \in s.sets[ev'[1][2]] ]_<<s, ev>>
=============================================================================
