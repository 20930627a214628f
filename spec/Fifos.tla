-------------------------------- MODULE Fifos --------------------------------
(***************************************************************************)
(* FIFOs as architectural state (generic/fifo.h, token_fifo.h,             *)
(* fifo_with_notify.h).                                                    *)
(*                                                                         *)
(* Two FIFOs of the same kind ("plain", "notify", "token"); the token      *)
(* FIFOs share one pool.  q holds the identities of the data buffers, res  *)
(* the reserved slots, fly the writes travelling through the delay line.   *)
(*                                                                         *)
(* Every operation reports <<result, overflows, underflows, notifications, *)
(* per-FIFO status, free tokens, references held per buffer>>.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Kinds, Caps, Pools, Ids, Lats, MaxRes, MaxFly, Depths

VARIABLES s, ev

F == {1, 2}
Configs == {<<"reset", k, c, t>> : k \in Kinds \ {"token"}, c \in Caps, t \in {0}}
           \cup (IF "token" \in Kinds THEN {<<"reset", "token", c, t>> : c \in {2}, t \in Pools} ELSE {})
Init0(c) == [kind |-> c[2], cap |-> <<c[3], c[3]>>, free |-> c[4],
             q |-> <<<<>>, <<>>>>, res |-> <<0, 0>>, fly |-> <<>>]

Full(st, f) == IF st.kind = "token" THEN st.free = 0 \/ st.res[f] >= st.free
               ELSE Len(st.q[f]) + st.res[f] >= st.cap[f]
Empty(st, f) == st.q[f] = <<>> /\ st.res[f] = 0
Over(st, f) == IF st.kind = "token" THEN st.res[f] > st.free
               ELSE Len(st.q[f]) + st.res[f] > st.cap[f]
Count(q, i) == Cardinality({k \in 1..Len(q) : q[k] = i})
AllIds == 1..6
Refs(st) == [i \in AllIds |-> Count(st.q[1], i) + Count(st.q[2], i)
                             + Cardinality({k \in 1..Len(st.fly) : st.fly[k].id = i})]
Status(st) == [f \in 1..2 |-> <<Len(st.q[f]), st.res[f], Full(st, f), Empty(st, f), Over(st, f), st.cap[f]>>]
Obs(st) == <<Status(st), st.free, Refs(st)>>
Seen(st, ret, of, uf, note) == [s |-> st, out |-> <<ret, of, uf, note>> \o Obs(st)]
ResetOut(c) == Obs(Init0(c))

\* One write arriving at FIFO f.  The reservation it fulfils is gone either way.
Arrive(st, f, i) ==
  LET a == [st EXCEPT !.res[f] = IF @ > 0 THEN @ - 1 ELSE 0]
      ok == ~Full(a, f)
      b == IF ~ok THEN a
           ELSE [a EXCEPT !.q[f] = Append(@, i), !.free = IF st.kind = "token" THEN @ - 1 ELSE @]
  IN [s |-> b, ok |-> ok,
      note |-> IF ok /\ st.kind = "notify" /\ Empty(st, f) THEN <<f>> ELSE <<>>]

Leave(st, f) ==
  LET b == [st EXCEPT !.q[f] = Tail(@), !.free = IF st.kind = "token" THEN @ + 1 ELSE @]
  IN IF st.q[f] = <<>> THEN [s |-> st, ok |-> FALSE, note |-> <<>>]
     ELSE [s |-> b, ok |-> TRUE, note |-> IF st.kind = "notify" /\ Empty(b, f) THEN <<-f>> ELSE <<>>]

Tick(fly) == [k \in 1..Len(fly) |-> [fly[k] EXCEPT !.left = @ - 1]]
RECURSIVE Land(_, _, _, _)
Land(st, due, of, note) ==
  IF due = <<>> THEN Seen(st, 0, of, 0, note)
  ELSE LET r == Arrive(st, due[1].f, due[1].id)
       IN Land(r.s, Tail(due), IF r.ok THEN of ELSE of + 1, note \o r.note)

Ops(st) ==
  {<<"push", f, i>> : f \in F, i \in Ids} \cup {<<o, f>> : o \in {"pop", "front", "read"}, f \in F}
  \cup {<<"reserve", f, n>> : f \in {g \in F : st.res[g] < MaxRes}, n \in {1, 2}}
  \cup (IF Len(st.fly) < MaxFly THEN {<<"submit", f, i, l>> : f \in F, i \in Ids, l \in Lats} ELSE {})
  \cup {<<"advance">>}
  \cup {<<"depth", f, d>> : f \in F, d \in Depths}

Eff(st, op) ==
  CASE op[1] = "push" -> LET r == Arrive(st, op[2], op[3])
                         IN {Seen(r.s, IF r.ok THEN 1 ELSE 0, IF r.ok THEN 0 ELSE 1, 0, r.note)}
    [] op[1] = "pop" -> LET r == Leave(st, op[2]) IN {Seen(r.s, 0, 0, IF r.ok THEN 0 ELSE 1, r.note)}
    \* The front buffer (its identity) and its value through a source operand.
    [] op[1] \in {"front", "read"} ->
         {IF st.q[op[2]] = <<>> THEN Seen(st, 0, 0, 1, <<>>) ELSE Seen(st, st.q[op[2]][1], 0, 0, <<>>)}
    [] op[1] = "reserve" -> {Seen([st EXCEPT !.res[op[2]] = @ + op[3]], 0, 0, 0, <<>>)}
    [] op[1] = "submit" ->
         IF op[4] = 0 THEN {Land(st, <<[f |-> op[2], id |-> op[3]]>>, 0, <<>>)}
         ELSE {Seen([st EXCEPT !.fly = Append(@, [f |-> op[2], id |-> op[3], left |-> op[4]])], 0, 0, 0, <<>>)}
    [] op[1] = "advance" ->
         LET t == Tick(st.fly)
             due == SelectSeq(t, LAMBDA w : w.left = 0)
         IN {Land([st EXCEPT !.fly = SelectSeq(t, LAMBDA w : w.left > 0)], due, 0, <<>>)}
    [] op[1] = "depth" -> {Seen([st EXCEPT !.cap[op[2]] = op[3]], 1, 0, 0, <<>>)}

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>
----------------------------------------------------------------------------
Held == Len(s.q[1]) + Len(s.q[2])
Pool == ev[1][1] = "reset" => TRUE
\* Every value held owns exactly one token, and tokens are neither made nor lost.
TokensConserved == [][s.kind = "token" => Len(s'.q[1]) + Len(s'.q[2]) + s'.free = Held + s.free]_<<s, ev>>
TokensNonNegative == s.free >= 0
\* Capacity is exceeded only by shrinking it.
WithinCapacity == [][ (s.kind # "token" /\ s'.cap = s.cap) =>
                        \A f \in F : Len(s'.q[f]) > Len(s.q[f]) => Len(s'.q[f]) <= s.cap[f] ]_<<s, ev>>
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* Contents change only by appending (accepted writes) or by removing the oldest value.
InOrder == [][ \A f \in F : \/ IsPrefixOf(s.q[f], s'.q[f])
                            \/ ev'[1][1] = "pop" /\ ev'[1][2] = f /\ s'.q[f] = Tail(s.q[f]) ]_<<s, ev>>
\* A write is either accepted or reported as overflow.
NoSilentLoss == [][ ev'[1][1] = "push" =>
                      LET f == ev'[1][2]
                      IN IF ev'[2][2] = 0 THEN s'.q[f] = Append(s.q[f], ev'[1][3]) ELSE s'.q = s.q ]_<<s, ev>>
=============================================================================
