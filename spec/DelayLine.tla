------------------------------ MODULE DelayLine ------------------------------
(***************************************************************************)
(* DelayLine / FunctionDelayLine (mpact/sim/generic/delay_line.h).         *)
(*                                                                         *)
(* A delay line holds actions scheduled for a number of Advance() calls in *)
(* the future.  The abstract state is just the collection of pending       *)
(* actions with the number of cycles they still have to wait; there is no  *)
(* capacity: Add() never loses, duplicates or moves an action, whatever    *)
(* the initial size and whatever latencies are mixed.                      *)
(*                                                                         *)
(* An action may itself schedule a follow-up action when it fires          *)
(* (re-entrant Add); re = 0 means it does not.                             *)
(*                                                                         *)
(* Conformance contract used by all specifications in this directory:      *)
(*   Configs      reset operations used for exhaustive exploration         *)
(*   Init0(c)     state after reset c;     ResetOut(c)  its observation    *)
(*   Ops(s)       operations explored from s                               *)
(*   Eff(s, op)   set of allowed [s |-> next state, out |-> observation]   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Sizes,      \* initial minimum sizes
          Lats,       \* latencies offered by Ops
          ReLats,     \* latencies of re-entrant follow-ups (0 = none)
          MaxPending, \* bound on pending actions for exploration
          MaxAdds     \* bound on the number of Adds for exploration

VARIABLES s, ev

\* A pending action: id, cycles left, follow-up latency, cycle it was added, latency.
Rec(id, lat, re, now) == [id |-> id, left |-> lat, re |-> re, born |-> now, lat |-> lat]

Configs == {<<"reset", z>> : z \in Sizes}
Init0(c) == [pend |-> <<>>, now |-> 0, next |-> 1]
ResetOut(c) == <<TRUE>>

RECURSIVE DueIds(_)
DueIds(q) == IF q = <<>> THEN <<>>
             ELSE (IF Head(q).left = 1 THEN <<Head(q)>> ELSE <<>>) \o DueIds(Tail(q))

RECURSIVE Waiting(_)
Waiting(q) == IF q = <<>> THEN <<>>
              ELSE (IF Head(q).left > 1 THEN <<[Head(q) EXCEPT !.left = @ - 1]>> ELSE <<>>)
                   \o Waiting(Tail(q))

Ids(q) == [i \in 1..Len(q) |-> q[i].id]

\* Follow-ups of the fired actions, in firing order, numbered from n.
RECURSIVE Follow(_, _, _)
Follow(q, n, now) ==
  IF q = <<>> THEN <<>>
  ELSE IF Head(q).re = 0 THEN Follow(Tail(q), n, now)
       ELSE <<Rec(n, Head(q).re, 0, now)>> \o Follow(Tail(q), n + 1, now)

Add(st, lat, re) ==
  LET st2 == [st EXCEPT !.pend = Append(@, Rec(st.next, lat, re, st.now)),
                        !.next = @ + 1]
  IN [s |-> st2, out |-> <<st.next, Len(st2.pend), FALSE>>]

Advance(st) ==
  LET due == DueIds(st.pend)
      fol == Follow(due, st.next, st.now + 1)
      q == Waiting(st.pend) \o fol
  IN [s |-> [pend |-> q, now |-> st.now + 1, next |-> st.next + Len(fol)],
      out |-> <<Ids(due), Len(q), q = <<>> >>]

Ops(st) ==
  {<<"advance">>} \cup
  (IF Len(st.pend) < MaxPending /\ st.next <= MaxAdds
   THEN {<<"add", l, r>> : l \in Lats, r \in ReLats} ELSE {})

Eff(st, op) == CASE op[1] = "add" -> {Add(st, op[2], op[3])}
                 [] op[1] = "advance" -> {Advance(st)}

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>

----------------------------------------------------------------------------
(* Properties *)
Range(q) == {q[i] : i \in 1..Len(q)}

\* A pending action waits exactly until born + lat.
ExactDue == \A r \in Range(s.pend) : r.left >= 1 /\ s.now + r.left = r.born + r.lat
\* No action is present twice.
NoDuplicates == Cardinality({r.id : r \in Range(s.pend)}) = Len(s.pend)
\* Each Advance fires exactly the actions whose time has come, in Add order, none twice,
\* and nothing else leaves the line.
FireExactly ==
  [][ ev'[1][1] = "advance" =>
        LET fired == ev'[2][1] IN
          /\ Range(fired) = {r.id : r \in {x \in Range(s.pend) : x.left = 1}}
          /\ \A i, j \in 1..Len(fired) : i < j => fired[i] < fired[j] \/
                \E a, b \in 1..Len(s.pend) : a < b /\ s.pend[a].id = fired[i]
                                                   /\ s.pend[b].id = fired[j]
          /\ {r.id : r \in Range(s.pend)} \ Range(fired) \subseteq {r.id : r \in Range(s'.pend)}
    ]_<<s, ev>>
AddKeeps ==
  [][ ev'[1][1] = "add" => SubSeq(s'.pend, 1, Len(s.pend)) = s.pend ]_<<s, ev>>
CountsMatch == ev[1][1] # "reset" => ev[2][2] = Len(s.pend) /\ ev[2][3] = (s.pend = <<>>)
=============================================================================
