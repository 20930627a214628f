----------------------------- MODULE ActionPoints -----------------------------
(***************************************************************************)
(* Action points and breakpoints (generic/action_point_manager_base.h,     *)
(* breakpoint_manager.h).                                                  *)
(*                                                                         *)
(* acts[a] is the sequence of actions ever set at address a since the last *)
(* clear-all; action number i has id i-1 and is "on", "off" or "gone".     *)
(* patched is the set of addresses with a breakpoint instruction in        *)
(* memory, bad the addresses whose memory cannot be written.  An action    *)
(* may itself set, disable or clear actions (also itself) when performed.  *)
(* bp[a] is the id of the breakpoint at a, or -1.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Behs, MaxActs, ForeignBp

VARIABLES s, ev

A == {1, 2}
Configs == {<<"reset">>}
Init0(c) == [acts |-> <<<<>>, <<>>>>, made |-> {}, patched |-> {}, bad |-> {}, bp |-> <<-1, -1>>, last |-> 0]

On(st, a) == {i \in 1..Len(st.acts[a]) : st.acts[a][i].st = "on"}
Known(st, a, id) == id + 1 \in 1..Len(st.acts[a]) /\ st.acts[a][id + 1].st # "gone"
Obs(st) ==
  <<[a \in 1..2 |-> <<a \in st.patched, On(st, a) # {}, a \in st.made,
                      [i \in 1..Len(st.acts[a]) |-> st.acts[a][i].st = "on"],
                      st.bp[a] >= 0,
                      st.bp[a] >= 0 /\ Known(st, a, st.bp[a]) /\ st.acts[a][st.bp[a] + 1].st = "on">>],
    st.last>>
ResetOut(c) == Obs(Init0(c))

\* Each operation yields [s, ok, id].
R(st, ok, id) == [s |-> st, ok |-> ok, id |-> id]
SetA(st, a, beh) ==
  IF On(st, a) = {} /\ a \in st.bad THEN R(st, FALSE, -1)
  ELSE R([st EXCEPT !.acts[a] = Append(@, [st |-> "on", beh |-> beh]), !.made = @ \cup {a},
                    !.patched = @ \cup (IF On(st, a) = {} THEN {a} ELSE {})],
         TRUE, Len(st.acts[a]))
EnableA(st, a, id) ==
  IF ~Known(st, a, id) THEN R(st, FALSE, -1)
  ELSE IF st.acts[a][id + 1].st = "on" THEN R(st, TRUE, -1)
  ELSE IF On(st, a) = {} /\ a \in st.bad THEN R(st, FALSE, -1)
  ELSE R([st EXCEPT !.acts[a][id + 1].st = "on", !.patched = @ \cup (IF On(st, a) = {} THEN {a} ELSE {})], TRUE, -1)
\* Leaving the enabled state, to "off" or "gone".
Leave(st, a, id, to) ==
  LET lastOne == On(st, a) = {id + 1}
  IN IF ~Known(st, a, id) THEN R(st, FALSE, -1)
     ELSE IF lastOne /\ a \in st.bad THEN R(st, FALSE, -1)
     ELSE R([st EXCEPT !.acts[a][id + 1].st = to, !.patched = IF lastOne THEN @ \ {a} ELSE @], TRUE, -1)

ClearAll(st) == [st EXCEPT !.acts = <<<<>>, <<>>>>, !.made = {}, !.patched = @ \ (st.made \ st.bad)]

\* Performing the actions at a, in order of their ids; those enabled when their turn comes.
\* Whether an action set at a meanwhile is performed already is open: only ids below n are considered.
RECURSIVE Perform(_, _, _, _, _, _)
Perform(st, a, n, i, fired, halts) ==
  IF i > Len(st.acts[a]) \/ i > n THEN [s |-> st, fired |-> fired, halts |-> halts]
  ELSE LET x == st.acts[a][i]
           t == CASE x.beh = "self" -> Leave(st, a, i - 1, "off").s
                  [] x.beh = "zero" -> Leave(st, a, 0, "off").s
                  [] x.beh = "next" -> Leave(st, a, i, "off").s
                  [] x.beh = "once" -> Leave(st, a, i - 1, "gone").s
                  [] x.beh = "drop" -> Leave(st, a, i, "gone").s
                  [] x.beh = "far" -> SetA(st, 3 - a, "none").s
                  [] x.beh = "here" -> SetA(st, a, "none").s
                  [] x.beh = "all" -> ClearAll(st)
                  [] x.beh = "bp" -> [st EXCEPT !.last = a]
                  [] OTHER -> st
       IN IF x.st # "on" THEN Perform(st, a, n, i + 1, fired, halts)
          ELSE IF x.beh = "bp" THEN Perform(t, a, n, i + 1, fired, halts + 1)
          ELSE Perform(t, a, n, i + 1, Append(fired, i - 1), halts)
Performed(st, a) == {Perform(st, a, n, 1, <<>>, 0) :
                       n \in {Len(st.acts[a])}
                             \cup (IF \E i \in On(st, a) : st.acts[a][i].beh = "here" THEN {99999} ELSE {})}

\* Breakpoints.
SetB(st, a) == LET r == SetA(st, a, "bp")
               IN IF st.bp[a] >= 0 THEN R(st, FALSE, -1)
                  ELSE IF r.ok THEN R([r.s EXCEPT !.bp[a] = r.id], TRUE, -1) ELSE R(st, FALSE, -1)
ClearB(st, a) == LET r == Leave(st, a, st.bp[a], "gone")
                 IN IF st.bp[a] < 0 THEN R(st, FALSE, -1)
                    ELSE IF r.ok THEN R([r.s EXCEPT !.bp[a] = -1], TRUE, -1) ELSE R(st, FALSE, -1)
\* (also forgets a breakpoint whose action was removed behind its back)
DropB(st, a) == IF st.bp[a] >= 0 /\ ~Known(st, a, st.bp[a]) THEN [st EXCEPT !.bp[a] = -1] ELSE ClearB(st, a).s
ClearAllB(st) == DropB(DropB(st, 1), 2)

Room(st, a) == Len(st.acts[a]) < MaxActs
Ids == 0..MaxActs
Ops(st) ==
  {<<"set", a, b>> : a \in {x \in A : Room(st, x)}, b \in Behs}
  \cup {<<o, a, i>> : o \in {"enable", "disable"}, a \in A, i \in Ids}
  \cup ({<<"clear", a, i>> : a \in A, i \in Ids} \ (IF ForeignBp THEN {} ELSE {<<"clear", a, st.bp[a]>> : a \in A}))
  \cup {<<"perform", a>> : a \in {x \in A : Room(st, 3 - x)}}
  \cup {<<"perform", 3>>}
  \cup {<<"bset", a>> : a \in {x \in A : Room(st, x)}}
  \cup {<<o, a>> : o \in {"bclear", "benable", "bdisable", "fail"}, a \in A}
  \cup {<<"bclearall">>}
  \* (breakpoints do not survive a clear-all of their action points)
  \cup (IF ForeignBp \/ st.bp = <<-1, -1>> THEN {<<"clearall">>} ELSE {})

Seen(r) == {[s |-> r.s, out |-> <<r.ok, r.id>> \o Obs(r.s)]}
Eff(st, op) ==
  CASE op[1] = "set" -> Seen(SetA(st, op[2], op[3]))
    [] op[1] = "clear" -> Seen(Leave(st, op[2], op[3], "gone"))
    [] op[1] = "enable" -> Seen(EnableA(st, op[2], op[3]))
    [] op[1] = "disable" -> Seen(Leave(st, op[2], op[3], "off"))
    [] op[1] = "perform" -> {[s |-> r.s, out |-> <<r.fired, r.halts>> \o Obs(r.s)] :
                              r \in IF op[2] \in A THEN Performed(st, op[2])
                                    ELSE {[s |-> st, fired |-> <<>>, halts |-> 0]}}
    [] op[1] = "bset" -> Seen(SetB(st, op[2]))
    [] op[1] = "bclear" -> Seen(ClearB(st, op[2]))
    [] op[1] = "benable" -> Seen(IF st.bp[op[2]] < 0 THEN R(st, FALSE, -1) ELSE EnableA(st, op[2], st.bp[op[2]]))
    [] op[1] = "bdisable" -> Seen(IF st.bp[op[2]] < 0 THEN R(st, FALSE, -1) ELSE Leave(st, op[2], st.bp[op[2]], "off"))
    [] op[1] = "fail" -> Seen(R([st EXCEPT !.bad = IF op[2] \in @ THEN @ \ {op[2]} ELSE @ \cup {op[2]}], TRUE, -1))
    [] op[1] = "bclearall" -> Seen(R(ClearAllB(st), TRUE, -1))
    [] op[1] = "clearall" -> Seen(R(ClearAll(st), TRUE, -1))

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>
----------------------------------------------------------------------------
\* Memory is patched exactly where some action is enabled (a clear-all that cannot
\* write memory is the one operation that leaves a patch behind).
EnabledIsPatched == \A a \in A : On(s, a) # {} => a \in s.patched
PatchedIsEnabled == [][ \A a \in A : (a \in s'.patched /\ On(s', a) = {}) =>
                          a \in s.patched /\ ((ev'[1][1] = "clearall" /\ a \in s.bad) \/ On(s, a) = {}) ]_<<s, ev>>
\* A failed operation has no effect.
FailureIsNoOp == [][ (ev'[1][1] \in {"set", "clear", "enable", "disable", "bset", "bclear", "benable", "bdisable"}
                      /\ ~ev'[2][1]) => s' = s ]_<<s, ev>>
\* A breakpoint owns a live action of its own.
BreakpointsLive == \A a \in A : s.bp[a] >= 0 => Known(s, a, s.bp[a]) /\ s.acts[a][s.bp[a] + 1].beh = "bp"
NoReuse == [][ ev'[1][1] = "set" /\ ev'[2][1] => ~Known(s, ev'[1][2], ev'[2][2]) ]_<<s, ev>>
\* Only the actions at that address, only those enabled on arrival, each at most once.
PerformExactly ==
  [][ ev'[1][1] = "perform" /\ ev'[1][2] \in A =>
        LET fired == ev'[2][1]  a == ev'[1][2]
        IN /\ \A i \in 1..Len(fired) : fired[i] + 1 \in On(s, a) \/ fired[i] + 1 > Len(s.acts[a])
           /\ \A i, j \in 1..Len(fired) : i # j => fired[i] # fired[j]
           /\ (\A i \in 1..Len(s.acts[a]) : s.acts[a][i].beh \in {"none", "far", "bp", "once"}) =>
                Len(fired) + ev'[2][2] = Cardinality(On(s, a)) ]_<<s, ev>>
=============================================================================
