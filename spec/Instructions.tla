----------------------------- MODULE Instructions -----------------------------
(***************************************************************************)
(* Instruction objects (generic/instruction.h): reference counted nodes    *)
(* linked into "next" and "child" lists that own their operands.           *)
(*                                                                         *)
(* Node i: refs (references in total), user (references held by the user), *)
(* next, child, par (0 is none), ops (operands per list: predicate,        *)
(* sources, destinations, holds, acquires), attr, beh (what the semantic   *)
(* function does: "log", "kids" executes the children with the same        *)
(* context, "bare" executes them without context).  refs = 0: gone.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS N, Behs, Lists, AttrSets, MaxOps, MaxUser

VARIABLES s, ev

Node == 1..N
Fresh == [refs |-> 0, user |-> 0, next |-> 0, child |-> 0, par |-> 0, pred |-> 0, src |-> <<>>, dst |-> <<>>,
          hold |-> <<>>, acq |-> <<>>, attr |-> <<>>, beh |-> "log", used |-> FALSE]
Configs == {<<"reset">>}
Init0(c) == [n |-> [i \in Node |-> Fresh], nop |-> 0]
ResetOut(c) == <<>>

Alive(st, i) == i # 0 /\ st.n[i].refs > 0
LiveSet(st) == {i \in Node : Alive(st, i)}
View(st, i) == LET x == st.n[i] IN
  <<i, x.refs, x.next, x.child, x.par, x.pred, x.src, x.dst, x.hold, x.acq, x.attr>>
Obs(st) == LET q == SetToSortSeq(LiveSet(st), <) IN [k \in 1..Len(q) |-> View(st, q[k])]

OpsOf(x) == {x.src[k] : k \in 1..Len(x.src)} \cup {x.dst[k] : k \in 1..Len(x.dst)}
            \cup {x.hold[k] : k \in 1..Len(x.hold)} \cup {x.acq[k] : k \in 1..Len(x.acq)} \cup ({x.pred} \ {0})
\* out: result, operands destroyed by this operation, all live instructions
Gone(a, b) == SetToSortSeq(UNION {OpsOf(a.n[i]) : i \in LiveSet(a)} \ UNION {OpsOf(b.n[i]) : i \in LiveSet(b)}, <)
Seen(st, t, r) == {[s |-> t, out |-> <<r, Gone(st, t), Obs(t)>>]}

\* The nodes of a list, in order.
RECURSIVE Chain(_, _)
Chain(st, i) == IF i = 0 THEN <<>> ELSE <<i>> \o Chain(st, st.n[i].next)
RECURSIVE Down(_, _)
\* Everything reachable from i through next and child.
Down(st, i) == IF i = 0 THEN {} ELSE {i} \cup Down(st, st.n[i].next) \cup Down(st, st.n[i].child)
Owned(st, i) == \E j \in LiveSet(st) : st.n[j].next = i \/ st.n[j].child = i

RECURSIVE Release(_, _)
\* One reference to i goes away; what it owned goes with the last one.
Release(st, i) ==
  IF st.n[i].refs > 1 THEN [st EXCEPT !.n[i].refs = @ - 1]
  ELSE LET x == st.n[i]
           t == [st EXCEPT !.n = [j \in Node |->
                   IF j = i THEN [Fresh EXCEPT !.used = TRUE]
                   ELSE IF @[j].par = i THEN [@[j] EXCEPT !.par = 0] ELSE @[j]]]
           u == IF x.next # 0 THEN Release(t, x.next) ELSE t
       IN IF x.child # 0 THEN Release(u, x.child) ELSE u

\* The log of executing i with context c (0: none): <<node, context seen>>.
RECURSIVE Run(_, _, _)
RECURSIVE RunAll(_, _, _)
Run(st, i, c) == <<<<i, c>>>> \o (IF st.n[i].beh = "kids" THEN RunAll(st, Chain(st, st.n[i].child), c)
                                  ELSE IF st.n[i].beh = "bare" THEN RunAll(st, Chain(st, st.n[i].child), 0)
                                  ELSE <<>>)
RunAll(st, q, c) == IF q = <<>> THEN <<>> ELSE Run(st, q[1], c) \o RunAll(st, Tail(q), c)

Linkable(st, i, j) == Alive(st, j) /\ i # j /\ ~Owned(st, j) /\ i \notin Down(st, j)
Ops(st) ==
  {<<"new", i, b>> : i \in {k \in Node : ~st.n[k].used /\ \A m \in Node : ~st.n[m].used => k <= m}, b \in Behs}
  \cup UNION {{<<o, i, j>> : o \in {"append", "child"}, j \in {k \in Node : Linkable(st, i, k)}} : i \in LiveSet(st)}
  \cup {<<o, i, 0>> : o \in {"append", "child"}, i \in LiveSet(st)}
  \cup (IF st.nop < MaxOps THEN {<<"op", i, w>> : i \in LiveSet(st), w \in Lists} ELSE {})
  \cup {<<"attr", i, a>> : i \in LiveSet(st), a \in AttrSets}
  \cup {<<"exec", i, c>> : i \in LiveSet(st), c \in {0, 7}}
  \cup {<<"inc", i>> : i \in {k \in LiveSet(st) : st.n[k].user < MaxUser /\ st.n[k].refs > 0}}
  \cup {<<"dec", i>> : i \in {k \in LiveSet(st) : st.n[k].user > 0}}

Tip(st, i) == LET q == Chain(st, i) IN q[Len(q)]
Link(st, i, j) == [st EXCEPT !.n[Tip(st, i)].next = j, !.n[j].refs = @ + 1]
Eff(st, op) ==
  CASE op[1] = "new" -> Seen(st, [st EXCEPT !.n[op[2]] = [Fresh EXCEPT !.refs = 1, !.user = 1, !.beh = op[3], !.used = TRUE]], <<>>)
    [] op[1] = "append" -> Seen(st, IF op[3] = 0 THEN st ELSE Link(st, op[2], op[3]), <<>>)
    [] op[1] = "child" ->
         Seen(st, IF op[3] = 0 THEN st
                  ELSE LET t == [st EXCEPT !.n[op[3]].par = op[2]]
                       IN IF st.n[op[2]].child # 0 THEN Link(t, st.n[op[2]].child, op[3])
                          ELSE [t EXCEPT !.n[op[2]].child = op[3], !.n[op[3]].refs = @ + 1], <<>>)
    [] op[1] = "op" ->
         LET k == st.nop + 1
             t == [st EXCEPT !.nop = k]
         IN (CASE op[3] = "src" -> Seen(st, [t EXCEPT !.n[op[2]].src = Append(@, k)], <<>>)
               [] op[3] = "dst" -> Seen(st, [t EXCEPT !.n[op[2]].dst = Append(@, k)], <<>>)
               [] op[3] = "hold" -> Seen(st, [t EXCEPT !.n[op[2]].hold = Append(@, k)], <<>>)
               [] op[3] = "acq" -> Seen(st, [t EXCEPT !.n[op[2]].acq = Append(@, k)], <<>>)
               [] op[3] = "pred" -> Seen(st, [t EXCEPT !.n[op[2]].pred = k], <<>>))
    [] op[1] = "attr" -> Seen(st, [st EXCEPT !.n[op[2]].attr = op[3]], <<>>)
    [] op[1] = "exec" -> Seen(st, st, Run(st, op[2], op[3]))
    [] op[1] = "inc" -> Seen(st, [st EXCEPT !.n[op[2]].refs = @ + 1, !.n[op[2]].user = @ + 1], <<>>)
    [] op[1] = "dec" -> Seen(st, Release([st EXCEPT !.n[op[2]].user = @ - 1], op[2]), <<>>)

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>
----------------------------------------------------------------------------
\* An instruction exists iff somebody references it, and the count is exact.
RefsExact == \A i \in Node :
  s.n[i].refs = s.n[i].user + Cardinality({j \in LiveSet(s) : s.n[j].next = i})
                            + Cardinality({j \in LiveSet(s) : s.n[j].child = i})
\* No dangling links.
NoDangling == \A i \in LiveSet(s) : /\ s.n[i].next # 0 => Alive(s, s.n[i].next)
                                    /\ s.n[i].child # 0 => Alive(s, s.n[i].child)
                                    /\ s.n[i].par # 0 => Alive(s, s.n[i].par)
\* A child is in its parent's list.
ChildListed == \A i \in LiveSet(s) : s.n[i].par # 0 =>
                 \E k \in 1..Len(Chain(s, s.n[s.n[i].par].child)) : Chain(s, s.n[s.n[i].par].child)[k] = i
\* Operands go only with their instruction (a predicate also when replaced), and lists only grow.
OperandsStay == [][ \A i \in Node : Alive(s, i) /\ Alive(s', i) =>
                      OpsOf(s.n[i]) \ OpsOf(s'.n[i]) \subseteq (IF s.n[i].pred # s'.n[i].pred THEN {s.n[i].pred} ELSE {}) ]_<<s, ev>>
OrderKept == [][ \A i \in Node : Alive(s, i) /\ Alive(s', i) =>
                   /\ SubSeq(s'.n[i].src, 1, Len(s.n[i].src)) = s.n[i].src
                   /\ SubSeq(Chain(s', s'.n[i].child), 1, Len(Chain(s, s.n[i].child))) = Chain(s, s.n[i].child) ]_<<s, ev>>
ExecuteOnce == [][ ev'[1][1] = "exec" => /\ s' = s
                                         /\ Head(ev'[2][1]) = <<ev'[1][2], ev'[1][3]>>
                                         /\ (s.n[ev'[1][2]].beh = "log" => Len(ev'[2][1]) = 1) ]_<<s, ev>>
=============================================================================
