------------------------------ MODULE ArchStates ------------------------------
(* ArchState: the table of registers and fifos by name (with aliases), and the delay lines that advance
   together.  The state owns, and destroys exactly once, what its tables refer to. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NNames, Lats, MaxObj, MaxLines

VARIABLES s, ev

Configs == {<<"reset">>}
Names == 1..NNames
\* kinds of state: "r" registers and "f" fifos; obj: own names of the objects created
None == 0
Init0(c) == [tab |-> [k \in {"r", "f"} |-> [n \in Names |-> None]], obj |-> <<>>, lines |-> 1, cyc |-> 0, pend |-> <<>>, tag |-> 0,
             val |-> <<>>]
ResetOut(c) == <<>>

OfKind(st, k) == {i \in DOMAIN st.obj : st.obj[i][1] = k}
Ops(st) ==
  (IF Len(st.obj) < MaxObj THEN {<<"new", k, n, h>> : k \in {"r", "f"}, n \in Names, h \in {0, 1}} ELSE {})
  \cup {<<"alias", k, n, i>> : k \in {"r"}, n \in Names, i \in OfKind(st, "r")}
  \cup {<<"alias", k, n, i>> : k \in {"f"}, n \in Names, i \in OfKind(st, "f")}
  \cup {<<"remove", k, n>> : k \in {"r", "f"}, n \in Names}
  \cup {<<"look", k>> : k \in {"r", "f"}}
  \cup (IF st.lines < MaxLines THEN {<<"line">>} ELSE {})
  \cup (IF st.tag < 3 THEN {<<"call", l, d>> : l \in 1..st.lines, d \in Lats \ {0}} ELSE {})
  \cup {<<"write", i, v, d>> : i \in OfKind(st, "r"), v \in {7}, d \in Lats}
  \cup {<<"read", i>> : i \in OfKind(st, "r")}
  \cup {<<"adv">>, <<"end">>}

Register(st, k, n, i) == IF st.tab[k][n] = None THEN [st EXCEPT !.tab[k][n] = i] ELSE st
Owned(st) == {st.tab[k][n] : k \in {"r", "f"}, n \in Names} \ {None}
NewObj(st, k, n) == [st EXCEPT !.obj = Append(@, <<k, n>>), !.val = Append(@, 0)]

Eff(st, op) ==
  CASE op[1] = "new" ->  \* h = 1: created by the state itself, else registered afterwards
         LET st1 == NewObj(st, op[2], op[3]) IN {[s |-> Register(st1, op[2], op[3], Len(st1.obj)), out |-> <<Len(st1.obj)>>]}
    [] op[1] = "alias" -> {[s |-> Register(st, op[2], op[3], op[4]), out |-> <<>>]}
    [] op[1] = "remove" -> {[s |-> [st EXCEPT !.tab[op[2]][op[3]] = None], out |-> <<>>]}
    [] op[1] = "look" -> {[s |-> st, out |-> st.tab[op[2]]]}
    [] op[1] = "line" -> {[s |-> [st EXCEPT !.lines = @ + 1], out |-> <<>>]}
    [] op[1] = "call" -> {[s |-> [st EXCEPT !.pend = Append(@, <<"c", op[2], st.tag + 1, op[3]>>), !.tag = @ + 1], out |-> <<st.tag + 1>>]}
    [] op[1] = "write" -> {[s |-> IF op[4] = 0 THEN [st EXCEPT !.val[op[2]] = op[3]]
                                  ELSE [st EXCEPT !.pend = Append(@, <<"w", op[2], op[3], op[4]>>)], out |-> <<>>]}
    [] op[1] = "read" -> {[s |-> st, out |-> <<st.val[op[2]]>>]}
    [] op[1] = "adv" ->
         LET now == SelectSeq(st.pend, LAMBDA p : p[4] = 1)
             later == SelectSeq(st.pend, LAMBDA p : p[4] > 1)
             RECURSIVE Put(_, _)
             Put(val, ws) == IF ws = <<>> THEN val ELSE Put(IF Head(ws)[1] = "w" THEN [val EXCEPT ![Head(ws)[2]] = Head(ws)[3]] ELSE val, Tail(ws))
             \* the lines advance in the order of their creation, the values written come first
             val2 == Put(st.val, now)
             RECURSIVE Calls(_)
             Calls(l) == IF l > st.lines THEN <<>>
                         ELSE [i \in DOMAIN SelectSeq(now, LAMBDA p : p[1] = "c" /\ p[2] = l) |->
                                 SelectSeq(now, LAMBDA p : p[1] = "c" /\ p[2] = l)[i][3]] \o Calls(l + 1)
             regs == {i \in DOMAIN st.obj : st.obj[i][1] = "r"}
             RECURSIVE Sum(_)
             Sum(i) == IF i = 0 THEN 0 ELSE (IF i \in regs THEN val2[i] ELSE 0) + Sum(i - 1)
         IN {[s |-> [st EXCEPT !.val = val2, !.cyc = @ + 1, !.pend = [i \in DOMAIN later |-> [later[i] EXCEPT ![4] = @ - 1]]],
              \* the calls made, what the first of them saw in the registers, and the cycle
              out |-> <<Calls(1), IF Calls(1) = <<>> THEN 0 ELSE Sum(Len(st.obj)), st.cyc + 1>>]}
    [] op[1] = "end" -> {[s |-> Init0(<<"reset">>), out |-> <<[i \in DOMAIN st.obj |-> i \in Owned(st)]>>]}

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>

-----------------------------------------------------------------------------
KindsOK == \A k \in {"r", "f"} : \A n \in Names : s.tab[k][n] /= None => s.obj[s.tab[k][n]][1] = k
\* a name keeps denoting the same object until it is removed
Stable == [][\A k \in {"r", "f"} : \A n \in Names :
              (s.tab[k][n] /= None /\ ev'[1] /= <<"remove", k, n>> /\ ev'[1] /= <<"end">>) => s'.tab[k][n] = s.tab[k][n]]_<<s, ev>>
\* removing a name leaves every other name alone
OnlyThat == [][ev'[1][1] = "remove" => \A k \in {"r", "f"} : \A n \in Names : <<k, n>> /= <<ev'[1][2], ev'[1][3]>> => s'.tab[k][n] = s.tab[k][n]]_<<s, ev>>
\* every call is made exactly once, at its time
CallOnce == [][ev'[1][1] = "adv" => Len(ev'[2][1]) = Cardinality({i \in DOMAIN s.pend : s.pend[i][1] = "c" /\ s.pend[i][4] = 1})]_<<s, ev>>
=============================================================================
