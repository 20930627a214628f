---------------------------- MODULE InstProfile ----------------------------
(* The instruction profiler: how often each instruction address of the loaded executable segments was
   written to the counter it listens to.  Addresses are counted in units of the granularity. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS Layouts,  \* sequence of <<attached from the start, sequence of <<load, exec, first, length>>>>
          Pcs,      \* sampled units
          Subs,     \* offsets within a unit, in bytes
          Joined    \* between segments closer than this nothing is promised

VARIABLES s, ev

Configs == {<<"reset", i>> : i \in 1..Len(Layouts)}
Init0(c) == [lay |-> c[2], on |-> Layouts[c[2]][1], n |-> {}]
ResetOut(c) == <<>>

Text(c) == LET g == Layouts[c][2] IN {i \in 1..Len(g) : g[i][1] = 1 /\ g[i][2] = 1 /\ g[i][4] > 0}
InText(c, v) == \E i \in Text(c) : LET g == Layouts[c][2][i] IN g[3] <= v /\ v < g[3] + g[4]
Unclear(c, v) ==
  \E i, j \in Text(c) : LET a == Layouts[c][2][i]
                            b == Layouts[c][2][j]
                        IN a[3] + a[4] <= v /\ v < b[3] /\ b[3] - (a[3] + a[4]) < Joined
Ops(st) ==
  {<<"pc", v, b>> : v \in {x \in Pcs : InText(st.lay, x) \/ ~Unclear(st.lay, x)}, b \in Subs}
  \cup {<<"ones">>, <<"profile">>}
  \cup (IF st.on = 0 THEN {<<"attach">>} ELSE {})

Bump(n, v) == IF \E p \in n : p[1] = v
              THEN LET p == CHOOSE q \in n : q[1] = v IN (n \ {p}) \cup {<<v, p[2] + 1>>}
              ELSE n \cup {<<v, 1>>}
Eff(st, op) ==
  CASE op[1] = "pc" -> {[s |-> IF st.on = 1 /\ InText(st.lay, op[2]) THEN [st EXCEPT !.n = Bump(@, op[2])] ELSE st, out |-> <<>>]}
    [] op[1] = "ones" -> {[s |-> st, out |-> <<>>]}   \* the last address there is, never in a segment here
    [] op[1] = "attach" -> {[s |-> [st EXCEPT !.on = 1], out |-> <<>>]}
    [] op[1] = "profile" -> {[s |-> st, out |-> SetToSortSeq(st.n, LAMBDA a, b : a[1] < b[1])]}

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>

-----------------------------------------------------------------------------
InRange == \A p \in s.n : InText(s.lay, p[1]) /\ p[2] > 0 /\ \A q \in s.n : q[1] = p[1] => q = p
RECURSIVE Total(_)
Total(n) == IF n = {} THEN 0 ELSE LET p == CHOOSE q \in n : TRUE IN p[2] + Total(n \ {p})
\* Each sample of an instruction of the program adds exactly one to the profile.
CountsOnce == [][Total(s'.n) = Total(s.n) + (IF ev'[1][1] = "pc" /\ s.on = 1 /\ InText(s.lay, ev'[1][2]) THEN 1 ELSE 0)]_<<s, ev>>
=============================================================================
