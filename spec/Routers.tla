------------------------------- MODULE Routers -------------------------------
(***************************************************************************)
(* SingleInitiatorRouter and MemoryRouter (util/memory).                   *)
(*                                                                         *)
(* Configuration: <<"reset", kind, origin>>; kind "single" (one            *)
(* SingleInitiatorRouter, initiator 1) or "multi" (a MemoryRouter whose    *)
(* initiators and targets are named 1, 2, ...).  Interfaces: "m" plain,    *)
(* "t" tagged, "a" atomic.  Ranges <<lo, hi>> are inclusive and relative   *)
(* to the origin; -1000000 and 1000000 stand for the ends of the address   *)
(* space.  Every target records what it is asked to do:                    *)
(* <<target, request, addresses, size, same>> where same = 1 if it got the *)
(* very buffers, instruction and context the initiator passed.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Cfgs, Inits, Targets, Ifs, Ranges, Addrs, Sizes, Vecs

VARIABLES s, ev

Configs == Cfgs
None == 0
Empty == [m |-> {}, t |-> {}, a |-> {}, dm |-> None, dt |-> None, da |-> None]
Init0(c) == [kind |-> c[2],
             r |-> IF c[2] = "single" THEN (1 :> Empty) ELSE <<>>,    \* initiator -> its maps
             names |-> <<>>]                                          \* target name -> interface
ResetOut(c) == <<1, <<>>>>

Rg(lo, hi) == lo..hi
Overlaps(lo, hi, x) == x[1] <= hi /\ lo <= x[2]
Contains(lo, hi, x) == x[1] <= lo /\ hi <= x[2]

Ops(st) ==
  (IF st.kind = "single"
   THEN {<<"add", 1, f, t, g[1], g[2]>> : f \in Ifs, t \in Targets, g \in Ranges}
        \cup {<<"def", 1, f, t>> : f \in Ifs, t \in Targets \cup {0}}
   ELSE {<<"init", f, i>> : f \in Ifs, i \in Inits}
        \cup {<<"target", f, t>> : f \in Ifs, t \in Targets}
        \cup {<<"map", i, t, g[1], g[2]>> : i \in Inits, t \in Targets, g \in Ranges})
  \cup UNION {{<<o, i, a, n>> : o \in {"ld", "st", "tld", "tst", "amo"}, a \in Addrs, n \in Sizes} : i \in DOMAIN st.r}
  \cup UNION {{<<"tonly", i, a, n>> : a \in Addrs, n \in {1, 2}} : i \in DOMAIN st.r}
  \cup UNION {{<<o, i, v[1], v[2], v[3]>> : o \in {"vld", "vst"}, v \in Vecs} : i \in DOMAIN st.r}

With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Ret(st, x) == {[s |-> st, out |-> <<x, <<>>>>]}

\* Adding a mapping: 1 accepted (or an identical range: ignored), 0 refused.
AddTo(map, t, lo, hi) ==
  IF lo >= hi THEN [ok |-> 0, map |-> map]
  ELSE IF \E x \in map : x[1] = lo /\ x[2] = hi THEN [ok |-> 1, map |-> map]
  ELSE IF \E x \in map : Overlaps(lo, hi, x) THEN [ok |-> 0, map |-> map]
  ELSE [ok |-> 1, map |-> map \cup {<<lo, hi, t>>}]
AddMap(st, i, f, t, lo, hi) ==
  LET q == st.r[i]
      a == AddTo(CASE f = "m" -> q.m [] f = "t" -> q.t [] f = "a" -> q.a, t, lo, hi)
      n == CASE f = "m" -> [q EXCEPT !.m = a.map] [] f = "t" -> [q EXCEPT !.t = a.map] [] f = "a" -> [q EXCEPT !.a = a.map]
  IN Ret([st EXCEPT !.r = With(@, i, n)], a.ok)
SetDef(st, i, f, t) ==
  LET q == st.r[i]
      d == CASE f = "m" -> q.dm [] f = "t" -> q.dt [] f = "a" -> q.da
      n == CASE f = "m" -> [q EXCEPT !.dm = t] [] f = "t" -> [q EXCEPT !.dt = t] [] f = "a" -> [q EXCEPT !.da = t]
  IN IF t # 0 /\ d # 0 THEN Ret(st, 0) ELSE Ret([st EXCEPT !.r = With(@, i, n)], 1)

\* The owner of bytes lo..hi in one map.
In1(map, lo, hi) == IF \E x \in map : Contains(lo, hi, x) THEN (CHOOSE x \in map : Contains(lo, hi, x))[3] ELSE 0
Hit(map, lo, hi) == \E x \in map : Overlaps(lo, hi, x)
\* Untagged accesses can go to plain and tagged targets, the others to one kind.
Owner(q, lo, hi) ==
  IF In1(q.m, lo, hi) # 0 THEN In1(q.m, lo, hi)
  ELSE IF In1(q.t, lo, hi) # 0 THEN In1(q.t, lo, hi)
  ELSE IF Hit(q.m, lo, hi) \/ Hit(q.t, lo, hi) THEN 0
  ELSE IF q.dm # 0 THEN q.dm ELSE q.dt
OwnerIn(map, def, lo, hi) ==
  IF In1(map, lo, hi) # 0 THEN In1(map, lo, hi) ELSE IF Hit(map, lo, hi) THEN 0 ELSE def

EA(as, el, i) == IF Len(as) > 1 THEN as[i] ELSE as[1] + (i - 1) * el
VOwner(q, as, mask, el) ==
  LET own == {Owner(q, EA(as, el, i), EA(as, el, i) + el - 1) : i \in {j \in 1..Len(mask) : mask[j] = 1}}
  IN IF Cardinality(own) = 1 THEN CHOOSE x \in own : TRUE ELSE 0

Call(st, t, req, as, n) == {[s |-> st, out |-> IF t = 0 THEN <<0, <<>>>> ELSE <<1, <<<<t, req, as, n, 1>>>>>>]}

Eff(st, op) ==
  CASE op[1] = "add" -> AddMap(st, op[2], op[3], op[4], op[5], op[6])
    [] op[1] = "def" -> SetDef(st, op[2], op[3], op[4])
    [] op[1] = "init" -> Ret(IF op[3] \in DOMAIN st.r THEN st ELSE [st EXCEPT !.r = With(@, op[3], Empty)], op[3])
    [] op[1] = "target" -> IF op[3] \in DOMAIN st.names THEN Ret(st, 0) ELSE Ret([st EXCEPT !.names = With(@, op[3], op[2])], 1)
    [] op[1] = "map" -> IF op[2] \notin DOMAIN st.r \/ op[3] \notin DOMAIN st.names THEN Ret(st, 0)
                        ELSE AddMap(st, op[2], st.names[op[3]], op[3], op[4], op[5])
    [] op[1] \in {"ld", "st"} -> LET q == st.r[op[2]] IN Call(st, Owner(q, op[3], op[3] + op[4] - 1), op[1], <<op[3]>>, op[4])
    [] op[1] \in {"tld", "tst"} ->
         LET q == st.r[op[2]] IN Call(st, OwnerIn(q.t, q.dt, op[3], op[3] + op[4] - 1), op[1], <<op[3]>>, op[4])
    [] op[1] = "tonly" ->
         LET q == st.r[op[2]] IN Call(st, OwnerIn(q.t, q.dt, op[3], op[3] + 8 * op[4] - 1), op[1], <<op[3]>>, op[4])
    [] op[1] = "amo" ->
         LET q == st.r[op[2]] IN Call(st, OwnerIn(q.a, q.da, op[3], op[3] + op[4] - 1), op[1], <<op[3]>>, op[4])
    [] op[1] \in {"vld", "vst"} -> Call(st, VOwner(st.r[op[2]], op[3], op[4], op[5]), op[1], op[3], op[5])

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>
----------------------------------------------------------------------------
DisjMap(map) == \A x, y \in map : x # y => ~Overlaps(x[1], x[2], y)
Disjoint == \A i \in DOMAIN s.r : DisjMap(s.r[i].m) /\ DisjMap(s.r[i].t) /\ DisjMap(s.r[i].a)
NonEmpty == \A i \in DOMAIN s.r : \A x \in s.r[i].m \cup s.r[i].t \cup s.r[i].a : x[1] < x[2]
\* Refusals leave the maps alone; mappings only grow.
Monotone == [][/\ (ev'[2][1] = 0 => s' = s)
               /\ \A i \in DOMAIN s.r : s.r[i].m \subseteq s'.r[i].m /\ s.r[i].t \subseteq s'.r[i].t /\ s.r[i].a \subseteq s'.r[i].a]_<<s, ev>>
\* Byte by byte: the target of an access owns every byte of it, and nobody else of its kind does.
ByteOwner(q, b) == {x[3] : x \in {y \in q.m \cup q.t : y[1] <= b /\ b <= y[2]}}
Owned == [][ev'[1][1] \in {"ld", "st"} =>
              LET q == s.r[ev'[1][2]]
                  bytes == ev'[1][3]..(ev'[1][3] + ev'[1][4] - 1)
              IN IF ev'[2][2] = <<>>
                 THEN (\E b \in bytes : ByteOwner(q, b) # {}) \/ (q.dm = 0 /\ q.dt = 0)
                 ELSE LET t == ev'[2][2][1][1] IN
                      \/ \A b \in bytes : t \in ByteOwner(q, b)
                      \/ t \in {q.dm, q.dt} /\ \A b \in bytes : ByteOwner(q, b) = {}]_<<s, ev>>
VOwned == [][ev'[1][1] \in {"vld", "vst"} /\ ev'[2][2] # <<>> =>
              LET op == ev'[1]
                  q == s.r[op[2]]
                  t == ev'[2][2][1][1]
              IN \A i \in 1..Len(op[4]) : op[4][i] = 1 =>
                   LET a == EA(op[3], op[5], i) IN
                   \A b \in a..(a + op[5] - 1) : IF ByteOwner(q, b) = {} THEN t \in {q.dm, q.dt} ELSE t \in ByteOwner(q, b)]_<<s, ev>>
=============================================================================
