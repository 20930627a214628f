-------------------------------- MODULE Caches --------------------------------
(***************************************************************************)
(* Cache (util/memory): a model of a set associative LRU cache that counts *)
(* accesses and forwards them to the memory behind it.                     *)
(*                                                                         *)
(* Configuration: <<"reset", kind, origin, base>> followed by a valid      *)
(* configuration <<size, line, ways, alloc, mode, ranges>>.  kind: "plain" *)
(* and "tagged" memories, "settag" (tagged memory set later), "none" (no   *)
(* memory).  base: start of the cycle counter (the specification counts    *)
(* from 0).  ways 0: fully associative.  mode: 0 no ranges, 1 cacheable    *)
(* ranges, 2 non cacheable ranges; ranges: lo1, hi1, lo2, hi2, ...         *)
(* (inclusive, disjoint).                                                  *)
(* Output: that of the access, then the counters <<read hit, read miss,    *)
(* write hit, write miss, dirty write back, read around, write around,     *)
(* read non cacheable, write non cacheable>>, then a status.               *)
(***************************************************************************)
EXTENDS MemBytes

CONSTANTS Cfgs, Confs, Addrs, Sizes, Vecs, Vals, Lats, Keys, TagLists, Space

VARIABLES s, ev

Configs == Cfgs
M0 == MInit(1, 0, 8)
Pow2 == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536}
Valid(k) == /\ k[1] \in Pow2 /\ k[2] \in Pow2 /\ k[3] \in Pow2 \cup {0}
            /\ k[2] >= 4 /\ k[1] >= k[2]
            /\ k[3] <= k[1] \div k[2]
            /\ \A i \in 1..(Len(k[6]) \div 2) : k[6][2 * i - 1] <= k[6][2 * i]
Invalid == <<0, 0, 0, 0>>  \* <<valid, block, dirty, time>>
Fresh(k) == LET n == k[1] \div k[2]
                w == IF k[3] = 0 THEN n ELSE k[3]
            IN [line |-> k[2], sets |-> n \div w, ways |-> w, alloc |-> k[4], mode |-> k[5],
                ranges |-> [i \in 1..(Len(k[6]) \div 2) |-> <<k[6][2 * i - 1], k[6][2 * i]>>],
                lines |-> [x \in 0..((n \div w) - 1) |-> [y \in 1..w |-> Invalid]]]
Init0(c) == [kind |-> c[2], m |-> M0, cyc |-> 0, c |-> Fresh(SubSeq(c, 5, 10)), n |-> [i \in 1..9 |-> 0]]
ResetOut(c) == MkOut(M0, <<>>, <<>>, <<>>) \o <<[i \in 1..9 |-> 0], 1>>

In(st, a, n) == a >= 0 /\ a + n <= Space
VIn(st, v) == \A i \in On(v[2]) : In(st, EAddr(st.m, v[1], v[3], i), v[3])
TIn(st, a, ng) == st.kind # "plain" /\ a % 8 = 0 /\ In(st, a, ng * 8)

Ops(st) ==
  UNION {{<<"st", a, n, v>> : n \in {x \in Sizes : In(st, a, x)}, v \in Vals} : a \in Addrs}
  \cup UNION {{<<"ld", a, n, l, k>> : n \in {x \in Sizes : In(st, a, x)}, l \in Lats, k \in Keys} : a \in Addrs}
  \cup UNION {{<<"vst", v[1], v[2], v[3], x>> : x \in Vals} : v \in {w \in Vecs : VIn(st, w)}}
  \cup UNION {{<<"vld", v[1], v[2], v[3], l, k>> : l \in Lats, k \in Keys} : v \in {w \in Vecs : VIn(st, w)}}
  \cup UNION {{<<"tst", a, t, v>> : t \in {x \in TagLists : TIn(st, a, Len(x))}, v \in Vals} : a \in Addrs}
  \cup UNION {{<<o, a, n, l, k>> : o \in {"tld", "tonly"}, n \in {x \in {1, 2} : TIn(st, a, x)}, l \in Lats, k \in Keys} : a \in Addrs}
  \cup {<<"adv">>, <<"cyc", 1>>}
  \cup {<<"conf">> \o k : k \in Confs}
  \cup {<<"badconf", i>> : i \in {x \in {1} : Confs # {}}}

Bump(n, i) == [n EXCEPT ![i] = @ + 1]
Touch(c, lo, hi) == \E i \in 1..Len(c.ranges) : c.ranges[i][1] <= hi /\ lo <= c.ranges[i][2]
Uncached(c, lo, hi) == (c.mode = 1 /\ ~Touch(c, lo, hi)) \/ (c.mode = 2 /\ Touch(c, lo, hi))

\* The way to replace: the first empty one, else the least recently used.
Victim(ws) ==
  LET empty == {i \in 1..Len(ws) : ws[i][1] = 0}
      old == {i \in 1..Len(ws) : \A j \in 1..Len(ws) : ws[i][4] <= ws[j][4]}
      least(q) == CHOOSE i \in q : \A j \in q : i <= j
  IN IF empty # {} THEN least(empty) ELSE least(old)
\* One block of an access.
Block(st, b, rd) ==
  LET c == st.c
      set == b % c.sets
      ws == c.lines[set]
      hit == {i \in 1..Len(ws) : ws[i][1] = 1 /\ ws[i][2] = b}
      v == Victim(ws)
      h == CHOOSE i \in hit : TRUE
      wb == IF ws[v][1] = 1 /\ ws[v][3] = 1 THEN Bump(st.n, 5) ELSE st.n
      fill == [st EXCEPT !.c.lines[set][v] = <<1, b, 1 - rd, st.cyc>>]
  IN IF hit # {}
     THEN [st EXCEPT !.n = Bump(@, IF rd = 1 THEN 1 ELSE 3),
                     !.c.lines[set][h] = <<1, b, IF rd = 1 THEN ws[h][3] ELSE 1, st.cyc>>]
     ELSE IF rd = 1 THEN [fill EXCEPT !.n = Bump(wb, 2)]
     ELSE IF c.alloc = 1 THEN [fill EXCEPT !.n = Bump(wb, 4)]
     ELSE [st EXCEPT !.n = Bump(Bump(@, 4), 7)]
RECURSIVE Blocks(_, _, _, _)
Blocks(st, b, last, rd) == IF b > last THEN st ELSE Blocks(Block(st, b, rd), b + 1, last, rd)
Look(st, a, n, rd) ==
  LET b0 == a \div st.c.line
      b1 == (a + n - 1) \div st.c.line
  IN IF Uncached(st.c, a, a + n - 1) THEN [st EXCEPT !.n[IF rd = 1 THEN 8 ELSE 9] = @ + (b1 - b0 + 1)]
     ELSE Blocks(st, b0, b1, rd)
Els(st, op) ==
  CASE op[1] \in {"st", "ld"} -> << <<op[2], op[3]>> >>
    [] op[1] \in {"vst", "vld"} ->
         LET e == [i \in 1..Len(op[3]) |-> <<EAddr(st.m, op[2], op[4], i), op[4], op[3][i]>>]
         IN SelectSeq(e, LAMBDA x : x[3] = 1)
    [] op[1] = "tst" -> << <<op[2], Len(op[3]) * 8>> >>
    [] op[1] \in {"tld", "tonly"} -> << <<op[2], op[3] * 8>> >>
    [] OTHER -> <<>>
RECURSIVE LookAll(_, _, _)
LookAll(st, e, rd) == IF e = <<>> THEN st ELSE LookAll(Look(st, Head(e)[1], Head(e)[2], rd), Tail(e), rd)
IsRead(o) == IF o \in {"ld", "vld", "tld", "tonly"} THEN 1 ELSE 0

\* Without a memory nothing is loaded.
Blind(m, op) ==
  LET d == CASE op[1] = "ld" -> op[3] [] op[1] = "vld" -> Len(op[3]) * op[4] [] op[1] = "tld" -> op[3] * 8 [] OTHER -> 0
      t == IF op[1] \in {"tld", "tonly"} THEN op[3] ELSE 0
  IN [m |-> m, out |-> MkOut(m, [i \in 1..d |-> Marker], [i \in 1..t |-> Marker], <<>>)]

Ans(st, ok) == {[s |-> st, out |-> MkOut(st.m, <<>>, <<>>, <<>>) \o <<st.n, ok>>]}
Eff(st, op) ==
  CASE op[1] = "cyc" -> Ans([st EXCEPT !.cyc = @ + op[2]], 1)
    [] op[1] = "conf" -> LET k == Tail(op) IN IF Valid(k) THEN Ans([st EXCEPT !.c = Fresh(k)], 1) ELSE Ans(st, 0)
    [] op[1] = "badconf" -> Ans(st, 0)
    [] OTHER -> LET r == IF st.kind = "none" THEN Blind(st.m, op) ELSE Access(st.m, op)
                    n == LookAll(st, Els(st, op), IsRead(op[1]))
                IN {[s |-> [n EXCEPT !.m = r.m], out |-> r.out \o <<n.n, 1>>]}

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>
----------------------------------------------------------------------------
Sum(q) == FoldSeq(LAMBDA x, y : x + y, 0, q)
NBlocks(st, e) == (e[1] + e[2] - 1) \div st.c.line - e[1] \div st.c.line + 1
All(st, op) == LET e == Els(st, op) IN Sum([i \in 1..Len(e) |-> NBlocks(st, e[i])])
\* Every block accessed is counted once as hit, miss or non cacheable.
Accounting == [][LET op == ev'[1]
                     d(i) == s'.n[i] - s.n[i]
                 IN IF ~IsAccess(op[1]) THEN s'.n = s.n
                    ELSE IF IsRead(op[1]) = 1 THEN d(1) + d(2) + d(8) = All(s, op) /\ d(3) + d(4) + d(7) + d(9) = 0
                    ELSE d(3) + d(4) + d(9) = All(s, op) /\ d(1) + d(2) + d(6) + d(8) = 0]_<<s, ev>>
Transparent == [][IsAccess(ev'[1][1]) /\ s.kind # "none" =>
                    s'.m = Access(s.m, ev'[1]).m /\ SubSeq(ev'[2], 1, 5) = Access(s.m, ev'[1]).out]_<<s, ev>>
Placement == \A x \in DOMAIN s.c.lines : \A i \in 1..s.c.ways : s.c.lines[x][i][1] = 1 =>
               /\ s.c.lines[x][i][2] % s.c.sets = x
               /\ \A j \in 1..s.c.ways : s.c.lines[x][j][1] = 1 /\ s.c.lines[x][j][2] = s.c.lines[x][i][2] => i = j
Resident(st) == UNION {{st.c.lines[x][i] : i \in {j \in 1..st.c.ways : st.c.lines[x][j][1] = 1}} : x \in DOMAIN st.c.lines}
\* What is evicted by a one block access is not more recent than what stays in its set.
EvictOldest == [][IsAccess(ev'[1][1]) /\ All(s, ev'[1]) = 1 =>
                    \A x \in DOMAIN s.c.lines : \A i, j \in 1..s.c.ways :
                      s.c.lines[x][i][1] = 1 /\ s.c.lines[x][j][1] = 1 /\ s'.c.lines[x][i][2] # s.c.lines[x][i][2]
                        => s.c.lines[x][i][4] <= s.c.lines[x][j][4]]_<<s, ev>>
\* A dirty line leaves only with a write back counted.
NoLostDirty == [][IsAccess(ev'[1][1]) =>
                    Cardinality({l \in Resident(s) : l[3] = 1 /\ ~\E k \in Resident(s') : k[2] = l[2] /\ k[3] = 1}) <= s'.n[5] - s.n[5]]_<<s, ev>>
=============================================================================
