------------------------------- MODULE Watchers -------------------------------
(***************************************************************************)
(* MemoryWatcher and TaggedMemoryWatcher (util/memory): callbacks for      *)
(* loads and stores that touch a watched range, in front of a memory that  *)
(* behaves as if it were accessed directly.                                *)
(*                                                                         *)
(* Configuration: <<"reset", kind, origin, size, gran>>; kind "plain" or   *)
(* "tagged".  Watch ranges are <<lo, hi>>, both included, relative to the  *)
(* origin; -1000000 and 1000000 stand for the ends of the address space.   *)
(* A callback is logged as <<id, address, size, x>>: for a store callback  *)
(* x is the byte in memory at the first watched address of the access when *)
(* the callback runs, for a load callback the number of instructions that  *)
(* have executed.                                                          *)
(***************************************************************************)
EXTENDS MemBytes

CONSTANTS Cfgs, Addrs, Sizes, Vecs, Vals, Lats, Keys, TagLists, Ranges

VARIABLES s, ev

Configs == Cfgs
M0(c) == MInit(1, 0, c[5])
Init0(c) == [kind |-> c[2], size |-> c[4], m |-> M0(c), l |-> <<>>, s |-> <<>>, n |-> 0]
ResetOut(c) == MkOut(M0(c), <<>>, <<>>, <<>>) \o <<<<>>, 1>>

In(st, a, n) == a >= 0 /\ a + n <= st.size
VIn(st, v) == \A i \in On(v[2]) : In(st, EAddr(st.m, v[1], v[3], i), v[3])
TIn(st, a, ng) == st.kind = "tagged" /\ In(st, a, ng * st.m.gran)

Ops(st) ==
  UNION {{<<"st", a, n, v>> : n \in {x \in Sizes : In(st, a, x)}, v \in Vals} : a \in Addrs}
  \cup UNION {{<<"ld", a, n, l, k>> : n \in {x \in Sizes : In(st, a, x)}, l \in Lats, k \in Keys} : a \in Addrs}
  \cup UNION {{<<"vst", v[1], v[2], v[3], x>> : x \in Vals} : v \in {w \in Vecs : VIn(st, w)}}
  \cup UNION {{<<"vld", v[1], v[2], v[3], l, k>> : l \in Lats, k \in Keys} : v \in {w \in Vecs : VIn(st, w)}}
  \cup UNION {{<<"tst", a, t, v>> : t \in {x \in TagLists : TIn(st, a, Len(x))}, v \in Vals} : a \in Addrs}
  \cup UNION {{<<o, a, n, l, k>> : o \in {"tld", "tonly"}, n \in {x \in {1, 2} : TIn(st, a, x)}, l \in Lats, k \in Keys} : a \in Addrs}
  \cup {<<"adv">>}
  \cup {<<o, r[1], r[2]>> : o \in {"setl", "sets"}, r \in Ranges}
  \cup {<<o, a>> : o \in {"clrl", "clrs"}, a \in Addrs}

Overlap(lo, hi, w) == w[2] <= hi /\ lo <= w[3]
\* The accesses a request consists of: sequence of <<address, size>>.
Els(st, op) ==
  CASE op[1] \in {"st", "ld"} -> << <<op[2], op[3]>> >>
    [] op[1] \in {"vst", "vld"} ->
         LET e == [i \in 1..Len(op[3]) |-> <<EAddr(st.m, op[2], op[4], i), op[4], op[3][i]>>]
         IN SelectSeq(e, LAMBDA x : x[3] = 1)
    [] op[1] = "tst" -> << <<op[2], Len(op[3]) * st.m.gran>> >>
    [] op[1] = "tld" -> << <<op[2], op[3] * st.m.gran>> >>
    [] OTHER -> <<>>
RECURSIVE Less(_, _)
Less(p, q) == IF p = <<>> \/ q = <<>> THEN FALSE
              ELSE p[1] < q[1] \/ (p[1] = q[1] /\ Less(Tail(p), Tail(q)))
Larger(a, b) == IF a > b THEN a ELSE b
\* The callbacks of a request, in no particular order (sorted).
Calls(st, op, ws, x(_)) ==
  LET e == Els(st, op)
      one(i) == LET hit == SelectSeq(ws, LAMBDA w : Overlap(e[i][1], e[i][1] + e[i][2] - 1, w))
                IN [j \in 1..Len(hit) |-> <<hit[j][1], e[i][1], e[i][2], x(Larger(e[i][1], hit[j][2]))>>]
  IN SortSeq(FlattenSeq([i \in 1..Len(e) |-> one(i)]), Less)

Plain(st, ok) == [s |-> st, out |-> MkOut(st.m, <<>>, <<>>, <<>>) \o <<<<>>, ok>>]
SetW(ws, n, lo, hi) == IF lo <= hi /\ ~\E i \in 1..Len(ws) : Overlap(lo, hi, ws[i]) THEN Append(ws, <<n, lo, hi>>) ELSE ws
ClrW(ws, a) == SelectSeq(ws, LAMBDA w : ~(w[2] <= a /\ a <= w[3]))
B(x) == IF x THEN 1 ELSE 0

Eff(st, op) ==
  LET n1 == [st EXCEPT !.n = @ + 1] IN
  CASE op[1] = "setl" -> LET w == SetW(st.l, st.n + 1, op[2], op[3]) IN {Plain([n1 EXCEPT !.l = w], B(w # st.l))}
    [] op[1] = "sets" -> LET w == SetW(st.s, st.n + 1, op[2], op[3]) IN {Plain([n1 EXCEPT !.s = w], B(w # st.s))}
    [] op[1] = "clrl" -> LET w == ClrW(st.l, op[2]) IN {Plain([st EXCEPT !.l = w], B(w # st.l))}
    [] op[1] = "clrs" -> LET w == ClrW(st.s, op[2]) IN {Plain([st EXCEPT !.s = w], B(w # st.s))}
    [] OTHER ->
         LET r == Access(st.m, op)
             calls == IF op[1] \in {"st", "vst", "tst"} THEN Calls(st, op, st.s, LAMBDA b : Byte(r.m, b))
                      ELSE Calls(st, op, st.l, LAMBDA b : 0)
         IN {[s |-> [st EXCEPT !.m = r.m], out |-> r.out \o <<calls, 1>>]}

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>
----------------------------------------------------------------------------
Disj(ws) == \A i, j \in 1..Len(ws) : i # j => ~Overlap(ws[i][2], ws[i][3], ws[j])
Disjoint == Disj(s.l) /\ Disj(s.s)
\* Watching changes nothing.
Transparent == [][IsAccess(ev'[1][1]) => s'.m = Access(s.m, ev'[1]).m /\ SubSeq(ev'[2], 1, 5) = Access(s.m, ev'[1]).out]_<<s, ev>>
\* Each watch is called once per element that has a byte in it.
ElBytes(e) == e[1]..(e[1] + e[2] - 1)
InW(w, e) == \E b \in ElBytes(e) : w[2] <= b /\ b <= w[3]
Times(id, q) == Len(SelectSeq(q, LAMBDA c : c[1] = id))
Watched == [][LET op == ev'[1]
                  e == Els(s, op)
                  ws == IF op[1] \in {"st", "vst", "tst"} THEN s.s ELSE IF op[1] \in {"ld", "vld", "tld"} THEN s.l ELSE <<>>
              IN /\ \A i \in 1..Len(ws) : Times(ws[i][1], ev'[2][6]) = Cardinality({j \in 1..Len(e) : InW(ws[i], e[j])})
                 /\ \A j \in 1..Len(ev'[2][6]) : \E i \in 1..Len(ws) : ws[i][1] = ev'[2][6][j][1]]_<<s, ev>>
=============================================================================
