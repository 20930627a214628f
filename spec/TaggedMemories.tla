---------------------------- MODULE TaggedMemories ----------------------------
(***************************************************************************)
(* TaggedFlatDemandMemory and TaggedToUntaggedMemoryTransactor             *)
(* (util/memory).  Configuration: <<"reset", kind, unit, origin, lo, size, *)
(* fill, gran>>: units lo..size-1 from the origin, a tag per gran bytes.   *)
(* The transactor gives an untagged memory the tagged interface: tags read *)
(* as zero and are not kept.                                               *)
(***************************************************************************)
EXTENDS MemBytes

CONSTANTS Cfgs, Addrs, Sizes, Vecs, Vals, Lats, Keys, TagLists

VARIABLES s, ev

Configs == Cfgs
M0(c) == [MInit(c[3], c[7], c[8]) EXCEPT !.tags = <<>>]
Init0(c) == [kind |-> c[2], lo |-> c[5], size |-> c[6], m |-> M0(c)]
ResetOut(c) == MkOut(M0(c), <<>>, <<>>, <<>>)

In(st, a, n) == n % st.m.unit = 0 /\ a >= st.lo /\ a + (n \div st.m.unit) <= st.size
VIn(st, v) == /\ v[3] % st.m.unit = 0
              /\ \A i \in On(v[2]) : In(st, EAddr(st.m, v[1], v[3], i), v[3])
TIn(st, a, ng) == In(st, a, ng * st.m.gran)

Ops(st) ==
  UNION {{<<"st", a, n, v>> : n \in {x \in Sizes : In(st, a, x)}, v \in Vals} : a \in Addrs}
  \cup UNION {{<<"ld", a, n, l, k>> : n \in {x \in Sizes : In(st, a, x)}, l \in Lats, k \in Keys} : a \in Addrs}
  \cup UNION {{<<"vst", v[1], v[2], v[3], x>> : x \in Vals} : v \in {w \in Vecs : VIn(st, w)}}
  \cup UNION {{<<"vld", v[1], v[2], v[3], l, k>> : l \in Lats, k \in Keys} : v \in {w \in Vecs : VIn(st, w)}}
  \cup UNION {{<<"tst", a, t, v>> : t \in {x \in TagLists : TIn(st, a, Len(x))}, v \in Vals} : a \in Addrs}
  \cup UNION {{<<o, a, n, l, k>> : o \in {"tld", "tonly"}, n \in {x \in {1, 2} : TIn(st, a, x)}, l \in Lats, k \in Keys} : a \in Addrs}
  \cup {<<"adv">>}

Zeros(n) == [i \in 1..n |-> 0]
\* The transactor.
Untagged(m, op) ==
  CASE op[1] = "tst" -> Silent(Put(m, op[2], Val(op[4], Len(op[3]) * m.gran)))
    [] op[1] = "tld" -> LET d == Bytes(m, op[2], op[3] * m.gran)
                            t == Zeros(op[3])
                        IN Res(Fin(m, op[4], op[5], d, t), d, t)
    [] op[1] = "tonly" -> Res(Fin(m, op[4], op[5], <<>>, Zeros(op[3])), <<>>, Zeros(op[3]))
    [] OTHER -> Access(m, op)

Eff(st, op) == LET r == IF st.kind = "trans" THEN Untagged(st.m, op) ELSE Access(st.m, op)
               IN {[s |-> [st EXCEPT !.m = r.m], out |-> r.out]}

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>
----------------------------------------------------------------------------
Gran(st) == {(b \div st.m.gran) : b \in (st.lo * st.m.unit)..(st.size * st.m.unit - 1)}
Touches(st, lo, n, g) == lo < (g + 1) * st.m.gran /\ lo + n > g * st.m.gran
\* Per granule: the tag after a step.
TagOf(st, op, g) ==
  LET u == st.m.unit IN
  CASE op[1] = "st" /\ Touches(st, op[2] * u, op[3], g) -> 0
    [] op[1] = "vst" /\ (\E i \in On(op[3]) : Touches(st, EAddr(st.m, op[2], op[4], i) * u, op[4], g)) -> 0
    [] op[1] = "tst" /\ (op[2] * u) % st.m.gran = 0 /\ Touches(st, op[2] * u, Len(op[3]) * st.m.gran, g) ->
         op[3][g - (op[2] * u) \div st.m.gran + 1]
    [] OTHER -> Tag(st.m, g)
TagRule == [][ev'[1][1] # "reset" /\ s.kind = "tagged" => \A g \in Gran(s) : Tag(s'.m, g) = TagOf(s, ev'[1], g)]_<<s, ev>>
\* Data does not depend on tags: as in the untagged memory.
DataRule == [][ev'[1][1] \in {"st", "vst"} => s'.m.mem = Access(s.m, ev'[1]).m.mem]_<<s, ev>>
LoadsPure == [][ev'[1][1] \in {"ld", "vld", "tld", "tonly", "adv"} => s'.m.mem = s.m.mem /\ s'.m.tags = s.m.tags]_<<s, ev>>
InBounds == DOMAIN s.m.mem \subseteq (s.lo * s.m.unit)..(s.size * s.m.unit - 1)
=============================================================================
