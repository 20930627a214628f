----------------------------- MODULE DecodeCaches -----------------------------
(***************************************************************************)
(* The decode cache (generic/decode_cache.h): a direct mapped cache of     *)
(* decoded instructions.                                                   *)
(*                                                                         *)
(* slot[k] holds the decoding in entry k: [a |-> address, g |-> number of  *)
(* the decoding].  held is the list of decodings the user references.      *)
(* mem[a] is the version of the instruction in memory.  Decoding number g  *)
(* decoded version ver[g].  nodec is the set of addresses that the decoder *)
(* cannot decode (it returns no instruction).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Geoms, Addrs, Bounds, MaxHeld, MaxGen

VARIABLES s, ev

RECURSIVE Ceil(_)
Ceil(n) == IF n <= 1 THEN 1 ELSE 2 * Ceil((n + 1) \div 2)
Pow2(n) == n > 0 /\ Ceil(n) = n
Configs == {<<"reset", g[1], g[2]>> : g \in Geoms}
None == [a |-> -1, g |-> 0]
Init0(c) == [n |-> Ceil(c[2]), inc |-> c[3], slot |-> [k \in 1..Ceil(c[2]) |-> None],
             held |-> <<>>, gen |-> 0, mem |-> <<>>, dead |-> ~Pow2(c[3]), nodec |-> {}]
\* Whether a cache was made, and its number of entries.
ResetOut(c) == <<Pow2(c[3]), IF Pow2(c[3]) THEN Ceil(c[2]) ELSE 0>>

Idx(st, a) == ((a \div st.inc) % st.n) + 1
Cached(st) == {st.slot[k].g : k \in DOMAIN st.slot} \ {0}
Live(st) == Cached(st) \cup {st.held[i] : i \in 1..Len(st.held)}
\* The numbers of the decodings that still exist.
Obs(st) == SetToSortSeq(Live(st), <)
Seen(st, o) == {[s |-> st, out |-> o \o <<Obs(st)>>]}

Drop(st, P(_)) == [st EXCEPT !.slot = [k \in DOMAIN st.slot |->
                     IF st.slot[k].g # 0 /\ P(st.slot[k].a) THEN None ELSE st.slot[k]]]

Get(st, a, keep) ==
  LET k == Idx(st, a)
      hit == st.slot[k].g # 0 /\ st.slot[k].a = a
      g == IF hit THEN st.slot[k].g ELSE st.gen + 1
      t == IF hit THEN st ELSE [st EXCEPT !.slot[k] = [a |-> a, g |-> g], !.gen = g]
  IN IF ~hit /\ a \in st.nodec THEN Seen(st, <<0>>)
     ELSE Seen(IF keep = 1 THEN [t EXCEPT !.held = Append(@, g)] ELSE t, <<g>>)

Ops(st) ==
  IF st.dead THEN {}
  ELSE (IF st.gen < MaxGen THEN {<<"get", a, k>> : a \in Addrs, k \in IF Len(st.held) < MaxHeld THEN {0, 1} ELSE {0}} ELSE {})
       \cup {<<"inv", a>> : a \in Addrs} \cup {<<"range", x, y>> : x \in Bounds, y \in Bounds}
       \cup {<<"all">>} \cup {<<"release">>, <<"destroy">>}
       \cup {<<"nodec", a>> : a \in {CHOOSE x \in Addrs : TRUE}}

Eff(st, op) ==
  CASE op[1] = "get" -> Get(st, op[2], op[3])
    [] op[1] = "inv" -> Seen(Drop(st, LAMBDA a : a = op[2]), <<>>)
    [] op[1] = "range" -> Seen(Drop(st, LAMBDA a : a >= op[2] /\ a < op[3]), <<>>)
    [] op[1] = "all" -> Seen(Drop(st, LAMBDA a : TRUE), <<>>)
    \* The user drops the reference it has held longest.
    [] op[1] = "release" -> Seen(IF st.held = <<>> THEN st ELSE [st EXCEPT !.held = Tail(@)], <<>>)
    \* The cache goes away; a new, empty one replaces it.
    [] op[1] = "destroy" -> Seen(Drop(st, LAMBDA a : TRUE), <<>>)
    [] op[1] = "nodec" -> Seen([st EXCEPT !.nodec = IF op[2] \in @ THEN @ \ {op[2]} ELSE @ \cup {op[2]}], <<>>)

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>
----------------------------------------------------------------------------
\* At most one decoding per address, at the entry where it is looked up.
Placed == \A k \in DOMAIN s.slot : s.slot[k].g # 0 => Idx(s, s.slot[k].a) = k
OnePerAddress == \A j, k \in DOMAIN s.slot : (j # k /\ s.slot[j].g # 0) => s.slot[j].a # s.slot[k].a
\* Invalidation: nothing covered stays, nothing else goes.
InvalidatesExactly ==
  [][ LET cov(a) == CASE ev'[1][1] = "inv" -> a = ev'[1][2]
                      [] ev'[1][1] = "range" -> ev'[1][2] <= a /\ a < ev'[1][3]
                      [] ev'[1][1] \in {"all", "destroy"} -> TRUE
                      [] OTHER -> FALSE
      IN ev'[1][1] \in {"inv", "range", "all", "destroy"} =>
           \A k \in DOMAIN s.slot : s'.slot[k] = IF s.slot[k].g # 0 /\ cov(s.slot[k].a) THEN None ELSE s.slot[k] ]_<<s, ev>>
\* A lookup disturbs at most the entry of its own address.
LookupLocal == [][ ev'[1][1] = "get" => \A k \in DOMAIN s.slot : k # Idx(s, ev'[1][2]) => s'.slot[k] = s.slot[k] ]_<<s, ev>>
\* A decoding the user references stays alive.
HeldAlive == \A i \in 1..Len(s.held) : s.held[i] \in Live(s)
\* Lookups never return a decoding made before the last invalidation that covered it:
\* a decoding that is dropped never comes back.
NoResurrection == [][ \A g \in Cached(s') : g <= s.gen => g \in Cached(s) ]_<<s, ev>>
=============================================================================
