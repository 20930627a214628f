--------------------------- MODULE ComplexResources ---------------------------
(***************************************************************************)
(* Resources that are reserved for future cycles                           *)
(* (generic/complex_resource.h, complex_resource_operand.h).               *)
(*                                                                         *)
(* busy is the set of reserved cycles relative to cycle `last`, the cycle  *)
(* of the last access; the reservation window covers `depth` cycles.       *)
(* mask/size are the cycle mask of one resource operand.                   *)
(*                                                                         *)
(* KnownDefects lists recorded deviations of the code (known_findings.json)*)
(* that are tolerated, exactly as recorded:                                *)
(*  "shift" - advancing by 64 or more cycles at once moves whole words in  *)
(*            the wrong direction;                                         *)
(*  "mask"  - for a depth that is not a multiple of 64 the last word keeps *)
(*            its upper instead of its lower bits.                         *)
(* The design properties are checked with KnownDefects = {}.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Depths, Reqs, Ranges, Steps, KnownDefects

VARIABLES s, ev

Words(d) == (d + 63) \div 64
Configs == {<<"reset", d>> : d \in Depths}
Init0(c) == [depth |-> c[2], now |-> 0, last |-> 0, busy |-> {}, mask |-> {}, size |-> 0]
Sorted(S) == SetToSortSeq(S, <)
ResetOut(c) == <<>>

\* The window after the time that passed since the last access.
Intended(st, n) == IF n > st.depth THEN {} ELSE {b - n : b \in {x \in st.busy : x >= n}}
Defect(st, n) == LET w == n \div 64  r == n % 64
                 IN {b + 64 * w - r : b \in {x \in st.busy : x >= r /\ x + 64 * w < 64 * Words(st.depth)}}
Caught(st) ==
  LET n == st.now - st.last
      At(B) == [st EXCEPT !.last = st.now, !.busy = B]
  IN {At(Intended(st, n))}
     \cup (IF "shift" \in KnownDefects /\ n >= 64 /\ n <= st.depth THEN {At(Defect(st, n))} ELSE {})

\* Which requested cycles a span of `size` words can address and the window holds.
InSpan(req, size) == {b \in req : b < 64 * size}
Window(st) == LET A == Words(st.depth)  m == st.depth % 64
              IN {0..(st.depth - 1)}
                 \cup (IF "mask" \in KnownDefects /\ m # 0
                       THEN {(0..(64 * (A - 1) - 1)) \cup ((64 * A - m)..(64 * A - 1))} ELSE {})

Seen(t, ret) == [s |-> t, out |-> <<ret, Sorted(t.busy)>>]
Req(op) == {op[2][i] : i \in 1..Len(op[2])}

Ops(st) ==
  {<<o, q, k>> : o \in {"acq", "rel", "free"}, q \in Reqs, k \in {1, 3}}
  \cup {<<"adv", n>> : n \in {x \in Steps : st.now - st.last < 2 * st.depth}}
  \cup {<<"range", r[1], r[2]>> : r \in Ranges}
  \cup {<<"mask", q, k>> : q \in Reqs, k \in {0, 1, 2, 3}}
  \cup {<<"ofree">>, <<"oacq">>}

Valid(st, req, k) == /\ k <= Words(st.depth)
                     /\ InSpan(req, k) # {}
                     /\ \A b \in InSpan(req, k) : b < st.depth

Take(st, req) == UNION {{Seen([t EXCEPT !.busy = @ \cup (req \cap W)], TRUE) : W \in Window(t)} : t \in Caught(st)}
Drop(st, req) == UNION {{Seen([t EXCEPT !.busy = @ \ (req \cap W)], TRUE) : W \in Window(t)} : t \in Caught(st)}
Free(st, req) == {Seen(t, t.busy \cap req = {}) : t \in Caught(st)}

Eff(st, op) ==
  CASE op[1] = "acq" -> Take(st, InSpan(Req(op), op[3]))
    [] op[1] = "rel" -> Drop(st, InSpan(Req(op), op[3]))
    [] op[1] = "free" -> Free(st, InSpan(Req(op), op[3]))
    [] op[1] = "adv" -> {[s |-> [st EXCEPT !.now = @ + op[2]], out |-> <<>>]}
    [] op[1] = "range" ->
         {IF op[2] <= op[3] /\ op[3] < st.depth
          THEN LET t == [st EXCEPT !.mask = op[2]..op[3]] IN [s |-> t, out |-> <<TRUE, Sorted(t.mask)>>]
          ELSE [s |-> st, out |-> <<FALSE, Sorted(st.mask)>>]}
    [] op[1] = "mask" ->
         {IF Valid(st, Req(op), op[3])
          THEN LET t == [st EXCEPT !.mask = InSpan(Req(op), op[3])] IN [s |-> t, out |-> <<TRUE, Sorted(t.mask)>>]
          ELSE [s |-> st, out |-> <<FALSE, Sorted(st.mask)>>]}
    [] op[1] = "ofree" -> Free(st, st.mask)
    [] op[1] = "oacq" -> Take(st, st.mask)

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>
----------------------------------------------------------------------------
InWindow == s.busy \subseteq 0..(s.depth - 1)
MaskInWindow == s.mask \subseteq 0..(s.depth - 1)
\* Reserved cycles, in absolute time.
Abs(st) == {st.last + b : b \in st.busy}
\* Time passing loses exactly the reservations in the past; only requests change others.
Persistent == [][ LET gone == {a \in Abs(s) \ Abs(s') : a >= s'.now}
                      new == Abs(s') \ Abs(s)
                      rq == IF ev'[1][1] = "oacq" THEN s.mask
                            ELSE IF ev'[1][1] \in {"acq", "rel"} THEN InSpan(Req(ev'[1]), ev'[1][3]) ELSE {}
                  IN /\ gone \subseteq (IF ev'[1][1] = "rel" THEN {s.now + b : b \in rq} ELSE {})
                     /\ new \subseteq (IF ev'[1][1] \in {"acq", "oacq"} THEN {s.now + b : b \in rq} ELSE {})
                     /\ (ev'[1][1] \in {"acq", "oacq"} => \A b \in rq : b < s.depth => s.now + b \in Abs(s'))
                     /\ (ev'[1][1] = "rel" => \A b \in rq : s.now + b \notin Abs(s')) ]_<<s, ev>>
FreeIsFree == [][ ev'[1][1] = "free" =>
                    (ev'[2][1] <=> \A b \in InSpan(Req(ev'[1]), ev'[1][3]) : (s.now + b) \notin Abs(s)) ]_<<s, ev>>
=============================================================================
