------------------------------- MODULE MemBytes -------------------------------
(***************************************************************************)
(* What every memory of util/memory does: bytes, tags, masked vectors and  *)
(* loads that complete after a latency.  Shared by the specifications of   *)
(* the memories, watchers, atomics and caches.                             *)
(*                                                                         *)
(* Addresses are in addressable units relative to an origin; the harness   *)
(* adds the 64-bit origin.  Byte b of address a is number a*unit + b.      *)
(* Stored data is named by a seed v: byte i of it is (v + i) % 256.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Marker == 238  \* what the harness leaves in a buffer before a load

MInit(unit, fill, gran) ==
  [unit |-> unit, fill |-> fill, gran |-> gran, mem |-> <<>>, tags |-> <<>>, pend |-> <<>>]

Byte(m, b) == IF b \in DOMAIN m.mem THEN m.mem[b] ELSE m.fill
Bytes(m, a, n) == [i \in 1..n |-> Byte(m, a * m.unit + i - 1)]
Tag(m, g) == IF g \in DOMAIN m.tags THEN m.tags[g] ELSE 0
Val(v, n) == [i \in 1..n |-> (v + i - 1) % 256]
Over(f, lo, q) == [x \in DOMAIN f \cup (lo..(lo + Len(q) - 1)) |->
                     IF x >= lo /\ x < lo + Len(q) THEN q[x - lo + 1] ELSE f[x]]

\* Tag granules of bytes a*unit .. a*unit + n - 1.
Granules(m, a, n) == IF m.gran = 0 THEN {} ELSE ((a * m.unit) \div m.gran)..((a * m.unit + n - 1) \div m.gran)
ClearTags(m, a, n) == IF m.gran = 0 THEN m.tags
                      ELSE LET gs == Granules(m, a, n) IN [g \in DOMAIN m.tags \cup gs |-> IF g \in gs THEN 0 ELSE m.tags[g]]
Put(m, a, q) == [m EXCEPT !.mem = Over(@, a * m.unit, q), !.tags = ClearTags(m, a, Len(q))]

\* Vectors: one address (consecutive elements) or one per element.
EAddr(m, as, el, i) == IF Len(as) > 1 THEN as[i] ELSE as[1] + ((i - 1) * el) \div m.unit
On(mask) == {i \in 1..Len(mask) : mask[i] = 1}
VBytes(m, as, mask, el) == FlattenSeq([i \in 1..Len(mask) |->
   IF mask[i] = 1 THEN Bytes(m, EAddr(m, as, el, i), el) ELSE [k \in 1..el |-> Marker]])
RECURSIVE VPutFrom(_, _, _, _, _, _)
VPutFrom(m, as, mask, el, q, i) ==
  IF i > Len(mask) THEN m
  ELSE VPutFrom(IF mask[i] = 1 THEN Put(m, EAddr(m, as, el, i), SubSeq(q, (i - 1) * el + 1, i * el)) ELSE m,
                as, mask, el, q, i + 1)
VPut(m, as, mask, el, v) == VPutFrom(m, as, mask, el, Val(v, Len(mask) * el), 1)

\* Completion of a load: its instruction (k > 0) runs once, after lat cycles,
\* with the data in place; k >= 10: with a context.
Fin(m, lat, k, data, tags) ==
  IF k = 0 THEN [m |-> m, log |-> <<>>]
  ELSE IF lat = 0 THEN [m |-> m, log |-> << <<k, data, tags>> >>]
  ELSE [m |-> [m EXCEPT !.pend = Append(@, <<lat, k, data, tags>>)], log |-> <<>>]
Advance(m) ==
  LET due == SelectSeq(m.pend, LAMBDA p : p[1] = 1)
      rest == SelectSeq(m.pend, LAMBDA p : p[1] > 1)
  IN [m |-> [m EXCEPT !.pend = [i \in 1..Len(rest) |-> <<rest[i][1] - 1, rest[i][2], rest[i][3], rest[i][4]>>]],
      log |-> [i \in 1..Len(due) |-> <<due[i][2], due[i][3], due[i][4]>>]]
\* Live instructions and contexts.
LiveI(m) == Len(m.pend)
LiveC(m) == Len(SelectSeq(m.pend, LAMBDA p : p[2] >= 10))

\* The accesses.  Each yields [m, out], out = <<data, tags, log, instructions, contexts>>.
MkOut(m, data, tags, log) == <<data, tags, log, LiveI(m), LiveC(m)>>
Res(f, data, tags) == [m |-> f.m, out |-> MkOut(f.m, data, tags, f.log)]
Silent(m) == [m |-> m, out |-> MkOut(m, <<>>, <<>>, <<>>)]

DoLd(m, a, n, lat, k) == LET d == Bytes(m, a, n) IN Res(Fin(m, lat, k, d, <<>>), d, <<>>)
DoVld(m, as, mask, el, lat, k) == LET d == VBytes(m, as, mask, el) IN Res(Fin(m, lat, k, d, <<>>), d, <<>>)
\* Tagged accesses: address and size in whole granules, else refused.
Aligned(m, a, n) == (a * m.unit) % m.gran = 0 /\ n % m.gran = 0
TagsAt(m, a, ng) == [i \in 1..ng |-> Tag(m, (a * m.unit) \div m.gran + i - 1)]
DoTld(m, a, ng, lat, k) == \* data of ng granules and their tags
  LET d == Bytes(m, a, ng * m.gran)
      t == TagsAt(m, a, ng)
  IN IF ~Aligned(m, a, ng * m.gran)
     THEN [m |-> m, out |-> MkOut(m, [i \in 1..(ng * m.gran) |-> Marker], [i \in 1..ng |-> Marker], <<>>)]
     ELSE Res(Fin(m, lat, k, d, t), d, t)
DoTonly(m, a, ng, lat, k) == \* tags only
  LET t == TagsAt(m, a, ng)
  IN IF ~Aligned(m, a, 0) THEN [m |-> m, out |-> MkOut(m, <<>>, [i \in 1..ng |-> Marker], <<>>)]
     ELSE Res(Fin(m, lat, k, <<>>, t), <<>>, t)
TPut(m, a, ts, v) ==
  IF ~Aligned(m, a, Len(ts) * m.gran) THEN m
  ELSE LET p == Put(m, a, Val(v, Len(ts) * m.gran))
       IN [p EXCEPT !.tags = Over(@, (a * m.unit) \div m.gran, ts)]

IsAccess(o) == o \in {"st", "ld", "vst", "vld", "tst", "tld", "tonly", "adv"}
Access(m, op) ==
  CASE op[1] = "st" -> Silent(Put(m, op[2], Val(op[4], op[3])))                      \* st a n v
    [] op[1] = "ld" -> DoLd(m, op[2], op[3], op[4], op[5])                           \* ld a n lat k
    [] op[1] = "vst" -> Silent(VPut(m, op[2], op[3], op[4], op[5]))                  \* vst as mask el v
    [] op[1] = "vld" -> DoVld(m, op[2], op[3], op[4], op[5], op[6])                  \* vld as mask el lat k
    [] op[1] = "tst" -> Silent(TPut(m, op[2], op[3], op[4]))                         \* tst a tags v
    [] op[1] = "tld" -> DoTld(m, op[2], op[3], op[4], op[5])                         \* tld a ng lat k
    [] op[1] = "tonly" -> DoTonly(m, op[2], op[3], op[4], op[5])                     \* tonly a ng lat k
    [] op[1] = "adv" -> LET f == Advance(m) IN Res(f, <<>>, <<>>)
=============================================================================
