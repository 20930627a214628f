---------------------------- MODULE DelayLineRing ----------------------------
(***************************************************************************)
(* Implementation-shaped model of DelayLine: a circular buffer of record   *)
(* lists whose size is a power of two, grown by Resize() when a latency    *)
(* does not fit.  TLC checks that it refines the abstract DelayLine, i.e.  *)
(* that wrap-around and growth never change when anything fires.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Sizes, Lats, ReLats, MaxPending, MaxAdds
VARIABLES ring,   \* sequence of lists of [id, re, born, lat, seq]
          cur,    \* current slot (0-based)
          now, next, obs

RECURSIVE BitCeil(_, _)
BitCeil(n, p) == IF p >= n THEN p ELSE BitCeil(n, 2 * p)

Slot(i) == ring[i + 1]
Count == LET RECURSIVE Sum(_)
             Sum(i) == IF i = 0 THEN 0 ELSE Len(ring[i]) + Sum(i - 1)
         IN Sum(Len(ring))

\* Growth keeps slots cur..size-1 in place and moves slots 0..cur-1 behind the old end.
Grow(r, c, min) ==
  LET p == Len(r)
      n == BitCeil(min + 1, 1)
  IN [i \in 1..n |->
        IF i <= p THEN (IF i - 1 < c THEN <<>> ELSE r[i])
        ELSE IF i - p - 1 < c THEN r[i - p] ELSE <<>>]

Put(r, c, rec) ==
  LET r2 == IF rec.lat >= Len(r) THEN Grow(r, c, rec.lat) ELSE r
      pos == (c + rec.lat) % Len(r2)
  IN [r2 EXCEPT ![pos + 1] = Append(@, rec)]

Init == /\ \E z \in Sizes : ring = [i \in 1..BitCeil(z, 1) |-> <<>>]
        /\ cur = 0 /\ now = 0 /\ next = 1 /\ obs = <<>>

Add(l, re) ==
  /\ Count < MaxPending /\ next <= MaxAdds
  /\ ring' = Put(ring, cur, [id |-> next, re |-> re, born |-> now, lat |-> l])
  /\ next' = next + 1
  /\ obs' = <<"add", l, re>>
  /\ UNCHANGED <<cur, now>>

RECURSIVE Refill(_, _, _, _, _)
Refill(r, c, fired, n, t) ==
  IF fired = <<>> THEN r
  ELSE IF Head(fired).re = 0 THEN Refill(r, c, Tail(fired), n, t)
  ELSE Refill(Put(r, c, [id |-> n, re |-> 0, born |-> t, lat |-> Head(fired).re]),
              c, Tail(fired), n + 1, t)

Advance ==
  LET c == (cur + 1) % Len(ring)
      fired == ring[c + 1]
  IN /\ cur' = c
     /\ now' = now + 1
     /\ next' = next + Cardinality({i \in 1..Len(fired) : fired[i].re # 0})
     /\ ring' = Refill([ring EXCEPT ![c + 1] = <<>>], c, fired, next, now + 1)
     /\ obs' = <<"advance", [i \in 1..Len(fired) |-> fired[i].id]>>

Next == Advance \/ \E l \in Lats, re \in ReLats : Add(l, re)
Spec == Init /\ [][Next]_<<ring, cur, now, next, obs>>

----------------------------------------------------------------------------
(* Refinement: the pending actions, ordered by id (= Add order). *)
All == UNION {{ring[i][j] : j \in 1..Len(ring[i])} : i \in 1..Len(ring)}
\* Distance of the slot holding the action from the current slot.
Left(r) == LET i == CHOOSE k \in 1..Len(ring) : \E j \in 1..Len(ring[k]) : ring[k][j] = r
               d == (i - 1 + Len(ring) - cur) % Len(ring)
           IN d
RECURSIVE SortById(_)
SortById(S) == IF S = {} THEN <<>>
               ELSE LET m == CHOOSE x \in S : \A y \in S : x.id <= y.id
                    IN <<m>> \o SortById(S \ {m})
Pend == [i \in 1..Cardinality(All) |->
           LET r == SortById(All)[i]
           IN [id |-> r.id, left |-> Left(r), re |-> r.re, born |-> r.born, lat |-> r.lat]]

AbsEv == IF obs = <<>> THEN <<<<"reset", 0>>, <<TRUE>>>>
         ELSE IF obs[1] = "add"
              THEN <<<<"add", obs[2], obs[3]>>, <<next - 1, Cardinality(All), FALSE>>>>
              ELSE <<<<"advance">>, <<obs[2], Cardinality(All), All = {}>>>>

Abs == INSTANCE DelayLine WITH s <- [pend |-> Pend, now |-> now, next |-> next], ev <- AbsEv
\* Step-wise refinement stated directly (the abstract state function must follow Eff).
AbsS == [pend |-> Pend, now |-> now, next |-> next]
StepRefines ==
  [][ \E r \in Abs!Eff(AbsS, IF obs'[1] = "add" THEN obs' ELSE <<"advance">>) :
        r.s = AbsS' /\ r.out = AbsEv'[2] ]_<<ring, cur, now, next, obs>>
PowerOfTwo == Len(ring) = BitCeil(Len(ring), 1)
Fits == \A r \in All : now + Left(r) = r.born + r.lat /\ Left(r) > 0
=============================================================================
