------------------------------ MODULE Registers ------------------------------
(***************************************************************************)
(* Write-back of results into architectural state                          *)
(* (generic/data_buffer, register, control_register, status_register,      *)
(*  devnull_operand, state_item, arch_state).                              *)
(*                                                                         *)
(* buf[i] is the contents (a pair: lower and upper half) of data buffer i; *)
(* it is referenced by registers, by in-flight writes and by user holds    *)
(* ("slots").  Its reference count is derived from those, and it may be    *)
(* recycled exactly when nothing references it (it is then removed).       *)
(*                                                                         *)
(* Destinations: plain registers "a", "b"; "r" a reserved register whose   *)
(* resource is released by each write; "c" a control register whose        *)
(* callback (here: store odd values only) is all that a write does; "s" a  *)
(* read-only status register; "n" a null destination.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Lats, Vals, Lines, Slots, Hows, MaxFly

VARIABLES s, ev

Regs == {"a", "b", "r", "c"}
Dests == Regs \cup {"s", "n"}
RegSeq == <<"a", "b", "r", "c">>

Configs == {<<"reset">>}
Init0(c) == [reg |-> [r \in Regs |-> CASE r = "a" -> 1 [] r = "b" -> 2 [] r = "r" -> 3 [] r = "c" -> 4],
             slot |-> [i \in 1..2 |-> 0],
             fly |-> <<>>,
             buf |-> [i \in 1..4 |-> <<0, 0>>],
             busy |-> FALSE,
             fns |-> <<>>, nfn |-> 1,
             cyc |-> 0]

Count(S) == Cardinality(S)
Refs(st, i) == Count({r \in Regs : st.reg[r] = i}) + Count({k \in 1..2 : st.slot[k] = i})
               + Count({k \in 1..Len(st.fly) : st.fly[k].b = i})

\* Drop the unreferenced buffers.
Collect(st) ==
  LET keep == {i \in DOMAIN st.buf : Refs(st, i) > 0}
  IN [st EXCEPT !.buf = [i \in keep |-> st.buf[i]]]

Fresh(st) == CHOOSE i \in 1..(Cardinality(DOMAIN st.buf) + 1) :
               i \notin DOMAIN st.buf /\ \A j \in 1..(i - 1) : j \in DOMAIN st.buf

WithBuf(f, i, v) == [j \in DOMAIN f \cup {i} |-> IF j = i THEN v ELSE f[j]]

\* What all operations observe.
Obs(st, cbs, fired) ==
  << [k \in 1..4 |-> LET i == st.reg[RegSeq[k]] IN <<st.buf[i][1], st.buf[i][2], Refs(st, i)>>],
     [k \in 1..2 |-> IF st.slot[k] = 0 THEN <<>>
                     ELSE LET i == st.slot[k] IN <<st.buf[i][1], st.buf[i][2], Refs(st, i)>>],
     ~st.busy, cbs, fired, st.cyc,
     \A k \in 1..Len(st.fly) : st.fly[k].ln # 1 >>

ResetOut(c) == Obs(Init0(c), <<>>, <<>>)

\* Buffer i arrives at destination d.  Returns [s, cb].
Deliver(st, d, i) ==
  CASE d \in {"a", "b"} -> [s |-> [st EXCEPT !.reg[d] = i], cb |-> <<>>]
    [] d = "r" -> [s |-> [st EXCEPT !.reg["r"] = i, !.busy = FALSE], cb |-> <<>>]
    [] d = "c" -> [s |-> IF st.buf[i][1] % 2 = 1 THEN [st EXCEPT !.reg["c"] = i] ELSE st,
                   cb |-> << st.buf[i] >>]
    [] OTHER -> [s |-> st, cb |-> <<>>]

Submit(st, d, i, lat, ln) ==
  IF d = "n" \/ lat = 0
  THEN Deliver(st, d, i)
  ELSE [s |-> [st EXCEPT !.fly = Append(@, [d |-> d, b |-> i, left |-> lat, ln |-> ln])],
        cb |-> <<>>]

\* how: 0 Set+Submit(), 1 SetSubmit(index), 2 SetSubmit(span), 3 Submit(lat), 4 partial update
\* of a copy of the current value, k: slot that keeps an additional reference (0 = none)
Write(st, d, lat, v, how, k, ln) ==
  LET i == Fresh(st)
      val == IF how = 4 /\ d \in Regs THEN <<v, st.buf[st.reg[d]][2]>> ELSE <<v, v>>
      st1 == [st EXCEPT !.buf = WithBuf(@, i, val),
                        !.slot = IF k = 0 THEN @ ELSE [@ EXCEPT ![k] = i]]
      r == Submit(st1, d, i, lat, ln)
      st2 == Collect(r.s)
  IN [s |-> st2, out |-> Obs(st2, r.cb, <<>>)]

Resubmit(st, k, d, lat, ln) ==
  LET r == Submit(st, d, st.slot[k], lat, ln)
      st2 == Collect(r.s)
  IN [s |-> st2, out |-> Obs(st2, r.cb, <<>>)]

\* Delivery of a sequence of due writes, in order.
RECURSIVE DeliverAll(_, _, _)
DeliverAll(st, q, cbs) ==
  IF q = <<>> THEN [s |-> st, cb |-> cbs]
  ELSE LET r == Deliver(st, Head(q).d, Head(q).b) IN DeliverAll(r.s, Tail(q), cbs \o r.cb)

Advance(st, first) ==
  LET Due1(x) == x.left = 1 /\ x.ln = first
      Due2(x) == x.left = 1 /\ x.ln # first
      Wait(x) == x.left > 1
      FDue(x) == x[2] = 1
      FWait(x) == x[2] > 1
      due == SelectSeq(st.fly, Due1) \o SelectSeq(st.fly, Due2)
      rest == SelectSeq(st.fly, Wait)
      \* a due write keeps its reference until delivered, so it is delivered before it leaves
      r == DeliverAll(st, due, <<>>)
      fd == SelectSeq(st.fns, FDue)
      fw == SelectSeq(st.fns, FWait)
      st2 == Collect([r.s EXCEPT !.fly = [j \in 1..Len(rest) |-> [rest[j] EXCEPT !.left = @ - 1]],
                                 !.fns = [j \in 1..Len(fw) |-> <<fw[j][1], fw[j][2] - 1>>],
                                 !.cyc = @ + 1])
  IN [s |-> st2, out |-> Obs(st2, r.cb, [j \in 1..Len(fd) |-> fd[j][1]])]

Ops(st) ==
  {<<"adv">>}
  \cup {<<"self", r>> : r \in {"a", "r"}}
  \cup {<<"acq">> : x \in {y \in {1} : ~st.busy}}
  \cup (IF Len(st.fly) < MaxFly THEN
          {<<"w", d, l, v, h, 0, ln>> : d \in Dests, l \in Lats, v \in Vals, h \in Hows, ln \in Lines}
          \cup {<<"w", d, l, v, 0, k, ln>> : d \in Dests, l \in Lats, v \in Vals,
                  k \in {j \in Slots : st.slot[j] = 0}, ln \in Lines}
          \cup {<<"resub", k, d, l, ln>> : d \in Dests, l \in Lats,
                  k \in {j \in Slots : st.slot[j] # 0}, ln \in Lines}
        ELSE {})
  \cup {<<"drop", k>> : k \in {j \in Slots : st.slot[j] # 0}}
  \cup {<<"poke", k, v>> : v \in Vals, k \in {j \in Slots : st.slot[j] # 0}}

Eff(st, op) ==
  CASE op[1] = "adv" -> {Advance(st, 1), Advance(st, 2)}
    [] op[1] = "w" -> {Write(st, op[2], op[3], op[4], op[5], op[6], op[7])}
    [] op[1] = "resub" -> {Resubmit(st, op[2], op[3], op[4], op[5])}
    [] op[1] = "drop" -> {LET t == Collect([st EXCEPT !.slot[op[2]] = 0])
                          IN [s |-> t, out |-> Obs(t, <<>>, <<>>)]}
    [] op[1] = "poke" -> {LET t == [st EXCEPT !.buf[st.slot[op[2]]] = <<op[3], op[3]>>]
                          IN [s |-> t, out |-> Obs(t, <<>>, <<>>)]}
    [] op[1] = "self" -> {LET t == Deliver(st, op[2], st.reg[op[2]]).s
                          IN [s |-> t, out |-> Obs(t, <<>>, <<>>)]}
    [] op[1] = "acq" -> {LET t == [st EXCEPT !.busy = TRUE]
                         IN [s |-> t, out |-> Obs(t, <<>>, <<>>)]}
    [] op[1] = "fn" -> {LET t == [st EXCEPT !.fns = Append(@, <<st.nfn, op[2]>>), !.nfn = @ + 1]
                        IN [s |-> t, out |-> Obs(t, <<>>, <<>>)]}

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>
----------------------------------------------------------------------------
\* A buffer exists iff something references it; the value of a register always exists.
LiveIffReferenced == \A i \in DOMAIN s.buf : Refs(s, i) > 0
RegistersHaveValues == \A r \in Regs : s.reg[r] \in DOMAIN s.buf
SlotsAlive == \A k \in 1..2 : s.slot[k] # 0 => s.slot[k] \in DOMAIN s.buf
FlyAlive == \A k \in 1..Len(s.fly) : s.fly[k].b \in DOMAIN s.buf /\ s.fly[k].left >= 1
\* A register changes only by a zero-latency write to it or when a write to it is due.
OnlyDueWrites ==
  [][ \A r \in Regs : s'.reg[r] # s.reg[r] =>
        \/ ev'[1][1] = "w" /\ ev'[1][2] = r /\ ev'[1][3] = 0
        \/ ev'[1][1] = "resub" /\ ev'[1][3] = r /\ ev'[1][4] = 0
        \/ ev'[1][1] = "adv" /\ \E k \in 1..Len(s.fly) : s.fly[k].d = r /\ s.fly[k].left = 1
                                                         /\ s.fly[k].b = s'.reg[r]
    ]_<<s, ev>>
\* Each in-flight write leaves exactly when due, and then its destination is updated.
ArrivesOnTime ==
  [][ ev'[1][1] = "adv" =>
        /\ Len(s'.fly) = Len(s.fly) - Count({k \in 1..Len(s.fly) : s.fly[k].left = 1})
        /\ \A r \in {"a", "b", "r"} :
             (\E k \in 1..Len(s.fly) : s.fly[k].d = r /\ s.fly[k].left = 1) =>
               \E k \in 1..Len(s.fly) : s.fly[k].d = r /\ s.fly[k].left = 1 /\ s.fly[k].b = s'.reg[r]
    ]_<<s, ev>>
\* The resource stays acquired until a write to the reserved register arrives.
ReleaseOnWrite ==
  [][ s.busy /\ ~s'.busy => \/ ev'[1][1] \in {"w", "self"} /\ ev'[1][2] = "r"
                            \/ ev'[1][1] = "resub" /\ ev'[1][3] = "r"
                            \/ ev'[1][1] = "adv" /\ \E k \in 1..Len(s.fly) : s.fly[k].d = "r" ]_<<s, ev>>
=============================================================================
