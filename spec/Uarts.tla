-------------------------------- MODULE Uarts --------------------------------
(* SimpleUart: a memory mapped transmit-only UART.  Word offsets: 0 transmit buffer or (DLAB) divisor low,
   4 interrupt enable or (DLAB) divisor high, 12 line control (bit 7 is DLAB), 28 scratch; the other
   registers and offsets read 0 and ignore writes. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Offsets, Values, Lats, MaxText

VARIABLES s, ev

Configs == {<<"reset", b>> : b \in {0, 1, 2}}
Init0(c) == [lcr |-> 0, dll |-> 0, dlm |-> 0, ier |-> 0, scr |-> 0, text |-> <<>>, pend |-> <<>>]
ResetOut(c) == <<>>

Dlab(st) == (st.lcr \div 128) % 2 = 1
Get(st, o) == CASE o = 0 -> IF Dlab(st) THEN st.dll ELSE 0
                [] o = 4 -> IF Dlab(st) THEN st.dlm ELSE st.ier
                [] o = 12 -> st.lcr
                [] o = 28 -> st.scr
                [] OTHER -> 0
Put(st, o, v) == CASE o = 0 -> IF Dlab(st) THEN [st EXCEPT !.dll = v] ELSE [st EXCEPT !.text = Append(@, v % 256)]
                   [] o = 4 -> IF Dlab(st) THEN [st EXCEPT !.dlm = v] ELSE [st EXCEPT !.ier = v]
                   [] o = 12 -> [st EXCEPT !.lcr = v]
                   [] o = 28 -> [st EXCEPT !.scr = v]
                   [] OTHER -> st
RECURSIVE PutAll(_, _, _)
PutAll(st, o, vs) == IF vs = <<>> THEN st ELSE PutAll(Put(st, o, Head(vs)), o + 4, Tail(vs))

Ops(st) ==
  (IF Len(st.text) < MaxText THEN {<<"st", o, v>> : o \in Offsets, v \in Values} ELSE {})
  \cup {<<"ld", o, n, l>> : o \in Offsets, n \in {1, 2}, l \in Lats}
  \cup {<<"stodd", o, z>> : o \in {0, 1, 12, 30}, z \in {1, 3, 4}}
  \cup {<<"ldodd", o, z, l>> : o \in {0, 28, 29}, z \in {2, 4}, l \in Lats}
  \cup {<<"adv">>, <<"text">>}

Odd(o, z) == o % 4 /= 0 \/ z % 4 /= 0
Load(st, vals, l) == {[s |-> IF l = 0 THEN st ELSE [st EXCEPT !.pend = Append(@, l)], out |-> <<vals, IF l = 0 THEN 1 ELSE 0>>]}
Eff(st, op) ==
  CASE op[1] = "st" -> {[s |-> PutAll(st, op[2], op[3]), out |-> <<>>]}
    [] op[1] = "ld" -> Load(st, [i \in 1..op[3] |-> Get(st, op[2] + 4 * (i - 1))], op[4])
    \* accesses that are not of aligned words have no effect and read zeros
    [] op[1] = "stodd" -> {[s |-> IF Odd(op[2], op[3]) THEN st
                                  ELSE PutAll(st, op[2], [i \in 1..(op[3] \div 4) |-> 0]), out |-> <<>>]}
    [] op[1] = "ldodd" -> IF Odd(op[2], op[3]) THEN Load(st, [i \in 1..op[3] |-> 0], op[4])
                          ELSE Load(st, [i \in 1..op[3] |-> (Get(st, op[2] + ((i - 1) \div 4) * 4) \div (CASE i % 4 = 1 -> 1 [] i % 4 = 2 -> 256 [] i % 4 = 3 -> 65536 [] OTHER -> 16777216)) % 256], op[4])
    [] op[1] = "adv" ->
         LET now == Cardinality({i \in DOMAIN st.pend : st.pend[i] = 1})
             later == SelectSeq(st.pend, LAMBDA x : x > 1)
         IN {[s |-> [st EXCEPT !.pend = [i \in DOMAIN later |-> later[i] - 1]], out |-> <<now>>]}
    \* everything transmitted, and complete lines have been flushed
    [] op[1] = "text" -> {[s |-> st, out |-> <<st.text, TRUE>>]}

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>

-----------------------------------------------------------------------------
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
AppendOnly == [][IsPrefix(s.text, s'.text)]_<<s, ev>>
NoTextWhileLatched == [][(Dlab(s) /\ ev'[1][1] = "st" /\ Len(ev'[1][3]) = 1) => s'.text = s.text]_<<s, ev>>
LoadsPure == [][ev'[1][1] \in {"ld", "ldodd"} => [s' EXCEPT !.pend = s.pend] = s]_<<s, ev>>
=============================================================================
