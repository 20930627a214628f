---------------------------- MODULE RenodeAgents ----------------------------
(* The C interface Renode uses (RenodeAgent) with the memory accesses that go back over its system bus
   (RenodeMemoryAccess).  Simulators are reached through ids; every call concerns exactly the simulator
   with that id.  The simulated core is the environment: it stops at given positions for given
   reasons. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Slots,   \* the client's variables holding ids
          Cores,   \* sequence of sets of stops <<position, reason>>
          Ids,     \* ids a new simulator may get (relative to the ids used before this execution)
          Nums, Values, Lats,
          Lens, Tags  \* name lengths and bus callbacks (0: none)

VARIABLES s, ev

Configs == {<<"reset", k>> : k \in {1}}
Init0(c) == [id |-> [k \in Slots |-> -99], sim |-> <<>>, n |-> 0]
ResetOut(c) == <<>>

MemSize == 16
None == -99
New(core, nl, rd, wr) ==
  [core |-> core, nl |-> nl, rd |-> rd, wr |-> wr, pos |-> 0, why |-> "none", bad |-> 0,
   reg |-> [r \in 0..2 |-> 0], mem |-> [a \in 0..MemSize - 1 |-> 0], pend |-> <<>>]
Live(st) == DOMAIN st.sim
Has(st, k) == st.id[k] \in Live(st)
Sim(st, k) == st.sim[st.id[k]]
Upd(st, k, m) == [st EXCEPT !.sim[st.id[k]] = m]
Put(st, k, i, m) == [st EXCEPT !.id[k] = i, !.sim = [j \in (DOMAIN @) \cup {i} |-> IF j = i THEN m ELSE @[j]]]

-----------------------------------------------------------------------------
\* Stepping: the core runs until it has executed n instructions or stops.
Stops(m) == {x \in Cores[m.core] : x[1] > m.pos}
Code(r) == CASE r = "bp" -> 3 [] r = "done" -> -1 [] r = "semi" -> -1 [] OTHER -> 0
Done(m) == \E x \in Cores[m.core] : x[2] = "done" /\ m.pos >= x[1]
StepEff(m, n) ==
  IF n = 0 THEN [m |-> m, n |-> 0, st |-> 0]
  ELSE IF m.bad = 1 \/ m.why = "semi" THEN [m |-> m, n |-> 0, st |-> -1]
  ELSE IF Done(m) THEN [m |-> [m EXCEPT !.why = "done"], n |-> 0, st |-> -1]
  ELSE LET hit == {x \in Stops(m) : x[1] <= m.pos + n}
       IN IF hit = {} THEN [m |-> [m EXCEPT !.pos = @ + n, !.why = "none"], n |-> n, st |-> 0]
          ELSE LET x == CHOOSE y \in hit : \A z \in hit : y[1] <= z[1]
               IN IF x[2] = "err" THEN [m |-> [m EXCEPT !.pos = x[1], !.why = "none"], n |-> 0, st |-> -1]
                  ELSE [m |-> [m EXCEPT !.pos = x[1], !.why = x[2]], n |-> x[1] - m.pos, st |-> Code(x[2])]

BusByte(tag, a, i) == IF tag = 0 THEN 0 ELSE (a + i + 16 * tag) % 256
Given(tag, a, z) == IF tag = 2 /\ a % 2 = 1 THEN z - 1 ELSE z    \* this callback reads one byte too few there

Ops(st) ==
  {<<"construct", k, c, nl, rd, wr>> : k \in Slots, c \in 0..Len(Cores), nl \in Lens, rd \in Tags, wr \in Tags}
  \cup {<<"connect", k, q, d, c, nl, rd, wr>> :
          k \in Slots, q \in {x \in Slots : st.id[x] /= None}, d \in {0, 1}, c \in 0..Len(Cores), nl \in Lens, rd \in Tags, wr \in Tags}
  \cup {<<"destruct", k>> : k \in {x \in Slots : ~Has(st, x) \/ Sim(st, x).pend = <<>>}}
  \cup {<<"step", k, n, w>> : k \in Slots, n \in Nums, w \in {0, 1}}
  \cup {<<"badwhy", k, b>> : k \in {x \in Slots : Has(st, x)}, b \in {0, 1}}
  \cup {<<"rdreg", k, r>> : k \in Slots, r \in {0, 2, 3}}
  \cup {<<"wrreg", k, r, v>> : k \in Slots, r \in {0, 3}, v \in Values}
  \cup {<<"reginfo", k, i>> : k \in Slots, i \in {1, 7}}
  \cup {<<"regsize", k>> : k \in Slots} \cup {<<"hwreset", k>> : k \in Slots}
  \cup {<<"rdmem", k, a, n>> : k \in Slots, a \in {0, 14, 16}, n \in {1, 4}}
  \cup {<<"wrmem", k, a, v>> : k \in Slots, a \in {0, 14, 16}, v \in {<<x, x + 1, x>> : x \in Values}}
  \cup {<<"image", k, n, f>> : k \in Slots, n \in {0, 65536, 65537}, f \in {0, 1}}
  \cup {<<"elf", k, g, y>> : k \in Slots, g \in {0, 1}, y \in {0, 1}}
  \cup {<<"config", k, g, n>> : k \in Slots, g \in {0, 1}, n \in {1, 2}}
  \cup {<<"irq", k, i, b>> : k \in Slots, i \in {1, 9}, b \in {0, 1}}
  \cup {<<"load", k, a, z, l>> : k \in {x \in Slots : Has(st, x)}, a \in {4, 5}, z \in {1, 4}, l \in Lats}
  \cup {<<"store", k, a, z>> : k \in {x \in Slots : Has(st, x)}, a \in {4}, z \in {1, 4}}
  \cup {<<"adv", k>> : k \in {x \in Slots : Has(st, x)}}

\* Results of calls on an id with no simulator.
NoSim(op) ==
  CASE op[1] = "step" -> <<0, IF op[4] = 1 THEN -1 ELSE 99>>
    [] op[1] = "rdreg" -> <<-1, -1>>
    [] op[1] = "reginfo" -> <<-1, 0>>
    [] op[1] = "rdmem" -> <<0, <<>>>>
    [] op[1] = "wrmem" -> <<0>>
    [] op[1] = "elf" -> <<0, -1, 0>>
    [] op[1] = "config" -> <<-1, 0>>
    [] op[1] = "irq" -> <<-1, <<>>>>
    [] op[1] = "image" -> <<-1, 1>>
    [] OTHER -> <<-1>>

Eff(st, op) ==
  LET k == op[2] IN
  IF op[1] = "construct" THEN
    IF op[3] = 0 THEN {[s |-> [st EXCEPT !.id[k] = None], out |-> <<None, 1>>]}
    ELSE {[s |-> Put(st, k, i, New(op[3], op[4], op[5], op[6])), out |-> <<i, 1>>] : i \in Ids \ Live(st)}
  ELSE IF op[1] = "connect" THEN
    LET i == st.id[op[3]] + op[4] IN
    IF i \in Live(st) THEN   \* connect with it; bus callbacks that are missing are filled in
      LET m == st.sim[i]
      IN {[s |-> Put(st, k, i, [m EXCEPT !.rd = IF @ = 0 THEN op[7] ELSE @, !.wr = IF @ = 0 THEN op[8] ELSE @]), out |-> <<i, 0>>]}
    ELSE IF op[5] = 0 THEN {[s |-> [st EXCEPT !.id[k] = None], out |-> <<None, 1>>]}
    ELSE {[s |-> Put(st, k, i, New(op[5], op[6], op[7], op[8])), out |-> <<i, 1>>]}
  ELSE IF op[1] = "destruct" THEN
    {[s |-> IF Has(st, k) THEN [st EXCEPT !.sim = [j \in (DOMAIN @) \ {st.id[k]} |-> @[j]]] ELSE st,
      out |-> <<IF Has(st, k) THEN 1 ELSE 0>>]}
  ELSE IF ~Has(st, k) THEN {[s |-> st, out |-> NoSim(op)]}
  ELSE LET m == Sim(st, k) IN
  CASE op[1] = "step" -> LET r == StepEff(m, op[3])
                         IN {[s |-> Upd(st, k, r.m), out |-> <<r.n, IF op[4] = 1 THEN r.st ELSE 99>>]}
    [] op[1] = "badwhy" -> {[s |-> Upd(st, k, [m EXCEPT !.bad = op[3]]), out |-> <<>>]}
    [] op[1] = "rdreg" -> {[s |-> st, out |-> IF op[3] \in 0..2 THEN <<0, m.reg[op[3]]>> ELSE <<-1, -1>>]}
    [] op[1] = "wrreg" -> {IF op[3] \in 0..2 THEN [s |-> Upd(st, k, [m EXCEPT !.reg[op[3]] = op[4]]), out |-> <<0>>]
                           ELSE [s |-> st, out |-> <<-1>>]}
    [] op[1] = "reginfo" -> {[s |-> st, out |-> IF op[3] \in 0..2 THEN <<0, m.nl>> ELSE <<-1, 0>>]}
    [] op[1] = "regsize" -> {[s |-> st, out |-> <<3>>]}
    [] op[1] = "hwreset" -> {[s |-> st, out |-> <<0>>]}
    [] op[1] = "rdmem" ->
         LET n == IF op[3] >= MemSize THEN 0 ELSE IF op[4] > MemSize - op[3] THEN MemSize - op[3] ELSE op[4]
         IN {[s |-> st, out |-> <<n, [i \in 1..n |-> m.mem[op[3] + i - 1]]>>]}
    [] op[1] = "wrmem" ->
         LET z == Len(op[4])
             n == IF op[3] >= MemSize THEN 0 ELSE IF z > MemSize - op[3] THEN MemSize - op[3] ELSE z
         IN {[s |-> Upd(st, k, [m EXCEPT !.mem = [a \in DOMAIN @ |-> IF a >= op[3] /\ a < op[3] + n THEN op[4][a - op[3] + 1] ELSE @[a]]]),
              out |-> <<n>>]}
    \* a file is written in full, every byte in its place; f = 0: there is no such file; f = 2: memory ends before it does
    [] op[1] = "image" -> {[s |-> st, out |-> <<IF op[4] = 1 THEN 0 ELSE -1, 1>>]}
    [] op[1] = "elf" -> {[s |-> st, out |-> IF op[3] = 1 THEN <<2748, 0, 1>> ELSE <<0, -1, 1>>]}
    [] op[1] = "config" -> {[s |-> st, out |-> <<IF op[3] = 1 THEN 0 ELSE -1, op[4]>>]}
    [] op[1] = "irq" -> {[s |-> st, out |-> <<IF op[3] < 8 THEN 0 ELSE -1, <<op[3], op[4]>>>>]}
    [] op[1] = "load" ->
         LET g == Given(m.rd, op[3], op[4])
         IN {[s |-> Upd(st, k, IF op[5] = 0 THEN m ELSE [m EXCEPT !.pend = Append(@, op[5])]),
              out |-> <<m.rd, [i \in 1..g |-> BusByte(m.rd, op[3], i - 1)], IF op[5] = 0 THEN 1 ELSE 0>>]}
    [] op[1] = "store" -> {[s |-> st, out |-> IF m.wr = 0 THEN <<0, <<>>>> ELSE <<m.wr, [i \in 1..op[4] |-> (op[3] + 3 * i) % 256]>>]}
    [] op[1] = "adv" ->
         LET now == Cardinality({i \in DOMAIN m.pend : m.pend[i] = 1})
             later == SelectSeq(m.pend, LAMBDA x : x > 1)
         IN {[s |-> Upd(st, k, [m EXCEPT !.pend = [i \in DOMAIN later |-> later[i] - 1]]), out |-> <<now>>]}

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>

-----------------------------------------------------------------------------
\* The others never notice a call.
Isolation ==
  [][\A i \in DOMAIN s.sim : i /= s.id[ev'[1][2]] /\ i /= s'.id[ev'[1][2]] => i \in DOMAIN s'.sim /\ s'.sim[i] = s.sim[i]]_<<s, ev>>
\* Never more instructions than asked for, and the core is exactly that much further on.
ExactSteps ==
  [][(ev'[1][1] = "step" /\ Has(s, ev'[1][2])) =>
       /\ ev'[2][1] \in 0..ev'[1][3]
       /\ (\A x \in Cores[Sim(s, ev'[1][2]).core] : x[2] /= "err") => Sim(s', ev'[1][2]).pos = Sim(s, ev'[1][2]).pos + ev'[2][1]]_<<s, ev>>
NoPast == \A i \in Live(s) : \A x \in Cores[s.sim[i].core] : x[2] = "done" => s.sim[i].pos <= x[1]
=============================================================================
