------------------------------ MODULE IsaDecode ------------------------------
(* The instruction decoder that is generated from an .isa description: every  *)
(* opcode in every slot entry becomes the instruction the description says.   *)
EXTENDS IsaDesc
CONSTANTS Isas,      \* sequence of descriptions
          Addrs,     \* addresses decoded at
          Picks      \* opcode choices of whole instruction words
VARIABLES s, ev

\* ------------------------------------------------------------ decoding
DefOp(S) == S.items[CHOOSE i \in DOMAIN S.items : S.items[i].k = "defop"]
DefInst(S) == [n |-> Default, size |-> DefaultSize(S),
               specs |-> <<[pred |-> "", srcs |-> <<>>, dsts |-> <<>>]>>,
               fmts |-> DefOp(S).disasm, sems |-> DefOp(S).sem, use |-> <<>>, acq |-> <<>>,
               attrs |-> <<>>]
InstOf(P, n, o) == IF o = Default THEN DefInst(P.slots[n])
                   ELSE First(Insts(P, n, <<>>), o)
Elems(m) == IF m.arr THEN <<".0", ".1">> ELSE <<"">>
Chain(P, n, R) ==
  [i \in DOMAIN R.specs |->
     LET sp == R.specs[i]
         Sem == IF R.sems = <<>> THEN DefOp(P.slots[n]).sem[1] ELSE R.sems[i]
     IN <<Sem, IF sp.pred = "" THEN "" ELSE sp.pred \o ".p",
          FlattenSeq([j \in DOMAIN sp.srcs |->
             [k \in DOMAIN Elems(sp.srcs[j]) |->
                sp.srcs[j].n \o ".s" \o ToString(j - 1) \o Elems(sp.srcs[j])[k]]]),
          FlattenSeq([j \in DOMAIN sp.dsts |->
             [k \in DOMAIN Elems(sp.dsts[j]) |->
                <<sp.dsts[j].n \o ".d" \o ToString(j - 1) \o Elems(sp.dsts[j])[k],
                  IF sp.dsts[j].lat = None
                  THEN (IF sp.dsts[j].arr THEN 40 ELSE 30) + j - 1 ELSE sp.dsts[j].lat>>]])>>]
(* The value of every attribute name of the description; -1: the slot has no  *)
(* attribute of the name.                                                     *)
Attrs(P, n, R) ==
  [k \in DOMAIN P.attrs |->
     IF P.attrs[k] \notin AttrNames(P, n) THEN -1
     ELSE IF Idx(R.attrs, P.attrs[k]) = {} THEN 0 ELSE First(R.attrs, P.attrs[k]).v]
Decoded(P, n, o, addr) ==
  LET R == InstOf(P, n, o)
  IN <<o, Chain(P, n, R), Text(P, R, addr), Attrs(P, n, R), Resources(P, R)>>
(* The slots of the instruction word: [n, entry].                             *)
Word(P) == FlattenSeq([i \in DOMAIN P.list |->
              IF P.list[i].ix = <<>> THEN <<[n |-> P.list[i].n, e |-> 0]>>
              ELSE [j \in DOMAIN P.list[i].ix |-> [n |-> P.list[i].n, e |-> P.list[i].ix[j]]]])
OpsOf(P, n) == <<Default>> \o [i \in DOMAIN Insts(P, n, <<>>) |-> Insts(P, n, <<>>)[i].n]
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))

\* ------------------------------------------------------------ machine
Configs == {<<"reset", p>> : p \in DOMAIN Isas}
Init0(c) == [isa |-> c[2], built |-> FALSE]
ResetOut(c) == <<>>
Ops(t) ==
  LET P == Isas[t.isa]
  IN IF ~t.built THEN {<<"build">>}
     ELSE {<<"decode", n, o, e, a>> : n \in Listed(P), o \in UNION {RangeOf(OpsOf(P, m)) : m \in Listed(P)},
             e \in {0}, a \in Addrs}
Eff(t, op) ==
  LET P == Isas[t.isa]
  IN CASE op[1] = "build" ->
          {[s |-> [t EXCEPT !.built = WellFormed(P)],
            out |-> <<IF WellFormed(P) THEN "ok" ELSE "rejected">>]}
       [] op[1] = "decode" ->
          (IF ~t.built \/ op[3] \notin RangeOf(OpsOf(P, op[2])) THEN {}
           ELSE {[s |-> t, out |-> <<InstOf(P, op[2], op[3]).size,
                                     Decoded(P, op[2], op[3], op[5])>>]})
       [] op[1] = "word" ->
          (LET w == Word(P)
               os == op[2]
           IN IF ~t.built THEN {}
              ELSE {[s |-> t, out |-> <<Sum([i \in DOMAIN w |-> InstOf(P, w[i].n, os[i]).size]),
                                        [i \in DOMAIN w |-> Decoded(P, w[i].n, os[i], op[3])]>>]})

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>

\* ------------------------------------------------------------ properties
(* Every opcode of a slot decodes; the slot instance plays no role.           *)
Total == s.built => \A n \in Listed(Isas[s.isa]) :
           \A o \in RangeOf(OpsOf(Isas[s.isa], n)) : Eff(s, <<"decode", n, o, 0, 0>>) # {}
(* An inherited opcode that isn't overridden has the operands, resources and  *)
(* latencies of the base slot's.                                              *)
Inherit == s.built =>
  LET P == Isas[s.isa]
  IN \A n \in Used(P) : P.slots[n].params = <<>> =>
       \A i \in DOMAIN P.slots[n].bases :
         LET b == P.slots[n].bases[i]
             B == Insts(P, b.n, ArgVals(P, P.slots[n], <<>>, b))
         IN \A k \in DOMAIN B :
              (\A j \in DOMAIN P.slots[n].ops : P.slots[n].ops[j].n # B[k].n)
                => InstOf(P, n, B[k].n) = B[k]
(* Resources that are acquired must be free, unless they are only held.       *)
HeldIsUsed == s.built =>
  LET P == Isas[s.isa]
  IN \A n \in Listed(P) : \A o \in RangeOf(OpsOf(P, n)) :
       \A k \in DOMAIN P.res :
         LET r == Resources(P, InstOf(P, n, o))[k]
         IN r[1] = "simple" => \A i \in DOMAIN r[3] : r[3][i][1] = 0
NonNegative == s.built =>
  LET P == Isas[s.isa]
  IN \A n \in Listed(P) : \A o \in RangeOf(OpsOf(P, n)) :
       LatsOK(P, P.slots[n], InstOf(P, n, o), TRUE)
=============================================================================
