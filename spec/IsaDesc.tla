------------------------------ MODULE IsaDesc -------------------------------
(* What an .isa description means (instruction_set_visitor, instruction_set,  *)
(* slot, instruction, opcode, resource, template_expression).                 *)
(*                                                                            *)
(* A description is data (P): slots with template parameters, constants,      *)
(* defaults and opcodes, slots that inherit opcodes from (templated) slots,   *)
(* delete or override some of them, opcodes with up to three operand          *)
(* specifications, disassembly formats, semantic functions, resources and     *)
(* attributes.  This module says which descriptions are well formed, and what *)
(* instructions the slots have.  IsaDecode and IsaAsm are the generated       *)
(* decoder and the generated assembler.                                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

Bad == 1000000007            \* an expression without a value
None == -999999
Default == "none"

RangeOf(q) == {q[i] : i \in DOMAIN q}
\* ------------------------------------------------------------ expressions
(* <<"n", v>>, <<"id", x>>, <<"neg", e>>, <<"abs", e>>, <<op, a, b>>.         *)
Quot(a, b) ==                \* C++ division
  LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b)
  IN IF (a < 0) = (b < 0) THEN q ELSE -q
RECURSIVE Val(_, _)
(* env: [par: name -> value, loc: constants, dst: destinations, glob: ...];   *)
(* constants are sequences of [n, e], each may use those before it.           *)
Idx(q, x) == {i \in DOMAIN q : q[i].n = x}
First(q, x) == q[CHOOSE i \in Idx(q, x) : \A j \in Idx(q, x) : i <= j]
Lookup(x, env) ==
  IF x \in DOMAIN env.par THEN env.par[x]
  ELSE IF Idx(env.loc, x) # {} THEN
    LET i == CHOOSE k \in Idx(env.loc, x) : TRUE
    IN Val(env.loc[i].e, [env EXCEPT !.loc = SubSeq(@, 1, i - 1), !.dst = <<>>])
  ELSE IF Idx(env.dst, x) # {} THEN
    (IF First(env.dst, x).lat = None THEN Bad ELSE First(env.dst, x).lat)
  ELSE IF Idx(env.glob, x) # {} THEN
    LET i == CHOOSE k \in Idx(env.glob, x) : TRUE
    IN Val(env.glob[i].e, [par |-> <<>>, loc |-> <<>>, dst |-> <<>>,
                           glob |-> SubSeq(env.glob, 1, i - 1)])
  ELSE Bad
Val(e, env) ==
  CASE e[1] = "n" -> e[2]
    [] e[1] = "id" -> Lookup(e[2], env)
    [] e[1] = "neg" -> (LET a == Val(e[2], env) IN IF a = Bad THEN Bad ELSE -a)
    [] e[1] = "abs" -> (LET a == Val(e[2], env)
                        IN IF a = Bad THEN Bad ELSE IF a < 0 THEN -a ELSE a)
    [] OTHER ->
       (LET a == Val(e[2], env)
            b == Val(e[3], env)
        IN IF a = Bad \/ b = Bad THEN Bad
           ELSE CASE e[1] = "+" -> a + b
                  [] e[1] = "-" -> a - b
                  [] e[1] = "*" -> a * b
                  [] e[1] = "/" -> (IF b = 0 THEN Bad ELSE Quot(a, b)))
\* the destinations a resource expression refers to
RECURSIVE Refs(_, _)
Refs(e, env) ==
  CASE e[1] = "n" -> {}
    [] e[1] = "id" -> (IF e[2] \in DOMAIN env.par \/ Idx(env.loc, e[2]) # {} THEN {}
                       ELSE IF Idx(env.dst, e[2]) # {} THEN {e[2]} ELSE {})
    [] e[1] \in {"neg", "abs"} -> Refs(e[2], env)
    [] OTHER -> Refs(e[2], env) \cup Refs(e[3], env)

\* ------------------------------------------------------------ slots
HasSlot(P, n) == n \in DOMAIN P.slots
Consts(S) == SelectSeq(S.items, LAMBDA it : it.k = "const")
Items(S, k) == SelectSeq(S.items, LAMBDA it : it.k = k)
(* The parameters of slot S bound to args, its constants, the globals.        *)
Env(P, S, args) ==
  [par |-> [x \in RangeOf(S.params) |-> args[CHOOSE i \in DOMAIN S.params : S.params[i] = x]],
   loc |-> Consts(S), dst |-> <<>>, glob |-> P.consts]
(* constants defined before item i only *)
EnvAt(P, S, args, i) ==
  [Env(P, S, args) EXCEPT !.loc = Consts([items |-> SubSeq(S.items, 1, i - 1)])]
ArgVals(P, S, args, b) ==
  [i \in DOMAIN b.args |-> Val(b.args[i], [Env(P, S, args) EXCEPT !.loc = <<>>])]
LastItem(S, k) == CHOOSE i \in DOMAIN S.items : S.items[i].k = k /\
                    \A j \in DOMAIN S.items : S.items[j].k = k => j <= i
HasItem(S, k) == \E i \in DOMAIN S.items : S.items[i].k = k
DefaultLat(P, S, args) ==
  IF HasItem(S, "lat") THEN Val(S.items[LastItem(S, "lat")].e,
                                EnvAt(P, S, args, LastItem(S, "lat")))
  ELSE 1
DefaultSize(S) == IF HasItem(S, "size") THEN S.items[LastItem(S, "size")].v ELSE 1

AttrVals(P, q, env) ==
  [i \in DOMAIN q |-> [n |-> q[i].n, v |-> IF q[i].e = <<>> THEN 1 ELSE Val(q[i].e, env)]]
RECURSIVE DefAttrs(_, _, _, _)
DefAttrs(P, S, args, i) ==   \* the first declaration of a name counts
  IF i > Len(S.items) THEN <<>>
  ELSE (IF S.items[i].k = "attrs" THEN AttrVals(P, S.items[i].q, EnvAt(P, S, args, i))
        ELSE <<>>) \o DefAttrs(P, S, args, i + 1)

\* ------------------------------------------------------------ opcodes
(* Destinations of operand specification d, in order: [n, arr, lat].          *)
RECURSIVE Dests(_, _, _, _, _, _)
Dests(P, S, args, ds, i, acc) ==
  IF i > Len(ds) THEN acc
  ELSE LET l == ds[i].lat
           v == CASE l[1] = "def" -> DefaultLat(P, S, args)
                  [] l[1] = "*" -> None
                  [] OTHER -> Val(l[2], [Env(P, S, args) EXCEPT !.dst = acc])
       IN Dests(P, S, args, ds, i + 1, Append(acc, [n |-> ds[i].n, arr |-> ds[i].arr,
                                                          rel |-> ds[i].rel, lat |-> v]))
AllDests(specs) == FlattenSeq([i \in DOMAIN specs |-> specs[i].dsts])
(* Resource item r of an instruction with these operand specifications.       *)
Item(r, env) ==
  LET b == IF r.b = <<>> THEN 0 ELSE Val(r.b, env)
      named == IF Idx(env.dst, r.n) # {} THEN {r.n} ELSE {}
      target == IF named # {} THEN named ELSE IF r.b = <<>> THEN {} ELSE Refs(r.b, env)
      e == IF r.e # <<>> THEN Val(r.e, env)
           ELSE IF target = {} THEN 0
           ELSE LET d == First(env.dst, CHOOSE x \in target : TRUE)
                IN IF d.lat = None THEN 0 ELSE d.lat
      all == named \cup (IF r.b = <<>> THEN {} ELSE Refs(r.b, env))
                   \cup (IF r.e = <<>> THEN {} ELSE Refs(r.e, env))
  IN [n |-> r.n, arr |-> r.arr, b |-> b, e |-> e, ok |-> Cardinality(all) <= 1]
RECURSIVE UseOf(_, _, _)
UseOf(use, acq, i) ==        \* an acquired resource must be free as well
  IF i > Len(acq) THEN use
  ELSE UseOf(IF Idx(use, acq[i].n) = {} THEN Append(use, acq[i]) ELSE use, acq, i + 1)
ResDetails(S, a) == IF a.res[1] = "ref"
                    THEN S.items[CHOOSE i \in DOMAIN S.items :
                                   S.items[i].k = "res" /\ S.items[i].n = a.res[2]].d
                    ELSE a.res[2]
Map(f(_), q) == [i \in DOMAIN q |-> f(q[i])]
(* Applies the given parts of an opcode's attribute list to instruction R.    *)
Apply(P, S, args, a, R) ==
  LET env == [Env(P, S, args) EXCEPT !.dst = AllDests(R.specs)]
      It(r) == Item(r, env)
      use == IF a.res = <<>> THEN <<>> ELSE Map(It, ResDetails(S, a).use)
      acq == IF a.res = <<>> THEN <<>> ELSE Map(It, ResDetails(S, a).acq)
      hold == IF a.res = <<>> THEN <<>> ELSE Map(It, ResDetails(S, a).hold)
  IN [R EXCEPT !.fmts = IF a.disasm = <<>> THEN @ ELSE a.disasm,
               !.sems = IF a.sem = <<>> THEN @ ELSE a.sem,
               !.use = IF a.res = <<>> THEN @ ELSE UseOf(use, acq, 1),
               !.acq = IF a.res = <<>> THEN @ ELSE acq \o hold,
               !.attrs = IF a.attr = <<>> THEN @ ELSE AttrVals(P, a.attr, env)]
Own(P, S, args, o) ==
  LET specs == [i \in DOMAIN o.specs |->
                  [pred |-> o.specs[i].pred, srcs |-> o.specs[i].srcs,
                   dsts |-> Dests(P, S, args, o.specs[i].dsts, 1, <<>>)]]
      R == [n |-> o.n, size |-> IF o.size = 0 THEN DefaultSize(S) ELSE o.size,
            specs |-> specs, fmts |-> <<>>, sems |-> <<>>, use |-> <<>>, acq |-> <<>>,
            attrs |-> DefAttrs(P, S, args, 1)]
  IN Apply(P, S, args, o.a, R)
(* The instructions of slot n instantiated with args: inherited ones that are *)
(* neither deleted nor replaced, with the overrides applied, and its own.     *)
RECURSIVE Insts(_, _, _)
Inherited(P, S, args) ==
  FlattenSeq([i \in DOMAIN S.bases |->
     SelectSeq(Insts(P, S.bases[i].n, ArgVals(P, S, args, S.bases[i])),
               LAMBDA R : \A j \in DOMAIN S.ops : ~(S.ops[j].k = "del" /\ S.ops[j].n = R.n))])
Insts(P, n, args) ==
  LET S == P.slots[n]
      Ovr(R) == LET J == {j \in DOMAIN S.ops : S.ops[j].k = "ovr" /\ S.ops[j].n = R.n}
                IN IF J = {} THEN R
                   ELSE Apply(P, S, args, S.ops[CHOOSE j \in J : TRUE].a, R)
      own == SelectSeq(S.ops, LAMBDA o : o.k = "op")
      Mk(o) == Own(P, S, args, o)
  IN Map(Ovr, Inherited(P, S, args)) \o Map(Mk, own)
(* The names of the attributes of the instructions of a slot.                 *)
NamesOf(q) == {q[i].n : i \in DOMAIN q}
AttrNames(P, n) ==
  LET S == P.slots[n]
      inh == Inherited(P, S, <<>>)
  IN NamesOf(DefAttrs(P, S, <<>>, 1))
     \cup UNION {NamesOf(inh[i].attrs) : i \in DOMAIN inh}
     \cup UNION {IF S.ops[j].k = "del" THEN {} ELSE NamesOf(S.ops[j].a.attr) : j \in DOMAIN S.ops}

\* ------------------------------------------------------------ well-formedness
RECURSIVE Reach(_, _)
Reach(P, X) ==
  LET Y == X \cup UNION {{P.slots[n].bases[i].n : i \in DOMAIN P.slots[n].bases} : n \in
                           {m \in X : HasSlot(P, m)}}
  IN IF Y = X THEN X ELSE Reach(P, Y)
Listed(P) == {P.list[i].n : i \in DOMAIN P.list}
Used(P) == Reach(P, Listed(P))
Known(P, e, env) == Val(e, env) # Bad
Distinct(q) == \A i, j \in DOMAIN q : i # j => q[i] # q[j]
(* Ancestors of a slot, with repetition, as a sequence. *)
RECURSIVE Anc(_, _)
Anc(P, n) == FlattenSeq([i \in DOMAIN P.slots[n].bases |->
                           <<P.slots[n].bases[i].n>> \o Anc(P, P.slots[n].bases[i].n)])
Acyclic(P) == \A n \in Used(P) : n \notin
                 Reach(P, {P.slots[n].bases[i].n : i \in DOMAIN P.slots[n].bases})
Zeros(S) == [i \in DOMAIN S.params |-> 1]
(* Operand locators: the first mention of a name in an opcode.                *)
Mentions(specs) ==
  FlattenSeq([i \in DOMAIN specs |->
     (IF specs[i].pred = "" THEN <<>>
      ELSE <<[n |-> specs[i].pred, k |-> "p", i |-> i, j |-> 1, arr |-> FALSE, rel |-> FALSE]>>)
     \o [j \in DOMAIN specs[i].srcs |->
           [n |-> specs[i].srcs[j].n, k |-> "s", i |-> i, j |-> j, arr |-> specs[i].srcs[j].arr,
            rel |-> specs[i].srcs[j].rel]]
     \o [j \in DOMAIN specs[i].dsts |->
           [n |-> specs[i].dsts[j].n, k |-> "d", i |-> i, j |-> j, arr |-> specs[i].dsts[j].arr,
            rel |-> specs[i].dsts[j].rel]]])
FmtOps(fmts) == {p[2] : p \in {q \in UNION {RangeOf(fmts[i]) : i \in DOMAIN fmts} :
                                q[1] = "o" \/ (q[1] = "f" /\ q[2] # "")}}
ResOK(S, a) == a.res = <<>> \/ a.res[1] = "d" \/
               \E i \in DOMAIN S.items : S.items[i].k = "res" /\ S.items[i].n = a.res[2]
AttrsOK(q, env) == Distinct([i \in DOMAIN q |-> q[i].n]) /\
                   \A i \in DOMAIN q : q[i].e = <<>> \/ Val(q[i].e, env) # Bad
ItemsOK(q) == \A i \in DOMAIN q : q[i].ok /\ q[i].b # Bad /\ q[i].e # Bad
(* One opcode's attribute list, applied to an instruction with these specs.   *)
ListOK(P, S, args, a, specs) ==
  /\ ResOK(S, a)
  /\ a.sem = <<>> \/ Len(a.sem) >= Len(specs)
  /\ FmtOps(a.disasm) \subseteq {Mentions(specs)[i].n : i \in DOMAIN Mentions(specs)}
  /\ LET env == [Env(P, S, args) EXCEPT !.dst = AllDests(specs)]
         It(r) == Item(r, env)
     IN /\ AttrsOK(a.attr, env)
        /\ a.res # <<>> => LET d == ResDetails(S, a)
                           IN ItemsOK(Map(It, d.use \o d.acq \o d.hold))
LatsOK(P, S, R, strict) ==
  \A i \in DOMAIN R.specs : \A j \in DOMAIN R.specs[i].dsts :
     LET l == R.specs[i].dsts[j].lat IN l # Bad /\ (strict => l = None \/ l >= 0)
SlotOK(P, n) ==
  LET S == P.slots[n]
      args == Zeros(S)
      inh == Inherited(P, S, args)
      own == Map(LAMBDA o : Own(P, S, args, o), SelectSeq(S.ops, LAMBDA o : o.k = "op"))
      Count(x) == Cardinality({i \in DOMAIN S.bases :
                     \E j \in DOMAIN Insts(P, S.bases[i].n, Zeros(P.slots[S.bases[i].n])) :
                       Insts(P, S.bases[i].n, Zeros(P.slots[S.bases[i].n]))[j].n = x})
  IN /\ Distinct(S.params)
     /\ Distinct(Anc(P, n))
     /\ \A i \in DOMAIN S.bases : Len(S.bases[i].args) = Len(P.slots[S.bases[i].n].params)
     /\ \A i \in DOMAIN S.bases : \A j \in DOMAIN S.bases[i].args :
           Known(P, S.bases[i].args[j], [Env(P, S, args) EXCEPT !.loc = <<>>])
     /\ Distinct([i \in DOMAIN Consts(S) |-> Consts(S)[i].n])
     /\ NamesOf(Consts(S)) \cap RangeOf(S.params) = {}
     /\ Distinct([i \in DOMAIN Items(S, "res") |-> Items(S, "res")[i].n])
     /\ \A i \in DOMAIN S.items :
          CASE S.items[i].k \in {"const", "lat"} -> Known(P, S.items[i].e, EnvAt(P, S, args, i))
            [] S.items[i].k = "attrs" -> AttrsOK(S.items[i].q, EnvAt(P, S, args, i))
            [] OTHER -> TRUE
     /\ Cardinality({i \in DOMAIN S.items : S.items[i].k = "defop"}) <= 1
     /\ \A i \in DOMAIN S.items : S.items[i].k = "defop" =>
          Len(S.items[i].sem) = 1 /\ FmtOps(S.items[i].disasm) = {}
     /\ \A j \in DOMAIN S.ops :
          CASE S.ops[j].k = "del" -> Count(S.ops[j].n) >= 1
            [] S.ops[j].k = "ovr" -> Count(S.ops[j].n) = 1 /\
                 (\E i \in DOMAIN inh : inh[i].n = S.ops[j].n) /\
                 (\A i \in DOMAIN inh : inh[i].n = S.ops[j].n =>
                     ListOK(P, S, args, S.ops[j].a, inh[i].specs))
            [] OTHER -> ListOK(P, S, args, S.ops[j].a, Own(P, S, args, S.ops[j]).specs)
     /\ Distinct([i \in DOMAIN inh |-> inh[i].n])
     /\ NamesOf(inh) \cap NamesOf(own) = {}
     /\ \A i \in DOMAIN inh : LatsOK(P, S, inh[i], S.params = <<>>)
     /\ \A i \in DOMAIN own : LatsOK(P, S, own[i], S.params = <<>>)
OwnNames(P, n) == [i \in DOMAIN SelectSeq(P.slots[n].ops, LAMBDA o : o.k = "op") |->
                     SelectSeq(P.slots[n].ops, LAMBDA o : o.k = "op")[i].n]
WellFormed(P) ==
  /\ P.isa
  /\ Distinct([i \in DOMAIN P.consts |-> P.consts[i].n])
  /\ \A i \in DOMAIN P.consts : Known(P, P.consts[i].e,
        [par |-> <<>>, loc |-> <<>>, dst |-> <<>>, glob |-> SubSeq(P.consts, 1, i - 1)])
  /\ P.dup = {}
  /\ \A n \in Used(P) : HasSlot(P, n)
  /\ Acyclic(P)
  /\ \A n \in Used(P) : \A i \in DOMAIN P.slots[n].bases :
       Len(P.slots[n].bases[i].args) = Len(P.slots[P.slots[n].bases[i].n].params)
  /\ \A n \in Used(P) : SlotOK(P, n)
  /\ \A m, n \in Used(P) : m # n =>
       RangeOf(OwnNames(P, m)) \cap RangeOf(OwnNames(P, n)) = {}
  /\ \A n \in Used(P) : Distinct(OwnNames(P, n))
  /\ \A i \in DOMAIN P.list :
       /\ HasItem(P.slots[P.list[i].n], "defop")
       /\ P.slots[P.list[i].n].params = <<>>
       /\ \A j \in DOMAIN P.list[i].ix : P.list[i].ix[j] < P.slots[P.list[i].n].count

\* ------------------------------------------------------------ resources
(* A resource is complex if some instruction acquires it from a cycle other   *)
(* than the one it issues in; others only need an availability time.          *)
Complex(P, r) ==
  \E n \in Used(P) : P.slots[n].params = <<>> /\
     LET I == Insts(P, n, <<>>)
     IN \E i \in DOMAIN I : \E j \in DOMAIN I[i].acq : I[i].acq[j].n = r /\ I[i].acq[j].b # 0
Sorted(q) == SortSeq(q, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
(* What is asked of each of the resources of the description, in its order:   *)
(* whether it must be free, over which cycles, and when it is held.           *)
Resources(P, R) ==
  [k \in DOMAIN P.res |->
     LET r == P.res[k]
         u == SelectSeq(R.use, LAMBDA x : x.n = r)
         a == SelectSeq(R.acq, LAMBDA x : x.n = r)
         cx == Complex(P, r)
         cyc(q) == Sorted([i \in DOMAIN q |-> <<q[i].b, q[i].e>>])
     IN IF u = <<>> /\ a = <<>> THEN <<"none", <<>>, <<>>>>
        ELSE IF cx THEN <<"complex", cyc(u), cyc(a)>>
        ELSE <<"simple", (IF u = <<>> THEN <<>> ELSE <<<<0, -1>>>>),
               Sorted([i \in DOMAIN a |-> <<0, a[i].e>>])>>]

\* ------------------------------------------------------------ text
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
DigitX == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
RECURSIVE Num(_, _, _)
Num(n, base, D) == IF n < base THEN D[n + 1] ELSE Num(n \div base, base, D) \o D[(n % base) + 1]
RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN "" ELSE c \o Rep(c, n - 1)
Pow(k) == 2 ^ k
(* The low b bits of v as a signed number. *)
Trunc(v, b) == LET m == v % Pow(b) IN IF m >= Pow(b - 1) THEN m - Pow(b) ELSE m
Width(v, w) ==
  IF w = 0 THEN v
  ELSE IF w <= 2 THEN Trunc(v, 8) ELSE IF w <= 4 THEN Trunc(v, 16) ELSE v
(* C's %0wd, %wx, ... of v; x is prefixed with 0x. *)
Formatted(v, f) ==
  LET neg == v < 0
      m == Num(IF neg THEN -v ELSE v, IF f.base = "d" THEN 10 ELSE IF f.base = "o" THEN 8 ELSE 16,
               IF f.base = "X" THEN DigitX ELSE Digit)
      n == Len(m) + (IF neg THEN 1 ELSE 0)
      sg == IF neg THEN "-" ELSE ""
  IN (IF f.base = "x" THEN "0x" ELSE "")
     \o (IF f.zero THEN sg \o Rep("0", f.w - n) \o m ELSE Rep(" ", f.w - n) \o sg \o m)
Locate(R, x) == First(Mentions(R.specs), x)
(* Operand number: its position among the sources (destinations).             *)
OpName(m) == m.n \o "." \o m.k \o (IF m.k = "p" THEN "" ELSE ToString(m.j - 1))
             \o (IF m.arr THEN ".0" ELSE "")
PartText(P, R, addr, p) ==
  CASE p[1] = "t" -> p[2]
    [] p[1] = "o" -> OpName(Locate(R, p[2]))
    [] OTHER ->
       (LET f == p[3]
            v == IF p[2] = "" THEN 0 ELSE Width(P.vals[p[2]], f.w)
            sh == IF f.sh >= 0 THEN v * Pow(f.sh) ELSE v \div Pow(-f.sh)
        IN Formatted(CASE f.at = "" -> sh [] f.at = "@" -> addr
                       [] f.at = "+" -> addr + sh [] OTHER -> addr - sh, f))
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE Head(q) \o Cat(Tail(q))
Pad(t, w) == IF w >= 0 THEN Rep(" ", w - Len(t)) \o t ELSE t \o Rep(" ", -w - Len(t))
Text(P, R, addr) ==
  Cat([i \in DOMAIN R.fmts |->
         Pad(Cat([j \in DOMAIN R.fmts[i] |-> PartText(P, R, addr, R.fmts[i][j])]),
             IF i <= Len(P.widths) THEN Val(P.widths[i], [par |-> <<>>, loc |-> <<>>, dst |-> <<>>,
                                                          glob |-> <<>>]) ELSE 0)])
=============================================================================
