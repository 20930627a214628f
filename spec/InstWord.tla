------------------------------ MODULE InstWord ------------------------------
(* The tools that turn a .bin_fmt description into an instruction decoder,    *)
(* field extractors and an encoder (bin_format_visitor, format, overlay,      *)
(* instruction_encoding, encoding_group, instruction_group).                  *)
(*                                                                            *)
(* A description is data (Progs): formats that lay out named fields over the  *)
(* bits of an instruction word, overlays that name an arbitrary selection of  *)
(* those bits mixed with constant bits, and instructions given by constraints *)
(* on fields and overlays, some of them specialisations of others.  The       *)
(* machine holds one instruction word; its operations are those of the        *)
(* generated code: extract a field or overlay, insert one, start from an      *)
(* opcode's encoding, decode.                                                 *)
(*                                                                            *)
(* Words and values are sequences of four 16-bit limbs, least significant     *)
(* first, because TLC's integers have 32 bits.                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS Progs,      \* sequence of descriptions
          WordSet,    \* words used when behaviours are generated
          ValSet      \* values inserted when behaviours are generated
VARIABLES s, ev

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
Zero == <<0, 0, 0, 0>>
Bit(w, i) == (w[(i \div 16) + 1] \div P2[(i % 16) + 1]) % 2
SetBit(w, i, b) ==
  LET k == (i \div 16) + 1
      m == P2[(i % 16) + 1]
      o == (w[k] \div m) % 2
  IN [w EXCEPT ![k] = @ + (b - o) * m]

(* bits: most significant first. *)
\* limb l (0..3) of the number given by bits, extended with bit x to 64 bits
LimbOf(bits, x, l) ==
  LET n == Len(bits)
      B(i) == IF i < n THEN bits[n - i] ELSE x
      b == 16 * l
  IN IF b >= n THEN x * 65535
     ELSE B(b) + 2 * B(b+1) + 4 * B(b+2) + 8 * B(b+3) + 16 * B(b+4) + 32 * B(b+5)
          + 64 * B(b+6) + 128 * B(b+7) + 256 * B(b+8) + 512 * B(b+9) + 1024 * B(b+10)
          + 2048 * B(b+11) + 4096 * B(b+12) + 8192 * B(b+13) + 16384 * B(b+14)
          + 32768 * B(b+15)
Limbs(bits, x) == <<LimbOf(bits, x, 0), LimbOf(bits, x, 1), LimbOf(bits, x, 2),
                    LimbOf(bits, x, 3)>>

Less(a, b) ==
  \/ a[4] < b[4]
  \/ a[4] = b[4] /\ a[3] < b[3]
  \/ a[4] = b[4] /\ a[3] = b[3] /\ a[2] < b[2]
  \/ a[4] = b[4] /\ a[3] = b[3] /\ a[2] = b[2] /\ a[1] < b[1]

-----------------------------------------------------------------------------
(* Layout. A format is [w, base, fields, ovls]; fields are laid out from the  *)
(* most significant bit down, each [n, w, sg, rep] (rep > 1: consecutive      *)
(* instances of a sub-format); an overlay is [n, w, sg, parts], a part is     *)
(* <<"f", field>>, <<"fr", field, hi, lo>>, <<"r", hi, lo>> or <<"c", bits>>. *)
RECURSIVE SumW(_, _)
SumW(fs, i) == IF i > Len(fs) THEN 0 ELSE fs[i].w * fs[i].rep + SumW(fs, i + 1)
FieldLow(F, i) == SumW(F.fields, i + 1)

FieldIx(F, n) == {i \in DOMAIN F.fields : F.fields[i].n = n}
OvlIx(F, n) == {i \in DOMAIN F.ovls : F.ovls[i].n = n}
IsField(F, n) == FieldIx(F, n) # {}
IsOvl(F, n) == OvlIx(F, n) # {}
TheField(F, n) == CHOOSE i \in FieldIx(F, n) : TRUE
TheOvl(F, n) == CHOOSE i \in OvlIx(F, n) : TRUE

Down(hi, lo) == [k \in 1..(hi - lo + 1) |-> hi - k + 1]

\* bit positions of instance x (0 = leftmost) of a field
FieldPos(F, n, x) ==
  LET i == TheField(F, n)
      f == F.fields[i]
      hi == FieldLow(F, i) + f.w * f.rep - 1 - x * f.w
  IN Down(hi, hi - f.w + 1)

\* constant bits are -1 (zero) and -2 (one)
PartPos(F, q) ==
  CASE q[1] = "f" -> FieldPos(F, q[2], 0)
    [] q[1] = "fr" -> LET lo == FieldLow(F, TheField(F, q[2])) IN Down(lo + q[3], lo + q[4])
    [] q[1] = "r" -> Down(q[2], q[3])
    [] OTHER -> [k \in DOMAIN q[2] |-> -1 - q[2][k]]
RECURSIVE PartsPos(_, _, _)
PartsPos(F, ps, i) == IF i > Len(ps) THEN <<>> ELSE PartPos(F, ps[i]) \o PartsPos(F, ps, i + 1)

Pos(F, n, x) == IF IsField(F, n) THEN FieldPos(F, n, x)
                ELSE PartsPos(F, F.ovls[TheOvl(F, n)].parts, 1)
Signed(F, n) == IF IsField(F, n) THEN F.fields[TheField(F, n)].sg ELSE F.ovls[TheOvl(F, n)].sg

Bits(w, pos) == [k \in DOMAIN pos |-> IF pos[k] >= 0 THEN Bit(w, pos[k]) ELSE -1 - pos[k]]

RECURSIVE InsFrom(_, _, _, _)
InsFrom(w, pos, v, k) ==
  IF k > Len(pos) THEN w
  ELSE InsFrom(IF pos[k] >= 0 THEN SetBit(w, pos[k], Bit(v, Len(pos) - k)) ELSE w, pos, v, k + 1)
Ins(w, F, n, x, v) == InsFrom(w, Pos(F, n, x), v, 1)

Fm(p, f) == Progs[p].fmts[f]
RECURSIVE Derives(_, _, _)
Derives(p, f, g) == f = g \/ (Fm(p, f).base # "" /\ Derives(p, Fm(p, f).base, g))

-----------------------------------------------------------------------------
(* Which descriptions the generator has to take and which to refuse.          *)
MaxPos(v) == Cardinality({i \in 0..63 : \E j \in i..63 : Bit(v, j) = 1})  \* bit width of v
NameW(F, n) == IF IsField(F, n) THEN F.fields[TheField(F, n)].w ELSE F.ovls[TheOvl(F, n)].w
Fits(F, n, v) == MaxPos(v) <= NameW(F, n) - (IF Signed(F, n) THEN 1 ELSE 0)
ConOk(F, c) ==
  /\ IsField(F, c.l) \/ IsOvl(F, c.l)
  /\ c.r # "" => IsField(F, c.r) \/ IsOvl(F, c.r)
  /\ c.r = "" => /\ Fits(F, c.l, c.v)
                 /\ Signed(F, c.l) => c.op \in {"==", "!="}
PartOk(F, q) ==
  CASE q[1] = "f" -> IsField(F, q[2])
    [] q[1] = "fr" -> /\ IsField(F, q[2])
                      /\ q[3] >= q[4]
                      /\ q[3] < F.fields[TheField(F, q[2])].w
    [] q[1] = "r" -> q[2] >= q[3] /\ q[2] < F.w
    [] OTHER -> Len(q[2]) > 0
FmtOk(p, f) ==
  LET F == Fm(p, f) IN
  /\ SumW(F.fields, 1) = F.w
  /\ F.base # "" => F.base \in DOMAIN Progs[p].fmts /\ Fm(p, F.base).w = F.w
  /\ \A i, j \in DOMAIN F.fields : i # j => F.fields[i].n # F.fields[j].n
  /\ \A i, j \in DOMAIN F.ovls : i # j => F.ovls[i].n # F.ovls[j].n
  /\ \A i \in DOMAIN F.ovls :
       /\ ~IsField(F, F.ovls[i].n)
       /\ \A k \in DOMAIN F.ovls[i].parts : PartOk(F, F.ovls[i].parts[k])
       /\ Len(PartsPos(F, F.ovls[i].parts, 1)) = F.ovls[i].w
InstOk(p, I) ==
  /\ I.fmt \in DOMAIN Progs[p].fmts
  /\ Derives(p, I.fmt, Progs[p].root)
  /\ \A k \in DOMAIN I.cons : ConOk(Fm(p, I.fmt), I.cons[k])
  /\ \A q \in DOMAIN I.specs : \A k \in DOMAIN I.specs[q].cons :
        ConOk(Fm(p, I.fmt), I.specs[q].cons[k])
WellFormed(p) ==
  /\ \A f \in DOMAIN Progs[p].fmts : FmtOk(p, f)
  /\ \A i \in DOMAIN Progs[p].insts : InstOk(p, Progs[p].insts[i])
\* amb: some word matches two instructions (given with the description and
\* checked against the definition below for the small ones)
BuildResults(p) ==
  IF ~WellFormed(p) THEN {"rejected"}
  ELSE IF Progs[p].amb THEN {"ok", "rejected"} ELSE {"ok"}

-----------------------------------------------------------------------------
(* Which names an extractor exists for in a format's namespace: its own, and  *)
(* possibly those of derived formats on whose meaning all of them agree.      *)
Has(p, f, n) == IsField(Fm(p, f), n) \/ IsOvl(Fm(p, f), n)
Meaning(p, f, n) == <<Pos(Fm(p, f), n, 0), Signed(Fm(p, f), n),
                      IF IsField(Fm(p, f), n) THEN Fm(p, f).fields[TheField(Fm(p, f), n)].rep
                      ELSE 1>>
Owners(p, f, n) == {g \in DOMAIN Progs[p].fmts : Derives(p, g, f) /\ Has(p, g, n)}
Names(p, f) == {Fm(p, f).fields[i].n : i \in DOMAIN Fm(p, f).fields}
               \cup {Fm(p, f).ovls[i].n : i \in DOMAIN Fm(p, f).ovls}
AllNames(p) == UNION {Names(p, f) : f \in DOMAIN Progs[p].fmts}
Inst(p, f, n) == IF IsField(Fm(p, f), n) THEN Fm(p, f).fields[TheField(Fm(p, f), n)].rep ELSE 1
\* computed once per description: for each format and name the positions of its
\* instances, its sign, the owners and whether they agree
NameTable ==
  [p \in DOMAIN Progs |->
     IF ~WellFormed(p) THEN <<>>
     ELSE [f \in DOMAIN Progs[p].fmts |-> [n \in AllNames(p) |->
        LET os == Owners(p, f, n) IN
        [pos |-> IF Has(p, f, n)
                 THEN [x \in 1..Inst(p, f, n) |-> Pos(Fm(p, f), n, x - 1)] ELSE <<>>,
         sg |-> IF Has(p, f, n) THEN Signed(Fm(p, f), n) ELSE FALSE,
         os |-> os,
         agree |-> Cardinality({Meaning(p, g, n) : g \in os}) = 1]]]]
Agree(p, f, n) == NameTable[p][f][n].agree
Ext(p, f, n, x, w) ==
  LET e == NameTable[p][f][n]
      b == Bits(w, e.pos[x + 1])
  IN Limbs(b, IF e.sg THEN b[1] ELSE 0)
InsAt(p, f, n, x, w, v) == InsFrom(w, NameTable[p][f][n].pos[x + 1], v, 1)
\* the results an extraction of n through the namespace of f may give
ExtResults(p, f, n, x, w) ==
  LET os == NameTable[p][f][n].os IN
  IF os = {} THEN {<<"absent">>}
  ELSE IF Agree(p, f, n)
       THEN LET g == CHOOSE g \in os : TRUE IN
            {Ext(p, g, n, x, w)} \cup (IF f \in os THEN {} ELSE {<<"absent">>})
       ELSE (IF f \in os THEN {Ext(p, f, n, x, w)} ELSE {}) \cup {<<"absent">>}
InsResults(p, f, n, x, w, v) ==
  LET os == NameTable[p][f][n].os IN
  IF os = {} THEN {<<"absent">>}
  ELSE IF Agree(p, f, n)
       THEN LET g == CHOOSE g \in os : TRUE IN
            {InsAt(p, g, n, x, w, v)} \cup (IF f \in os THEN {} ELSE {<<"absent">>})
       ELSE (IF f \in os THEN {InsAt(p, f, n, x, w, v)} ELSE {}) \cup {<<"absent">>}

-----------------------------------------------------------------------------
(* Decoding. A constraint is [l, op, r, v]: r # "" compares with a field.     *)
Cmp(op, a, b) ==
  CASE op = "==" -> a = b
    [] op = "!=" -> a # b
    [] op = "<" -> Less(a, b)
    [] op = "<=" -> ~Less(b, a)
    [] op = ">" -> Less(b, a)
    [] OTHER -> ~Less(a, b)
\* Constraints with their bit positions, computed once per description.
Compiled(F, cs) ==
  [i \in DOMAIN cs |-> [op |-> cs[i].op, v |-> cs[i].v, l |-> Pos(F, cs[i].l, 0),
                        b |-> LET n == NameW(F, cs[i].l) IN [k \in 1..n |-> Bit(cs[i].v, n - k)],
                        r |-> IF cs[i].r = "" THEN <<>> ELSE Pos(F, cs[i].r, 0)]]
PosLimbs(w, pos) == Limbs(Bits(w, pos), 0)
Sat(w, cs) ==
  \A i \in DOMAIN cs :
    IF cs[i].op = "==" /\ cs[i].r = <<>>
    THEN \A k \in DOMAIN cs[i].l :
           (IF cs[i].l[k] >= 0 THEN Bit(w, cs[i].l[k]) ELSE -1 - cs[i].l[k]) = cs[i].b[k]
    ELSE Cmp(cs[i].op, PosLimbs(w, cs[i].l),
             IF cs[i].r = <<>> THEN cs[i].v ELSE PosLimbs(w, cs[i].r))
Tables ==
  [p \in DOMAIN Progs |->
     IF ~WellFormed(p) THEN <<>>
     ELSE [i \in DOMAIN Progs[p].insts |->
             LET I == Progs[p].insts[i] F == Fm(p, I.fmt) IN
             [n |-> I.n, fmt |-> I.fmt, cons |-> Compiled(F, I.cons),
              specs |-> [k \in DOMAIN I.specs |->
                           [n |-> I.specs[k].n, cons |-> Compiled(F, I.specs[k].cons)]]]]]
Matches(p, w) == {i \in DOMAIN Tables[p] : Sat(w, Tables[p][i].cons)}
Chosen(p, w, i) ==
  LET I == Tables[p][i]
      sp == {k \in DOMAIN I.specs : Sat(w, I.specs[k].cons)}
  IN IF sp = {} THEN {<<I.n, I.fmt>>} ELSE {<<I.specs[k].n, I.fmt>> : k \in sp}
Decodings(p, w) ==
  LET m == Matches(p, w) IN
  IF m = {} THEN {<<"none", "none">>} ELSE UNION {Chosen(p, w, i) : i \in m}

\* The bits the equality constraints of an instruction fix.
RECURSIVE EncFrom(_, _, _, _)
EncFrom(F, cs, i, w) ==
  IF i > Len(cs) THEN w
  ELSE EncFrom(F, cs, i + 1,
               IF cs[i].op = "==" /\ cs[i].r = "" THEN Ins(w, F, cs[i].l, 0, cs[i].v) ELSE w)
Encoding(p, i) == LET I == Progs[p].insts[i] IN EncFrom(Fm(p, I.fmt), I.cons, 1, Zero)
InstIx(p, n) == CHOOSE i \in DOMAIN Progs[p].insts : Progs[p].insts[i].n = n
Plain(p, i) ==   \* its encoding is a word that decodes to it
  Sat(Encoding(p, i), Tables[p][i].cons)

-----------------------------------------------------------------------------
Configs == {<<"reset", p>> : p \in DOMAIN Progs}
Init0(c) == [p |-> c[2], w |-> Zero, st |-> "new"]
ResetOut(c) == <<>>

Trunc(p, w) == InsFrom(Zero, Down(Progs[p].w - 1, 0), w, 1)
Ops(t) ==
  IF t.st = "new" THEN {<<"build">>}
  ELSE IF t.st = "rejected" THEN {}
  ELSE {<<"set", Trunc(t.p, w)>> : w \in WordSet}
       \cup {<<"decode">>}
       \cup {<<"enc", Progs[t.p].insts[i].n>> : i \in {i \in DOMAIN Progs[t.p].insts : Plain(t.p, i)}}
       \cup UNION {UNION {{<<"ext", f, n, x>> : x \in 0..(Inst(t.p, f, n) - 1)} :
                            n \in Names(t.p, f)} : f \in DOMAIN Progs[t.p].fmts}
       \cup UNION {UNION {UNION {{<<"ins", f, n, x, v>> : v \in ValSet} :
                            x \in 0..(Inst(t.p, f, n) - 1)} :
                            n \in Names(t.p, f)} : f \in DOMAIN Progs[t.p].fmts}

Eff(t, op) ==
  CASE op[1] = "build" -> {[s |-> [t EXCEPT !.st = r], out |-> <<r>>] : r \in BuildResults(t.p)}
    [] op[1] = "set" -> {[s |-> [t EXCEPT !.w = op[2]], out |-> <<"ok">>]}
    [] op[1] = "dec" -> {[s |-> t, out |-> d] : d \in Decodings(t.p, op[2])}
    [] op[1] = "decode" -> {[s |-> t, out |-> d] : d \in Decodings(t.p, t.w)}
    [] op[1] = "ext" -> {[s |-> t, out |-> r] : r \in ExtResults(t.p, op[2], op[3], op[4], t.w)}
    [] op[1] = "ins" ->
         {[s |-> IF r = <<"absent">> THEN t ELSE [t EXCEPT !.w = r], out |-> r] :
              r \in InsResults(t.p, op[2], op[3], op[4], t.w, op[5])}
    [] OTHER -> LET w == Encoding(t.p, InstIx(t.p, op[2])) IN
         {[s |-> [t EXCEPT !.w = w], out |-> <<w, Progs[t.p].w>>]}

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>

-----------------------------------------------------------------------------
(* Properties of the design. *)
InRange == \A i \in Progs[s.p].w..63 : Bit(s.w, i) = 0
Ready == s.st = "ok"
\* Without overlapping instructions decoding is a function.
Deterministic == Ready /\ ~Progs[s.p].amb =>
                   \/ Cardinality(Matches(s.p, s.w)) <= 1
\* An opcode's encoding decodes to that opcode (or to one that overlaps it).
EncDecodes ==
  Ready => \A i \in DOMAIN Progs[s.p].insts :
      Plain(s.p, i) => Chosen(s.p, Encoding(s.p, i), i) \subseteq Decodings(s.p, Encoding(s.p, i))
Distinct(pos) == \A i, j \in DOMAIN pos : i # j /\ pos[i] >= 0 => pos[i] # pos[j]
\* Extracting what was inserted gives it back, and nothing else has changed.
InsertExtract ==
  [][ev'[1][1] = "ins" /\ ev'[2] # <<"absent">> /\ Has(s.p, ev'[1][2], ev'[1][3]) =>
      LET F == Fm(s.p, ev'[1][2])
          n == ev'[1][3]
          x == ev'[1][4]
          pos == NameTable[s.p][ev'[1][2]][n].pos[x + 1]
      IN Distinct(pos) /\ Agree(s.p, ev'[1][2], n) =>
         /\ \A k \in DOMAIN pos :
              Bits(s'.w, pos)[k] = IF pos[k] >= 0 THEN Bit(ev'[1][5], Len(pos) - k)
                                   ELSE -1 - pos[k]
         /\ \A i \in 0..63 : (\A k \in DOMAIN pos : pos[k] # i) => Bit(s'.w, i) = Bit(s.w, i)
     ]_<<s, ev>>
\* Decoding depends on the constrained bits only: a word that decodes keeps its
\* decoding when an unconstrained field of its format changes.
Touches(c) == {c.l[k] : k \in DOMAIN c.l} \cup {c.r[k] : k \in DOMAIN c.r}
UsedBits(p, i) ==
  LET I == Tables[p][i] IN
  UNION {Touches(I.cons[k]) : k \in DOMAIN I.cons}
  \cup UNION {UNION {Touches(I.specs[q].cons[k]) : k \in DOMAIN I.specs[q].cons} :
                  q \in DOMAIN I.specs}
Independence ==
  [][s'.p = s.p /\ s.st = "ok" =>
      \A i \in DOMAIN Progs[s.p].insts :
        (\A b \in UsedBits(s.p, i) : b < 0 \/ Bit(s.w, b) = Bit(s'.w, b)) =>
           (i \in Matches(s.p, s.w) <=> i \in Matches(s.p, s'.w))]_<<s, ev>>
=============================================================================
