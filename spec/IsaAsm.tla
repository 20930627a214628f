------------------------------- MODULE IsaAsm -------------------------------
(* The assembler that is generated from an .isa description: every slot has a *)
(* matcher that takes a line of text apart according to the disassembly       *)
(* formats of the slot's opcodes and asks an encoder for the encoding of the  *)
(* opcode and of each operand (Slot::GenerateAsmRegexMatcher, GenerateRegEx,  *)
(* InstructionSet::GenerateEncClasses, GenerateOperandEncoder).               *)
(*                                                                            *)
(* The formats of an opcode, one after the other and separated by white       *)
(* space, are what a line has to look like, with operands that are words      *)
(* without white space.  White space is needed only where the format has it   *)
(* and does not follow punctuation, and may surround operands next to         *)
(* punctuation (Must); whether it may be left out or added at other places    *)
(* next to punctuation is not specified (May).                                *)
EXTENDS IsaDesc
CONSTANTS Isas,      \* sequence of descriptions
          Words      \* operand texts
VARIABLES s, ev

\* ------------------------------------------------------------ patterns
Chars(t) == [i \in 1..Len(t) |-> SubSeq(t, i, i)]
White == {" ", "\t"}
Alnum == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q",
          "r", "s", "t", "u", "v", "w", "x", "y", "z", "A", "B", "C", "D", "E", "F", "G", "H",
          "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y",
          "Z", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsOpt(p) == Len(p) > (IF p[1] = "f" THEN 3 ELSE 2)
IsOp(p) == p[1] = "o" \/ (p[1] = "f" /\ p[2] # "")
(* The atoms of a format: its characters, runs of white space, operands,      *)
(* operands that are left out ("e"), instruction addresses ("a").             *)
RECURSIVE TextAtoms(_, _)
TextAtoms(cs, i) ==
  IF i > Len(cs) THEN <<>>
  ELSE IF cs[i] \notin White THEN <<<<"c", cs[i]>>>> \o TextAtoms(cs, i + 1)
  ELSE (IF i > 1 /\ cs[i - 1] \in White THEN <<>> ELSE <<<<"ws">>>>) \o TextAtoms(cs, i + 1)
(* All the readings of the parts of a format from part i on: an optional      *)
(* operand can be left out, with the text that follows it.                    *)
RECURSIVE Atoms(_, _)
Atoms(f, i) ==
  IF i > Len(f) THEN {<<>>}
  ELSE LET p == f[i]
           rest == Atoms(f, i + 1)
       IN IF p[1] = "t" THEN {TextAtoms(Chars(p[2]), 1) \o x : x \in rest}
          ELSE {<<IF IsOp(p) THEN <<"o">> ELSE <<"a">>>> \o x : x \in rest}
               \cup (IF ~IsOpt(p) THEN {}
                     ELSE {(IF IsOp(p) THEN <<<<"e">>>> ELSE <<>>) \o x :
                             x \in IF i < Len(f) /\ f[i + 1][1] = "t" THEN Atoms(f, i + 2)
                                   ELSE rest})
IsChar(a) == a[1] = "c"
WordChar(a) == IsChar(a) /\ (a[2] \in Alnum \/ a[2] = "_")
Punct(a) == IsChar(a) /\ ~WordChar(a) /\ a[2] # "."
Operand(a) == a[1] \in {"o", "a"}
(* The pattern of a format ("w": any white space, "W": some).                 *)
MustPat(q) ==
  FlattenSeq([i \in DOMAIN q |->
     CASE q[i][1] = "ws" -> (IF i > 1 /\ Punct(q[i - 1]) THEN <<<<"w">>>> ELSE <<<<"W">>>>)
       [] IsChar(q[i]) -> (IF i > 1 /\ Operand(q[i - 1]) /\ ~WordChar(q[i])
                           THEN <<<<"w">>, q[i]>> ELSE <<q[i]>>)
       [] Operand(q[i]) -> (IF i > 1 /\ Punct(q[i - 1]) THEN <<<<"w">>, q[i]>> ELSE <<q[i]>>)
       [] OTHER -> <<q[i]>>])
MayPat(q) ==
  <<<<"w">>>> \o FlattenSeq([i \in DOMAIN q |->
     IF q[i][1] = "ws"
     THEN (IF i > 1 /\ i < Len(q) /\ WordChar(q[i - 1]) /\ WordChar(q[i + 1])
           THEN <<<<"W">>>> ELSE <<<<"w">>>>)
     ELSE IF i < Len(q) /\ WordChar(q[i]) /\ (WordChar(q[i + 1]) \/ q[i + 1][1] = "ws")
     THEN <<q[i]>> ELSE <<q[i], <<"w">>>>])
(* The patterns of a whole line.                                              *)
RECURSIVE Lines(_, _, _)
Lines(pats, i, may) ==
  IF i > Len(pats) THEN {<<>>}
  ELSE {(IF i = 1 THEN <<<<"w">>>>
         ELSE IF may /\ \A k \in DOMAIN x : x[k][1] \in {"e", "w"} THEN <<<<"w">>>> ELSE <<<<"W">>>>)
        \o x \o y : x \in pats[i], y \in Lines(pats, i + 1, may)}
Must(R) == {x \o <<<<"w">>>> :
              x \in Lines([i \in DOMAIN R.fmts |-> {MustPat(q) : q \in Atoms(R.fmts[i], 1)}], 1, FALSE)}
May(R) == {x \o <<<<"w">>>> :
              x \in Lines([i \in DOMAIN R.fmts |-> {MayPat(q) : q \in Atoms(R.fmts[i], 1)}], 1, TRUE)}
(* The operand texts for which characters j.. of T are what elements i.. of   *)
(* pattern p describe.                                                        *)
RECURSIVE RunEnd(_, _, _)
RunEnd(T, j, white) ==
  IF j <= Len(T) /\ (T[j] \in White) = white THEN RunEnd(T, j + 1, white) ELSE j
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE Head(q) \o Join(Tail(q))
RECURSIVE M(_, _, _, _)
M(p, T, i, j) ==
  IF i > Len(p) THEN (IF j > Len(T) THEN {<<>>} ELSE {})
  ELSE CASE p[i][1] = "c" -> (IF j <= Len(T) /\ T[j] = p[i][2] THEN M(p, T, i + 1, j + 1) ELSE {})
         [] p[i][1] = "w" -> (IF i < Len(p) /\ p[i + 1][1] \in {"w", "W"} THEN M(p, T, i + 1, j)
                              ELSE UNION {M(p, T, i + 1, k) : k \in j..RunEnd(T, j, TRUE)})
         [] p[i][1] = "W" -> UNION {M(p, T, i + 1, k) : k \in (j + 1)..RunEnd(T, j, TRUE)}
         [] p[i][1] = "e" -> {<<"">> \o v : v \in M(p, T, i + 1, j)}
         [] p[i][1] = "a" -> UNION {M(p, T, i + 1, k) : k \in j..RunEnd(T, j, FALSE)}
         [] OTHER -> UNION {{<<Join(SubSeq(T, j, k - 1))>> \o v : v \in M(p, T, i + 1, k)} :
                              k \in j..RunEnd(T, j, FALSE)}
Matches(ps, t) == UNION {M(p, Chars(t), 1, 1) : p \in ps}

\* ------------------------------------------------------------ encoding
(* The operands of the formats, in order.                                     *)
Wanted(R) == FlattenSeq([i \in DOMAIN R.fmts |->
               LET o == SelectSeq(R.fmts[i], IsOp) IN [k \in DOMAIN o |-> Locate(R, o[k][2])]])
HasChar(t, ch) == \E i \in 1..Len(t) : SubSeq(t, i, i) = ch
(* What the encoder is asked for, and for which of its operands relocations   *)
(* are added.                                                                 *)
Call(m, v) == <<m.k \o (IF m.arr THEN "*" ELSE ""), m.n, (IF m.k = "p" THEN 0 ELSE m.j - 1), v>>
(* What the encoder can't encode; "#" only in some opcodes.                   *)
Fails(R, m, v) == HasChar(v, "!") \/ (m.rel /\ HasChar(v, "?"))
                  \/ (HasChar(v, "#") /\ Len(R.n) % 2 = 1)
NoCode == <<>>
Code(R, vals, e) ==
  LET w == Wanted(R)
  IN IF \E i \in DOMAIN w : Fails(R, w[i], vals[i]) THEN NoCode
     ELSE <<"ok", Len(R.n), R.n, e, [i \in DOMAIN w |-> Call(w[i], vals[i])],
            LET r == SelectSeq([i \in DOMAIN w |-> <<w[i], vals[i]>>], LAMBDA x : x[1].rel)
            IN [i \in DOMAIN r |-> Call(r[i][1], r[i][2])]>>
(* What can become of the line for each of the opcodes of the slot (NoCode:   *)
(* it is not, or cannot be encoded as, this opcode).                          *)
Codes(R, t, e) ==
  IF R.fmts = <<>> THEN {NoCode}
  ELSE LET may == Matches(May(R), t)
       IN IF may = {} THEN {NoCode}
          ELSE {Code(R, v, e) : v \in may}
               \cup (IF Matches(Must(R), t) = {} THEN {NoCode} ELSE {})
(* All combinations: the code if there is exactly one, none or too many.      *)
RECURSIVE Combine(_, _)
Combine(cs, i) ==
  IF i > Len(cs) THEN {<<0, NoCode>>}
  ELSE {IF c = NoCode THEN r ELSE IF r[1] = 0 THEN <<1, c>> ELSE <<2, NoCode>> :
          c \in cs[i], r \in Combine(cs, i + 1)}
Encoded(P, n, e, t) ==
  LET I == Insts(P, n, <<>>)
  IN {IF r[1] = 1 THEN r[2] ELSE <<"error">> :
        r \in Combine([i \in DOMAIN I |-> Codes(I[i], t, e)], 1)}

\* ------------------------------------------------------------ machine
(* The disassembly of an instruction, with the given operand texts.           *)
RECURSIVE Written(_, _, _)
Written(ps, i, vs) ==
  IF i > Len(ps) THEN ""
  ELSE IF ps[i][1] = "t" THEN ps[i][2] \o Written(ps, i + 1, vs)
  ELSE IF IsOp(ps[i]) THEN Head(vs) \o Written(ps, i + 1, Tail(vs))
  ELSE "0x10" \o Written(ps, i + 1, vs)
Parts(R) == FlattenSeq([i \in DOMAIN R.fmts |->
              IF i = 1 THEN R.fmts[i] ELSE <<<<"t", " ">>>> \o R.fmts[i]])
Line(R, v) == Written(Parts(R), 1, [i \in DOMAIN Wanted(R) |-> v])
Configs == {<<"reset", p>> : p \in DOMAIN Isas}
Init0(c) == [isa |-> c[2]]
ResetOut(c) == <<>>
Ops(t) ==
  LET P == Isas[t.isa]
  IN {<<"encode", n, e, Line(R, v)>> : n \in Listed(P), e \in {0}, v \in Words,
        R \in UNION {{r \in RangeOf(Insts(P, m, <<>>)) : r.fmts # <<>>} : m \in Listed(P)}}
Eff(t, op) ==
  {[s |-> t, out |-> r] : r \in Encoded(Isas[t.isa], op[2], op[3], op[4])}
Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>

\* ------------------------------------------------------------ properties
AllInsts == UNION {RangeOf(Insts(Isas[s.isa], n, <<>>)) : n \in Listed(Isas[s.isa])}
(* The disassembly of an instruction is read as the instruction.              *)
RoundTrip == \A R \in AllInsts : R.fmts # <<>> => \A v \in Words :
               [i \in DOMAIN Wanted(R) |-> v] \in Matches(Must(R), Line(R, v))
(* The specification of what may be accepted includes what must be.           *)
MustIsMay == \A R, Q \in AllInsts : R.fmts # <<>> /\ Q.fmts # <<>> => \A v \in Words :
               Matches(Must(R), Line(Q, v)) \subseteq Matches(May(R), Line(Q, v))
(* Every operand is asked for once, in the order of the formats.              *)
Asked == ev[1][1] = "encode" /\ ev[2][1] = "ok" =>
           \E R \in AllInsts : R.n = ev[2][3] /\ Len(ev[2][5]) = Len(Wanted(R)) /\
             \A i \in DOMAIN ev[2][5] : ev[2][5][i][2] = Wanted(R)[i].n
(* Nothing that cannot be encoded is.                                         *)
Honest == ev[1][1] = "encode" /\ ev[2][1] = "ok" =>
            \A i \in DOMAIN ev[2][5] : ~HasChar(ev[2][5][i][4], "!")
=============================================================================
