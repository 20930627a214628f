------------------------------ MODULE Assembler ------------------------------
(* SimpleAssembler: lines of source are placed one after the other in the section they belong to; labels
   denote the place of what follows them.  Creating an executable places the sections and replaces
   references by the addresses of the labels; creating a relocatable file keeps offsets and lists
   relocations. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* a line: <<"line", label or "-", kind, arguments>>
CONSTANTS Lines, Bases, DataStarts, Entries, MaxLines

VARIABLES s, ev

NameSeq == <<"main", "L1", "_x", "data2", "zz">>
NamesOf == {NameSeq[i] : i \in DOMAIN NameSeq}
Secs == {"text", "data", "bss"}
Configs == {<<"reset", cl, cm>> : cl \in {1, 2}, cm \in {0, 1, 2}}
Init0(c) == [sec |-> "none", off |-> [x \in Secs |-> 0], body |-> [x \in {"text", "data"} |-> <<>>], balign |-> 16,
             sym |-> [n \in NamesOf |-> <<>>], glob |-> {}, used |-> {}, relo |-> [x \in {"text", "data"} |-> <<>>],
             bad |-> FALSE, n |-> 0]
ResetOut(c) == <<>>

-----------------------------------------------------------------------------
\* items of a section: <<0, byte>>; 4 byte items <<1, symbol>> (its value), <<2, "">> (own address),
\* <<3, symbol>> (zero, the symbol must be near)
Width(it) == IF it[1] = 0 THEN 1 ELSE 4
Zeros(n) == [i \in 1..n |-> <<0, 0>>]
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
AsBytes(q) == [i \in DOMAIN q |-> <<0, q[i]>>]
Up(v, a) == ((v + a - 1) \div a) * a
Items(st, kind, a) ==
  CASE kind = "vals" -> AsBytes(Flat(a[3]))
    [] kind = "str" -> AsBytes(Flat([i \in DOMAIN a[2] |-> IF a[1] = 1 THEN Append(a[2][i], 0) ELSE a[2][i]]))
    [] kind = "char" -> AsBytes(a)
    [] kind = "space" -> Zeros(a[1])
    [] kind = "align" -> Zeros(Up(st.off[st.sec], a[1]) - st.off[st.sec])
    [] kind = "op" -> (CASE a[1] = "nop" -> AsBytes(<<19, 0, 0, 0>>)
                         [] a[1] = "nop2" -> AsBytes(<<1, 0>>)
                         [] a[1] = "ld" -> <<<<1, a[2]>>>>
                         [] a[1] = "ref" -> <<<<0, 7>>, <<1, a[2]>>, <<0, 9>>>>
                         [] a[1] = "near" -> <<<<3, a[2]>>>>
                         [] a[1] = "pc" -> <<<<2, "">>>>)
    [] OTHER -> <<>>
RECURSIVE Size(_)
Size(q) == IF q = <<>> THEN 0 ELSE Width(Head(q)) + Size(Tail(q))

Place(st, kind, a) ==
  LET its == Items(st, kind, a)
      z == Size(its)
  IN IF z = 0 THEN st
     ELSE IF st.sec = "none" THEN [st EXCEPT !.bad = TRUE]
     ELSE LET st1 == [st EXCEPT !.off[st.sec] = @ + z]
              st2 == IF st.sec = "bss" THEN st1 ELSE [st1 EXCEPT !.body[st.sec] = @ \o its]
              st3 == IF kind = "op" /\ a[1] \in {"ld", "ref", "near"} THEN [st2 EXCEPT !.used = @ \cup {a[2]}] ELSE st2
          IN IF kind = "op" /\ a[1] = "ref" THEN [st3 EXCEPT !.relo[st.sec] = Append(@, <<st.off[st.sec], a[2], a[3], a[4]>>)] ELSE st3
Label(st, l, sec, off) ==
  IF l = "-" THEN st
  ELSE IF sec = "none" \/ st.sym[l] /= <<>> THEN [st EXCEPT !.bad = TRUE]
  ELSE [st EXCEPT !.sym[l] = <<sec, off>>]
Line(st, l, kind, a) ==
  LET st1 == IF kind = "sect" THEN [st EXCEPT !.sec = a[1]]
             ELSE IF kind = "global" THEN [st EXCEPT !.glob = @ \cup {a[i] : i \in DOMAIN a}]
             ELSE IF kind = "bad" \/ (kind = "align" /\ st.sec = "none") THEN [st EXCEPT !.bad = TRUE]
             ELSE IF kind = "align" /\ st.sec = "bss" /\ a[1] > st.balign THEN Place([st EXCEPT !.balign = a[1]], kind, a)
             ELSE Place(st, kind, a)
  IN Label([st1 EXCEPT !.n = @ + 1], l, st.sec, IF st.sec = "none" THEN 0 ELSE st.off[st.sec])

-----------------------------------------------------------------------------
LE4(v) == <<v % 256, (v \div 256) % 256, (v \div 65536) % 256, (v \div 16777216) % 256>>
Value(st, start, n) == IF st.sym[n] = <<>> THEN 0 ELSE start[st.sym[n][1]] + st.sym[n][2]
RECURSIVE Bytes(_, _, _, _)
Bytes(st, start, q, at) ==
  IF q = <<>> THEN <<>>
  ELSE (CASE Head(q)[1] = 0 -> <<Head(q)[2]>>
          [] Head(q)[1] = 1 -> LE4(Value(st, start, Head(q)[2]))
          [] Head(q)[1] = 2 -> LE4(at)
          [] Head(q)[1] = 3 -> <<0, 0, 0, 0>>) \o Bytes(st, start, Tail(q), at + Width(Head(q)))
Contents(st, start, x) ==   \* an instruction with parts has one address
  Bytes(st, start, st.body[x], start[x])
Far(st, start) == \E x \in {"text", "data"} : \E i \in DOMAIN st.body[x] : st.body[x][i][1] = 3 /\ Value(st, start, st.body[x][i][2]) > 16384
Undefined(st) == {n \in st.used : st.sym[n] = <<>>}
Code(x) == CASE x = "text" -> 1 [] x = "data" -> 2 [] x = "bss" -> 3
Symbols(st, start) ==
  [i \in DOMAIN NameSeq |-> LET n == NameSeq[i] IN
     IF st.sym[n] = <<>> THEN IF n \in st.used THEN <<0, 0, 1>> ELSE <<-1, 0, 0>>
     ELSE <<Code(st.sym[n][1]), Value(st, start, n), IF n \in st.glob THEN 1 ELSE 0>>]

Starts(st, base, ds) ==
  LET d == IF ds /= 0 THEN ds ELSE Up(base + st.off["text"], 4096)
  IN [text |-> base, data |-> d, bss |-> Up(d + st.off["data"], st.balign)]
Entry(st, start, e) == IF e[1] = "n" THEN e[2] ELSE Value(st, start, e[2])

Ops(st) == (IF st.n < MaxLines THEN {l \in Lines : st.sec = "bss" => l[3] \notin {"vals", "str", "char", "op"}} ELSE {})
           \cup {<<"exe", b, d, e>> : b \in Bases, d \in DataStarts, e \in Entries} \cup {<<"rel">>}
Clear(st) == Init0(<<"reset", 0, 0>>)
Eff(st, op) ==
  CASE op[1] = "line" -> {[s |-> IF st.bad THEN [st EXCEPT !.n = @ + 1] ELSE Line(st, op[2], op[3], op[4]), out |-> <<>>]}
    [] op[1] = "exe" ->
         LET start == Starts(st, op[2], op[3])
         IN {[s |-> Clear(st),
              out |-> IF st.bad \/ Undefined(st) /= {} \/ Far(st, start) \/ (op[4][1] = "s" /\ st.sym[op[4][2]] = <<>>) THEN <<>>
                      ELSE <<Contents(st, start, "text"), Contents(st, start, "data"), st.off["bss"], Symbols(st, start),
                             <<start["text"], start["data"]>>, Entry(st, start, op[4]), TRUE>>]}
    [] op[1] = "rel" ->
         LET start == [text |-> 0, data |-> 0, bss |-> 0]
         IN {[s |-> Clear(st),
              out |-> IF st.bad \/ Far(st, start) THEN <<>>
                      ELSE <<Contents(st, start, "text"), Contents(st, start, "data"), st.off["bss"], Symbols(st, start),
                             st.relo["text"], st.relo["data"], TRUE>>]}

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>

-----------------------------------------------------------------------------
\* what has been placed fills the section up to the place of what comes next
Dense == \A x \in {"text", "data"} : Size(s.body[x]) = s.off[x]
\* labels lie inside their sections, or at the end
Inside == \A n \in NamesOf : s.sym[n] /= <<>> => s.sym[n][2] >= 0 /\ s.sym[n][2] <= s.off[s.sym[n][1]]
\* sections only grow at their end, and labels stay
Grows == [][(ev'[1][1] = "line" /\ ~s.bad) =>
              /\ \A x \in {"text", "data"} : SubSeq(s'.body[x], 1, Len(s.body[x])) = s.body[x]
              /\ \A n \in NamesOf : s.sym[n] /= <<>> => s'.sym[n] = s.sym[n]]_<<s, ev>>
\* at most one section changes
OneSection == [][ev'[1][1] = "line" => \A x \in Secs : x /= s.sec => s'.off[x] = s.off[x]]_<<s, ev>>
\* sections of an executable do not overlap, if the place of the data is left to the assembler
Disjoint == [][(ev'[1][1] = "exe" /\ ev'[1][3] = 0) =>
                 LET st == Starts(s, ev'[1][2], 0) IN st["text"] + s.off["text"] <= st["data"] /\ st["data"] + s.off["data"] <= st["bss"]]_<<s, ev>>
=============================================================================
