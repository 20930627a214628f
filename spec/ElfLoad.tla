------------------------------- MODULE ElfLoad -------------------------------
(* ElfProgramLoader: places the contents of the loadable segments of an ELF file in memory and answers
   questions about the symbols of the file loaded last. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* a file: <<kind, entry, segments, symbols>>
\*   kind: "ok", "missing", "bad" (not an ELF file)
\*   segment: <<type, executable, writable, vaddr, paddr, contents, memory size>>
\*   symbol: <<name, type, value, size>>
CONSTANTS Ctors, Files, Names, Addrs

VARIABLES s, ev

MemSize == 64
\* ctor: "one" memory, "two" (code, data), "list" (executable to 1, then writable to 2 displaced by 16,
\* then writable to 1, others nowhere), "dbg": through the debug interface, that fails at or above 56
Configs == {<<"reset", ct, sc, b>> : ct \in Ctors, sc \in {1, 2}, b \in {0, 1}}
Init0(c) == [ctor |-> c[2], scale |-> c[3], base |-> c[4], file |-> <<>>, stack |-> 0,
             mem |-> [m \in {1, 2} |-> [a \in 1..MemSize |-> 0]]]
ResetOut(c) == <<>>

Dest(seg) == IF seg[5] = 0 THEN seg[4] ELSE seg[5]
Place(ctor, seg) ==   \* <<memory, address>>, memory 0: none
  CASE ctor = "one" -> <<1, Dest(seg)>>
    [] ctor = "dbg" -> <<1, Dest(seg)>>
    [] ctor = "two" -> IF seg[2] = 1 THEN <<1, Dest(seg)>> ELSE <<2, Dest(seg)>>
    [] ctor = "list" -> IF seg[2] = 1 THEN <<1, Dest(seg)>> ELSE IF seg[3] = 1 THEN <<2, Dest(seg) + 16>> ELSE <<0, 0>>
Write(mem, pl, data) ==
  IF pl[1] = 0 THEN mem
  ELSE [mem EXCEPT ![pl[1]] = [a \in 1..MemSize |-> IF a - 1 >= pl[2] /\ a - 1 < pl[2] + Len(data) THEN data[a - pl[2]] ELSE @[a]]]
\* what is in memory after the segments, and whether all could be written
RECURSIVE Load(_, _, _)
Load(st, mem, segs) ==
  IF segs = <<>> THEN [mem |-> mem, ok |-> TRUE]
  ELSE LET g == Head(segs) IN
    IF g[1] /= "load" \/ g[6] = <<>> THEN Load(st, mem, Tail(segs))
    ELSE IF st.ctor = "dbg" /\ Dest(g) + Len(g[6]) > 56 THEN [mem |-> mem, ok |-> FALSE]
    ELSE Load(st, Write(mem, Place(st.ctor, g), g[6]), Tail(segs))
\* of several stack sizes the last counts
RECURSIVE Stack(_, _)
Stack(segs, z) == IF segs = <<>> THEN z ELSE Stack(Tail(segs), IF Head(segs)[1] = "stack" THEN Head(segs)[7] ELSE z)

Syms(st) == IF st.file = <<>> THEN <<>> ELSE st.file[4]
Fcns(st) == {i \in DOMAIN Syms(st) : Syms(st)[i][2] = "f"}

Ops(st) == {<<"load", f>> : f \in Files} \cup {<<"symbols", f>> : f \in Files}
           \cup {<<"sym", n>> : n \in Names} \cup {<<"at", a>> : a \in Addrs} \cup {<<"in", a>> : a \in Addrs}
           \cup {<<"stack">>, <<"peek">>}

No == <<>>
\* a file that cannot be found leaves the loaded program in place or not, one that cannot be read does not
Failed(st, f) == {[s |-> [st EXCEPT !.file = <<>>, !.stack = 0], out |-> No]} \cup (IF f[1] = "missing" THEN {[s |-> st, out |-> No]} ELSE {})
OneOf(st, outs) == IF outs = {} THEN {[s |-> st, out |-> No]} ELSE {[s |-> st, out |-> o] : o \in outs}
Eff(st, op) ==
  CASE op[1] = "symbols" -> IF op[2][1] /= "ok" THEN Failed(st, op[2])
                            ELSE {[s |-> [st EXCEPT !.file = op[2], !.stack = 0], out |-> <<op[2][2]>>]}
    [] op[1] = "load" -> IF op[2][1] /= "ok" THEN Failed(st, op[2])
                         ELSE LET r == Load(st, st.mem, op[2][3])
                                  full == [st EXCEPT !.file = op[2], !.mem = r.mem, !.stack = Stack(op[2][3], 0)]
                              IN IF r.ok THEN {[s |-> full, out |-> <<op[2][2]>>]}
                                 \* segments before the one that could not be written are in memory
                                 ELSE {[s |-> [full EXCEPT !.stack = z], out |-> No] : z \in {0, Stack(op[2][3], 0)}}
                                      \cup {[s |-> [full EXCEPT !.file = <<>>, !.stack = 0], out |-> No]}
    [] op[1] = "sym" -> OneOf(st, {<<Syms(st)[i][3], Syms(st)[i][4]>> : i \in {j \in DOMAIN Syms(st) : Syms(st)[j][1] = op[2]}})
    \* the name of a function that starts there, or that covers the address
    [] op[1] = "at" -> OneOf(st, {<<Syms(st)[i][1]>> : i \in {j \in Fcns(st) : Syms(st)[j][3] = op[2]}})
    [] op[1] = "in" -> OneOf(st, {<<Syms(st)[i][1]>> : i \in {j \in Fcns(st) : op[2] >= Syms(st)[j][3]
                                                                            /\ op[2] < Syms(st)[j][3] + Syms(st)[j][4] \div st.scale}})
    [] op[1] = "stack" -> {[s |-> st, out |-> IF st.stack = 0 THEN No ELSE <<st.stack>>]}
    [] op[1] = "peek" -> {[s |-> st, out |-> <<st.mem[1], st.mem[2], 0>>]}

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>

-----------------------------------------------------------------------------
\* questions change nothing, loading symbols does not change memory, failed reads do not change memory
Pure == [][(ev'[1][1] \in {"sym", "at", "in", "stack", "peek"} => s' = s)
           /\ (ev'[1][1] = "symbols" \/ (ev'[1][1] = "load" /\ ev'[1][2][1] /= "ok") => s'.mem = s.mem)]_<<s, ev>>
\* loading the program that is loaded once more changes nothing
Idempotent == [][(ev'[1][1] = "load" /\ ev'[1][2][1] = "ok") =>
                    Load(s', s'.mem, ev'[1][2][3]).mem = s'.mem]_<<s, ev>>
\* a byte changes only if a loadable segment has it
Covered == [][\A m \in {1, 2} : \A a \in 1..MemSize : s'.mem[m][a] /= s.mem[m][a] =>
                 \E i \in DOMAIN ev'[1][2][3] : LET g == ev'[1][2][3][i] pl == Place(s.ctor, g) IN
                   g[1] = "load" /\ pl[1] = m /\ a - 1 \in pl[2]..(pl[2] + Len(g[6]) - 1)]_<<s, ev>>
=============================================================================
