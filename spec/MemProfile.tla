----------------------------- MODULE MemProfile -----------------------------
(* The memory use profilers (MemoryUseProfiler, TaggedMemoryUseProfiler): which words of memory were
   accessed while profiling was enabled, reported as maximal ranges, with every access passed on
   unchanged.  Addresses are pairs <<window, byte offset>>: windows are far apart in the 64-bit
   address space (the harness places them, one at 0 and one at the very end). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS Kinds,   \* the reset operations <<"reset", tagged, forwarding>>
          Windows, Offsets, Sizes, Masks, Fills,
          Span     \* size of a window

VARIABLES s, ev

Configs == Kinds
Init0(c) == [used |-> [w \in Windows |-> {}], on |-> FALSE, tagged |-> c[2], fwd |-> c[3]]
ResetOut(c) == <<>>

\* Profiled accesses are of at most 8 bytes; they use every word they touch.
Words(off, size) == IF size > 8 THEN {} ELSE (off \div 4) .. ((off + size - 1) \div 4)
Mark(st, w, ws) == IF st.on THEN [st EXCEPT !.used[w] = @ \cup ws] ELSE st

Inside(op) ==   \* accesses do not run over the end of the address space
  CASE op[1] = "acc" -> op[4] + op[5] <= Span
    [] op[1] = "unit" -> op[4] + op[5] * Len(op[6]) <= Span
    [] op[1] = "gather" -> \A i \in 1..Len(op[3]) : op[3][i][2] + op[4] <= Span
    [] op[1] = "fill" -> op[3] + 4 * op[4] <= Span
    [] OTHER -> TRUE
Ops(st) == {op \in
  {<<"on", b>> : b \in {0, 1}}
  \cup {<<"acc", k, w, o, z>> : k \in (IF st.tagged = 1 THEN 0..4 ELSE 0..1), w \in Windows, o \in Offsets, z \in Sizes}
  \cup {<<"unit", k, w, o, z, m>> : k \in {0, 1}, w \in Windows, o \in Offsets, z \in Sizes, m \in Masks}
  \cup {<<"gather", k, <<<<w, o>>, <<w, p>>>>, z, m>> :
           k \in {0, 1}, w \in Windows, o \in Offsets, p \in Offsets, z \in Sizes, m \in {x \in Masks : Len(x) = 2}}
  \cup {<<"fill", w, o, n>> : w \in Windows, o \in {x \in Offsets : x % 4 = 0}, n \in Fills}
  \cup {<<"profile">>} : Inside(op)}

\* The report: maximal runs of used words, in address order: window, first and last word, bytes.
Runs(w, u) ==
  LET starts == SetToSortSeq({x \in u : (x - 1) \notin u}, <)
      ends == SetToSortSeq({x \in u : (x + 1) \notin u}, <)
  IN [i \in 1..Len(starts) |-> <<w, starts[i] * 4, ends[i] * 4, (ends[i] - starts[i] + 1) * 4>>]
RECURSIVE Report(_, _)
Report(st, ws) == IF ws = {} THEN <<>>
                  ELSE LET w == CHOOSE x \in ws : \A y \in ws : x <= y
                       IN Runs(w, st.used[w]) \o Report(st, ws \ {w})

RECURSIVE MarkAll(_, _, _, _, _)
MarkAll(st, as, z, m, i) ==
  IF i > Len(m) THEN st
  ELSE MarkAll(IF m[i] = 0 THEN st ELSE Mark(st, as[i][1], Words(as[i][2], z)), as, z, m, i + 1)

Eff(st, op) ==
  CASE op[1] = "on" -> {[s |-> [st EXCEPT !.on = (op[2] = 1)], out |-> <<>>]}
    [] op[1] = "acc" ->     \* kind 4: a load of tags only (no data) uses no data word
         {[s |-> IF op[2] = 4 THEN st ELSE Mark(st, op[3], Words(op[4], op[5])), out |-> <<st.fwd>>]}
    [] op[1] = "unit" ->
         {[s |-> MarkAll(st, [i \in 1..Len(op[6]) |-> <<op[3], op[4] + (i - 1) * op[5]>>], op[5], op[6], 1),
           out |-> <<st.fwd>>]}
    [] op[1] = "gather" -> {[s |-> MarkAll(st, op[3], op[4], op[5], 1), out |-> <<st.fwd>>]}
    [] op[1] = "fill" -> {[s |-> Mark(st, op[2], (op[3] \div 4) .. (op[3] \div 4 + op[4] - 1)), out |-> <<>>]}
    [] op[1] = "profile" -> {[s |-> st, out |-> Report(st, Windows)]}

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>

-----------------------------------------------------------------------------
\* The report is exactly the set of used words: nothing lost, nothing invented, and it cannot be
\* shortened (ranges do not touch).
Exact ==
  LET r == Report(s, Windows)
      cover == UNION {{<<r[i][1], x>> : x \in (r[i][2] \div 4) .. (r[i][3] \div 4)} : i \in 1..Len(r)}
  IN /\ cover = UNION {{<<w, x>> : x \in s.used[w]} : w \in Windows}
     /\ \A i \in 1..Len(r) : r[i][4] = r[i][3] - r[i][2] + 4
     /\ \A i \in 1..Len(r) - 1 : r[i][1] < r[i + 1][1] \/ (r[i][1] = r[i + 1][1] /\ r[i][3] + 4 < r[i + 1][2])
\* Words are never forgotten, and none is added while disabled.
Monotone == [][\A w \in Windows : s.used[w] \subseteq s'.used[w]]_<<s, ev>>
OnlyEnabled == [][~s.on => s'.used = s.used]_<<s, ev>>
=============================================================================
