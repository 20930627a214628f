----------------------------- MODULE DataBuffers -----------------------------
(***************************************************************************)
(* DataBufferFactory / DataBuffer / ReferenceCount.                        *)
(* Buffers are numbered in the order their storage is first seen.  A       *)
(* buffer is "live" (referenced), "free" (recycled in its factory) or      *)
(* "gone" (its storage was released by Clear).  Contents are modelled on   *)
(* the visible offsets of a buffer: all of them up to 16 bytes, the first  *)
(* and last eight otherwise.                                               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS Sizes, Factories, Vals, Widths, MaxBufs, MaxCount
VARIABLES s, ev

Vis(n) == IF n <= 16 THEN n ELSE 16
\* Visible position of byte offset o (0-based) in a buffer of n bytes; 0 if not visible.
Pos(n, o) == IF n <= 16 THEN o + 1
             ELSE IF o < 8 THEN o + 1 ELSE IF o >= n - 8 THEN o - (n - 16) + 1 ELSE 0
\* Element index i of width w is completely visible.
ElemVisible(n, w, i) == (i + 1) * w <= n /\ \A o \in (i * w)..(i * w + w - 1) : Pos(n, o) # 0

Configs == {<<"reset">>}
Init0(c) == <<>>
ResetOut(c) == <<>>

Live(st) == {b \in 1..Len(st) : st[b].mode = "live"}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>>
            ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SeqOf(S \ {m})
\* Observation of everything a user can still see.
Obs(st) == LET q == SeqOf(Live(st)) IN
           [i \in 1..Len(q) |-> <<q[i], st[q[i]].size, st[q[i]].cnt, st[q[i]].bytes>>]

Buf(n, f, bytes) == [size |-> n, fac |-> f, cnt |-> 1, bytes |-> bytes, mode |-> "live"]
\* The buffers that may satisfy a request: a recycled one of exactly that size in that
\* factory if there is one, else new storage.
Candidates(st, f, n) ==
  LET fr == {b \in 1..Len(st) : st[b].mode = "free" /\ st[b].fac = f /\ st[b].size = n}
  IN IF fr # {} THEN fr ELSE {Len(st) + 1}
Give(st, b, rec) == IF b <= Len(st) THEN [st EXCEPT ![b] = rec] ELSE Append(st, rec)

Res(st, r) == [s |-> st, out |-> <<r, Obs(st)>>]

Alloc(st, f, n, v) ==
  {Res(Give(st, b, Buf(n, f, [i \in 1..Vis(n) |-> v])), b) : b \in Candidates(st, f, n)}
Copy(st, f, h) ==
  {Res(Give(st, b, Buf(st[h].size, f, st[h].bytes)), b) : b \in Candidates(st, f, st[h].size)}
Inc(st, h) == {Res([st EXCEPT ![h].cnt = @ + 1], h)}
Dec(st, h) == {Res([st EXCEPT ![h].cnt = @ - 1,
                              ![h].mode = IF st[h].cnt = 1 THEN "free" ELSE "live"], h)}
\* Write the bytes bs (elements of width w, little endian) starting at element index i.
Put(rec, w, i, bs) ==
  [rec EXCEPT !.bytes = [p \in 1..Len(rec.bytes) |->
      LET hit == {k \in 1..Len(bs) : Pos(rec.size, i * w + k - 1) = p}
      IN IF hit = {} THEN rec.bytes[p] ELSE bs[CHOOSE k \in hit : TRUE]]]
SetElem(st, h, w, i, bs) == {Res([st EXCEPT ![h] = Put(st[h], w, i, bs)], h)}
SetSpan(st, h, w, bs) == {Res([st EXCEPT ![h] = Put(st[h], w, 0, bs)], h)}
GetElem(st, h, w, i) ==
  {Res(st, [k \in 1..w |-> st[h].bytes[Pos(st[h].size, i * w + k - 1)]])}
NumElems(st, h, w) == {Res(st, st[h].size \div w)}
CopyFrom(st, h, g) == {Res([st EXCEPT ![h].bytes = st[g].bytes], h)}
\* Clear releases the recycled buffers of the factory and nothing else.
Clear(st, f) ==
  {Res([b \in 1..Len(st) |-> IF st[b].mode = "free" /\ st[b].fac = f
                             THEN [st[b] EXCEPT !.mode = "gone"] ELSE st[b]], f)}

Bytes(w, v) == [k \in 1..w |-> (v + 17 * (k - 1)) % 256]
SpanBytes(n, w, v) == Bytes(((n \div w) * w), v)

Ops(st) ==
  (IF Cardinality(Live(st)) < MaxBufs /\ Len(st) < MaxBufs + 1 THEN
     {<<"alloc", f, n, v>> : f \in Factories, n \in Sizes, v \in {0}}
     \cup {<<"copy", f, h>> : f \in Factories, h \in Live(st)} ELSE {})
  \cup {<<"inc", h>> : h \in {x \in Live(st) : st[x].cnt < MaxCount}}
  \cup {<<"dec", h>> : h \in Live(st)}
  \cup {<<"clear", f>> : f \in Factories}
  \cup {<<"copyfrom", h, g>> : h \in Live(st), g \in Live(st)}
  \cup {<<"set", h, w, 0, Bytes(w, v)>> : h \in Live(st), w \in Widths, v \in Vals}

Enabled(st, op) ==
  CASE op[1] = "copyfrom" -> st[op[2]].size = st[op[3]].size /\ op[2] # op[3]
    [] op[1] = "set" -> ElemVisible(st[op[2]].size, op[3], op[4])
    [] OTHER -> TRUE

Eff(st, op) ==
  IF ~Enabled(st, op) THEN {} ELSE
  CASE op[1] = "alloc" -> Alloc(st, op[2], op[3], op[4])
    [] op[1] = "copy" -> Copy(st, op[2], op[3])
    [] op[1] = "inc" -> Inc(st, op[2])
    [] op[1] = "dec" -> Dec(st, op[2])
    [] op[1] = "set" -> SetElem(st, op[2], op[3], op[4], op[5])
    [] op[1] = "setspan" -> SetSpan(st, op[2], op[3], op[4])
    [] op[1] = "get" -> GetElem(st, op[2], op[3], op[4])
    [] op[1] = "getspan" -> GetElem(st, op[2], op[3], op[4])
    [] op[1] = "num" -> NumElems(st, op[2], op[3])
    [] op[1] = "copyfrom" -> CopyFrom(st, op[2], op[3])
    [] op[1] = "clear" -> Clear(st, op[2])

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>
----------------------------------------------------------------------------
\* A buffer is live exactly while it is referenced.
LiveIffReferenced == \A b \in 1..Len(s) : (s[b].mode = "live") <=> (s[b].cnt > 0)
\* Exact sizes, also after recycling.
SizeKept == [][\A b \in 1..Len(s) : s'[b].size = s[b].size /\ s'[b].fac = s[b].fac]_<<s, ev>>
\* Nothing but an operation on buffer b changes b while it is live.
NoInterference ==
  [][\A b \in Live(s) : s'[b] # s[b] => ev'[1][1] \notin {"alloc", "copy", "clear"}
                                        /\ ev'[1][2] = b]_<<s, ev>>
\* Only an unreferenced buffer changes owner or is released.
HandedOutOnlyIfFree ==
  [][ev'[1][1] \in {"alloc", "copy"} =>
       LET b == ev'[2][1] IN b > Len(s) \/ s[b].mode = "free"]_<<s, ev>>
ReleaseOnlyFree == [][\A b \in 1..Len(s) : s[b].mode = "live" => s'[b].mode # "gone"]_<<s, ev>>
\* A copy equals its source.
CopyEqual == ev[1][1] = "copy" => s[ev[2][1]].bytes = s[ev[1][3]].bytes
=============================================================================
