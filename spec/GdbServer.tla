----------------------------- MODULE GdbServer -----------------------------
(* The server of the GDB remote serial protocol (util/gdbserver) in front of  *)
(* one core.  A client connects, sends packets and gets acknowledgements and  *)
(* replies; the core has registers, 16 bytes of memory, breakpoints and a     *)
(* program that runs from pc 0 to EndPc, four bytes at a time, with one event *)
(* in between.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS Cfgs,       \* configurations: registers, event, target description, host
          Datas,      \* byte sequences to write (model checking)
          Frames      \* framings of packets (model checking)
VARIABLES s, ev

EndPc == 32
Base == 256
MemSize == 16
PcNum == 32
Limit == 16384         \* longest memory access

\* ------------------------------------------------------------ the core
\* A register of a configuration: [n |-> number, size |-> bytes, bits |-> width in
\* the target description (0: none), bad |-> the core doesn't have it]
C(t) == Cfgs[t.cfg]
RegIx(t, num) == {i \in DOMAIN C(t).regs : C(t).regs[i].n = num}
TheReg(t, num) == CHOOSE i \in RegIx(t, num) : TRUE
Known(t, num) == RegIx(t, num) # {}
Good(t, num) == Known(t, num) /\ ~C(t).regs[TheReg(t, num)].bad
Pc(t) == LET b == t.regs[TheReg(t, PcNum)] IN b[1] + 256 * b[2] + 65536 * b[3]
Le(v, n) == [i \in 1..n |-> CASE i = 1 -> v % 256 [] i = 2 -> (v \div 256) % 256
                               [] i = 3 -> (v \div 65536) % 256 [] OTHER -> 0]
WithPc(t, v) == [t EXCEPT !.regs[TheReg(t, PcNum)] = Le(v, 8)]
StepCore(t) ==
  LET p == IF Pc(t) >= EndPc THEN Pc(t) ELSE Pc(t) + 4
  IN [WithPc(t, p) EXCEPT !.last = IF p >= EndPc THEN "done"
                                   ELSE IF p = C(t).ev[1] THEN C(t).ev[2] ELSE "none"]
RECURSIVE RunCore(_)
RunCore(t) ==
  LET u == StepCore(t)
  IN IF u.last # "none" THEN u
     ELSE IF Pc(u) \in u.bps THEN [u EXCEPT !.last = "sw"] ELSE RunCore(u)

\* ------------------------------------------------------------ replies
Ok == <<"ok">>
Err == <<"err">>
Empty == <<"empty">>
Silent == <<"none">>
Exited == <<"exit">>
Hex(b) == IF b = <<>> THEN Empty ELSE <<"hex", b>>
Text(x) == <<"text", x>>
Stop(sig, why, at, pc) == <<"stop", sig, why, at, pc>>
\* The answer to "?" and "c".
HaltReply(t) ==
  CASE t.last \in {"sw", "hw", "data", "action"} -> Stop("02", "", -1, Pc(t))
    [] t.last = "err" -> Stop("06", "", -1, Pc(t))
    [] t.last = "user" -> Stop("03", "", -1, Pc(t))
    [] t.last \in {"done", "semi"} -> Exited
    [] OTHER -> Stop("05", "", -1, Pc(t))
\* The answers to "vCont".
ContReplies(t) ==
  CASE t.last = "sw" -> {Stop("05", "swbreak", -1, Pc(t))}
    [] t.last = "hw" -> {Stop("05", "hwbreak", -1, Pc(t)), Stop("05", "hwbreak", -1, -1)}
    [] t.last = "data" -> {Stop("05", C(t).ev[3], C(t).ev[4], Pc(t))}
    [] t.last \in {"action", "err"} -> {Stop("06", "", -1, Pc(t))}
    [] t.last = "user" -> {Stop("03", "", -1, Pc(t))}
    [] t.last \in {"done", "semi"} -> {Exited}
    [] OTHER -> {Stop("05", "", -1, Pc(t))}

\* ------------------------------------------------------------ commands
R(t, r) == [t |-> t, r |-> r]
Take(b, n) == SubSeq(b, 1, IF n < Len(b) THEN n ELSE Len(b))
\* b with its first bytes replaced
Over(b, d) == [i \in DOMAIN b |-> IF i <= Len(d) THEN d[i] ELSE b[i]]
Mapped(a) == a >= Base /\ a < Base + MemSize
Avail(a, n) == IF n < Base + MemSize - a THEN n ELSE Base + MemSize - a
ReadMem(t, a, n) ==
  IF ~Mapped(a) THEN {R(t, Err)}
  ELSE {R(t, Hex(SubSeq(t.mem, a - Base + 1, a - Base + Avail(a, n))))}
       \cup (IF n > Limit THEN {R(t, Err)} ELSE {})
PutMem(t, a, d) ==
  [t EXCEPT !.mem = [i \in DOMAIN @ |-> IF i > a - Base /\ i <= a - Base + Len(d)
                                         THEN d[i - (a - Base)] ELSE @[i]]]
\* n: the length that is given, d: the data
WriteMem(t, a, n, d) ==
  IF n # Len(d)
  THEN {R(t, Err)} \cup (IF n < Len(d) /\ Mapped(a) /\ Avail(a, n) = n
                         THEN {R(PutMem(t, a, Take(d, n)), Ok)} ELSE {})
  ELSE IF ~Mapped(a) THEN {R(t, Err)}
  ELSE {R(PutMem(t, a, Take(d, Avail(a, n))), IF Avail(a, n) = n THEN Ok ELSE Err)}
Gprs(t) == SelectSeq([i \in 1..(C(t).gpr[2] - C(t).gpr[1] + 1) |-> i + C(t).gpr[1] - 1],
                     LAMBDA n : Known(t, n))
ReadAll(t) ==
  IF \E i \in DOMAIN Gprs(t) : ~Good(t, Gprs(t)[i]) THEN {R(t, Err)}
  ELSE {R(t, Hex(FlattenSeq([i \in DOMAIN Gprs(t) |-> t.regs[TheReg(t, Gprs(t)[i])]])))}
RECURSIVE PutAll(_, _, _)
PutAll(t, ns, d) ==
  IF ns = <<>> \/ d = <<>> THEN t
  ELSE IF ~Good(t, Head(ns)) THEN t
  ELSE LET i == TheReg(t, Head(ns))
           m == Len(t.regs[i])
       IN PutAll([t EXCEPT !.regs[i] = Over(@, Take(d, m))], Tail(ns), SubSeq(d, m + 1, Len(d)))
Total(t) == Len(FlattenSeq([i \in DOMAIN Gprs(t) |-> t.regs[TheReg(t, Gprs(t)[i])]]))
\* When not all can be written it isn't specified how many are.
WriteAll(t, d) ==
  IF (\E i \in DOMAIN Gprs(t) : ~Good(t, Gprs(t)[i])) \/ Len(d) < Total(t)
  THEN {R(PutAll(t, Gprs(t), Take(d, k)), Err) : k \in 0..Len(d)}
  ELSE {R(PutAll(t, Gprs(t), d), Ok)} \cup (IF Len(d) > Total(t) THEN {R(t, Err)} ELSE {})
ReadReg(t, num) ==
  IF ~Good(t, num) THEN {R(t, Err)}
  ELSE LET i == TheReg(t, num)
           w == C(t).regs[i].bits \div 8
           b == t.regs[i]
       IN {R(t, Hex(IF w = 0 THEN b
                    ELSE [k \in 1..(IF w <= 8 \/ w > Len(b) THEN w ELSE Len(b)) |->
                            IF k <= Len(b) THEN b[k] ELSE 0]))}
WriteReg(t, num, d) ==
  IF ~Good(t, num) THEN {R(t, Err)}
  ELSE LET i == TheReg(t, num)
       IN {R([t EXCEPT !.regs[i] = Over(@, d)], Ok)}
          \cup (IF Len(d) # Len(t.regs[i]) THEN {R(t, Err)} ELSE {})
\* a: where to continue (-1: at the pc, -2: not an address)
Continue(t, a) ==
  IF t.known = "done" THEN {R(t, Exited)}
  ELSE IF a = -2 THEN {R(t, Err)}
  ELSE LET u == RunCore(IF a = -1 THEN t ELSE WithPc(t, a))
       IN {R([u EXCEPT !.known = u.last], HaltReply(u))}
\* Actions <<what, thread>>: the leftmost one for a thread counts.  Thread -1 is
\* all threads, 0 any thread, -2 is no thread given (all that have no action).
ValidTid(n) == n \in {-2, -1, 0, 1}
VCont(t, acts) ==
  IF \E i \in DOMAIN acts : acts[i][1] \notin {"c", "s"} \/ ~ValidTid(acts[i][2])
  THEN {R(t, Err)}
  ELSE IF t.known = "done" THEN {R(t, Exited)}
  ELSE LET u == IF acts[1][1] = "c" THEN RunCore(t) ELSE StepCore(t)
       IN {R([u EXCEPT !.known = u.last], r) : r \in ContReplies(u)}
Break(t, type, a, set) ==
  IF type # 0 \/ a >= 4096 THEN {R(t, Empty)}
  ELSE IF a % 2 = 1 THEN {R(t, Err)}
  ELSE {R([t EXCEPT !.bps = IF set THEN @ \cup {a} ELSE @ \ {a}], Ok)}
Xfer(t, off, n) ==
  LET z == C(t).xml
      m == IF off >= z THEN 0 ELSE IF n = -1 \/ n > z - off THEN z - off ELSE n
  IN IF off + m >= z /\ m > 0
     THEN {R(t, <<"xfer", x, m, TRUE>>) : x \in {"l", "m"}}
     ELSE {R(t, <<"xfer", IF off >= z THEN "l" ELSE "m", m, TRUE>>)}
Features == <<"list", "PacketSize=2000", "multi-wp-addr-", "multiprocess-", "hwbreak-",
              "qRelocInsn-", "fork-events-", "exec-events-", "vContSupported+",
              "QThreadEvents-", "QThreadOptions-", "no-resumed-", "memory-tagging-",
              "vfork-events-", "QStartNoAckMode+", "swbreak+", "watch+",
              "qXfer:features:read+">>
Query(t, q) ==
  CASE q = "Attached" -> Text("0")
    [] q = "C" -> Text("QC1")
    [] q = "fThreadInfo" -> Text("m1")
    [] q = "sThreadInfo" -> Text("l")
    [] q = "GDBServerVersion" -> Text("name:mpact-sim-gdbserver;version:1.0")
    [] q = "ExecAndArgs" -> Text(C(t).file)
    [] q \in {"Supported", "Supported:swbreak+", "Supported:swbreak+;error-message+"} -> Features
    [] q = "HostInfo" -> IF C(t).host = <<>> THEN Empty ELSE <<"host", C(t).host>>
    [] OTHER -> Empty
\* A thread the server doesn't have: an error, or as if there was none given.
Threaded(t, tid, res) ==
  res \cup (IF tid \in {-2, 1} THEN {} ELSE {R(t, Err)})
Do(t, op) ==
  CASE op[1] = "?" -> {R([t EXCEPT !.known = t.last], HaltReply(t))}
    [] op[1] = "m" -> ReadMem(t, op[3], op[4])
    [] op[1] = "M" -> WriteMem(t, op[3], op[4], op[5])
    [] op[1] = "g" -> Threaded(t, op[3], ReadAll(t))
    [] op[1] = "G" -> Threaded(t, op[3], WriteAll(t, op[4]))
    [] op[1] = "p" -> Threaded(t, op[3], ReadReg(t, op[4]))
    [] op[1] = "P" -> Threaded(t, op[3], WriteReg(t, op[4], op[5]))
    [] op[1] = "c" -> Threaded(t, op[3], Continue(t, op[4]))
    [] op[1] = "s" -> Threaded(t, op[3], {R(StepCore(t), Stop("05", "", -1, x)) : x \in {-1, Pc(StepCore(t))}})
    [] op[1] = "vCont" -> VCont(t, op[3])
    [] op[1] = "vCont?" -> {R(t, Text("vCont;c;s;"))}
    [] op[1] = "H" -> {R(t, IF op[4] \in {-1, 0, 1} THEN Ok ELSE Err)}
    [] op[1] = "Z" -> Break(t, op[3], op[4], TRUE)
    [] op[1] = "z" -> Break(t, op[3], op[4], FALSE)
    [] op[1] = "q" -> {R(t, Query(t, op[3]))}
    [] op[1] = "Q" -> {R([t EXCEPT !.noack = @ \/ op[3] = "StartNoAckMode"],
                         IF op[3] \in {"StartNoAckMode", "ThreadSuffixSupported",
                                       "EnableErrorStrings", "ListThreadsInStopReply"}
                         THEN Ok ELSE Empty)}
    [] op[1] = "xfer" -> Xfer(t, op[3], op[4])
    [] op[1] = "D" -> {R([t EXCEPT !.open = FALSE], Ok)}
    [] op[1] = "k" -> {R([t EXCEPT !.open = FALSE], Silent)}
    \* what isn't a command
    [] op[1] = "raw" -> {R(t, Err), R(t, Empty)}

\* ------------------------------------------------------------ packets
(* The framing of a packet: 0, 20 (capital checksum) or 30 (escaped             *)
(* characters) for a good one, -1 and -2 for one whose checksum is wrong, k in  *)
(* 1..5 for one whose reply is refused k times.  The result of a packet: the    *)
(* acknowledgement, how often the reply is sent, the reply, and if the          *)
(* connection is still open.                                                    *)
Packet(t, op) ==
  LET f == op[2]
  IN IF f < 0
     THEN {[s |-> t, out |-> IF t.noack THEN <<"", 1, Err, TRUE>> ELSE <<"-", 0, Silent, TRUE>>]}
     ELSE {LET n == IF x.r = Silent THEN 0 ELSE IF t.noack \/ f > 5 THEN 1 ELSE IF f = 5 THEN 5 ELSE f + 1
               u == IF f = 5 /\ ~t.noack THEN [x.t EXCEPT !.open = FALSE] ELSE x.t
           IN [s |-> u, out |-> <<IF t.noack THEN "" ELSE "+", n, x.r, u.open>>] : x \in Do(t, op)}
Peek(t) == <<[i \in DOMAIN t.regs |-> t.regs[i]], t.mem, SetToSortSeq(t.bps, <), t.last>>
PacketOps == {"?", "m", "M", "g", "G", "p", "P", "c", "s", "vCont", "vCont?", "H", "Z", "z", "q",
              "Q", "xfer", "D", "k", "raw"}
Eff(t, op) ==
  CASE op[1] = "connect" ->
         {[s |-> [t EXCEPT !.open = op[2] = "+", !.noack = FALSE], out |-> <<op[2] = "+">>]}
    [] op[1] = "hangup" -> {[s |-> [t EXCEPT !.open = FALSE], out |-> <<>>]}
    \* a packet that is longer than what the server takes
    [] op[1] = "big" ->
         {[s |-> [t EXCEPT !.open = x], out |-> <<x>>] : x \in {TRUE, FALSE}}
    [] op[1] = "peek" -> {[s |-> t, out |-> Peek(t)]}
    [] op[1] = "destroy" -> {[s |-> [t EXCEPT !.alive = FALSE], out |-> <<TRUE>>]}
    [] OTHER -> Packet(t, op)

\* ------------------------------------------------------------ machine
Configs == {<<"reset", k>> : k \in DOMAIN Cfgs}
Init0(c) == [cfg |-> c[2], alive |-> TRUE, open |-> FALSE, noack |-> FALSE, last |-> "none",
             known |-> "none", bps |-> {}, mem |-> [i \in 1..MemSize |-> i],
             regs |-> [i \in DOMAIN Cfgs[c[2]].regs |->
                         IF Cfgs[c[2]].regs[i].n = PcNum THEN Le(0, 8)
                         ELSE [k \in 1..Cfgs[c[2]].regs[i].size |-> 16 * i + k]]]
ResetOut(c) == <<>>
Ops(t) ==
  IF ~t.alive THEN {<<"peek">>}
  ELSE IF ~t.open THEN {<<"connect", "+">>, <<"connect", "x">>, <<"destroy">>, <<"peek">>}
  ELSE LET F == IF t.noack THEN {0, -1} ELSE Frames
       IN {<<"hangup">>, <<"big", 20000>>, <<"peek">>}
          \cup {<<"?", f>> : f \in F}
          \cup {<<"m", f, Base + 14, n>> : n \in {1, 4}, f \in F}
          \cup {<<"M", 0, Base + 14, n, d>> : n \in {1, 2}, d \in Datas}
          \cup {<<"g", 0, -2>>} \cup {<<"G", 0, -2, d>> : d \in Datas}
          \cup {<<"p", 0, -2, n>> : n \in {0, PcNum, 99}}
          \cup {<<"P", 0, -2, 0, d>> : d \in Datas}
          \cup {<<"c", f, -2, a>> : a \in {-2, -1, 8}, f \in F}
          \cup {<<"s", f, -2>> : f \in F}
          \cup {<<"vCont", 0, a>> : a \in {<<<<"c", -1>>>>, <<<<"s", 1>>, <<"c", -2>>>>, <<<<"c", 9>>>>}}
          \cup {<<"Z", 0, y, 16>> : y \in {0, 2}} \cup {<<"z", 0, 0, 16>>}
          \cup {<<"Q", f, q>> : q \in {"StartNoAckMode", "NonStop"}, f \in F}
          \cup {<<"q", 0, "C">>, <<"xfer", 0, 0, 9>>, <<"D", 0>>, <<"k", 0>>, <<"raw", 0, "m">>}
Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>

\* ------------------------------------------------------------ properties
Bytes(b) == \A i \in DOMAIN b : b[i] \in 0..255
TypesOK == Bytes(s.mem) /\ (\A i \in DOMAIN s.regs : Bytes(s.regs[i]) /\ Len(s.regs[i]) = C(s).regs[i].size)
(* Nothing is acknowledged in a session without acknowledgements.             *)
IsPacket == ev[1][1] \in PacketOps
NoAcks == s.noack /\ IsPacket /\ ev[1][1] # "Q" => ev[2][1] = ""
(* A packet with a wrong checksum, a query or a command that fails changes    *)
(* nothing but the session (memory and registers that are written in part     *)
(* aside).                                                                    *)
Core(t) == <<t.regs, t.mem, t.bps, t.last>>
BadIsIgnored == [][ev'[1][1] \in PacketOps /\ ev'[1][2] < 0 => s' = s]_<<s, ev>>
Observing == [][ev'[1][1] \in {"?", "m", "g", "p", "q", "Q", "xfer", "H", "raw", "D", "k", "peek", "hangup", "connect"}
                => Core(s') = Core(s)]_<<s, ev>>
(* What is written is what is read.                                           *)
Stored == ev[1][1] = "M" /\ ev[2][3] = Ok =>
            SubSeq(s.mem, ev[1][3] - Base + 1, ev[1][3] - Base + ev[1][4]) = Take(ev[1][5], ev[1][4])
(* Only what continues or steps runs the program.                             *)
Runs == [][Core(s') # Core(s) => ev'[1][1] \in {"c", "s", "vCont", "M", "G", "P", "Z", "z"}]_<<s, ev>>
(* The program that stops is at a breakpoint, at its event, at its end, or    *)
(* has been stepped.                                                          *)
StopsSomewhere == ev[1][1] \in {"c", "vCont"} /\ ev[1][2] >= 0 /\ ev[2][3] # Err /\ s.known # "none" =>
                    Pc(s) >= EndPc \/ Pc(s) \in s.bps \/ Pc(s) = C(s).ev[1]
(* Every reply is sent five times at most.                                    *)
Retries == IsPacket => ev[2][2] <= 5 /\ (ev[2][2] = 5 => ~s.open \/ ev[1][2] = 4)
=============================================================================
