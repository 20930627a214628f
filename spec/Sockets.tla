-------------------------------- MODULE Sockets --------------------------------
(***************************************************************************)
(* Socket streams (util/renode/socket_streambuf.h) and the command line    *)
(* served over a socket (util/renode/socket_cli.h).                        *)
(*                                                                         *)
(* Mode "stream": inq are the bytes sent by the peer and not yet read, buf *)
(* a character that was looked at, peer is "open", "ended" (will send no   *)
(* more) or "gone".  Characters read: a carriage return is dropped, the    *)
(* character after it is taken as it is; characters written: a line feed   *)
(* becomes carriage return, line feed.                                     *)
(*                                                                         *)
(* Mode "cli": st is "bad" (cannot serve), "listen", "run" (a client is    *)
(* connected), "done" (the session ended) or "none" (destroyed).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Modes, Chunks, Chars, Texts, MaxQ

VARIABLES s, ev

Configs == {<<"reset", m>> : m \in Modes}
Init0(c) == [mode |-> c[2], inq |-> <<>>, buf |-> <<>>, peer |-> "open", closed |-> FALSE,
             st |-> IF c[2] = "stream" THEN "none" ELSE "start"]
ResetOut(c) == <<>>
Eof == -1
Blocked == -2

\* Taking the next character out of the stream: <<character, state>>
Take(st) ==
  LET q == st.inq
      Dry(t) == IF st.peer = "open" THEN <<Blocked, st>> ELSE <<Eof, t>>
  IN IF st.buf # <<>> THEN <<st.buf[1], [st EXCEPT !.buf = <<>>]>>
     ELSE IF st.closed THEN <<Eof, st>>
     ELSE IF q = <<>> THEN Dry(st)
     ELSE IF q[1] # 13 THEN <<q[1], [st EXCEPT !.inq = Tail(@)]>>
     ELSE IF Len(q) = 1 THEN Dry([st EXCEPT !.inq = <<>>])
     ELSE <<q[2], [st EXCEPT !.inq = Tail(Tail(@))]>>
\* A line: <<characters, terminated, state>>
RECURSIVE Line(_, _)
Line(st, got) ==
  LET t == Take(st)
  IN IF t[1] = Blocked THEN <<got, 2, st>>
     ELSE IF t[1] = Eof THEN <<got, 0, t[2]>>
     ELSE IF t[1] = 10 THEN <<got, 1, t[2]>>
     ELSE Line(t[2], Append(got, t[1]))

RECURSIVE Wire(_)
Wire(q) == IF q = <<>> THEN <<>> ELSE (IF q[1] = 10 THEN <<13, 10>> ELSE <<q[1]>>) \o Wire(Tail(q))

Banner == <<67, 76, 73, 32, 99, 111, 110, 110, 101, 99, 116, 101, 100, 58, 10>>
StreamOps(st) ==
  (IF st.peer = "open" /\ ~st.closed /\ Len(st.inq) < MaxQ THEN {<<"send", q>> : q \in Chunks} ELSE {})
  \cup (IF st.peer = "open" THEN {<<"end">>, <<"gone">>, <<"break">>} ELSE {})
  \cup (IF Take(st)[1] # Blocked THEN {<<"get">>, <<"peek">>} ELSE {})
  \cup (IF Line(st, <<>>)[2] # 2 THEN {<<"line">>} ELSE {})
  \cup {<<"put", q>> : q \in Chars} \cup {<<"close">>}
CliOps(st) ==
  CASE st.st = "start" -> {<<"new">>, <<"newbad", 0>>, <<"newbad", 1>>}
    [] st.st = "listen" -> {<<"connect">>, <<"destroy">>}
    [] st.st = "run" -> {<<"say", t>> : t \in Texts} \cup {<<"quit">>, <<"hang">>, <<"abort">>, <<"destroy">>}
    [] st.st = "done" -> {<<"destroy">>}
    [] st.st = "bad" -> {<<"destroy">>}
    [] OTHER -> {}
Ops(st) == IF st.mode = "stream" THEN StreamOps(st) ELSE CliOps(st)

R(st, o) == {[s |-> st, out |-> o]}
Writable(st) == st.peer \in {"open", "ended"} /\ ~st.closed
Eff(st, op) ==
  CASE op[1] = "send" -> R([st EXCEPT !.inq = @ \o op[2]], <<>>)
    [] op[1] = "end" -> R([st EXCEPT !.peer = "ended"], <<>>)
    [] op[1] \in {"gone", "break"} -> R([st EXCEPT !.peer = "gone"], <<>>)
    [] op[1] = "get" -> LET t == Take(st) IN R(t[2], <<t[1]>>)
    [] op[1] = "peek" -> LET t == Take(st) IN R(IF t[1] = Eof THEN t[2] ELSE [t[2] EXCEPT !.buf = <<t[1]>>], <<t[1]>>)
    [] op[1] = "line" -> LET l == Line(st, <<>>) IN R(l[3], <<l[1], l[2]>>)
    [] op[1] = "put" -> IF Writable(st) THEN R(st, <<1, Wire(op[2])>>) ELSE R(st, <<0, <<>>>>)
    [] op[1] = "close" -> R([st EXCEPT !.closed = TRUE], <<>>)
    \* out: status callbacks, good, bytes the client receives, the client sees the end, descriptors in order
    [] op[1] = "new" -> R([st EXCEPT !.st = "listen"], <<<<0>>, 1, <<>>, 0, 1>>)
    [] op[1] = "newbad" -> R([st EXCEPT !.st = "bad"], <<<<0>>, 0, <<>>, 0, 1>>)
    [] op[1] = "connect" -> R([st EXCEPT !.st = "run"], <<<<1>>, 1, Wire(Banner), 0, 1>>)
    [] op[1] = "say" -> R(st, <<<<>>, 1, Wire(<<60>> \o op[2] \o <<62, 10>>), 0, 1>>)
    [] op[1] = "quit" -> R([st EXCEPT !.st = "done"], <<<<0>>, 0, <<>>, 1, 1>>)
    [] op[1] \in {"hang", "abort"} -> R([st EXCEPT !.st = "done"], <<<<0>>, 0, <<>>, 0, 1>>)
    [] op[1] = "destroy" -> R([st EXCEPT !.st = "none"],
                              <<IF st.st = "run" THEN <<0>> ELSE <<>>, 0, <<>>, IF st.st = "run" THEN 1 ELSE 0, 1>>)

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>
----------------------------------------------------------------------------
\* Without carriage returns a reader gets the bytes that were sent, in order.
InOrder == [][ ev'[1][1] = "get" /\ s.buf = <<>> /\ ~s.closed /\ s.inq # <<>> /\ s.inq[1] # 13 =>
                 ev'[2] = <<s.inq[1]>> /\ s'.inq = Tail(s.inq) ]_<<s, ev>>
\* A connection that ended stays so: reading does not block and does not invent characters.
EndIsFinal == [][ s.peer # "open" /\ s.inq = <<>> /\ s.buf = <<>> /\
                    ev'[1][1] \in {"get", "peek"} => ev'[2] = <<Eof>> ]_<<s, ev>>
PeekKeeps == [][ ev'[1][1] = "peek" /\ ev'[2][1] >= 0 => Take(s')[1] = ev'[2][1] ]_<<s, ev>>
Independent == [][ ev'[1][1] = "put" => s' = s ]_<<s, ev>>
\* The status callback tells exactly when a client is connected.
Connected == [][ s.mode = "cli" /\ ev'[1][1] # "reset" =>
                   (ev'[2][1] # <<>>) = (ev'[1][1] \in {"new", "newbad"} \/ (s.st = "run") # (s'.st = "run")) ]_<<s, ev>>
=============================================================================
