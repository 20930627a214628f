----------------------------- MODULE RunControl -----------------------------
(* Sharing one simulated core between Renode, which advances time in quanta,  *)
(* and a debugger command line (RenodeCLITop, CLIForwarder).                  *)
(*                                                                            *)
(* Three threads: ren calls RenodeStep; cli calls CLIStep, CLIRun and         *)
(* queries; aux calls CLIHalt and SetConnected.  Core instructions are        *)
(* executed one per "tick", so that the other threads' calls can arrive in    *)
(* the middle of a Step.  An operation is followed by running all threads,    *)
(* in any order, until each is idle, waits for control, or is inside the core *)
(* waiting for the next tick; its output is the sequence of completed calls.  *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Cores,    \* core programs: <<breakpoints (set), last instruction>>
          Nums,     \* step counts
          Kinds,    \* query kinds
          MaxPos    \* bound for exploration
VARIABLES s, ev

Least(a, b) == IF a < b THEN a ELSE b
(* cs: who has control: "H", "S" (single step): command line; "R": Renode.
   rt, rk: steps of the current quantum, requested and taken.
   done: the program has ended.                                               *)
Configs == {<<"reset", p, w>> : p \in 1..Len(Cores), w \in {0, 1}}
Init0(c) ==
  [core |-> c[2], cs |-> IF c[3] = 1 THEN "H" ELSE "R", conn |-> FALSE,
   rt |-> 0, rk |-> 0, done |-> FALSE, pos |-> 0, why |-> "none",
   by |-> "none", want |-> 0, did |-> 0, halt |-> FALSE,
   ren |-> <<"idle">>, cli |-> <<"idle">>, ct |-> 0, ck |-> 0, aux |-> <<"idle">>]
ResetOut(c) == <<>>

Bps(t) == Cores[t.core][1]
End(t) == Cores[t.core][2]
Free(t) == t.by = "none"
InControl(t) == t.done \/ (t.cs # "R" /\ t.rt > t.rk)

-----------------------------------------------------------------------------
(* Each step of a thread is atomic: from the moment it has the lock until it  *)
(* waits again. Results: [s, out], out a sequence of events.                  *)
R(t, o) == [s |-> t, out |-> o]

RECURSIVE RenGo(_), RenAfter(_, _), CliGo(_), CliAfter(_, _)
RenRet(t) == R([t EXCEPT !.ren = <<"idle">>], << <<"ren", "n", t.rk>> >>)
\* ren has the lock
RenGo(t) ==
  IF ~(t.cs = "R" \/ t.rk >= t.rt) THEN R([t EXCEPT !.ren = <<"wait">>], <<>>)
  ELSE IF t.rk >= t.rt THEN RenRet(t)
  ELSE IF t.why = "done" THEN RenAfter(t, 0)
  ELSE R([t EXCEPT !.ren = <<"core">>, !.by = "ren", !.want = t.rt - t.rk, !.did = 0,
                   !.why = "none", !.halt = FALSE], <<>>)
RenAfter(t, d) ==
  LET u == [t EXCEPT !.rk = @ + d, !.by = "none"] IN
  IF u.why = "done" THEN RenRet([u EXCEPT !.cs = "H", !.done = TRUE])
  ELSE RenGo(IF u.why # "none" THEN [u EXCEPT !.cs = "H"] ELSE u)

N(k) == <<"n", k>>
CliRet(t, v) == R([t EXCEPT !.cli = <<"idle">>], << <<"cli">> \o v >>)
CliGo(t) ==
  IF ~InControl(t) THEN R([t EXCEPT !.cli = <<"step">>], <<>>)
  ELSE IF t.ck >= t.ct THEN CliRet([t EXCEPT !.cs = "H"], N(t.ck))
  ELSE IF t.why = "done" THEN CliAfter([t EXCEPT !.cs = "S"], 0)
  ELSE R([t EXCEPT !.cs = "S", !.cli = <<"core">>, !.by = "cli",
                   !.want = Least(t.ct - t.ck, t.rt - t.rk), !.did = 0,
                   !.why = "none", !.halt = FALSE], <<>>)
CliAfter(t, d) ==
  LET u == [t EXCEPT !.rk = @ + d, !.ck = @ + d, !.by = "none"] IN
  IF u.why = "done" THEN CliRet([u EXCEPT !.cs = "R", !.done = TRUE], N(u.ck))
  ELSE IF u.why = "none" /\ u.rk >= u.rt THEN CliGo(u)
  ELSE CliRet([u EXCEPT !.cs = "H"], N(u.ck))

RenMoves(t) ==
  CASE ~Free(t) -> {}
    [] t.ren[1] = "start" -> {RenGo([t EXCEPT !.rk = 0, !.rt = t.ren[2]])}
    [] t.ren[1] = "wait" /\ (t.cs = "R" \/ t.rk >= t.rt) -> {RenGo(t)}
    [] OTHER -> {}
CliMoves(t) ==
  CASE ~Free(t) -> {}
    [] t.cli[1] = "start" ->
         {IF t.why = "done" THEN CliRet(t, <<"unavailable">>)
          ELSE CliGo([t EXCEPT !.ct = t.cli[2], !.ck = 0])}
    [] t.cli[1] = "step" /\ InControl(t) -> {CliGo(t)}
    [] t.cli[1] = "run" /\ t.cs # "R" ->
         {IF t.why = "done" THEN CliRet(t, <<"unavailable">>)
          ELSE R([t EXCEPT !.cs = "R", !.cli = <<"running">>], <<>>)}
    [] t.cli[1] = "running" /\ t.cs # "R" -> {CliRet(t, <<"ok">>)}
    [] t.cli[1] = "query" /\ InControl(t) -> {CliRet(t, N(t.pos))}
    [] OTHER -> {}
AuxMoves(t) ==
  CASE ~Free(t) -> {}
    [] t.aux[1] = "halt" -> {R([t EXCEPT !.cs = "H", !.aux = <<"idle">>], << <<"aux", "ok">> >>)}
    [] t.aux[1] = "conn" -> {R([t EXCEPT !.cs = IF t.conn THEN "H" ELSE "R", !.aux = <<"idle">>],
                               << <<"aux", "ok">> >>)}
    [] OTHER -> {}
Moves(t) == RenMoves(t) \cup CliMoves(t) \cup AuxMoves(t)
RECURSIVE Settle(_, _)
Settle(t, o) ==
  LET m == Moves(t) IN
  IF m = {} THEN {[s |-> t, out |-> o]}
  ELSE UNION {Settle(a.s, o \o a.out) : a \in m}

\* One instruction of the core.
Tick(t) ==
  LET p == t.pos + 1
      d == t.did + 1
      w == IF p >= End(t) THEN "done" ELSE IF p \in Bps(t) THEN "break"
           ELSE IF t.halt THEN "user" ELSE "none"
      u == [t EXCEPT !.pos = p, !.did = d, !.why = w]
      r == IF w = "none" /\ d < t.want THEN R(u, <<>>)
           ELSE IF t.by = "ren" THEN RenAfter(u, d) ELSE CliAfter(u, d)
  IN Settle(r.s, << <<"core", t.by>> >> \o r.out)

-----------------------------------------------------------------------------
Ops(t) ==
  (IF t.ren[1] = "idle" /\ t.pos < MaxPos THEN {<<"renode", n>> : n \in Nums} ELSE {})
  \cup (IF t.cli[1] = "idle"
        THEN {<<"step", n>> : n \in Nums} \cup {<<"run">>} \cup {<<"query", k>> : k \in Kinds}
        ELSE {})
  \cup (IF t.aux[1] = "idle" THEN {<<"halt">>, <<"conn", 0>>, <<"conn", 1>>} ELSE {})
  \cup (IF ~Free(t) THEN {<<"tick">>} ELSE {})

Busy(t, op) ==
  \/ op[1] = "renode" /\ t.ren[1] # "idle"
  \/ op[1] \in {"step", "run", "query"} /\ t.cli[1] # "idle"
  \/ op[1] \in {"halt", "conn"} /\ t.aux[1] # "idle"
  \/ op[1] = "tick" /\ Free(t)
Eff(t, op) ==
  CASE Busy(t, op) -> {[s |-> t, out |-> <<"busy">>]}
    [] op[1] = "renode" -> Settle([t EXCEPT !.ren = <<"start", op[2]>>], <<>>)
    [] op[1] = "step" -> Settle([t EXCEPT !.cli = <<"start", op[2]>>], <<>>)
    [] op[1] = "run" -> Settle([t EXCEPT !.cli = <<"run">>], <<>>)
    [] op[1] = "query" -> Settle([t EXCEPT !.cli = <<"query">>], <<>>)
    [] op[1] = "halt" -> Settle([t EXCEPT !.aux = <<"halt">>, !.halt = (t.by # "none") \/ @], <<>>)
    [] op[1] = "conn" ->
         IF (op[2] = 1) = t.conn THEN {[s |-> t, out |-> << <<"aux", "ok">> >>]}
         ELSE Settle([t EXCEPT !.aux = <<"conn">>, !.conn = (op[2] = 1)], <<>>)
    [] OTHER -> Tick(t)

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>

-----------------------------------------------------------------------------
Quiescent == Moves(s) = {}
\* Simulated time never runs ahead of Renode, and only inside one of its requests.
Budget == s.rk <= s.rt
OnlyInQuantum == s.by = "cli" => s.ren[1] = "wait"
\* The core never runs for Renode while the command line is in control of it ...
RenodeYields == [][ev'[1][1] # "tick" /\ s.by = "none" /\ s'.by = "ren" => s'.cs = "R"]_<<s, ev>>
\* ... nor for the command line while it does not have control.
CliNeedsControl == s.by = "cli" => s.cs = "S" \/ s.aux[1] # "idle"
\* No call waits without a reason.
NoStuck ==
  /\ s.ren[1] = "wait" => (s.cs # "R" /\ s.rk < s.rt) \/ s.by = "cli"
  /\ s.cli[1] = "running" => s.cs = "R" \/ s.by # "none"
  /\ s.cli[1] \in {"step", "query"} => s.by # "none" \/ ~InControl(s)
  /\ s.aux[1] # "idle" => s.by # "none"
\* Renode gets exactly the time it asked for, unless the program ends.
Exact ==
  [][\A i \in DOMAIN ev'[2] : ev'[2][i][1] = "ren" =>
       s'.done \/ ev'[2][i][3] = (IF ev'[1][1] = "renode" THEN ev'[1][2] ELSE s.rt)]_<<s, ev>>
\* Queries see the core between instructions of nobody's step.
Undisturbed == [][s'.pos # s.pos => ev'[1][1] = "tick"]_<<s, ev>>
=============================================================================
