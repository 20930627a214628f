------------------------------ MODULE ProgramErrors ------------------------------
(***************************************************************************)
(* Program errors (generic/program_error.h): named errors that are raised  *)
(* with messages, are pending until cleared, and can be masked by name.    *)
(*                                                                         *)
(* Error 0 is the internal simulator error: it always exists, cannot be    *)
(* masked, and is raised when an operation names an error that does not    *)
(* exist, adds one that does, or tries to mask error 0 itself.             *)
(*                                                                         *)
(* Messages are numbered; the text the controller itself produces is       *)
(* represented as -1, or as -(k+1) if it quotes the user's message k.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Names, MaxMsgs

VARIABLES s, ev

Configs == {<<"reset">>}
Init0(c) == [known |-> {0}, masked |-> {}, pending |-> {}, msgs |-> [n \in {0} |-> <<>>], k |-> 1]

Sorted(S) == SetToSortSeq(S, <)
Obs(st, ret) ==
  << ret, st.pending # {}, st.pending \cap st.masked # {}, st.pending \ st.masked # {},
     Sorted(st.pending \cap st.masked), Sorted(st.pending \ st.masked),
     LET ks == Sorted(st.known) IN
     [i \in 1..Len(ks) |-> <<ks[i], ks[i] \in st.masked, st.msgs[ks[i]]>>] >>
ResetOut(c) == Obs(Init0(c), 0)

Raised(st, n, m) == [st EXCEPT !.pending = @ \cup {n}, !.msgs[n] = Append(@, m)]
Internal(st) == Raised(st, 0, -1)
Bump(st) == [st EXCEPT !.k = @ + 1]
R(st, ret) == {[s |-> st, out |-> Obs(st, ret)]}
WithName(st, n) == [st EXCEPT !.known = @ \cup {n},
                              !.msgs = [x \in st.known \cup {n} |-> IF x = n THEN <<>> ELSE st.msgs[x]]]

TotalMsgs(st) == FoldSeq(LAMBDA n, a : a + Len(st.msgs[n]), 0, SetToSeq(st.known))

Ops(st) ==
  IF TotalMsgs(st) >= MaxMsgs
  THEN {<<"clear", n>> : n \in st.known} \cup {<<"clearall">>}
       \cup {<<"mask", n>> : n \in st.known \ {0}} \cup {<<"unmask", n>> : n \in st.known}
  ELSE {<<o, n>> : o \in {"add", "raise", "hraise", "clear", "mask", "unmask", "ismasked", "msgs"},
                   n \in Names \cup {0}}
       \cup {<<"clearall">>}

Eff(st, op) ==
  LET n == op[2] IN
  CASE op[1] = "clearall" ->
         R([st EXCEPT !.pending = {}, !.msgs = [x \in st.known |-> <<>>]], 0)
    [] op[1] = "add" -> IF n \in st.known THEN R(Internal(st), 0) ELSE R(WithName(st, n), 1)
    [] op[1] = "raise" -> IF n \in st.known THEN R(Bump(Raised(st, n, st.k)), 0)
                          ELSE R(Bump(Raised(st, 0, -(st.k + 1))), 0)
    \* through a handle; there is none for a name that does not exist
    [] op[1] = "hraise" -> IF n \in st.known THEN R(Bump(Raised(st, n, st.k)), 1) ELSE R(st, 0)
    [] op[1] = "clear" -> IF n \in st.known
                          THEN R([st EXCEPT !.pending = @ \ {n}, !.msgs[n] = <<>>], 0)
                          ELSE R(Internal(st), 0)
    [] op[1] = "mask" -> IF n \in st.known \ {0} THEN R([st EXCEPT !.masked = @ \cup {n}], 0)
                         ELSE R(Internal(st), 0)
    [] op[1] = "unmask" -> IF n \in st.known THEN R([st EXCEPT !.masked = @ \ {n}], 0)
                           ELSE R(Internal(st), 0)
    [] op[1] = "ismasked" -> IF n \in st.known THEN R(st, IF n \in st.masked THEN 1 ELSE 0)
                             ELSE R(Internal(st), 0)
    [] op[1] = "msgs" -> IF n \in st.known THEN R(st, Len(st.msgs[n]))
                         ELSE LET t == Internal(st) IN R(t, Len(t.msgs[0]))

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>
----------------------------------------------------------------------------
TypeOk == s.pending \subseteq s.known /\ s.masked \subseteq s.known /\ DOMAIN s.msgs = s.known
InternalUnmaskable == 0 \in s.known \ s.masked
\* An error is pending iff it has messages.
PendingIffMessages == \A n \in s.known : n \in s.pending <=> s.msgs[n] # <<>>
\* No message is lost or reordered except by clearing its own error.
OnlyClearLoses ==
  [][ \A n \in s.known :
        \/ IsPrefix(s.msgs[n], s'.msgs[n])
        \/ s'.msgs[n] = <<>> /\ ev'[1] \in {<<"clear", n>>, <<"clearall">>} ]_<<s, ev>>
\* An operation on one name affects only that error and the internal one.
Frame ==
  [][ \A n \in s.known \ {0} :
        (Len(ev'[1]) = 2 /\ ev'[1][2] # n) =>
           /\ s'.msgs[n] = s.msgs[n]
           /\ (n \in s'.masked) = (n \in s.masked)
           /\ (n \in s'.pending) = (n \in s.pending) ]_<<s, ev>>
\* Misuse is never silent.
MisuseReported ==
  [][ Len(ev'[1]) = 2 /\ ev'[1][2] \notin s.known /\ ev'[1][1] \notin {"add", "hraise"}
        => Len(s'.msgs[0]) = Len(s.msgs[0]) + 1 ]_<<s, ev>>
=============================================================================
