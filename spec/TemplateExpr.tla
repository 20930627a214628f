----------------------------- MODULE TemplateExpr -----------------------------
(***************************************************************************)
(* Template expressions (decoder/template_expression.h).                   *)
(*                                                                         *)
(* Expressions are trees  <<"c", n>>  <<"p", position>>  <<"neg", e>>      *)
(* <<"slot", e>>  <<"add"|"sub"|"mul"|"div", l, r>>  <<"fn", name, args>>. *)
(* The state is a small set of named expression objects.                   *)
(*                                                                         *)
(* A constant subtree whose value is undefined (division by zero, failing  *)
(* function) may be reported when it is instantiated or when its value is  *)
(* asked for, but never yields a value.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Trees1, Trees2, Small

VARIABLES s, ev

None == <<"none">>
Err == <<"err">>
Val(n) == <<"v", n>>
Arith == {"add", "sub", "mul", "div"}

Abs(x) == IF x < 0 THEN -x ELSE x
\* C++ division truncates towards zero.
Quot(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q

RECURSIVE Const(_)
Const(e) == CASE e[1] = "c" -> TRUE [] e[1] = "p" -> FALSE
              [] e[1] \in {"neg", "slot"} -> Const(e[2])
              [] e[1] \in Arith -> Const(e[2]) /\ Const(e[3])
              [] e[1] = "fn" -> \A i \in 1..Len(e[3]) : Const(e[3][i])

RECURSIVE Value(_)
RECURSIVE SumArgs(_, _)
SumArgs(a, i) == IF i > Len(a) THEN 0 ELSE Value(a[i])[2] + SumArgs(a, i + 1)
Value(e) ==
  CASE e[1] = "c" -> Val(e[2])
    [] e[1] = "p" -> Err
    [] e[1] = "slot" -> Value(e[2])
    [] e[1] = "neg" -> LET v == Value(e[2]) IN IF v = Err THEN Err ELSE Val(-v[2])
    [] e[1] \in Arith ->
         LET l == Value(e[2]) r == Value(e[3]) IN
         IF l = Err \/ r = Err THEN Err
         ELSE (CASE e[1] = "add" -> Val(l[2] + r[2])
                [] e[1] = "sub" -> Val(l[2] - r[2])
                [] e[1] = "mul" -> Val(l[2] * r[2])
                [] e[1] = "div" -> IF r[2] = 0 THEN Err ELSE Val(Quot(l[2], r[2])))
    [] e[1] = "fn" ->
         IF ~Const(e) \/ \E i \in 1..Len(e[3]) : Value(e[3][i]) = Err THEN Err
         ELSE CASE e[2] = "sum" -> Val(SumArgs(e[3], 1))
                [] e[2] = "not3" -> IF Len(e[3]) # 1 \/ Value(e[3][1])[2] = 3 THEN Err
                                    ELSE Val(2 * Value(e[3][1])[2])

\* Parameters replaced by argument trees.
RECURSIVE Subst(_, _)
Subst(e, a) ==
  CASE e[1] = "c" -> e
    [] e[1] = "p" -> a[e[2] + 1]
    [] e[1] \in {"neg", "slot"} -> <<e[1], Subst(e[2], a)>>
    [] e[1] \in Arith -> <<e[1], Subst(e[2], a), Subst(e[3], a)>>
    [] e[1] = "fn" -> <<"fn", e[2], [i \in 1..Len(e[3]) |-> Subst(e[3][i], a)]>>

RECURSIVE Params(_)
Params(e) ==
  CASE e[1] = "c" -> {} [] e[1] = "p" -> {e[2]}
    [] e[1] \in {"neg", "slot"} -> Params(e[2])
    [] e[1] \in Arith -> Params(e[2]) \cup Params(e[3])
    [] e[1] = "fn" -> UNION {Params(e[3][i]) : i \in 1..Len(e[3])}

\* Some constant subtree has no value.
RECURSIVE Bad(_)
Bad(e) == \/ Const(e) /\ Value(e) = Err
          \/ e[1] \in {"neg", "slot"} /\ Bad(e[2])
          \/ e[1] \in Arith /\ (Bad(e[2]) \/ Bad(e[3]))
          \/ e[1] = "fn" /\ \E i \in 1..Len(e[3]) : Bad(e[3][i])

View(st) == [k \in 1..4 |-> IF st[k] = None THEN <<>> ELSE <<Const(st[k]), Value(st[k])>>]

Configs == {<<"reset">>}
Init0(c) == [k \in 1..4 |-> None]
ResetOut(c) == <<TRUE, View(Init0(c))>>

Ok(st) == [s |-> st, out |-> <<TRUE, View(st)>>]
Fail(st) == [s |-> st, out |-> <<FALSE, View(st)>>]

\* Instantiate slot k with the expressions of slots as (null: without arguments) into slot j.
Evaluate(st, k, null, as, j) ==
  LET e == st[k]
      a == [i \in 1..Len(as) |-> st[as[i]]]
  IN IF null THEN (IF Bad(e) THEN {Fail(st), Ok([st EXCEPT ![j] = e])} ELSE {Ok([st EXCEPT ![j] = e])})
     ELSE IF \E p \in Params(e) : p >= Len(as) THEN {Fail(st)}
     ELSE LET t == Subst(e, a)
          IN IF Bad(t) THEN {Fail(st), Ok([st EXCEPT ![j] = t])} ELSE {Ok([st EXCEPT ![j] = t])}

Full(st) == {k \in 1..4 : st[k] # None}
Ops(st) ==
  {<<"mk", 1, t>> : t \in {x \in Trees1 : st[1] = None}}
  \cup {<<"mk", 2, t>> : t \in {x \in Trees2 : st[1] # None /\ st[2] = None}}
  \cup (IF st[1] # None /\ st[2] # None /\ st[4] = None
        THEN {<<"eval", 1, FALSE, <<>>, 3>>, <<"eval", 1, TRUE, <<>>, 3>>,
              <<"eval", 1, FALSE, <<2>>, 3>>, <<"eval", 1, FALSE, <<2, 2>>, 3>>,
              <<"eval", 1, FALSE, <<2, 1>>, 3>>, <<"copy", 1, 3>>}
             \cup (IF st[3] # None /\ Small THEN {<<"eval", 3, FALSE, <<2, 2>>, 4>>, <<"eval", 1, FALSE, <<3, 3>>, 4>>,
                                         <<"del", 1>>} ELSE {})
        ELSE {})

Eff(st, op) ==
  CASE op[1] = "mk" -> {Ok([st EXCEPT ![op[2]] = op[3]])}
    [] op[1] = "copy" -> {Ok([st EXCEPT ![op[3]] = st[op[2]]])}
    [] op[1] = "del" -> {Ok([st EXCEPT ![op[2]] = None])}
    [] op[1] = "eval" -> Evaluate(st, op[2], op[3], op[4], op[5])

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>
----------------------------------------------------------------------------
\* A constant expression has a value unless it is bad; a non-constant one has none.
ConstHasValue == \A k \in Full(s) : IF Const(s[k]) THEN (Value(s[k]) = Err => Bad(s[k])) ELSE Value(s[k]) = Err
ConstNoParams == \A k \in Full(s) : Const(s[k]) <=> Params(s[k]) = {}
\* Substitution and evaluation commute: instantiating with constants gives the value computed
\* with the arguments' values in place of the parameters.
ByValue(e, a) == Subst(e, [i \in 1..Len(a) |-> LET v == Value(a[i]) IN IF v = Err THEN a[i] ELSE <<"c", v[2]>>])
Commutes == [][ev'[1][1] = "eval" /\ ev'[2][1] /\ ~ev'[1][3] =>
                 LET a == [i \in 1..Len(ev'[1][4]) |-> s[ev'[1][4][i]]]
                 IN Value(s'[ev'[1][5]]) = Value(ByValue(s[ev'[1][2]], a))]_<<s, ev>>
OthersUnchanged == [][\A k \in 1..4 : (ev'[1][1] = "eval" /\ k # ev'[1][5]) => s'[k] = s[k]]_<<s, ev>>
=============================================================================
