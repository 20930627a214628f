--------------------------------- MODULE Names ---------------------------------
(***************************************************************************)
(* Generated names (decoder/format_name.h) and the resource registry       *)
(* (decoder/resource.h).  Strings are sequences of character codes.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

CONSTANTS Chars, MaxChars, NameSet, MaxRes

VARIABLES s, ev

US == 95
Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
IsUpper(c) == c \in 65..90

\* Underscores are dropped; the first character and each one that follows an underscore is
\* capitalised; all others are unchanged.
Pascal(n) ==
  LET keep == SelectSeq([i \in 1..Len(n) |-> i], LAMBDA i : n[i] # US)
  IN [k \in 1..Len(keep) |->
        IF keep[k] = 1 \/ n[keep[k] - 1] = US THEN Upper(n[keep[k]]) ELSE n[keep[k]]]
\* An underscore precedes each upper case letter except the first character; all lower case.
RECURSIVE SnakeFrom(_, _)
SnakeFrom(n, i) == IF i > Len(n) THEN <<>>
                   ELSE (IF i > 1 /\ IsUpper(n[i]) THEN <<US>> ELSE <<>>) \o <<Lower(n[i])>>
                        \o SnakeFrom(n, i + 1)
Snake(n) == SnakeFrom(n, 1)
Guard(n) == [i \in 1..Len(n) |-> IF n[i] \in {47, 46} THEN US ELSE Upper(n[i])]
LowerCase(n) == [i \in 1..Len(n) |-> Lower(n[i])]
Spaces(k) == [i \in 1..k |-> 32]
Conv(f, n) == CASE f = "pascal" -> Pascal(n) [] f = "snake" -> Snake(n) [] f = "guard" -> Guard(n)
                [] f = "lower" -> LowerCase(n) [] f = "indent" -> Spaces(Len(n))

RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Less(Tail(a), Tail(b))

Configs == {<<"reset">>}
Init0(c) == <<>>     \* resources in creation order: [name, simple, multi, array]
ResetOut(c) == <<0, <<>>>>

Find(st, n) == IF \E i \in 1..Len(st) : st[i].name = n
               THEN CHOOSE i \in 1..Len(st) : st[i].name = n ELSE 0
Row(st, i) == <<st[i].name, i, st[i].simple, st[i].multi, st[i].array, Pascal(st[i].name)>>
Dump(st) == LET idx == SetToSortSeq(1..Len(st), LAMBDA i, j : Less(st[i].name, st[j].name))
            IN [k \in 1..Len(idx) |-> Row(st, idx[k])]
New(n) == [name |-> n, simple |-> TRUE, multi |-> FALSE, array |-> FALSE]

Ops(st) ==
  (IF Len(st) < MaxRes THEN {<<"create", n>> : n \in NameSet} \cup {<<"get", n>> : n \in NameSet}
   ELSE {<<"create", st[i].name>> : i \in 1..Len(st)} \cup {<<"get", st[i].name>> : i \in 1..Len(st)})
  \cup {<<"set", i, a, v>> : i \in 1..Len(st), a \in {"simple", "multi", "array"}, v \in {TRUE, FALSE}}
  \cup (IF st = <<>> THEN {<<"conv", f, n>> : f \in {"pascal", "snake", "guard", "lower", "indent"},
                                          n \in UNION {[1..k -> Chars] : k \in 0..MaxChars}}
                          \cup {<<"indentn", k>> : k \in 0..3}
        ELSE {})

Eff(st, op) ==
  CASE op[1] = "create" ->
         {IF Find(st, op[2]) # 0 THEN [s |-> st, out |-> <<0, Dump(st)>>]
          ELSE LET t == Append(st, New(op[2])) IN [s |-> t, out |-> <<Len(t), Dump(t)>>]}
    [] op[1] = "get" ->
         {IF Find(st, op[2]) # 0 THEN [s |-> st, out |-> <<Find(st, op[2]), Dump(st)>>]
          ELSE LET t == Append(st, New(op[2])) IN [s |-> t, out |-> <<Len(t), Dump(t)>>]}
    [] op[1] = "set" ->
         {LET t == CASE op[3] = "simple" -> [st EXCEPT ![op[2]].simple = op[4]]
                     [] op[3] = "multi" -> [st EXCEPT ![op[2]].multi = op[4]]
                     [] op[3] = "array" -> [st EXCEPT ![op[2]].array = op[4]]
          IN [s |-> t, out |-> <<op[2], Dump(t)>>]}
    [] op[1] = "conv" -> {[s |-> st, out |-> <<Conv(op[2], op[3])>>]}
    [] op[1] = "indentn" -> {[s |-> st, out |-> <<Spaces(op[2])>>]}

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>
----------------------------------------------------------------------------
UniqueNames == \A i, j \in 1..Len(s) : i # j => s[i].name # s[j].name
\* Resources are never removed or renamed, and only "set" changes attributes.
Stable == [][/\ Len(s') >= Len(s)
             /\ \A i \in 1..Len(s) : s'[i].name = s[i].name
                  /\ (ev'[1][1] # "set" => s'[i] = s[i])]_<<s, ev>>
NoUnderscore == ev[1][1] = "conv" /\ ev[1][2] = "pascal" => \A i \in 1..Len(ev[2][1]) : ev[2][1][i] # US
NoUpper == ev[1][1] = "conv" /\ ev[1][2] \in {"snake", "lower"} => \A i \in 1..Len(ev[2][1]) : ~IsUpper(ev[2][1][i])
PascalIdempotent == ev[1][1] = "conv" /\ ev[1][2] = "pascal" => Pascal(ev[2][1]) = ev[2][1]
SnakeRoundTrip == ev[1][1] = "conv" /\ ev[1][2] = "pascal" /\ ev[1][3] # <<>>
                  /\ (\A i \in 1..Len(ev[1][3]) : ev[1][3][i] \in (97..122) \cup {US})
                  /\ ev[1][3][1] # US /\ ev[1][3][Len(ev[1][3])] # US
                  /\ (\A i \in 1..(Len(ev[1][3]) - 1) : ~(ev[1][3][i] = US /\ ev[1][3][i + 1] = US))
                    => Snake(ev[2][1]) = ev[1][3]
=============================================================================
