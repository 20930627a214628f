------------------------------ MODULE Components ------------------------------
(***************************************************************************)
(* Components, configuration entries and counters (generic/component.h,    *)
(* config.h, counters.h).                                                  *)
(*                                                                         *)
(* Components 1..NC, configuration entries 1..6 (one per value type: bool, *)
(* int64, uint64, double, string, physical) and counters 1..4 (4 applies a *)
(* function to its input: even values v become v+100, odd ones are         *)
(* dropped).  Names are numbers; name order is number order.               *)
(* A document (import) is <<name, entries, children>>, an entry is         *)
(* <<name, type, value>>; name 0 / type 0: missing.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS NC, CfgIds, CtrIds, Vals, Docs, Lists

VARIABLES s, ev

Comp == 1..NC
Cfg == 1..6
Ctr == 1..4
CName(c) == <<1, 2, 3, 2, 4>>[c]          \* two components share a name
GName(g) == <<1, 2, 3, 4, 5, 2>>[g]       \* so do two entries
KName(k) == <<1, 2, 2, 3>>[k]             \* and two counters
Norm(t, v) == IF t = 1 THEN v % 2 ELSE v

Configs == {<<"reset">>}
Init0(c) == [kids |-> [i \in Comp |-> {}], cfg |-> [i \in Comp |-> {}], ctr |-> [i \in Comp |-> {}],
             gv |-> [g \in Cfg |-> 0], has |-> [g \in Cfg |-> FALSE], cbs |-> [g \in Cfg |-> 0],
             kv |-> [k \in Ctr |-> 0], en |-> [k \in Ctr |-> k # 3], ini |-> [k \in Ctr |-> k # 3],
             lis |-> [k \in Ctr |-> <<>>]]
ResetOut(c) == <<>>

Vals4(st) == <<[g \in Cfg |-> <<st.gv[g], st.has[g]>>], [k \in Ctr |-> <<st.kv[k], st.en[k]>>]>>
\* out: result, log of callbacks / counter updates, all values
Seen(st, r, lg) == {[s |-> st, out |-> <<r, lg>> \o Vals4(st)]}

RECURSIVE Down(_, _)
Down(st, c) == {c} \cup UNION {Down(st, k) : k \in st.kids[c]}
HasParent(st, c) == \E p \in Comp : c \in st.kids[p]
ByName(S, Nm(_)) == SetToSortSeq(S, LAMBDA a, b : Nm(a) < Nm(b))

\* Writing entry g calls each of its callbacks.
Write(st, g, v) == [s |-> [st EXCEPT !.gv[g] = Norm(g, v), !.has[g] = TRUE], lg |-> [i \in 1..st.cbs[g] |-> g]]

\* A counter update and everything it causes: <<counter, value>> in order.
RECURSIVE Put(_, _, _)
RECURSIVE PutAll(_, _, _, _)
Feed(st, k, v) == \* SetValue on counter k
  IF ~st.en[k] THEN [s |-> st, lg |-> <<>>]
  ELSE IF k = 4 THEN (IF v % 2 = 0 THEN Put(st, 4, v + 100) ELSE [s |-> st, lg |-> <<>>])
  ELSE Put(st, k, v)
Put(st, k, v) == LET t == [st EXCEPT !.kv[k] = v]
                     r == PutAll(t, st.lis[k], v, <<>>)
                 IN [s |-> r.s, lg |-> <<<<k, v>>>> \o r.lg]
PutAll(st, q, v, lg) == IF q = <<>> THEN [s |-> st, lg |-> lg]
                        ELSE LET r == Feed(st, q[1], v) IN PutAll(r.s, Tail(q), v, lg \o r.lg)
Do(r, x) == Seen(r.s, x, r.lg)

\* Export: <<name, entries, counters, children>>
RECURSIVE Tree(_, _)
Tree(st, c) ==
  LET gs == ByName(st.cfg[c], GName)
      ks == ByName(st.ctr[c], KName)
      cs == ByName(st.kids[c], CName)
  IN <<CName(c), [i \in 1..Len(gs) |-> <<GName(gs[i]), gs[i], st.gv[gs[i]]>>],
       [i \in 1..Len(ks) |-> <<KName(ks[i]), st.kv[ks[i]]>>],
       [i \in 1..Len(cs) |-> Tree(st, cs[i])]>>

\* Import, in document order, until the first error.
RECURSIVE Entries(_, _, _, _)
Entries(st, c, es, lg) ==
  IF es = <<>> THEN [s |-> st, ok |-> TRUE, lg |-> lg]
  ELSE LET e == es[1]
           m == {g \in st.cfg[c] : GName(g) = e[1]}
       IN IF e[1] = 0 THEN [s |-> st, ok |-> FALSE, lg |-> lg]
          ELSE IF m = {} THEN Entries(st, c, Tail(es), lg)
          ELSE LET g == CHOOSE x \in m : TRUE
                   w == Write(st, g, e[3])
               IN IF e[2] # g THEN [s |-> st, ok |-> FALSE, lg |-> lg]
                  ELSE Entries(w.s, c, Tail(es), lg \o w.lg)
RECURSIVE Import(_, _, _)
RECURSIVE Children(_, _, _, _)
Import(st, c, d) ==
  IF d[1] # CName(c) THEN [s |-> st, ok |-> FALSE, lg |-> <<>>]
  ELSE LET r == Entries(st, c, d[2], <<>>) IN IF ~r.ok THEN r ELSE Children(r.s, c, d[3], r.lg)
Children(st, c, ds, lg) ==
  IF ds = <<>> THEN [s |-> st, ok |-> TRUE, lg |-> lg]
  ELSE LET d == ds[1]
           m == {k \in st.kids[c] : CName(k) = d[1]}
       IN IF d[1] = 0 THEN [s |-> st, ok |-> FALSE, lg |-> lg]
          ELSE IF m = {} THEN Children(st, c, Tail(ds), lg)
          ELSE LET r == Import(st, CHOOSE x \in m : TRUE, d)
               IN IF ~r.ok THEN [r EXCEPT !.lg = lg \o @] ELSE Children(r.s, c, Tail(ds), lg \o r.lg)

RECURSIVE DoneLog(_, _)
DoneLog(st, c) == LET cs == ByName(st.kids[c], CName)
                  IN FlattenSeq([i \in 1..Len(cs) |-> DoneLog(st, cs[i])]) \o <<c>>

Ops(st) ==
  UNION {{<<"kid", p, c>> : c \in {x \in Comp : ~HasParent(st, x) /\ p \notin Down(st, x)}} : p \in Comp}
  \cup {<<"unkid", p, n>> : p \in {1}, n \in {1, 2}}
  \cup UNION {{<<"addcfg", p, g>> : g \in CfgIds} : p \in {1, 2}}
  \cup UNION {{<<"addctr", p, k>> : k \in CtrIds} : p \in {1, 2}}
  \cup {<<"cb", g>> : g \in {x \in CfgIds : st.cbs[x] < 1}}
  \cup {<<"cset", g, v>> : g \in CfgIds, v \in Vals} \cup {<<"csetv", g, t, v>> : g \in CfgIds, t \in CfgIds, v \in Vals}
  \cup {<<o, k, v>> : o \in {"inc", "dec", "set"}, k \in CtrIds, v \in Vals} 
  \cup {<<"enable", k, e>> : k \in {x \in CtrIds : st.ini[x]}, e \in {0, 1}} \cup {<<"init", k, v>> : k \in CtrIds \cap {3}, v \in Vals}
  \cup (IF Lists THEN {<<"listen", p[1], p[2]>> : p \in {x \in CtrIds \X CtrIds : x[1] < x[2] /\ Len(st.lis[x[1]]) < 2}} ELSE {})
  \cup {<<"export", c>> : c \in {1}} \cup {<<"done", c>> : c \in {1}}
  \cup {<<"import", c, d>> : c \in {1}, d \in Docs}

Eff(st, op) ==
  CASE op[1] = "kid" ->
         IF \E k \in st.kids[op[2]] : CName(k) = CName(op[3]) THEN Seen(st, 0, <<>>)
         ELSE Seen([st EXCEPT !.kids[op[2]] = @ \cup {op[3]}], 1, <<>>)
    [] op[1] = "unkid" ->
         LET m == {k \in st.kids[op[2]] : CName(k) = op[3]}
         IN Seen([st EXCEPT !.kids[op[2]] = @ \ m], IF m = {} THEN 0 ELSE 1, <<>>)
    [] op[1] = "addcfg" ->
         IF \E g \in st.cfg[op[2]] : GName(g) = GName(op[3]) THEN Seen(st, 0, <<>>)
         ELSE Seen([st EXCEPT !.cfg[op[2]] = @ \cup {op[3]}], 1, <<>>)
    [] op[1] = "addctr" ->
         IF ~st.ini[op[3]] \/ \E k \in st.ctr[op[2]] : KName(k) = KName(op[3]) THEN Seen(st, 0, <<>>)
         ELSE Seen([st EXCEPT !.ctr[op[2]] = @ \cup {op[3]}], 1, <<>>)
    [] op[1] = "cb" -> Seen([st EXCEPT !.cbs[op[2]] = @ + 1], 0, <<>>)
    [] op[1] = "cset" -> Do(Write(st, op[2], op[3]), 0)
    [] op[1] = "csetv" -> IF op[3] # op[2] THEN Seen(st, 0, <<>>) ELSE Do(Write(st, op[2], op[4]), 1)
    [] op[1] = "inc" -> IF op[2] = 4 \/ ~st.en[op[2]] THEN Seen(st, 0, <<>>) ELSE Do(Put(st, op[2], st.kv[op[2]] + op[3]), 0)
    [] op[1] = "dec" -> IF op[2] = 4 \/ ~st.en[op[2]] THEN Seen(st, 0, <<>>) ELSE Do(Put(st, op[2], st.kv[op[2]] - op[3]), 0)
    [] op[1] = "set" -> Do(Feed(st, op[2], op[3]), 0)
    [] op[1] = "enable" -> Seen([st EXCEPT !.en[op[2]] = (op[3] = 1)], 0, <<>>)
    [] op[1] = "init" -> Seen([st EXCEPT !.kv[op[2]] = op[3], !.ini[op[2]] = TRUE, !.en[op[2]] = TRUE], 0, <<>>)
    [] op[1] = "listen" -> Seen([st EXCEPT !.lis[op[2]] = Append(@, op[3])], 0, <<>>)
    [] op[1] = "export" -> Seen(st, Tree(st, op[2]), <<>>)
    [] op[1] = "done" -> Seen(st, 0, DoneLog(st, op[2]))
    [] op[1] = "import" -> LET r == Import(st, op[2], op[3]) IN Seen(r.s, IF r.ok THEN 1 ELSE 0, r.lg)

Init == \E c \in Configs : s = Init0(c) /\ ev = <<c, ResetOut(c)>>
Next == \E op \in Ops(s) : \E r \in Eff(s, op) : s' = r.s /\ ev' = <<op, r.out>>
Spec == Init /\ [][Next]_<<s, ev>>
----------------------------------------------------------------------------
UniqueNames == \A c \in Comp : /\ \A a, b \in s.kids[c] : CName(a) = CName(b) => a = b
                               /\ \A a, b \in s.cfg[c] : GName(a) = GName(b) => a = b
                               /\ \A a, b \in s.ctr[c] : KName(a) = KName(b) => a = b
\* Importing what was exported changes no value (an exported tree without its counters is a document).
RECURSIVE ToDoc(_)
ToDoc(t) == <<t[1], t[2], [i \in 1..Len(t[4]) |-> ToDoc(t[4][i])]>>
RoundTrip == \A c \in {1} : LET r == Import(s, c, ToDoc(Tree(s, c))) IN r.ok /\ r.s.gv = s.gv
\* Configuration changes only by writes and imports, counters only by their own operations.
ConfigFrame == [][ ev'[1][1] \notin {"cset", "csetv", "import"} => s'.gv = s.gv ]_<<s, ev>>
CounterFrame == [][ ev'[1][1] \notin {"inc", "dec", "set", "init"} => s'.kv = s.kv ]_<<s, ev>>
DisabledFrozen == [][ \A k \in Ctr : ~s.en[k] /\ ev'[1][1] # "init" => s'.kv[k] = s.kv[k] ]_<<s, ev>>
ImportOnlyNamed == [][ ev'[1][1] = "import" =>
                        \A g \in Cfg : s'.gv[g] # s.gv[g] => \E c \in Down(s, ev'[1][2]) : g \in s.cfg[c] ]_<<s, ev>>
=============================================================================
