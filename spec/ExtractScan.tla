------------------------------ MODULE ExtractScan ------------------------------
(***************************************************************************)
(* The recipe construction of GetExtractionRecipe, step by step: scan the  *)
(* mask from bit 0 and emit one (mask, shift) step per run of ones.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT W
VARIABLES m, pos, run, tot, rec, done
Pk == INSTANCE Extract WITH Offsets <- {0}, Win <- W, s <- [mask |-> m, set |-> TRUE], ev <- <<>>
vars == <<m, pos, run, tot, rec, done>>
Init == m \in SUBSET (0..(W - 1)) /\ pos = 0 /\ run = 0 /\ tot = 0 /\ rec = <<>> /\ done = FALSE
\* A step: the result positions tot..tot+run-1 come from value positions pos-run..pos-1.
Step(n) == [mask |-> tot..(tot + run - 1), shift |-> pos - run - tot]
Emit == IF run = 0 THEN rec ELSE Append(rec, Step(run))
Next == /\ ~done
        /\ UNCHANGED m
        /\ IF \A b \in m : b < pos
           THEN done' = TRUE /\ rec' = Emit /\ UNCHANGED <<pos, run, tot>>
           ELSE /\ pos' = pos + 1 /\ UNCHANGED done
                /\ IF pos \in m THEN run' = run + 1 /\ UNCHANGED <<tot, rec>>
                   ELSE rec' = Emit /\ tot' = tot + run /\ run' = 0
Spec == Init /\ [][Next]_vars
Apply(V) == {b \in UNION {rec[i].mask : i \in 1..Len(rec)} :
               \E i \in 1..Len(rec) : b \in rec[i].mask /\ (b + rec[i].shift) \in V}
Correct == done => \A V \in SUBSET (0..(W - 1)) : Apply(V) = Pk!Pack(m, V)
Shifts == \A i \in 1..Len(rec) : rec[i].shift >= 0
Disjoint == \A i, j \in 1..Len(rec) : i # j => rec[i].mask \cap rec[j].mask = {}
=============================================================================
