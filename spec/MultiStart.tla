----------------------------- MODULE MultiStart -----------------------------
(* Workers share a pool of starting points and a list of solutions.  A worker   *)
(* checks whether enough solutions exist, takes a start from the pool, solves   *)
(* it privately, stores the solution.  Check and take are two steps: between    *)
(* them other workers may store or take; the take itself tests the pool.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Workers, N, MaxSol, Depths, Record, Pick(_)
ASSUME Workers # {}
All(S) == S
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

VARIABLES out,      \* outcome of each start: 0 fails, otherwise the depth rank of its solution
          pool, pc, cur, stored, order, sched
vars == <<out, pool, pc, cur, stored, order, sched>>
Starts == 1..N
Mark(w) == sched' = IF Record THEN Append(sched, w) ELSE sched

Init == /\ out = <<>> /\ pool = Starts /\ pc = [w \in Workers |-> "check"]
        /\ cur = [w \in Workers |-> 0] /\ stored = {} /\ order = <<>> /\ sched = <<>>
Draw == /\ out = <<>> /\ out' \in Pick([Starts -> Depths \cup {0}])
        /\ UNCHANGED <<pool, pc, cur, stored, order, sched>>
Check(w) == /\ out # <<>> /\ pc[w] = "check"
            /\ pc' = [pc EXCEPT ![w] = IF Cardinality(stored) >= MaxSol THEN "stop" ELSE "take"]
            /\ UNCHANGED <<out, pool, cur, stored, order, sched>>
Take(w) == /\ pc[w] = "take"
           /\ IF pool = {} THEN pc' = [pc EXCEPT ![w] = "stop"] /\ UNCHANGED <<pool, cur, order>>
              ELSE LET s == CHOOSE x \in pool : \A y \in pool : x <= y IN
                   /\ pool' = pool \ {s} /\ cur' = [cur EXCEPT ![w] = s] /\ pc' = [pc EXCEPT ![w] = "solve"]
                   /\ order' = Append(order, s)
           /\ Mark(w) /\ UNCHANGED <<out, stored>>
Store(w) == /\ pc[w] = "solve"
            /\ stored' = IF out[cur[w]] # 0 THEN stored \cup {cur[w]} ELSE stored
            /\ pc' = [pc EXCEPT ![w] = "check"] /\ cur' = [cur EXCEPT ![w] = 0]
            /\ Mark(w) /\ UNCHANGED <<out, pool, order>>
Step == out # <<>> /\ \E w \in Pick({v \in Workers : pc[v] # "stop"}) : Check(w) \/ Take(w) \/ Store(w)
Next == Draw \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Stopped == out # <<>> /\ \A w \in Workers : pc[w] = "stop"
Best == IF stored = {} THEN 0 ELSE CHOOSE s \in stored : \A r \in stored : out[s] <= out[r]

(* properties *)
AtMostOnce == /\ \A w, v \in Workers : w # v /\ cur[w] # 0 => cur[w] # cur[v]
              /\ \A a, b \in DOMAIN order : a # b => order[a] # order[b]
NothingLost == Stopped => stored = {order[k] : k \in {j \in DOMAIN order : out[order[j]] # 0}}
StopsRight == Stopped => Cardinality(stored) >= MaxSol \/ pool = {}
Overshoot == Cardinality(stored) <= MaxSol + Cardinality(Workers) - 1
DeepestFound == Stopped /\ stored # {} => \A s \in stored : out[Best] <= out[s]
Terminates == <>Stopped
Emit == Stopped /\ Record => PrintT("CASE " \o ToJson([out |-> out, sched |-> sched, maxsol |-> MaxSol, nw |-> Cardinality(Workers)]))
=============================================================================
