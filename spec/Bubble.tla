------------------------------- MODULE Bubble -------------------------------
(* Characteristic temperatures of one transition on a lattice of              *)
(* temperatures 1..N (N next to the critical one).  The environment chooses   *)
(* the profile of the action over temperature, where the action cannot be     *)
(* found, the wall's speed and the order in which the temperatures are asked  *)
(* for.  Profile values are S3/T; rates and the integrated number of bubbles  *)
(* are integers that grow as the profile falls.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Profiles, Failing, Speeds, Fractions, MaxOps, Pick(_, _)
VARIABLES pc, env, got, log
vars == <<pc, env, got, log>>
Node == 1..N
Limit == 140
Deep == 40
(* bubbles nucleate in a cell at a rate that grows as the action falls *)
Rate(x) == IF x >= Limit THEN 0 ELSE (Limit - x) * (Limit - x)
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE j \in S : TRUE IN f[k] + Sum(f, S \ {k})
(* the search runs from the critical temperature downwards and ends where     *)
(* nucleation is certain                                                      *)
Seen(e) == {k \in Node : ~\E j \in Node : j > k /\ e.p[j] < Deep}
Known(e) == Seen(e) \ e.fail
Bubbles(e, k) == e.v * e.v * e.v *
                 Sum([j \in Node |-> IF j >= k /\ j \in Known(e) THEN Rate(e.p[j]) * (j - k + 1) * (j - k + 1) * (j - k + 1) ELSE 0], Node)
(* the cell of the topmost crossing of the limit: the crossing lies between   *)
(* nodes k and k+1; 0: there is none                                          *)
Max(S) == CHOOSE m \in S : \A x \in S : x <= m
Crossing(e) == LET c == {k \in Known(e) : e.p[k] < Limit} IN IF c = {} THEN 0 ELSE Max(c)
(* the highest temperature where the fraction of the false vacuum is reached; *)
(* a larger number stands for a smaller fraction                              *)
Reached(e, f) == LET c == {k \in Known(e) : Bubbles(e, k) >= f} IN IF c = {} THEN 0 ELSE Max(c)

Unset == [nucl_approx |-> -1, nucl |-> -1, perc |-> -1, compl |-> -1]
Init == pc = "env" /\ env = <<>> /\ got = Unset /\ log = <<>>
Env == /\ pc = "env" /\ pc' = "ops" /\ UNCHANGED <<got, log>>
       /\ \E p \in Pick("p", Profiles) : \E f \in Pick("fail", Failing) : \E v \in Pick("v", Speeds) :
            env' = [p |-> p, fail |-> f, v |-> v]
Op(name, arg, k) == /\ pc = "ops" /\ Len(log) < MaxOps
                    /\ got' = [got EXCEPT ![name] = k]
                    /\ log' = Append(log, [op |-> name, arg |-> arg, at |-> k])
                    /\ UNCHANGED <<pc, env>>
Approx == Op("nucl_approx", 0, Crossing(env))
Nucl == Op("nucl", 0, Crossing(env))
Perc == \E f \in Pick("f", Fractions) : Op("perc", f, Reached(env, f))
Compl == \E f \in Pick("f", Fractions) : Op("compl", f, Reached(env, f))
Stop == pc = "ops" /\ Len(log) = MaxOps /\ pc' = "done" /\ UNCHANGED <<env, got, log>>
Next == Env \/ Approx \/ Nucl \/ Perc \/ Compl \/ Stop
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
(* more bubbles are counted at lower temperatures, so that each fraction is   *)
(* reached at one temperature, and smaller fractions later                    *)
Falling == pc = "ops" => \A k \in 1..N-1 : Bubbles(env, k) >= Bubbles(env, k + 1)
Ordered == \A i, j \in 1..Len(log) :
             (log[i].op \in {"perc", "compl"} /\ log[j].op \in {"perc", "compl"} /\ log[i].arg <= log[j].arg)
               => log[j].at <= log[i].at
(* nothing percolates above the first nucleating cell, nor without one *)
After == \A i \in 1..Len(log) : log[i].op \in {"perc", "compl"} => log[i].at <= Crossing(env)
(* a faster wall does not percolate later *)
Faster == pc = "ops" => \A v \in Speeds : v > env.v =>
            \A f \in Fractions : Reached([env EXCEPT !.v = v], f) >= Reached(env, f)
(* asking again, in any order, gives the same answer *)
Same == \A i, j \in 1..Len(log) : (log[i].op = log[j].op /\ log[i].arg = log[j].arg) => log[i].at = log[j].at
Emit == pc = "done" => PrintT("CASE " \o ToJson([p |-> env.p, fail |-> env.fail, v |-> env.v, log |-> log,
                                                crossing |-> Crossing(env), known |-> Known(env)]))
=============================================================================
