----------------------------- MODULE MultiTrace -----------------------------
(* Recorded multi-start runs as behaviours of MultiStart.  Events:             *)
(*  [e|->"take", w, i]  worker w starts the local minimisation of start i      *)
(*                      (0: not one of the starts)                             *)
(*  [e|->"end", w, ok]  that minimisation ended                                *)
(* Check and Store are hidden.  A store certainly lies before the storing      *)
(* worker's next event and the check of a take may come right after the        *)
(* worker's previous event, so: the number of stores that certainly precede    *)
(* the previous event of the worker, its own included, must be below MaxSol.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, taken, cur, pend, stored, floor
vars == <<t, l, taken, cur, pend, stored, floor>>
Tr == Traces[t]
Ws == 1..Tr.workers
Init == /\ t \in DOMAIN Traces /\ l = 0 /\ taken = {} /\ stored = 0
        /\ cur = [w \in 1..Traces[t].workers |-> 0] /\ pend = [w \in 1..Traces[t].workers |-> FALSE]
        /\ floor = [w \in 1..Traces[t].workers |-> 0]
E == Tr.ev[l + 1]
Clauses == IF E.e = "take"
           THEN [known |-> E.i \in 1..Tr.n, once |-> E.i \notin taken, idle |-> cur[E.w] = 0,
                 enough |-> floor[E.w] < Tr.maxsol]
           ELSE [known |-> TRUE, once |-> TRUE, idle |-> cur[E.w] # 0, enough |-> TRUE]
Ok == Clauses.known /\ Clauses.once /\ Clauses.idle /\ Clauses.enough
Next ==
  /\ l < Len(Tr.ev) /\ Ok /\ l' = l + 1 /\ UNCHANGED t
  /\ IF E.e = "take"
     THEN /\ taken' = taken \cup {E.i} /\ cur' = [cur EXCEPT ![E.w] = E.i]
          /\ stored' = IF pend[E.w] THEN stored + 1 ELSE stored
          /\ pend' = [pend EXCEPT ![E.w] = FALSE] /\ UNCHANGED floor
     ELSE /\ cur' = [cur EXCEPT ![E.w] = 0]
          /\ pend' = [pend EXCEPT ![E.w] = E.ok]
          /\ floor' = [floor EXCEPT ![E.w] = stored + IF E.ok THEN 1 ELSE 0]
          /\ UNCHANGED <<taken, stored>>
Spec == Init /\ [][Next]_vars
Oks == {k \in DOMAIN Tr.ev : Tr.ev[k].e = "end" /\ Tr.ev[k].ok}
\* at the end: stopped for a reason, every solution of the run and nothing else reported once, the deepest returned
Final == [ stops |-> Cardinality(Oks) >= Tr.maxsol \/ Cardinality(taken) = Tr.n,
           overshoot |-> Cardinality(Oks) <= Tr.maxsol + Tr.workers - 1,
           ended |-> \A w \in Ws : cur[w] = 0,
           rows |-> /\ Len(Tr.rows) = Cardinality(Oks)
                    /\ {Tr.rows[k] : k \in DOMAIN Tr.rows} = {Tr.ev[k].i : k \in Oks},
           faithful |-> Tr.faithful,
           result |-> IF Oks = {} THEN Tr.ret = 0 /\ ~Tr.success
                      ELSE /\ Tr.success /\ Tr.ret \in {Tr.ev[k].i : k \in Oks}
                           /\ \A k \in Oks : Tr.depth[Tr.ret] <= Tr.depth[Tr.ev[k].i] ]
FinalOk == Final.stops /\ Final.overshoot /\ Final.ended /\ Final.rows /\ Final.faithful /\ Final.result
Report == IF l < Len(Tr.ev)
          THEN IF Ok THEN TRUE ELSE PrintT("CASE " \o ToJson([trace |-> t, step |-> l + 1, ev |-> E, clauses |-> Clauses]))
          ELSE IF FinalOk THEN TRUE ELSE PrintT("CASE " \o ToJson([trace |-> t, step |-> l + 1, ev |-> "end", clauses |-> Final]))
=============================================================================
