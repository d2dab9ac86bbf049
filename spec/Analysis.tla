------------------------------ MODULE Analysis ------------------------------
(* The transition analysis of a table of parameter points, stage by stage.    *)
(* The numerical work (global minimisation, tracing, bounce actions) is the   *)
(* environment: it answers each stage with any of its outcomes.  The module   *)
(* says which stages are reached, what is recorded, and which chain of phases *)
(* is reported.  Temperatures of completion are levels 1..Levels, 0 standing  *)
(* for "not met"; the other temperatures are only found (1) or not (0).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Points, NloChecks, EwsrChecks, GwChoices, Chosen, EwsrAnswers, TraceAnswers,
          MaxPhase, MaxPairs, Levels, CritAnswers, Pick(_, _)
VARIABLES pc, opts, rep, todo, res, cur, hist, rows
vars == <<pc, opts, rep, todo, res, cur, hist, rows>>

Blank == [nlo |-> "not_set", ewsr |-> "not_set", tracing |-> "not_set", coex |-> "not_set"]
NewPair(p) == [f |-> p[1], t |-> p[2], crit |-> "not_set", bounce |-> "not_set",
               appr |-> -1, nucl |-> -1, perc |-> -1, compl |-> -1, gw |-> "not_set"]
EwsrName(a) == CASE a = 3 -> "ew_sym_res" [] a = 2 -> "ew_sym_non_res" [] a = 1 -> "flat_region"
                 [] a = 0 -> "failure" [] OTHER -> "non_bfb"
(* the pairs come ordered by the earlier (false) phase, then the later one *)
AllPairs(n) == {p \in (0..n-1) \X (0..n-1) : p[1] < p[2]}
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE p \in S : \A q \in S \ {p} : Before(p, q) IN <<m>> \o Sorted(S \ {m})

Init == /\ pc = "options" /\ opts = <<>> /\ rep = Blank /\ todo = <<>> /\ res = <<>>
        /\ cur = NewPair(<<0, 0>>) /\ hist = <<>> /\ rows = <<>>
Options == /\ pc = "options"
           /\ \E n \in Pick("o", NloChecks) : \E e \in Pick("o", EwsrChecks) : \E g \in Pick("o", GwChoices) : \E t \in Pick("o", Chosen) :
                opts' = [nlo |-> n, ewsr |-> e, gw |-> g, chosen |-> IF g THEN t ELSE 3]
           /\ pc' = "nlo"
           /\ UNCHANGED <<rep, todo, res, cur, hist, rows>>
Keep == UNCHANGED <<opts, rows>>
Nlo == /\ pc = "nlo" /\ Keep /\ UNCHANGED <<todo, res, cur, hist>>
       /\ IF ~opts.nlo THEN rep' = [rep EXCEPT !.nlo = "off"] /\ pc' = "ewsr"
          ELSE \/ rep' = [rep EXCEPT !.nlo = "success"] /\ pc' = "ewsr"
               \/ rep' = [rep EXCEPT !.nlo = "no_nlo_stability"] /\ pc' = "end"
Ewsr == /\ pc = "ewsr" /\ Keep /\ UNCHANGED <<todo, res, cur, hist>>
        /\ IF opts.ewsr = 0 THEN rep' = [rep EXCEPT !.ewsr = "off"] /\ pc' = "trace"
           ELSE \E a \in Pick("ewsr", EwsrAnswers) :
                  /\ rep' = [rep EXCEPT !.ewsr = EwsrName(a)]
                  /\ pc' = IF (opts.ewsr = 2 /\ a < 2) \/ (opts.ewsr = 3 /\ a < 3) THEN "end" ELSE "trace"
Trace == /\ pc = "trace" /\ Keep /\ UNCHANGED <<res, cur, hist>>
         /\ \E a \in Pick("trace", TraceAnswers) :
              IF a # "success"
              THEN \E c \in Pick("coex", {"not_set", "success", "no_coex_pair"}) :
                     rep' = [rep EXCEPT !.tracing = a, !.coex = c] /\ todo' = <<>> /\ pc' = "end"
              ELSE \E n \in Pick("phases", 1..MaxPhase) : \E S \in Pick("pairs", {X \in SUBSET AllPairs(n) : Cardinality(X) <= MaxPairs}) :
                     /\ rep' = [rep EXCEPT !.tracing = a, !.coex = IF S = {} THEN "no_coex_pair" ELSE "success"]
                     /\ todo' = Sorted(S)
                     /\ pc' = IF S = {} THEN "end" ELSE "crit"
Crit == /\ pc = "crit" /\ Keep /\ UNCHANGED <<rep, todo, res, hist>>
        /\ \E a \in Pick("crit", CritAnswers) :
             /\ cur' = [NewPair(Head(todo)) EXCEPT !.crit = a]
             /\ pc' = IF a \in {"success", "true_lower"} THEN "bounce" ELSE "next"
Bounce == /\ pc = "bounce" /\ Keep /\ UNCHANGED <<rep, todo, res, hist>>
          /\ \E a \in Pick("ok", {"success", "failure"}) :
               /\ cur' = [cur EXCEPT !.bounce = a]
               /\ pc' = IF a = "success" THEN "temps" ELSE "next"
(* completion levels of pairs with the same false phase are distinct *)
Free == (0..Levels) \ {res[i].compl : i \in {j \in 1..Len(res) : res[j].f = cur.f /\ res[j].compl > 0}}
Temps == /\ pc = "temps" /\ Keep /\ UNCHANGED <<rep, todo, res, hist>>
         /\ \E a \in Pick("found", 0..1) : \E n \in Pick("found", 0..1) : \E p \in Pick("found", 0..1) : \E c \in Pick("level", Free) :
              cur' = [cur EXCEPT !.appr = a, !.nucl = n, !.perc = p, !.compl = c]
         /\ pc' = IF opts.gw THEN "gw" ELSE "next"
At(p, k) == CASE k = 1 -> p.appr [] k = 2 -> p.nucl [] k = 3 -> p.perc [] OTHER -> p.compl
Gw == /\ pc = "gw" /\ Keep /\ UNCHANGED <<rep, todo, res, hist>>
      /\ IF At(cur, opts.chosen) > 0 /\ cur.perc > 0
         THEN \E a \in Pick("ok", {"success", "failure"}) : cur' = [cur EXCEPT !.gw = a]
         ELSE UNCHANGED cur
      /\ pc' = "next"
NextPair == /\ pc = "next" /\ Keep /\ UNCHANGED rep
            /\ res' = Append(res, cur) /\ todo' = Tail(todo) /\ cur' = NewPair(<<0, 0>>)
            /\ pc' = IF Len(todo) = 1 THEN "history" ELSE "crit"
            /\ hist' = IF Len(todo) = 1 THEN <<[phase |-> 0, pair |-> -1]>> ELSE hist
(* the universe leaves a phase through the pair that completes first *)
Here == hist[Len(hist)].phase
Exits(r, f) == {i \in 1..Len(r) : r[i].f = f /\ r[i].compl > 0}
First(r, f) == CHOOSE i \in Exits(r, f) : \A j \in Exits(r, f) : r[j].compl <= r[i].compl
Move == /\ pc = "history" /\ Keep /\ UNCHANGED <<rep, todo, res, cur>>
        /\ IF Exits(res, Here) = {} THEN pc' = "end" /\ UNCHANGED hist
           ELSE LET i == First(res, Here) IN
                hist' = Append(hist, [phase |-> res[i].t, pair |-> i - 1]) /\ pc' = "history"
EndPoint == /\ pc = "end" /\ UNCHANGED opts
            /\ rows' = Append(rows, [rep |-> rep, pairs |-> res, hist |-> hist])
            /\ rep' = Blank /\ todo' = <<>> /\ res' = <<>> /\ hist' = <<>> /\ UNCHANGED cur
            /\ pc' = IF Len(rows) + 1 = Points THEN "done" ELSE "nlo"
Next == Options \/ Nlo \/ Ewsr \/ Trace \/ Crit \/ Bounce \/ Temps \/ Gw \/ NextPair \/ Move \/ EndPoint
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ------------------------------ properties ------------------------------ *)
Rows == {rows[i] : i \in 1..Len(rows)}
(* a stage was reached only through success of the stages before it *)
Gated == \A r \in Rows :
  /\ (r.rep.ewsr # "not_set") => r.rep.nlo \in {"off", "success"}
  /\ (r.rep.tracing # "not_set") => r.rep.ewsr # "not_set"
  /\ (r.rep.tracing # "not_set" /\ opts.ewsr = 2) => r.rep.ewsr \in {"ew_sym_res", "ew_sym_non_res"}
  /\ (r.rep.tracing # "not_set" /\ opts.ewsr = 3) => r.rep.ewsr = "ew_sym_res"
  /\ (opts.ewsr \in {0, 1} /\ r.rep.nlo \in {"off", "success"}) => r.rep.tracing # "not_set"
  /\ (r.pairs # <<>>) <=> (r.rep.coex = "success" /\ r.rep.tracing = "success")
  /\ r.rep.coex # "not_set" => r.rep.tracing # "not_set"
  /\ \A i \in 1..Len(r.pairs) : LET p == r.pairs[i] IN
       /\ p.bounce # "not_set" <=> p.crit \in {"success", "true_lower"}
       /\ \A k \in 1..4 : At(p, k) >= 0 <=> p.bounce = "success"
       /\ p.gw # "not_set" <=> (opts.gw /\ p.perc > 0 /\ At(p, opts.chosen) > 0)
(* the chain of phases is determined by the pairs and completion levels: it   *)
(* starts at the hottest phase, follows completed pairs, leaves every phase   *)
(* through the pair that completes first, and stops where none completes      *)
Chain == \A r \in Rows :
  /\ (r.hist = <<>>) <=> (r.pairs = <<>>)
  /\ r.hist # <<>> =>
       /\ r.hist[1].phase = 0
       /\ \A k \in 2..Len(r.hist) : LET p == r.pairs[r.hist[k].pair + 1] IN
            /\ p.f = r.hist[k-1].phase /\ p.t = r.hist[k].phase /\ p.compl > 0
            /\ \A j \in 1..Len(r.pairs) : r.pairs[j].f = p.f => r.pairs[j].compl <= p.compl
       /\ \A j \in 1..Len(r.pairs) : r.pairs[j].f = r.hist[Len(r.hist)].phase => r.pairs[j].compl <= 0
       /\ \A k \in 2..Len(r.hist) : r.hist[k].phase > r.hist[k-1].phase
(* the columns of a table: one group per pair of the point with most pairs;   *)
(* every row has a cell for each, those without a pair being empty            *)
Max(S) == IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : x <= m
Groups == Max({Len(r.pairs) : r \in Rows})
Terminates == <>(pc = "done")
Emit == pc = "done" =>
          PrintT("CASE " \o ToJson([opts |-> opts, rows |-> rows, groups |-> Groups]))
=============================================================================
