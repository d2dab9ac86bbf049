------------------------------ MODULE Spectrum ------------------------------
(* The gravitational-wave record of one transition: which transitions have    *)
(* one, and what a history of queries does to it.  Numbers are not part of    *)
(* the module: an answer is named by the transition and the question, so that *)
(* "the answer does not depend on the history" can be said.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Strengths, Durations, Velocities, Eps, Met, Chosen, MaxOps, Frequencies, Windows, Pick(_, _)
VARIABLES pc, tr, status, known, log
vars == <<pc, tr, status, known, log>>

Physical(t) == /\ t.strength \notin {"zero", "negative", "nan"}
               /\ t.duration \notin {"negative", "slow", "nan", "inf"}
               /\ t.velocity \notin {"zero", "nan"}
HasRecord(t) == Physical(t) /\ t.chosen \in t.met

Init == pc = "new" /\ tr = <<>> /\ status = "none" /\ known = {} /\ log = <<>>
New == /\ pc = "new"
       /\ \E s \in Pick("strength", Strengths) : \E d \in Pick("duration", Durations) : \E v \in Pick("velocity", Velocities) :
          \E e \in Pick("eps", Eps) : \E m \in Pick("met", Met) : \E c \in Pick("chosen", Chosen) :
            /\ tr' = [strength |-> s, duration |-> d, velocity |-> v, eps |-> e, met |-> m, chosen |-> c]
            /\ status' = IF HasRecord([strength |-> s, duration |-> d, velocity |-> v, met |-> m, chosen |-> c])
                         THEN "not_set" ELSE "failure"
       /\ known' = {} /\ log' = <<>>
       /\ pc' = IF status' = "failure" THEN "done" ELSE "query"
Parts(sw, tb) == (IF sw THEN {"asw", "fsw"} ELSE {}) \cup (IF tb THEN {"aturb", "fturb"} ELSE {})
Ask(op, add, st) == /\ pc = "query" /\ Len(log) < MaxOps
                    /\ known' = known \cup add /\ status' = st
                    /\ log' = Append(log, [op |-> op, known |-> known', status |-> status'])
                    /\ UNCHANGED <<pc, tr>>
PeakQuery == \E k \in Pick("peak", {"fsw", "asw", "fturb", "aturb"}) : Ask(<<k>>, {k}, status)
Amplitude == \E sw, tb \in Pick("part", BOOLEAN) : \E f \in Pick("f", Frequencies) : Ask(<<"amp", f, sw, tb>>, Parts(sw, tb), status)
Snr == \E sw, tb \in Pick("part", BOOLEAN) : \E w \in Pick("w", Windows) : Ask(<<"snr", w, sw, tb>>, Parts(sw, tb), "success")
Stop == pc = "query" /\ Len(log) = MaxOps /\ pc' = "done" /\ UNCHANGED <<tr, status, known, log>>
Next == New \/ PeakQuery \/ Amplitude \/ Snr \/ Stop
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
(* what an answer is made of: an amplitude needs both peak values of a part,  *)
(* whether or not they had been asked for before                              *)
Complete == \A i \in 1..Len(log) : log[i].op[1] \in {"amp", "snr"} =>
              Parts(log[i].op[3], log[i].op[4]) \subseteq log[i].known
Grows == \A i \in 2..Len(log) : log[i-1].known \subseteq log[i].known
Refused == (pc = "done" /\ status = "failure") => log = <<>> /\ known = {}
Accepted == status \in {"not_set", "success"} => HasRecord(tr)
Emit == pc = "done" => PrintT("CASE " \o ToJson([tr |-> tr, status |-> IF log = <<>> THEN status ELSE "", log |-> log]))
=============================================================================
