------------------------------ MODULE GlobalMin ------------------------------
(* The global minimiser collects candidates - the origin and what each enabled  *)
(* back end found - and returns the deepest, without a negligible electroweak   *)
(* part.                                                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Dims, Ranks, NlCodes, HaveCmaes, Pick(_)
All(S) == S
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
VARIABLES pc, in, cand, res
vars == <<pc, in, cand, res>>

Bit(m, k) == (m \div k) % 2 = 1
Ews == {"zero", "small", "big"}
Init == pc = "draw" /\ in = [mask |-> 0] /\ cand = {} /\ res = "none"
Draw == /\ pc = "draw"
        /\ \E d \in Pick(Dims) : \E m \in Pick(0..7) : \E o \in Pick(Ranks) : \E g \in Pick(Ranks) : \E n \in Pick(Ranks) :
           \E eg \in Pick(Ews) : \E en \in Pick(Ews) : \E gs \in Pick(BOOLEAN) : \E nc \in Pick(NlCodes) : \E th \in Pick(BOOLEAN) :
             in' = [dim |-> d, mask |-> m, o |-> o, g |-> g, n |-> n, eg |-> eg, en |-> en, gs |-> gs, nc |-> nc, th |-> th]
        /\ pc' = "origin" /\ UNCHANGED <<cand, res>>
UseGSL == Bit(in.mask, 2) \/ in.dim <= 2
UseNL == Bit(in.mask, 4)
Origin == /\ pc = "origin" /\ cand' = {[src |-> "origin", r |-> in.o, ew |-> "zero"]} /\ pc' = "gsl" /\ UNCHANGED <<in, res>>
Gsl == /\ pc = "gsl"
       /\ cand' = IF UseGSL /\ in.gs THEN cand \cup {[src |-> "gsl", r |-> in.g, ew |-> in.eg]} ELSE cand
       /\ pc' = "nlopt" /\ UNCHANGED <<in, res>>
\* codes above 90 stand for the negative ones
NlOk == in.nc \in {1, 3, 4}
Nlopt == /\ pc = "nlopt"
         /\ cand' = IF UseNL /\ NlOk THEN cand \cup {[src |-> "nlopt", r |-> in.n, ew |-> in.en]} ELSE cand
         /\ pc' = "choose" /\ UNCHANGED <<in, res>>
Choose == /\ pc = "choose" /\ pc' = "done" /\ UNCHANGED <<in, cand>>
          /\ res' \in {c.src : c \in {x \in cand : \A y \in cand : x.r <= y.r}}
Next == Draw \/ Origin \/ Gsl \/ Nlopt \/ Choose
Spec == Init /\ [][Next]_vars
(* properties *)
Of(s) == CHOOSE c \in cand : c.src = s
NotAboveOrigin == pc = "done" => Of(res).r <= in.o
NotAboveAny == pc = "done" => \A c \in cand : Of(res).r <= c.r
Legal == pc = "done" => \E c \in cand : c.src = res
Emit == pc = "done" => PrintT("CASE " \o ToJson([in |-> in, best |-> {c.src : c \in {x \in cand : \A y \in cand : x.r <= y.r}},
          gsl |-> UseGSL, nl |-> UseNL, flag |-> IF UseGSL /\ in.gs THEN 1 ELSE -1]))
=============================================================================
