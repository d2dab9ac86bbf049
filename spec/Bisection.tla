------------------------------ MODULE Bisection ------------------------------
(* Search of the critical temperature: bisection of a window [0, 2^K] on the    *)
(* electroweak scale of the global minimum.  A profile is a sequence of         *)
(* segments <<upto, class>>; class: sym (no electroweak part), small            *)
(* (negligible), broken, huge (above the bound).                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Cuts, MaxSeg, Classes, Pick(_)
All(S) == S
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
VARIABLES pc, prof, nlo, zero, ta, te, got, status, probes
vars == <<pc, prof, nlo, zero, ta, te, got, status, probes>>
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Top == Pow2(K)
\* segment of temperature t: segment k covers up to and including cut k
Seg(t) == CHOOSE k \in DOMAIN prof : t <= prof[k][1] /\ \A j \in DOMAIN prof : j < k => t > prof[j][1]
Class(t) == prof[Seg(t)][2]
Broken(t) == Class(t) \in {"broken", "huge"}
Init == /\ pc = "draw" /\ prof = <<>> /\ nlo = TRUE /\ zero = TRUE /\ ta = 0 /\ te = 0 /\ got = 0
        /\ status = "none" /\ probes = <<>>
Draw == /\ pc = "draw"
        /\ \/ /\ Len(prof) < MaxSeg - 1
              /\ \E c \in Pick({x \in Cuts : (prof = <<>> \/ x > prof[Len(prof)][1])}) : \E s \in Pick(Classes) : prof' = Append(prof, <<c, s>>)
              /\ UNCHANGED <<pc, nlo, zero>>
           \/ /\ \E s \in Pick(Classes) : prof' = Append(prof, <<Top, s>>)
              /\ nlo' \in Pick(BOOLEAN) /\ zero' \in Pick(BOOLEAN)
              /\ pc' = "ends"
        /\ ta' = 0 /\ te' = Top /\ UNCHANGED <<got, status, probes>>
EndsStep == /\ pc = "ends"
            /\ IF Broken(Top) THEN pc' = "done" /\ status' = "notvanishing"
               ELSE IF ~Broken(0) \/ Class(0) = "huge" THEN pc' = "done" /\ status' = "zeroorinf"
               ELSE IF ~nlo /\ zero THEN pc' = "done" /\ status' = "notnlostable"
               ELSE pc' = "bisect" /\ UNCHANGED status
            /\ UNCHANGED <<prof, nlo, zero, ta, te, got, probes>>
Mid == (ta + te) \div 2
Bisect == /\ pc = "bisect"
          /\ IF te - ta <= 1 THEN pc' = "done" /\ status' = "success" /\ UNCHANGED <<ta, te, got, probes>>
             ELSE /\ probes' = Append(probes, Mid)
                  /\ IF Class(Mid) = "huge" THEN pc' = "done" /\ status' = "unstable" /\ got' = Mid /\ UNCHANGED <<ta, te>>
                     ELSE /\ IF Broken(Mid) THEN ta' = Mid /\ got' = Mid /\ UNCHANGED te
                             ELSE te' = Mid /\ UNCHANGED <<ta, got>>
                          /\ UNCHANGED <<pc, status>>
          /\ UNCHANGED <<prof, nlo, zero>>
          /\ pc' \in {"bisect", "done"} /\ status' \in {"none", "success", "unstable"}
Next == Draw \/ EndsStep \/ Bisect
Spec == Init /\ [][Next]_vars /\ WF_vars(EndsStep \/ Bisect)
(* properties *)
Bracket == pc = "bisect" => Broken(ta) /\ ~Broken(te) /\ ta < te
Precise == pc = "done" /\ status = "success" => te - ta = 1 /\ Broken(ta) /\ Class(ta) = "broken" /\ ~Broken(te)
Reasons == pc = "done" => /\ status = "notvanishing" <=> Broken(Top)
                          /\ status \in {"success", "unstable"} => ~Broken(Top) /\ Class(0) = "broken" /\ (nlo \/ ~zero)
                          /\ status = "unstable" => Class(got) = "huge"
Single == pc = "done" /\ status = "success" =>
            (Cardinality({k \in DOMAIN prof : k > 1 /\ (prof[k][2] \in {"broken", "huge"}) # (prof[k-1][2] \in {"broken", "huge"})}) = 1
               => \A t \in {ta, te} : Broken(t) <=> t <= ta)
Ends == <>(pc = "done" \/ pc = "draw")
Emit == pc = "done" => PrintT("CASE " \o ToJson([prof |-> prof, nlo |-> nlo, zero |-> zero, status |-> status, ta |-> ta, got |-> got, probes |-> probes]))
=============================================================================
