---------------------------- MODULE Restoration ----------------------------
(* The potential at high temperature, V -> T^2 * 1/2 (x - c)^T A (x - c), and *)
(* what is said about it: unbounded, flat, settled with the electroweak       *)
(* symmetry restored or broken, or no answer if V / T^2 never settles.        *)
(* A has integer curvatures along axes that may be turned (3-4-5); the centre *)
(* is given in quarters of GeV along the fields.  Parts that do not grow with *)
(* T^2 (masses and quartics, the same for all fields), a constant and the gauge charge of fields     *)
(* without centre say nothing about the answer.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Dims, Curvatures, Places, MaxSteps, Pick(_)
VARIABLES d, curv, centre, charged, turns, cold, lift, runaway, n
vars == <<d, curv, centre, charged, turns, cold, lift, runaway, n>>
Fields == 1..d

Init == /\ \E k \in Pick(Dims) : d = k /\ curv = [i \in 1..k |-> 1] /\ centre = [i \in 1..k |-> 0] /\ charged = {1}
        /\ turns = <<>> /\ cold = {} /\ lift = 0 /\ runaway = FALSE /\ n = 0
Bend == \E i \in Pick(Fields) : \E k \in Pick(Curvatures) :
  curv' = [curv EXCEPT ![i] = k] /\ UNCHANGED <<d, centre, charged, turns, cold, lift, runaway>>
Move == \E i \in Pick(Fields) : \E c \in Pick(Places) :
  centre' = [centre EXCEPT ![i] = c] /\ UNCHANGED <<d, curv, charged, turns, cold, lift, runaway>>
Charge == \E i \in Pick(Fields) :
  charged' = (charged \cup {i}) \ (charged \cap {i}) /\ UNCHANGED <<d, curv, centre, turns, cold, lift, runaway>>
Turn == \E i, j \in Pick(Fields) : /\ i # j /\ Len(turns) < 3
                                   /\ turns' = Append(turns, <<i, j>>) /\ UNCHANGED <<d, curv, centre, charged, cold, lift, runaway>>
Cold == cold = {} /\ cold' = Fields /\ UNCHANGED <<d, curv, centre, charged, turns, lift, runaway>>
Lift == lift' = lift + 1 /\ UNCHANGED <<d, curv, centre, charged, turns, cold, runaway>>
Run == n = MaxSteps - 1 /\ runaway' = TRUE /\ UNCHANGED <<d, curv, centre, charged, turns, cold, lift>>
Next == n < MaxSteps /\ n' = n + 1 /\ (Bend \/ Move \/ Charge \/ Turn \/ Cold \/ Lift \/ Run)
Spec == Init /\ [][Next]_vars

Square(x) == x * x
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN f[i] + SumOver(S \ {i}, f)
(* electroweak part of the centre, squared, in (GeV/4)^2 *)
Broken == SumOver(charged \cap Fields, [i \in Fields |-> Square(centre[i])])
Lowest == CHOOSE k \in {curv[i] : i \in Fields} : \A i \in Fields : k <= curv[i]
Answer == CASE runaway -> "failure"
            [] Lowest < 0 -> "unbounded"
            [] Lowest = 0 -> "flat"
            [] Broken <= 4 -> "restored"
            [] OTHER -> "broken"
(* the limit of half a GeV is not met on the nose; what is said about an      *)
(* exactly flat direction is not judged (the code cannot tell, see DESIGN)    *)
Flat == \E i \in Fields : curv[i] = 0
Clear == /\ Broken \notin 3..5
         /\ ~(Flat /\ runaway)
         /\ (Lowest # 0 \/ runaway)

Decided == Answer \in {"failure", "unbounded", "flat", "restored", "broken"}
NeutralCentre == Broken = 0 => Answer # "broken"
Origin == (\A i \in Fields : centre[i] = 0) => Answer # "broken"
Order == /\ Answer \in {"restored", "broken"} => \A i \in Fields : curv[i] > 0
         /\ Answer = "unbounded" => \E i \in Fields : curv[i] < 0
(* turning the axes, cold parts and the zero of energy change nothing *)
Blind == [][curv = curv' /\ centre = centre' /\ charged = charged' /\ runaway = runaway' => Answer = Answer']_vars
(* charging a field can only break, discharging only restore *)
Charges == [][curv = curv' /\ centre = centre' /\ charged \subseteq charged' /\ runaway = runaway' /\ Answer = "broken" => Answer' = "broken"]_vars
Emit == Clear => PrintT("CASE " \o ToJson([curv |-> curv, centre |-> centre, charged |-> charged, turns |-> turns, cold |-> cold, lift |-> lift,
                                           runaway |-> runaway, answer |-> Answer]))
=============================================================================
