------------------------------- MODULE Bounce -------------------------------
(* The bounce action under changes of description.  A potential is given in   *)
(* normal form (a valley along the first axis, stiff across it) and seen in a *)
(* frame: axes may be exchanged, mirrored and turned, the origin and the zero *)
(* of energy moved, units of fields (2^s) and masses (2^m) changed, fields    *)
(* that take no part added, the starting path refined or displaced.  The      *)
(* matrix of the axes is kept in exact integers, axes = R / 5^r.  The action  *)
(* is 2^exp times that of the normal form.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxDim, MaxOps, Alphas, Shapes, Bends, Stiff, Ends, Pick(_)
VARIABLES pc, alpha, shape, ends, bend, stiff, R, r, shift, raised, s, m, exp, path, gradient, n, ops
vars == <<pc, alpha, shape, ends, bend, stiff, R, r, shift, raised, s, m, exp, path, gradient, n, ops>>
frame == <<bend, stiff, R, r, shift, raised, s, m, exp, path, gradient, n>>

RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
RECURSIVE Dot(_, _, _)
Dot(x, y, k) == IF k = 0 THEN 0 ELSE x[k] * y[k] + Dot(x, y, k - 1)

Init == /\ pc = "draw" /\ alpha = 0 /\ shape = 0 /\ ends = "proper"
        /\ bend = 0 /\ stiff = <<>> /\ R = <<<<1>>>> /\ r = 0 /\ shift = <<0>> /\ raised = 0
        /\ s = 0 /\ m = 0 /\ exp = 0 /\ path = "straight" /\ gradient = TRUE /\ n = 1 /\ ops = 0
(* the environment: which potential, between which points *)
Draw == /\ pc = "draw" /\ pc' = "frame"
        /\ alpha' \in Pick(Alphas) /\ shape' \in Pick(Shapes) /\ ends' \in Pick(Ends)
        /\ bend' \in Pick(Bends)
        \* a bent valley needs a second field
        /\ IF bend' # 0 THEN /\ n' = 2 /\ R' = <<<<1, 0>>, <<0, 1>>>> /\ shift' = <<0, 0>>
                             /\ \E k \in Pick(Stiff) : stiff' = <<k>>
           ELSE UNCHANGED <<n, R, shift, stiff>>
        /\ UNCHANGED <<r, raised, s, m, exp, path, gradient, ops>>
On == pc = "frame" /\ ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED <<pc, alpha, shape, ends, bend>>
Field == On /\ \E k \in Pick({-1, 1, 2}) : s' = s + k /\ exp' = exp + 2 * k
            /\ UNCHANGED <<stiff, R, r, shift, raised, m, path, gradient, n>>
Mass == On /\ \E k \in Pick({-1, 1}) : m' = m + k /\ exp' = exp - (alpha - 1) * k
           /\ UNCHANGED <<stiff, R, r, shift, raised, s, path, gradient, n>>
Shift == On /\ \E i \in Pick(1..n), v \in Pick({-3, 1, 2}) : shift' = [shift EXCEPT ![i] = @ + v]
            /\ UNCHANGED <<stiff, R, r, raised, s, m, exp, path, gradient, n>>
Raise == On /\ \E v \in Pick({-2, 1}) : raised' = raised + v
            /\ UNCHANGED <<stiff, R, r, shift, s, m, exp, path, gradient, n>>
Flip == On /\ \E i \in Pick(1..n) : R' = [R EXCEPT ![i] = [j \in 1..n |-> -@[j]]]
           /\ UNCHANGED <<stiff, r, shift, raised, s, m, exp, path, gradient, n>>
Swap == On /\ n > 1 /\ \E i \in Pick(1..n) : \E j \in Pick((1..n) \ {i}) : R' = [R EXCEPT ![i] = R[j], ![j] = R[i]]
           /\ UNCHANGED <<stiff, r, shift, raised, s, m, exp, path, gradient, n>>
(* by the angle of the 3-4-5 triangle *)
TurnOne(k, q, i, j) == IF k = i THEN 3 * R[i][q] - 4 * R[j][q]
                       ELSE IF k = j THEN 4 * R[i][q] + 3 * R[j][q]
                       ELSE 5 * R[k][q]
Turn == On /\ n > 1 /\ r < 3 /\ r' = r + 1
           /\ \E i \in Pick(1..n) : \E j \in Pick((1..n) \ {i}) :
                 R' = [k \in 1..n |-> [q \in 1..n |-> TurnOne(k, q, i, j)]]
           /\ UNCHANGED <<stiff, shift, raised, s, m, exp, path, gradient, n>>
Entry(k, q) == IF k <= n /\ q <= n THEN R[k][q] ELSE IF k = q THEN Pow(5, r) ELSE 0
(* a further field, which takes no part *)
Embed == On /\ n < MaxDim /\ n' = n + 1
            /\ R' = [k \in 1..n + 1 |-> [q \in 1..n + 1 |-> Entry(k, q)]]
            /\ shift' = Append(shift, 0) /\ \E k \in Pick(Stiff) : stiff' = Append(stiff, k)
            /\ UNCHANGED <<r, raised, s, m, exp, path, gradient>>
Paths == {"straight", "refined"} \cup (IF n > 1 THEN {"displaced"} ELSE {})
Start == On /\ \E p \in Pick(Paths \ {path}) : path' = p
            /\ UNCHANGED <<stiff, R, r, shift, raised, s, m, exp, gradient, n>>
Grad == On /\ gradient' = ~gradient
           /\ UNCHANGED <<stiff, R, r, shift, raised, s, m, exp, path, n>>
Stop == /\ pc = "frame" /\ (ops = MaxOps \/ (MaxOps > 3 /\ RandomElement(1..5) = 1)) /\ pc' = "done"
        /\ UNCHANGED <<alpha, shape, ends, ops, frame>>
Next == Draw \/ Field \/ Mass \/ Shift \/ Raise \/ Flip \/ Swap \/ Turn \/ Embed \/ Start \/ Grad \/ Stop
Spec == Init /\ [][Next]_vars

(* axes stay orthogonal and of unit length *)
Rigid == \A i, j \in 1..n : Dot(R[i], R[j], n) = IF i = j THEN Pow(25, r) ELSE 0
(* the action depends on the units alone, however they were reached *)
Law == pc # "draw" => exp = 2 * s - (alpha - 1) * m
Sizes == Len(shift) = n /\ Len(stiff) = n - 1 /\ Len(R) = n
Outcome == CASE ends = "proper" -> "action" [] ends = "backwards" -> "backwards" [] ends = "top" -> "no minimum"
Emit == pc = "done" => PrintT("CASE " \o ToJson([alpha |-> alpha, shape |-> shape, ends |-> ends, bend |-> bend, stiff |-> stiff,
            R |-> R, r |-> r, shift |-> shift, raised |-> raised, s |-> s, m |-> m, exp |-> exp, path |-> path,
            gradient |-> gradient, n |-> n, outcome |-> Outcome]))
=============================================================================
