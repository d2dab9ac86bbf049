-------------------------------- MODULE Scan --------------------------------
(* Scans over temperatures and grids over fields.                             *)
(* A grid has axes 1..dim, axis k with a number of steps n[k] >= 0; a grid    *)
(* point is a vector of step numbers (0 <= i[k] <= n[k]), and an axis without *)
(* steps stays at the reference point.  The odometer visits the points with   *)
(* the last axis running fastest.                                             *)
(* A temperature scan goes from start towards stop in steps of a given size   *)
(* (all integers in some unit, the size possibly negative) and visits         *)
(* start, start+size, ... as long as the end is not passed.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, Dims, Steps, MaxRows, Starts, Sizes, Lengths, Rests, Pick(_)
VARIABLES kind, n, pos, rows, scan
vars == <<kind, n, pos, rows, scan>>

RECURSIVE Prod(_, _)
Prod(f, k) == IF k = 0 THEN 1 ELSE (f[k] + 1) * Prod(f, k - 1)
Size == Prod(n, Len(n))

Init == kind = "" /\ n = <<>> /\ pos = <<>> /\ rows = <<>> /\ scan = <<>>
Grid == /\ kind = "" /\ "grid" \in Kinds
        /\ \E d \in Pick(Dims) : \E f \in Pick([1..d -> Steps]) :
             /\ Prod(f, d) <= MaxRows
             /\ n' = [k \in 1..d |-> f[k]]
             /\ pos' = [k \in 1..d |-> 0]
             /\ rows' = <<[k \in 1..d |-> 0]>>
        /\ kind' = "grid" /\ UNCHANGED scan
(* the axis that moves: the last one not at its end; those after it restart *)
Moving == {k \in 1..Len(n) : pos[k] < n[k]}
Last == CHOOSE k \in Moving : \A m \in Moving : m <= k
Advance == /\ kind = "grid" /\ Moving # {}
           /\ pos' = [k \in 1..Len(n) |-> IF k < Last THEN pos[k] ELSE IF k = Last THEN pos[k] + 1 ELSE 0]
           /\ rows' = Append(rows, pos')
           /\ UNCHANGED <<kind, n, scan>>
(* a scan: whole steps plus a rest smaller than a step *)
Temp == /\ kind = "" /\ "scan" \in Kinds
        /\ \E s \in Pick(Starts) : \E z \in Pick(Sizes) : \E l \in Pick(Lengths) : \E r \in Pick(Rests) :
             /\ z # 0 /\ r < (IF z < 0 THEN -z ELSE z)
             /\ scan' = [start |-> s, size |-> z, stop |-> IF z > 0 THEN s + l * z + r ELSE s + l * z - r]
             /\ rows' = <<s>>
        /\ kind' = "scan" /\ UNCHANGED <<n, pos>>
Cur == rows[Len(rows)]
Beyond(x) == IF scan.size > 0 THEN x > scan.stop ELSE x < scan.stop
Heat == /\ kind = "scan" /\ ~Beyond(Cur + scan.size)
        /\ rows' = Append(rows, Cur + scan.size)
        /\ UNCHANGED <<kind, n, pos, scan>>
Next == Grid \/ Advance \/ Temp \/ Heat
Spec == Init /\ [][Next]_vars
GDone == kind = "grid" /\ Moving = {}
SDone == kind = "scan" /\ Beyond(Cur + scan.size)

(* the position of a row in the file follows from its step numbers alone *)
RECURSIVE Rank(_, _)
Rank(p, k) == IF k = 0 THEN 0 ELSE Rank(p, k - 1) * (n[k] + 1) + p[k]
GRank == kind = "grid" => Len(rows) = Rank(pos, Len(n)) + 1
GAll == GDone => /\ Len(rows) = Size
                 /\ {rows[i] : i \in 1..Len(rows)} = {p \in [1..Len(n) -> 0..MaxRows] : \A k \in 1..Len(n) : p[k] <= n[k]}
GCount == GDone => Len(rows) = Size /\ Cardinality({rows[i] : i \in 1..Len(rows)}) = Size
Abs(x) == IF x < 0 THEN -x ELSE x
SScan == SDone => /\ \A i \in 1..Len(rows) : rows[i] = scan.start + (i - 1) * scan.size
                  /\ ~Beyond(rows[Len(rows)])
                  /\ Len(rows) = Abs(scan.stop - scan.start) \div Abs(scan.size) + 1
                  /\ (scan.stop - scan.start) % Abs(scan.size) = 0 => rows[Len(rows)] = scan.stop
Emit == (GDone => PrintT("CASE " \o ToJson([kind |-> kind, n |-> n, rows |-> rows])))
     /\ (SDone => PrintT("CASE " \o ToJson([kind |-> kind, scan |-> scan, rows |-> rows])))
=============================================================================
