----------------------------- MODULE MinimaTable -----------------------------
(* The tables of traced minima: one table per parameter point, one group of   *)
(* columns per phase, one row per step of the longest phase.  What the checks *)
(* and the tracing answer is the environment's choice.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Points, MaxPhases, MaxLength, EwsrChecks, EwsrAnswers, TraceAnswers, Pick(_, _)
VARIABLES pc, opts, cur, row, cells, tables
vars == <<pc, opts, cur, row, cells, tables>>
Nan == -1
None == [nlo |-> TRUE, ewsr |-> -2, trace |-> "", len |-> <<>>]
Init == pc = "options" /\ opts = 0 /\ cur = None /\ row = 0 /\ cells = <<>> /\ tables = <<>>
Options == /\ pc = "options" /\ opts' \in Pick("o", EwsrChecks) /\ pc' = "point"
           /\ UNCHANGED <<cur, row, cells, tables>>
Point == /\ pc = "point" /\ UNCHANGED <<opts, tables>>
         /\ \E n \in Pick("b", BOOLEAN) : \E e \in Pick("e", EwsrAnswers) : \E t \in Pick("t", TraceAnswers) :
            \E k \in Pick("k", 0..MaxPhases) : \E l \in Pick("l", [1..k -> 1..MaxLength]) :
              cur' = [nlo |-> n, ewsr |-> IF opts = 0 THEN -2 ELSE e, trace |-> t, len |-> [i \in 1..k |-> l[i]]]
         /\ row' = 0 /\ cells' = <<>> /\ pc' = "rows"
Phases == 1..Len(cur.len)
Longest == IF Phases = {} THEN 0
           ELSE LET m == CHOOSE i \in Phases : \A j \in Phases : cur.len[j] <= cur.len[i] IN cur.len[m]
(* a phase that has ended leaves its columns empty *)
Cell(p, r) == IF r <= cur.len[p] THEN r ELSE Nan
WriteRow == /\ pc = "rows" /\ row < Longest
            /\ row' = row + 1 /\ cells' = Append(cells, [p \in Phases |-> Cell(p, row + 1)])
            /\ UNCHANGED <<pc, opts, cur, tables>>
(* a point without any minimum still has one row, with no minima in it *)
WriteEmpty == /\ pc = "rows" /\ Longest = 0 /\ row = 0
              /\ row' = 1 /\ cells' = <<[p \in Phases |-> Nan]>> /\ UNCHANGED <<pc, opts, cur, tables>>
Finish == /\ pc = "rows" /\ row >= Longest /\ row >= 1
          /\ tables' = Append(tables, [point |-> cur, cells |-> cells])
          /\ cur' = None /\ row' = 0 /\ cells' = <<>> /\ UNCHANGED opts
          /\ pc' = IF Len(tables) + 1 = Points THEN "done" ELSE "point"
Next == Options \/ Point \/ WriteRow \/ WriteEmpty \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* ------------------------------ properties ------------------------------ *)
Tab == {tables[i] : i \in 1..Len(tables)}
Aligned == \A t \in Tab : Len(t.cells) >= 1 /\ \A r \in 1..Len(t.cells) : Len(t.cells[r]) = Len(t.point.len)
(* every minimum of every phase stands in exactly one row, in the order traced *)
Complete == \A t \in Tab : \A p \in 1..Len(t.point.len) :
              SelectSeq([r \in 1..Len(t.cells) |-> t.cells[r][p]], LAMBDA x : x # Nan) = [i \in 1..t.point.len[p] |-> i]
Terminates == <>(pc = "done")
Emit == pc = "done" => PrintT("CASE " \o ToJson([ewsr |-> opts, tables |-> tables]))
=============================================================================
