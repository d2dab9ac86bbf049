----------------------------- MODULE LineTable -----------------------------
(* Reading a parameter table: line 1 is the legend, every other line holds *)
(* a parameter point or is empty; the lines first..last are requested.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLines, Points, Beyond, Pick(_)
VARIABLES table, first, last, newline, index, at, rows
vars == <<table, first, last, newline, index, at, rows>>
Empty == 0
Tables == UNION {[1..n -> Points \cup {Empty}] : n \in 0..MaxLines}
Line(k) == IF k = 1 THEN -1 ELSE table[k - 1]     \* -1: the legend
Last == Len(table) + 1
Init == /\ table = <<>> /\ first = 0 /\ last = 0 /\ at = 0 /\ rows = <<>>
        /\ newline \in Pick(BOOLEAN) /\ index \in Pick(BOOLEAN)
(* the table is written, then lines are requested *)
Write == /\ at = 0 /\ Len(table) < MaxLines
         /\ \E x \in Pick(Points \cup {Empty}) : table' = Append(table, x)
         /\ UNCHANGED <<first, last, newline, index, at, rows>>
Request == /\ at = 0
           /\ \E a \in Pick(1..(Last + Beyond)) : \E b \in Pick(a..(Last + Beyond)) : first' = a /\ last' = b
           /\ at' = 1 /\ UNCHANGED <<table, newline, index, rows>>
Asked(k) == k >= first /\ k <= last /\ k # 1 /\ Line(k) # Empty
Read == /\ at \in 1..Last
        /\ rows' = IF Asked(at) THEN Append(rows, [line |-> at, point |-> Line(at)]) ELSE rows
        /\ at' = IF at + 1 > last THEN Last + 1 ELSE at + 1
        /\ UNCHANGED <<table, first, last, newline, index>>
Done == at > Last /\ at > 0 /\ UNCHANGED vars
Next == Write \/ Request \/ Read \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Read)
Finished == at > Last
(* what was written so far never changes, is in order and was asked for *)
Ordered == \A i \in 1..Len(rows) - 1 : rows[i].line < rows[i + 1].line
OnlyAsked == at > 0 => \A i \in DOMAIN rows : Asked(rows[i].line) /\ rows[i].point = Line(rows[i].line)
AllAsked == (at > 0 /\ Finished) => {rows[i].line : i \in DOMAIN rows} = {k \in 1..Last : Asked(k)}
(* a range is its two parts one after the other *)
RowsOf(a, b) == SelectSeq([k \in 1..Last |-> k], LAMBDA k : k >= a /\ k <= b /\ k # 1 /\ Line(k) # Empty)
Parts == (at > 0 /\ Finished) =>
           \A k \in first..last : RowsOf(first, last) = RowsOf(first, k) \o RowsOf(k + 1, last)
Emit == (at > 0 /\ Finished) => PrintT("CASE " \o ToJson(
          [table |-> table, first |-> first, last |-> last, newline |-> newline, index |-> index,
           lines |-> [i \in DOMAIN rows |-> rows[i].line]]))
=============================================================================
