--------------------------- MODULE ThermalPieces ---------------------------
(* The thermal integrals are put together from pieces over the line of        *)
(* arguments m^2/T^2.  The line is given by its landmarks in order; a query   *)
(* is a function, a place, value or derivative, and an order of expansion.    *)
(* A history of queries leaves no trace: each answer is that of the piece     *)
(* that owns the place.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Orders, Pick(_)
VARIABLES hist, len
vars == <<hist, len>>

(* places in ascending order; "a..b" lies strictly between landmarks *)
Line == <<"beyond", "lastnode", "deepnode", "deep", "cusp", "node", "between", "minus", "zero", "plus", "tiny", "small", "below", "switch", "above",
          "middle", "large", "huge">>
Pos(p) == CHOOSE i \in DOMAIN Line : Line[i] = p
Places == {Line[i] : i \in DOMAIN Line}
Negative == {p \in Places : Pos(p) < Pos("zero")}
(* who owns a place *)
Piece(f, p) == CASE f = "boson" -> IF p \in Negative THEN "table" ELSE IF Pos(p) < Pos("switch") THEN "low" ELSE "high"
                 [] f = "fermion" -> IF p \in Negative THEN "none" ELSE IF Pos(p) < Pos("switch") THEN "low" ELSE "high"
                 [] f \in {"bosonlow", "fermionlow"} -> IF p \in Negative THEN "none" ELSE "low"
                 [] f = "high" -> IF Pos(p) <= Pos("zero") THEN "none" ELSE "high"
                 [] f = "bosonneg" -> IF p \in Negative THEN "table" ELSE "nothing"
                 [] f \in {"bosonint", "fermionint"} -> IF p \in Negative THEN "none" ELSE "integral"
Functions == {"boson", "fermion", "bosonlow", "fermionlow", "high", "bosonneg", "bosonint", "fermionint"}
(* two neighbouring places are joined continuously *)
Joined(f) == {<<p, q>> \in Places \X Places : Pos(q) = Pos(p) + 1 /\ Piece(f, p) # "none"}
             \cap {<<"minus", "zero">>, <<"zero", "plus">>, <<"below", "switch">>, <<"switch", "above">>}
(* what is promised about an answer *)
Promise(f, p) == CASE p = "beyond" -> "none"         \* no table
                   [] Piece(f, p) = "table" -> IF p \in {"cusp", "deep"} THEN "coarse" ELSE "table"
                   [] Piece(f, p) = "integral" -> "exact"
                   [] f \in {"boson", "fermion"} -> "integral"
                   [] Piece(f, p) = "nothing" -> "zero"
                   [] OTHER -> "series"

Init == hist = <<>> /\ len = 0
Start == /\ len = 0 /\ hist' = hist
         /\ \E k \in Pick(1..MaxLen) : len' = k
Ask == /\ Len(hist) < len
       /\ \E f \in Pick(Functions) : \E p \in Pick({q \in Places : Piece(f, q) # "none"}) : \E d \in Pick({0, 1}) : \E n \in Pick(Orders) :
            hist' = Append(hist, [f |-> f, p |-> p, d |-> d, n |-> n, piece |-> Piece(f, p), promise |-> Promise(f, p)])
       /\ UNCHANGED len
Next == Start \/ Ask
Spec == Init /\ [][Next]_vars
Done == len > 0 /\ Len(hist) = len

(* pieces are intervals: no piece comes back after another one *)
Intervals == \A f \in Functions : \A i, j, k \in DOMAIN Line :
  i < j /\ j < k /\ Piece(f, Line[i]) = Piece(f, Line[k]) => Piece(f, Line[j]) = Piece(f, Line[i])
(* every physical argument has an owner *)
Owned == /\ \A p \in Places : Piece("boson", p) # "none"
         /\ \A p \in Places \ Negative : Piece("fermion", p) # "none"
(* every change of piece is a place where continuity is demanded *)
Seams == \A f \in {"boson", "fermion"} : \A i \in 1..(Len(Line) - 1) :
  Piece(f, Line[i]) # Piece(f, Line[i + 1]) /\ Piece(f, Line[i]) # "none" => <<Line[i], Line[i + 1]>> \in Joined(f)
(* the same question has the same answer at any time *)
Stateless == \A i, j \in DOMAIN hist : hist[i].f = hist[j].f /\ hist[i].p = hist[j].p => hist[i].piece = hist[j].piece
Emit == Done => PrintT("CASE " \o ToJson([hist |-> hist, joined |-> [boson |-> Joined("boson"), fermion |-> Joined("fermion")]]))
=============================================================================
