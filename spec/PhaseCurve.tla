----------------------------- MODULE PhaseCurve -----------------------------
(* A phase: a curve of minima over one temperature interval.  The state is the *)
(* increasing sequence of temperatures at which a minimum is stored, the       *)
(* reported range, and the flags of the ends.  Relations, not functions: a     *)
(* query may store any further knots between the nearest knot and the query.   *)
(* The same relations judge the traces recorded from the code (PhaseTrace).    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}
Sorted(s) == \A i \in 1..Len(s)-1 : s[i] < s[i+1]
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
Abs(x) == IF x < 0 THEN -x ELSE x
Lo(a, b) == IF a <= b THEN a ELSE b
Hi(a, b) == IF a >= b THEN a ELSE b

(* state: [k |-> knots, lo |-> lowest, hi |-> highest] *)
WellFormed(p) ==
  /\ Sorted(p.k)
  /\ p.k # <<>> => p.lo = p.k[1] /\ p.hi = p.k[Len(p.k)]

AddOK(p, t, q) ==
  /\ WellFormed(q)
  /\ Range(q.k) = Range(p.k) \cup {t}

(* the query lies in the range; `near` is the stored temperature nearest to it *)
GetOK(p, t, q, ret) ==
  /\ WellFormed(q)
  /\ Range(p.k) \subseteq Range(q.k)
  /\ ret = t
  /\ t \in Range(q.k)
  /\ q.lo = p.lo /\ q.hi = p.hi
  /\ t \in Range(p.k) => q = p
  /\ \A x \in Range(q.k) \ Range(p.k) :
        \A y \in Range(p.k) : ~(Lo(x, t) <= y /\ y <= Hi(x, t))   \* never beyond another knot

(* ------------------------------------------------ the model itself -------- *)
CONSTANTS Temps,     \* temperature grid
          MaxOps,
          Kinds,     \* subset of {"add", "get"}
          Starts,    \* initial phases, as [a |-> lowest, b |-> highest], or the empty phase <<>>
          Pick(_)
All(S) == S
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

VARIABLES ph, hist, start

Mk(S) == LET RECURSIVE Build(_)
             Build(X) == IF X = {} THEN <<>> ELSE <<MinS(X)>> \o Build(X \ {MinS(X)})
         IN [k |-> Build(S), lo |-> IF S = {} THEN -1 ELSE MinS(S), hi |-> IF S = {} THEN -1 ELSE MaxS(S)]

Init ==
  /\ start = <<"none">> /\ ph = Mk({}) /\ hist = <<>>

Begin ==
  /\ start = <<"none">>
  /\ \E s \in Pick(Starts) : /\ start' = s
                           /\ ph' = Mk(IF s = <<>> THEN {} ELSE {s[1], s[2]})
  /\ UNCHANGED hist

Add(t) ==
  /\ "add" \in Kinds
  /\ \E S \in {Range(ph.k) \cup {t}} : ph' = Mk(S) /\ AddOK(ph, t, ph')
  /\ hist' = Append(hist, [op |-> "add", T |-> t])

Get(t) ==
  /\ "get" \in Kinds /\ ph.k # <<>> /\ ph.lo <= t /\ t <= ph.hi
  /\ \E S \in Pick({X \in SUBSET Temps : Range(ph.k) \subseteq X /\ GetOK(ph, t, Mk(X), t)}) : ph' = Mk(S)
  /\ hist' = Append(hist, [op |-> "get", T |-> t])

Step == /\ start # <<"none">> /\ Len(hist) < MaxOps
        /\ \E t \in Pick(Temps) : \E k \in Pick({"add", "get"}) : IF k = "add" THEN Add(t) ELSE Get(t)
        /\ UNCHANGED start
Next == Begin \/ Step

Spec == Init /\ [][Next]_<<ph, hist, start>>

(* properties of the design *)
OneMinimumPerTemperature == Cardinality(Range(ph.k)) = Len(ph.k)
OrderedByTemperature == Sorted(ph.k)
RangeIsThatOfTheKnots == WellFormed(ph)
NothingLost == \A i \in 1..Len(hist) : hist[i].T \in Range(ph.k)
GrowsOnly == [][Range(ph.k) \subseteq Range(ph'.k)]_ph
=============================================================================
