---------------------------- MODULE ModelObject ----------------------------
(* The state of model objects: which parameter point, counterterms and        *)
(* renormalisation scale the predictions of an object are a function of.      *)
(* Several objects are used alternately; histories have bounded length.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NObj,      \* number of objects used alternately
          Points,    \* parameter points (numbered)
          Scales,    \* renormalisation scales other than the point's own (0)
          MaxOps, Pick(_)

VARIABLES obj,       \* abstract state of each object
          hist,      \* operations carried out so far
          after      \* abstract state of the used object after each operation

vars == <<obj, hist, after>>
NoPoint == 0
Own == 0             \* the scale a point comes with

Blank == [pt |-> NoPoint, ctp |-> NoPoint, cts |-> Own, sc |-> Own,
          tree |-> FALSE, coup |-> FALSE, trip |-> FALSE]

------------------------------------------------------------------------------
(* effect of an operation on one object *)
Loaded(o, p) == [o EXCEPT !.pt = p, !.ctp = p, !.cts = Own, !.sc = Own, !.coup = TRUE, !.trip = FALSE]
Apply(o, e) ==
  CASE e.op = "line"  -> Loaded(o, e.p)        \* load a row of a parameter table
    [] e.op = "par"   -> Loaded(o, e.p)        \* load a list of parameters
    [] e.op = "all"   -> [o EXCEPT !.pt = e.p, !.ctp = e.q, !.cts = Own, !.sc = Own,
                                   !.coup = FALSE, !.trip = FALSE]
    [] e.op = "reset" -> [o EXCEPT !.sc = e.s, !.ctp = o.pt, !.cts = e.s, !.trip = FALSE]
    [] e.op = "scale" -> [o EXCEPT !.sc = e.s, !.trip = FALSE]
    [] e.op = "tree"  -> [o EXCEPT !.tree = e.b]
    [] e.op = "triple" -> [o EXCEPT !.coup = TRUE, !.trip = TRUE]
    [] e.op = "look"  -> o                     \* evaluate any prediction

RECURSIVE Run(_, _)
Run(o, s) == IF s = <<>> THEN o ELSE Run(Apply(o, Head(s)), Tail(s))

Load(p) == [op |-> "line", p |-> p, q |-> p, s |-> Own, b |-> FALSE]
(* operations that may be used on an object in state o *)
Ops(o) ==
  LET E(n, p, q, s, b) == [op |-> n, p |-> p, q |-> q, s |-> s, b |-> b]
  IN  {E("line", p, p, Own, FALSE) : p \in Pick(Points)}
      \cup {E("par", p, p, Own, FALSE) : p \in Pick(Points)}
      \cup {E("all", p, q, Own, FALSE) : p \in Pick(Points), q \in Pick(Points)}
      \cup {E("tree", 0, 0, Own, b) : b \in Pick(BOOLEAN)}
      \cup (IF o.pt = NoPoint THEN {} ELSE
             {E("scale", 0, 0, s, FALSE) : s \in Pick(Scales)}
             \cup {E("triple", 0, 0, Own, FALSE), E("look", 0, 0, Own, FALSE)}
             \cup (IF o.coup THEN {E("reset", 0, 0, s, FALSE) : s \in Pick(Scales)} ELSE {}))

Init == obj = [i \in 1..NObj |-> Blank] /\ hist = <<>> /\ after = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \E i \in 1..NObj : \E e \in Pick(Ops(obj[i])) :
             /\ obj' = [obj EXCEPT ![i] = Apply(@, e)]
             /\ hist' = Append(hist, [i |-> i, e |-> e])
             /\ after' = Append(after, obj'[i])
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* A shortest history that gives a new object the same state: the history a   *)
(* long one is compared with in the implementation.                           *)
Canon(o) ==
  LET E(n, p, q, s, b) == [op |-> n, p |-> p, q |-> q, s |-> s, b |-> b]
      load == IF o.pt = NoPoint THEN <<>>
              ELSE IF o.ctp = o.pt /\ o.cts = Own /\ o.coup THEN <<Load(o.pt)>>
              ELSE IF o.ctp = o.pt /\ o.cts # Own THEN <<Load(o.pt), E("reset", 0, 0, o.cts, FALSE)>>
              ELSE <<E("all", o.pt, o.ctp, Own, FALSE)>>
      cp == IF o.coup /\ load # <<>> /\ load[1].op = "all" THEN <<E("triple", 0, 0, Own, FALSE)>> ELSE <<>>
      sc == IF o.pt # NoPoint /\ o.sc # o.cts THEN <<E("scale", 0, 0, o.sc, FALSE)>> ELSE <<>>
      tr == IF o.tree THEN <<E("tree", 0, 0, Own, TRUE)>> ELSE <<>>
      tp == IF o.trip THEN <<E("triple", 0, 0, Own, FALSE)>> ELSE <<>>
  IN  load \o cp \o sc \o tr \o tp

Mine(i) == LET f(x) == x.i = i IN SelectSeq(hist, f)
LastLoad(s) == LET L == {k \in 1..Len(s) : s[k].e.op \in {"line", "par", "all"}}
               IN IF L = {} THEN 0 ELSE CHOOSE k \in L : \A j \in L : j <= k
------------------------------------------------------------------------------
(* What the object is a function of *)
TypeOK == \A i \in 1..NObj : /\ obj[i].pt \in Points \cup {NoPoint}
                             /\ obj[i].ctp \in Points \cup {NoPoint}
                             /\ obj[i].sc \in Scales \cup {Own}
(* only the operations since the last loaded point matter, besides the        *)
(* tree-level switch, and only those on the same object                       *)
Forgets == \A i \in 1..NObj :
  LET s == Mine(i)  k == LastLoad(s)
      es == [j \in 1..Len(s) |-> s[j].e]
      tr == {j \in 1..Len(s) : es[j].op = "tree"}
      b  == IF tr = {} THEN FALSE ELSE es[CHOOSE j \in tr : \A l \in tr : l <= j].b
      from == [Blank EXCEPT !.tree = IF k = 0 THEN FALSE ELSE b]
  IN  k > 0 => [Run(from, SubSeq(es, k, Len(es))) EXCEPT !.tree = b] = obj[i]
(* evaluating predictions changes none of them *)
LooksAreFree == \A i \in 1..NObj :
  LET s == Mine(i)  f(x) == x.e.op # "look"  t == SelectSeq(s, f)
  IN  Run(Blank, [j \in 1..Len(t) |-> t[j].e]) = obj[i]
(* every reachable state is reached by the short history *)
Same(o, c) == [o EXCEPT !.coup = c.coup] = c /\ (o.coup => c.coup)
CanonReaches == \A i \in 1..NObj : Same(obj[i], Run(Blank, Canon(obj[i])))

Done == Len(hist) = MaxOps
Emit == Done => PrintT("CASE " \o ToJson([hist |-> hist, after |-> after, canon |-> [k \in 1..Len(after) |-> Canon(after[k])]]))
=============================================================================
