---------------------------- MODULE PhaseDiagram ----------------------------
(* Tracing of the phase structure.  A diagram is a set of wells, each existing *)
(* over a temperature interval with a depth that depends on temperature; the   *)
(* state machine is the search over the window, mode by mode.  Temperatures    *)
(* are integers in units of 0.1 GeV; depths D/100 are in units of the check.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NW,        \* numbers of wells
          Modes,     \* multi-step modes
          LoPool, HiPool, APool, CPool,   \* well parameters
          Windows,   \* <<Tlow, Thigh>> pairs
          NumPoints, \* grid sizes (mode -1)
          Extras,    \* use of a given high-temperature point / saved minima: subset of {"none","htv","saved"}
          Margin,    \* depth margin that keeps the minimiser's choice unambiguous
          Step,      \* one GeV
          Focus,     \* "any", "tuned": chains of phases that take over from each other, or "loop": low and high phase do not overlap, "nested": and some phase lies inside another, "grid": one around a grid point
          Pick(_)

All(S) == S
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

VARIABLES wells, par, pc, T, T2, lowP, highP, found, status, grid
vars == <<wells, par, pc, T, T2, lowP, highP, found, status, grid>>

(* ------------------------------------------------------------- diagrams --- *)
Sq(x) == x * x
Ex(w, t) == w.lo <= t /\ t <= w.hi
D(w, t) == 100 * w.A + w.C * Sq(t - w.m)
At(ws, t) == {i \in DOMAIN ws : Ex(ws[i], t)}
Best(ws, t) == CHOOSE i \in At(ws, t) : \A j \in At(ws, t) : D(ws[i], t) <= D(ws[j], t)
Clear(ws, t) == /\ At(ws, t) # {}
                /\ \A j \in At(ws, t) \ {Best(ws, t)} : D(ws[j], t) - D(ws[Best(ws, t)], t) >= Margin

Tl == par.win[1]
Th == par.win[2]
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
LoT(i) == Max2(wells[i].lo, Tl)
HiT(i) == Min2(wells[i].hi, Th)
Inner(ws, win) == {ws[i].lo : i \in DOMAIN ws} \cup {ws[i].hi : i \in DOMAIN ws}
Between(t, win) == win[1] < t /\ t < win[2]

\* the temperatures at which the search may look
Looks(ws, win, n) ==
  {t \in win[1]..win[2] : (t - win[1]) % Step = 0}
    \cup {e \in Inner(ws, win) : Between(e, win)}
    \cup {win[1] + ((win[2] - win[1]) \div (n + 1)) * i : i \in 1..n}
    \cup {e + Step : e \in {x \in Inner(ws, win) : Between(x, win)}}
    \cup {e - Step : e \in {x \in Inner(ws, win) : Between(x, win)}}

Good(ws, win, n) ==
  /\ \A i \in DOMAIN ws : ws[i].hi - ws[i].lo >= 10 * Step /\ ws[i].lo < win[2] - 2*Step /\ ws[i].hi > win[1] + 2*Step
  \* ends are well separated from each other and from the window's
  /\ \A i, j \in DOMAIN ws :
       /\ i # j => Max2(ws[i].lo - ws[j].lo, ws[j].lo - ws[i].lo) > 2*Step \/ (ws[i].lo < win[1] /\ ws[j].lo < win[1])
       /\ i # j => Max2(ws[i].hi - ws[j].hi, ws[j].hi - ws[i].hi) > 2*Step \/ (ws[i].hi > win[2] /\ ws[j].hi > win[2])
       /\ i # j => Max2(ws[i].lo - ws[j].hi, ws[j].hi - ws[i].lo) > 2*Step
       /\ ~(win[1] - 2*Step <= ws[i].lo /\ ws[i].lo <= win[1] + 2*Step)
       /\ ~(win[2] - 2*Step <= ws[i].hi /\ ws[i].hi <= win[2] + 2*Step)
  \* continuous potential: a phase that ends is not the deepest where it ends
  /\ \A i \in DOMAIN ws : /\ Between(ws[i].lo, win) => Best(ws, ws[i].lo) # i
                          /\ Between(ws[i].hi, win) => Best(ws, ws[i].hi) # i
  /\ \A t \in Looks(ws, win, n) : t >= win[1] /\ t <= win[2] => Clear(ws, t)

R(S) == CHOOSE x \in Pick(S) : TRUE          \* one random element
RW(l, h) == [lo |-> l, hi |-> h, A |-> R(APool), C |-> R(CPool), m |-> R({0, 1, 1, 2})]
\* a chain of overlapping phases from below the window to above it ...
RECURSIVE Chain(_, _)
Chain(n, l) ==
  IF n = 1 \/ {x \in LoPool : x > l + 10*Step} = {} THEN <<RW(l, R({h \in HiPool : \A y \in HiPool : y <= h}))>>
  ELSE LET nl == R({x \in LoPool : x > l + 10*Step})
           hs == {h \in HiPool : h > nl + 3*Step}
           near == {h \in hs : h <= nl + 45*Step}
           h == R(IF near = {} THEN hs ELSE near)
       IN <<RW(l, h)>> \o Chain(n - 1, nl)
\* ... and further phases anywhere
RECURSIVE Extra(_)
Extra(k) == IF k = 0 THEN <<>>
            ELSE LET l == R(LoPool) IN
                 LET hs == {h \in HiPool : h > l + 10*Step} IN
                 (IF hs = {} THEN <<>> ELSE <<RW(l, R(hs))>>) \o Extra(k - 1)
Lowest == CHOOSE x \in LoPool : \A y \in LoPool : x <= y
\* m: deepest at the low end, in the middle, or at the high end of the interval
Place(w, win) == LET a == Max2(w.lo, win[1]) b == Min2(w.hi, win[2])
                 IN [w EXCEPT !.m = CASE w.m = 0 -> a [] w.m = 1 -> (a + b) \div 2 [] OTHER -> b]
\* ... or, deeper in the middle but not at its ends, inside the widest of them
Nest(ws, win) ==
  LET i == CHOOSE x \in DOMAIN ws : \A y \in DOMAIN ws : ws[x].hi - ws[x].lo >= ws[y].hi - ws[y].lo
      ls == {x \in LoPool : x > ws[i].lo /\ x > win[1]}
      l == R(ls)
      hs == {h \in HiPool : l + 10*Step < h /\ h < ws[i].hi /\ h < win[2]}
      h == R(hs)
      mid == (l + h) \div 2
      c == R({2, 4})
  IN IF ls = {} THEN ws ELSE IF hs = {} THEN ws
     ELSE Append(ws, [lo |-> l, hi |-> h, m |-> 1, C |-> c,
                      A |-> (D(Place(ws[i], win), mid) - (c * Sq(h - mid)) \div R({2, 3})) \div 100])
\* wells of the chain take over from each other in the middle of their overlap
RECURSIVE Tune(_, _, _)
Tune(ws, k, win) ==
  IF k > Len(ws) THEN ws
  ELSE LET v == Place(ws[k-1], win)
           w == Place([ws[k] EXCEPT !.m = 1, !.A = 0], win)
           oc == (w.lo + v.hi) \div 2
       IN Tune([ws EXCEPT ![k] = [lo |-> w.lo, hi |-> w.hi, C |-> w.C, m |-> 1, A |-> (D(v, oc) - D(w, oc)) \div 100 + R({0, 0, 0, 30, -30})]], k + 1, win)
\* ... or just around one point of the grid of extra temperatures, with two wide phases
GridNest(n, win, np) ==
  LET g == win[1] + ((win[2] - win[1]) \div (np + 1)) * R({1, np, np, R(1..np)})
      W0 == {53, 57, 63, 74, 87}
      l == g - R(W0)
      h == g + R(W0)
      mid == (l + h) \div 2
      c == R({4, 6, 8})
      base == IF n = 1 THEN <<[RW(Lowest, R({x \in HiPool : \A y \in HiPool : y <= x})) EXCEPT !.C = R({0, 1}), !.A = 0]>>
              ELSE Chain(n, Lowest)
      i == CHOOSE x \in DOMAIN base : \A y \in DOMAIN base : D(Place(base[x], win), mid) <= D(Place(base[y], win), mid)
  IN Append(base, [lo |-> l, hi |-> h, m |-> 1, C |-> c,
                   A |-> (D(Place(base[i], win), mid) - (c * Sq(h - mid)) \div R({2, 3})) \div 100])
Tuned(n, win) == LET ws == Chain(n, Lowest) IN Tune([ws EXCEPT ![1].m = 1], 2, win)
Draw(n, win, np) == { ws \in { CASE Focus = "grid" -> GridNest(n, win, np)
                             [] Focus = "nested" -> Nest(Tuned(n, win), win)
                             [] Focus \in {"loop", "tuned"} -> Tuned(n, win) \o Extra(R({0, 0, 1, 1}))
                             [] OTHER -> Chain(n, Lowest) \o Extra(R({0, 0, 1, 1, 2})) } : Len(ws) <= 6 }

Init == /\ wells = <<>> /\ par = [win |-> <<0, 0>>] /\ pc = "draw" /\ T = 0 /\ T2 = 0
        /\ lowP = 0 /\ highP = 0 /\ found = <<>> /\ status = "success" /\ grid = 0

DrawStep ==
  /\ pc = "draw"
  /\ \E n \in Pick(NW) : \E win \in Pick(Windows) : \E mode \in Pick(Modes) : \E np \in Pick(NumPoints) :
     \E raw \in Draw(n, win, np) : \E x \in Pick(Extras) : \E ew \in Pick(0..Len(raw)) : \E xi \in Pick(1..Len(raw)) :
     \E st \in Pick({t \in win[1]..win[2] : t % 50 = 0}) :
       LET ws == [i \in DOMAIN raw |-> Place(raw[i], win)] IN
       IF /\ Focus \in {"loop", "nested"} => /\ At(ws, win[1]) # {} /\ At(ws, win[2]) # {}
                              /\ LET l == ws[Best(ws, win[1])] h == ws[Best(ws, win[2])] IN l.hi < h.lo
          /\ Good(ws, win, np)
          /\ x = "htv" => Ex(ws[xi], win[2])
          /\ x = "saved" => Ex(ws[xi], st) /\ ~(\E e \in Inner(ws, win) : Max2(e - st, st - e) < 2*Step)
          /\ Focus = "nested" => \E i, j \in DOMAIN ws : win[1] < ws[i].lo /\ ws[i].lo < ws[j].lo /\ ws[j].hi < ws[i].hi /\ ws[i].hi < win[2]
                                   /\ \E t \in (ws[j].lo)..(ws[j].hi) : t % Step = 0 /\ Best(ws, t) = j
       THEN /\ wells' = ws
            /\ par' = [win |-> win, mode |-> mode, np |-> np, x |-> x, xi |-> xi, st |-> st, ew |-> ew]
            /\ pc' = IF mode = -1 THEN "rec" ELSE IF mode = 0 THEN "m0" ELSE IF mode = 2 THEN "m2" ELSE "m1"
            /\ T' = win[2]
            /\ lowP' = Best(ws, win[1])
            /\ highP' = IF x = "htv" THEN xi ELSE Best(ws, win[2])
       ELSE UNCHANGED <<wells, par, pc, T, lowP, highP>>
  /\ UNCHANGED <<T2, found, status, grid>>

G(t) == Best(wells, t)
Has(i) == \E k \in DOMAIN found : found[k] = i
Plus(f, i) == IF \E k \in DOMAIN f : f[k] = i THEN f ELSE Append(f, i)
FoundAt(i, t) == Has(i) /\ LoT(i) <= t /\ t <= HiT(i)
Overlap(i, j) == HiT(i) >= LoT(j) /\ LoT(i) <= HiT(j)
IsG(i, t) == Ex(wells[i], t) /\ G(t) = i
GlobOverlap(n, o) ==
  /\ Overlap(n, o)
  /\ LET h == IF HiT(n) >= HiT(o) THEN n ELSE o
         l == IF HiT(n) >= HiT(o) THEN o ELSE n
     IN IsG(h, HiT(l)) /\ IsG(l, Max2(LoT(h), LoT(l)))

(* ---------------------------------------------- mode -1: follow the ends -- *)
Rec ==
  /\ pc = "rec"
  /\ IF T <= Tl
     THEN /\ found' = Plus(found, G(Tl)) /\ pc' = "grid" /\ grid' = 1 /\ UNCHANGED T
     ELSE /\ LET i == IF T = Th /\ par.x = "htv" /\ ~FoundAt(par.xi, Th) THEN par.xi ELSE G(T) IN
             IF FoundAt(i, T) THEN T' = T - Step /\ UNCHANGED found
             ELSE found' = Plus(found, i) /\ T' = LoT(i)
          /\ UNCHANGED <<pc, grid>>
  /\ UNCHANGED <<wells, par, T2, lowP, highP, status>>

Grid ==
  /\ pc = "grid"
  /\ IF grid > par.np THEN pc' = "ew" /\ UNCHANGED <<found, grid>>
     ELSE LET t == Tl + ((Th - Tl) \div (par.np + 1)) * grid IN
          /\ found' = IF FoundAt(G(t), t) THEN found ELSE Plus(found, G(t))
          /\ grid' = grid + 1 /\ UNCHANGED pc
  /\ UNCHANGED <<wells, par, T, T2, lowP, highP, status>>

(* ------------------------------------------------------- modes 0 and 1 ---- *)
Mode0 ==
  /\ pc = "m0"
  /\ found' = Plus(Plus(found, lowP), highP)
  /\ status' = IF LoT(highP) >= HiT(lowP) THEN "no_coverage"
               ELSE IF GlobOverlap(lowP, highP) THEN status ELSE "no_glob_min_coverage"
  /\ pc' = "ew"
  /\ UNCHANGED <<wells, par, T, T2, lowP, highP, grid>>

Mode1 ==
  /\ pc = "m1"
  /\ found' = Plus(Plus(found, lowP), highP)
  /\ IF Overlap(lowP, highP)
     THEN /\ status' = IF GlobOverlap(lowP, highP) THEN status ELSE "no_glob_min_coverage"
          /\ pc' = "m1end" /\ UNCHANGED <<T, T2>>
     ELSE /\ pc' = "m1loop" /\ T' = HiT(lowP) + Step /\ T2' = LoT(highP) - Step /\ UNCHANGED status
  /\ UNCHANGED <<wells, par, lowP, highP, grid>>

Mode1Loop ==
  /\ pc = "m1loop"
  /\ LET a == G(T) b == G(T2) IN
     /\ found' = Plus(Plus(found, a), b)
     /\ IF ~(Overlap(lowP, a) /\ Overlap(highP, b))
        THEN /\ status' = "no_coverage" /\ pc' = "m1end" /\ UNCHANGED <<lowP, highP, T, T2>>
        ELSE /\ IF Overlap(a, b)
                THEN /\ status' = IF GlobOverlap(lowP, a) /\ GlobOverlap(highP, b) /\ GlobOverlap(a, b)
                                  THEN status ELSE "no_glob_min_coverage"
                     /\ pc' = "m1end"
                ELSE UNCHANGED <<status, pc>>
             /\ lowP' = a /\ highP' = b /\ T' = HiT(a) /\ T2' = LoT(b)
  /\ UNCHANGED <<wells, par, grid>>

Mode1End ==
  /\ pc = "m1end"
  /\ IF par.mode = 3 /\ status = "no_glob_min_coverage"
     THEN /\ status' = "success" /\ pc' = "m2"
          /\ lowP' = Best(wells, Tl) /\ highP' = (IF par.x = "htv" THEN par.xi ELSE Best(wells, Th))
     ELSE pc' = "ew" /\ UNCHANGED <<status, lowP, highP>>
  /\ UNCHANGED <<wells, par, T, T2, found, grid>>

(* ---------------------------------------------------------------- mode 2 -- *)
UpTo(t) == {x \in Tl..Th : x >= t /\ (x - t) % Step = 0}
DownFrom(t) == {x \in Tl..Th : x <= t /\ (t - x) % Step = 0}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
\* first temperature, going in steps, at which i is no longer the deepest; else the end of the phase
LostUp(i, t) == LET S == {x \in UpTo(t) : ~IsG(i, x)} IN IF S = {} THEN HiT(i) ELSE Least(S)
LostDown(i, t) == LET S == {x \in DownFrom(t) : ~IsG(i, x)} IN IF S = {} THEN LoT(i) ELSE Most(S)

Mode2 ==
  /\ pc = "m2"
  /\ found' = Plus(Plus(found, lowP), highP)
  /\ LET u == LostUp(lowP, Tl) v == LostDown(highP, Th) IN
     /\ T' = IF HiT(lowP) > u THEN u ELSE u + Step
     /\ T2' = IF LoT(highP) < v THEN v ELSE v - Step
  /\ pc' = "m2loop"
  /\ UNCHANGED <<wells, par, lowP, highP, status, grid>>

Mode2Loop ==
  /\ pc = "m2loop"
  /\ IF T >= T2 THEN pc' = "ew" /\ UNCHANGED <<found, T, T2>>
     ELSE LET a == G(T) b == G(T2) IN
          /\ found' = Plus(Plus(found, a), b)
          /\ T' = LostDown(a, T) /\ T2' = LostDown(b, T2)
          /\ UNCHANGED pc
  /\ UNCHANGED <<wells, par, lowP, highP, status, grid>>

(* ------------------------------------------------ electroweak and saved --- *)
EW ==
  /\ pc = "ew"
  /\ found' = LET f == IF par.ew # 0 /\ Ex(wells[par.ew], Tl) THEN Plus(found, par.ew) ELSE found
              IN IF par.x = "saved" THEN Plus(f, par.xi) ELSE f
  /\ pc' = "done"
  /\ UNCHANGED <<wells, par, T, T2, lowP, highP, status, grid>>

Next == DrawStep \/ Rec \/ Grid \/ Mode0 \/ Mode1 \/ Mode1Loop \/ Mode1End \/ Mode2 \/ Mode2Loop \/ EW
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------- properties ---- *)
Done == pc = "done"
FoundSet == {found[k] : k \in DOMAIN found}
Numbered == status = "success" \/ (par.mode # 0 /\ status = "no_coverage")
OncePerPhase == Cardinality(FoundSet) = Len(found)
\* success in the covering modes means that some traced phase exists at every temperature
Covered == Done /\ status = "success" =>
             \A t \in UpTo(Tl) : \E i \in FoundSet : Ex(wells[i], t)
\* the mode that enforces it traces every phase that is deepest somewhere
GlobalCoverage == Done /\ par.mode = 2 =>
                    \A t \in UpTo(Tl) : G(t) \in FoundSet
NeverStuck == pc \in {"m1loop"} => T <= Th /\ T2 >= Tl
EndsFound == Done /\ par.x # "htv" => {G(Tl), G(Th)} \subseteq FoundSet

(* -------------------------------------------------- what must be observed - *)
PairsOf == { p \in FoundSet \X FoundSet : p[1] # p[2] /\ Overlap(p[1], p[2]) }
Sgn(f, t, T0) == IF D(wells[t], T0) > D(wells[f], T0) THEN 1 ELSE -1
Crit(f, t) ==    \* f -> t on cooling
  LET a == Max2(LoT(f), LoT(t)) b == Min2(HiT(f), HiT(t))
      h == Sgn(f, t, b) l == Sgn(f, t, a)
  IN IF h > 0 /\ l > 0 THEN "false_lower" ELSE IF h < 0 /\ l < 0 THEN "true_lower"
     ELSE IF h > 0 /\ l < 0 THEN "success" ELSE "failure"
Emit == Done => PrintT("CASE " \o ToJson(
  [wells |-> wells, par |-> par, status |-> status, numbered |-> Numbered,
   phases |-> {<<i, LoT(i), HiT(i)>> : i \in FoundSet},
   coex |-> IF ~Numbered THEN "no_coex_pair"
            ELSE IF \E p \in PairsOf : Max2(LoT(p[1]), LoT(p[2])) < Min2(HiT(p[1]), HiT(p[2])) THEN "success" ELSE "no_coex_pair",
   pairs |-> {<<p[1], p[2], Max2(LoT(p[1]), LoT(p[2])), Min2(HiT(p[1]), HiT(p[2])), Crit(p[1], p[2])>> : p \in PairsOf}]))
=============================================================================
