---------------------------- MODULE PhaseRegistry ----------------------------
(* The list of phases of a window: registration of found phases (coinciding     *)
(* ones are merged, empty ones dropped), look-up of a minimum, coverage of the  *)
(* window and its repair, coexisting pairs.  A phase is a piece [lo,hi] of the  *)
(* curve of one well; all wells exist everywhere.                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Wells,      \* 1..n
          TMax,       \* window 0..TMax
          MaxReg,
          Ops,        \* which steps: subset of {"reg","find","overlap","region","pairs"}
          Depths,     \* set of functions Wells -> <<A, B>> : depth A + B*T
          Intervals,  \* which <<lo, hi, knots>> may be registered
          DescHi,     \* TRUE: only registrations in order of decreasing upper end, one per well
          Pick(_)
All(S) == S
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

VARIABLES reg, hist, dep, phase
vars == <<reg, hist, dep, phase>>

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
D(w, t) == dep[w][1] + dep[w][2] * t
\* D at half-integer temperatures, doubled
D2(w, t2) == 2 * dep[w][1] + dep[w][2] * t2
G2(t2) == CHOOSE w \in Wells : \A v \in Wells : D2(w, t2) <= D2(v, t2)
\* no two wells are equally deep at a (half-)integer temperature
NoTies(f) == \A w, v \in Wells : w < v => \A t2 \in 0..2*TMax : 2*f[w][1] + f[w][2]*t2 # 2*f[v][1] + f[v][2]*t2
GoodDepths == {f \in Depths : NoTies(f)}

Init == reg = <<>> /\ hist = <<>> /\ phase = "draw" /\ dep = <<>>
Draw == /\ phase = "draw" /\ phase' = "reg"
        /\ dep' \in Pick(GoodDepths)
        /\ UNCHANGED <<reg, hist>>

Coincides(p, w, a, b) == p.w = w /\ Max2(p.lo, a) < Min2(p.hi, b)
AddTo(rs, w, a, b) ==
  LET S == {k \in DOMAIN rs : Coincides(rs[k], w, a, b)} IN
  IF S = {} THEN Append(rs, [w |-> w, lo |-> a, hi |-> b])
  ELSE LET k == CHOOSE x \in S : \A y \in S : x <= y IN
       [rs EXCEPT ![k].lo = Min2(@, a), ![k].hi = Max2(@, b)]

Register(w, iv) ==
  /\ "reg" \in Ops /\ phase = "reg" /\ Len(hist) < MaxReg
  /\ DescHi => (\A k \in DOMAIN reg : reg[k].hi >= iv[2] /\ reg[k].w # w)
  /\ reg' = IF iv[3] <= 1 THEN reg ELSE AddTo(reg, w, iv[1], iv[2])
  /\ hist' = Append(hist, [op |-> "reg", w |-> w, iv |-> iv])
  /\ UNCHANGED <<dep, phase>>

FindRes(w, t) == LET S == {k \in DOMAIN reg : reg[k].w = w /\ reg[k].lo <= t /\ t <= reg[k].hi}
                 IN IF S = {} THEN -1 ELSE (CHOOSE x \in S : \A y \in S : x <= y) - 1
Find(w, t) ==
  /\ "find" \in Ops /\ Len(hist) < MaxReg /\ reg # <<>>
  /\ hist' = Append(hist, [op |-> "find", w |-> w, T |-> t, r |-> FindRes(w, t)])
  /\ UNCHANGED <<reg, dep, phase>>

Ovl(i, j) == reg[i].hi >= reg[j].lo /\ reg[i].lo <= reg[j].hi
IsG(i, t) == G2(2*t) = reg[i].w
\* both phases are the deepest where the other one ends, inside the overlap
GlobOvl(i, j) ==
  /\ Ovl(i, j)
  /\ LET h == IF reg[i].hi >= reg[j].hi THEN i ELSE j
         l == IF reg[i].hi >= reg[j].hi THEN j ELSE i
     IN IsG(h, reg[l].hi) /\ IsG(l, reg[h].lo)
Overlap(i, j) ==
  /\ "overlap" \in Ops /\ Len(hist) < MaxReg /\ i # j
  /\ hist' = Append(hist, [op |-> "overlap", i |-> i - 1, j |-> j - 1, r |-> Ovl(i, j), g |-> GlobOvl(i, j)])
  /\ UNCHANGED <<reg, dep, phase>>

(* ------------------------------------------------------------- coverage --- *)
Ends(rs) == {rs[k].lo : k \in DOMAIN rs} \cup {rs[k].hi : k \in DOMAIN rs}
NextBelow(S, t) == CHOOSE x \in {y \in S : y < t} : \A z \in {y \in S : y < t} : z <= x
Segs(rs) == LET E == Ends(rs) IN {<<NextBelow(E, t), t>> : t \in {x \in E : \E y \in E : y < x}}
Over(rs, s) == {k \in DOMAIN rs : rs[k].lo <= s[1] /\ s[2] <= rs[k].hi}
Gaps(rs) == {s \in Segs(rs) : Over(rs, s) = {}}
Coex(rs) == \E s \in Segs(rs) : Cardinality(Over(rs, s)) > 1
RECURSIVE Patch(_, _)
Patch(rs, gs) ==
  IF gs = {} THEN rs
  ELSE LET s == CHOOSE x \in gs : \A y \in gs : x[2] >= y[2]
       IN Patch(AddTo(rs, G2(s[1] + s[2]), 0, TMax), gs \ {s})
Region(mode) ==
  /\ "region" \in Ops /\ phase = "reg" /\ reg # <<>>
  /\ LET gs == Gaps(reg) IN
     /\ reg' = IF mode = 0 THEN reg ELSE Patch(reg, gs)
     /\ hist' = Append(hist, [op |-> "region", mode |-> mode,
                              st |-> IF gs # {} /\ mode = 0 THEN "no_coverage" ELSE "success",
                              coex |-> IF Coex(reg) \/ Coex(reg') THEN "success" ELSE "no_coex_pair"])
  /\ phase' = "end" /\ UNCHANGED dep

(* ---------------------------------------------------------------- pairs --- *)
Sgn(f, t, T0) == IF D(t, T0) > D(f, T0) THEN 1 ELSE -1
Crit(f, t, a, b) ==
  LET h == Sgn(f, t, b) l == Sgn(f, t, a)
  IN IF h > 0 /\ l > 0 THEN "false_lower" ELSE IF h < 0 /\ l < 0 THEN "true_lower"
     ELSE IF h > 0 /\ l < 0 THEN "success" ELSE "failure"
PairList ==
  LET n == Len(reg) IN
  LET all == [k \in 1..n*n |-> <<((k-1) \div n) + 1, ((k-1) % n) + 1>>] IN
  LET sel == SelectSeq(all, LAMBDA p : p[1] < p[2] /\ Ovl(p[1], p[2])) IN
  [k \in DOMAIN sel |-> LET i == sel[k][1] j == sel[k][2] a == Max2(reg[i].lo, reg[j].lo) b == Min2(reg[i].hi, reg[j].hi)
                        IN [f |-> i - 1, t |-> j - 1, lo |-> a, hi |-> b, st |-> Crit(reg[i].w, reg[j].w, a, b)]]
Pairs ==
  /\ "pairs" \in Ops /\ phase = "reg" /\ reg # <<>> /\ Len(hist) = MaxReg
  /\ hist' = Append(hist, [op |-> "pairs", ps |-> PairList])
  /\ phase' = "end" /\ UNCHANGED <<reg, dep>>

FreeWells == IF DescHi THEN {w \in Wells : \A k \in DOMAIN reg : reg[k].w # w} ELSE Wells
FreeIntervals == IF DescHi THEN {iv \in Intervals : \A k \in DOMAIN reg : reg[k].hi >= iv[2]} ELSE Intervals
Step == /\ phase \in {"reg", "end"}
        /\ \/ \E w \in Pick(FreeWells) : \E iv \in Pick(FreeIntervals) : Register(w, iv)
           \/ \E w \in Pick(Wells) : \E t \in Pick(0..TMax) : Find(w, t)
           \/ \E i \in Pick(DOMAIN reg) : \E j \in Pick(DOMAIN reg) : Overlap(i, j)
           \/ \E m \in Pick({0, -1, 2}) : Len(hist) >= 1 /\ Region(m)
           \/ Pairs
Next == Draw \/ Step
Spec == Init /\ [][Next]_vars

(* properties *)
InWindow == \A k \in DOMAIN reg : 0 <= reg[k].lo /\ reg[k].lo < reg[k].hi /\ reg[k].hi <= TMax
\* every registered piece of a curve lies in some phase of that curve
NothingLost == \A n \in DOMAIN hist : hist[n].op = "reg" /\ hist[n].iv[3] > 1 =>
                 \E k \in DOMAIN reg : reg[k].w = hist[n].w /\ reg[k].lo <= hist[n].iv[1] /\ hist[n].iv[2] <= reg[k].hi
\* a repaired window has no gap
Repaired == phase = "end" /\ hist[Len(hist)].op = "region" /\ hist[Len(hist)].mode # 0 => Gaps(reg) = {}
PairsOnce == phase = "end" /\ hist[Len(hist)].op = "pairs" =>
               LET ps == hist[Len(hist)].ps IN \A a, b \in DOMAIN ps : a # b => {ps[a].f, ps[a].t} # {ps[b].f, ps[b].t}
Full == Len(hist) >= MaxReg
Emit == (phase = "end" \/ (Len(hist) = MaxReg /\ "pairs" \notin Ops)) =>
        PrintT("CASE " \o ToJson([hist |-> hist, dep |-> dep,
               reg |-> [k \in DOMAIN reg |-> <<reg[k].w, reg[k].lo, reg[k].hi>>]]))
=============================================================================
