----------------------------- MODULE Potential -----------------------------
(* A scalar potential given by its coupling tensors, the field-dependent mass *)
(* matrices and thermal masses that follow from them, and the bookkeeping of  *)
(* the effective potential (which particles contribute with which weight).    *)
(* All couplings, fields and the temperature are small integers, so that      *)
(* every quantity below is exact: 24 V, 6 dV, 2 M, 24 D.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NMax,       \* number of fields
          GMax, FMax, \* number of gauge bosons, of fermions
          Vals,       \* values of couplings
          Field,      \* values of fields
          Temps,      \* temperatures
          Sparse,     \* number of independent couplings switched on (-1: all)
          Pick(_)

VARIABLES step, n, ng, nf, ord, L, C, G, Y, v, T
vars == <<step, n, ng, nf, ord, L, C, G, Y, v, T>>

Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Sorted2(i, j) == <<Min2(i, j), Max2(i, j)>>
(* sorting index lists: symmetric tensors are functions of sorted lists *)
RECURSIVE Ins(_, _)
Ins(x, s) == IF s = <<>> THEN <<x>> ELSE IF x <= Head(s) THEN <<x>> \o s ELSE <<Head(s)>> \o Ins(x, Tail(s))
RECURSIVE Sort(_)
Sort(s) == IF s = <<>> THEN <<>> ELSE Ins(Head(s), Sort(Tail(s)))
SortedTuples(m, k) == {Sort(t) : t \in [1..k -> 1..m]}

RECURSIVE SumTo(_, _)
SumTo(f, m) == IF m = 0 THEN 0 ELSE f[m] + SumTo(f, m - 1)
Sum(f) == SumTo(f, Len(f))

(* tensors t = [k -> function on sorted tuples of length k] *)
X(t, s) == LET k == Len(s) IN t[k][Sort(s)]
D == 1..n
(* the polynomial and its derivatives, cleared of denominators *)
V24At(t, u) ==
  Sum([i \in D |-> 24 * X(t, <<i>>) * u[i]
     + Sum([j \in D |-> 12 * X(t, <<i, j>>) * u[i] * u[j]
       + Sum([k \in D |-> 4 * X(t, <<i, j, k>>) * u[i] * u[j] * u[k]
         + Sum([l \in D |-> X(t, <<i, j, k, l>>) * u[i] * u[j] * u[k] * u[l]])])])])
D6At(t, u, i) ==
  6 * X(t, <<i>>) + Sum([j \in D |-> 6 * X(t, <<i, j>>) * u[j]
     + Sum([k \in D |-> 3 * X(t, <<i, j, k>>) * u[j] * u[k]
       + Sum([l \in D |-> X(t, <<i, j, k, l>>) * u[j] * u[k] * u[l]])])])
M2At(t, u, i, j) ==
  2 * X(t, <<i, j>>) + Sum([k \in D |-> 2 * X(t, <<i, j, k>>) * u[k]
     + Sum([l \in D |-> X(t, <<i, j, k, l>>) * u[k] * u[l]])])
M3At(t, u, i, j, k) == X(t, <<i, j, k>>) + Sum([l \in D |-> X(t, <<i, j, k, l>>) * u[l]])

(* gauge bosons: G[ab][ij]; fermions: Y[IJ][k] Gaussian integers <<re, im>>, k=0: bare mass *)
GG(a, b, i, j) == G[Sorted2(a, b)][Sorted2(i, j)]
YY(I, J, k) == Y[Sorted2(I, J)][k]
Gauge2(u, a, b) == Sum([i \in D |-> Sum([j \in D |-> GG(a, b, i, j) * u[i] * u[j]])])
FermionRe(u, I, J) == YY(I, J, 0)[1] + Sum([k \in D |-> YY(I, J, k)[1] * u[k]])
FermionIm(u, I, J) == YY(I, J, 0)[2] + Sum([k \in D |-> YY(I, J, k)[2] * u[k]])
YukSq(i, j) == Sum([I \in 1..nf |-> Sum([J \in 1..nf |-> YY(I, J, i)[1] * YY(I, J, j)[1] + YY(I, J, i)[2] * YY(I, J, j)[2]])])
(* thermal masses of the scalars: the same fermions once as quarks (three     *)
(* colours) and once as leptons                                               *)
Debye24(i, j) == Sum([k \in D |-> X(L, <<i, j, k, k>>)]) + 3 * Sum([a \in 1..ng |-> GG(a, a, i, j)])
                 + (3 * 2 + 2) * YukSq(i, j)
(* thermal masses of the gauge bosons *)
NGH == Cardinality({i \in D : ng > 0 /\ GG(1, 1, i, i) # 0})
DebyeGaugeNum(a) == (NGH + 40) * Sum([k \in D |-> GG(a, a, k, k)])   \* divided by 12 NGH

(* who contributes to the one-loop potential: weight of each mass eigenvalue,  *)
(* statistics, subtraction constant times six, whether the thermal mass is     *)
(* resummed                                                                    *)
Parts == <<[kind |-> "higgs", dof |-> 1, boson |-> TRUE, cb6 |-> 9, daisy |-> 1],
           [kind |-> "gauge", dof |-> 3, boson |-> TRUE, cb6 |-> 5, daisy |-> 1],
           [kind |-> "quark", dof |-> -6, boson |-> FALSE, cb6 |-> 9, daisy |-> 0],
           [kind |-> "lepton", dof |-> -2, boson |-> FALSE, cb6 |-> 9, daisy |-> 0]>>
(* what is part of the potential that is asked for *)
Included(order, treeOnly) == IF order = 0 \/ treeOnly THEN {"tree"} ELSE {"tree", "counterterms", "loop"}

------------------------------------------------------------------------------
ZeroT(m) == [k \in 1..4 |-> [s \in SortedTuples(m, k) |-> 0]]
ZeroG(g, m) == [p \in {Sorted2(a, b) : a \in 1..g, b \in 1..g} |-> [q \in {Sorted2(i, j) : i \in 1..m, j \in 1..m} |-> 0]]
ZeroY(f, m) == [p \in {Sorted2(I, J) : I \in 1..f, J \in 1..f} |-> [k \in 0..m |-> <<0, 0>>]]
Init == /\ step = "size" /\ n = 1 /\ ng = 0 /\ nf = 0 /\ ord = <<1>> /\ v = <<0>> /\ T = 0
        /\ L = ZeroT(1) /\ C = ZeroT(1) /\ G = ZeroG(0, 1) /\ Y = ZeroY(0, 1)

Size == /\ step = "size" /\ step' = "coup"
        /\ \E m \in Pick(1..NMax) : \E g \in Pick(0..GMax) : \E f \in Pick(0..FMax) :
             /\ n' = m /\ ng' = g /\ nf' = f
             /\ L' = ZeroT(m) /\ C' = ZeroT(m) /\ G' = ZeroG(g, m) /\ Y' = ZeroY(f, m)
             /\ \E O \in Pick(SUBSET (1..m) \ {{}}) :
                  ord' = Sort(CHOOSE s \in [1..Cardinality(O) -> O] : {s[k] : k \in DOMAIN s} = O)
             /\ v' = [i \in 1..m |-> 0]
        /\ UNCHANGED T

Rnd(S) == CHOOSE x \in Pick(S) : TRUE
RndT == [k \in 1..4 |-> [s \in SortedTuples(n, k) |-> Rnd(Vals)]]
Dense == /\ Sparse < 0
         /\ L' = RndT /\ C' = RndT
         /\ G' = [p \in DOMAIN G |-> [q \in DOMAIN G[p] |-> Rnd(Vals)]]
         /\ Y' = [p \in DOMAIN Y |-> [k \in DOMAIN Y[p] |-> <<Rnd(Vals), Rnd(Vals)>>]]
(* one coupling at a time: everything is linear in the couplings, so unit      *)
(* tensors decide the linear identities for all of them                        *)
Unit == /\ Sparse > 0
        /\ \E k \in 1..4 : \E s \in SortedTuples(n, k) : L' = [L EXCEPT ![k][s] = 1]
        /\ UNCHANGED <<C, G, Y>>
Couple == /\ step = "coup" /\ step' = "point" /\ (Dense \/ Unit)
          /\ UNCHANGED <<n, ng, nf, ord, v, T>>
Point == /\ step = "point" /\ step' = "done"
         /\ IF Sparse < 0 THEN v' = [i \in D |-> Rnd(Field)] ELSE v' \in [D -> Field]
         /\ T' \in Pick(Temps)
         /\ UNCHANGED <<n, ng, nf, ord, L, C, G, Y>>
Next == Size \/ Couple \/ Point
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Done == step = "done"
Mv(u, i, d) == [u EXCEPT ![i] = @ + d]
(* derivatives are derivatives: exact difference formulas for polynomials of   *)
(* fourth degree                                                               *)
Gradient == Done => \A i \in D :
  V24At(L, Mv(v, i, -2)) - 8 * V24At(L, Mv(v, i, -1)) + 8 * V24At(L, Mv(v, i, 1)) - V24At(L, Mv(v, i, 2))
    = 12 * 4 * D6At(L, v, i)
Hesse == Done => \A i, j \in D :
  D6At(L, Mv(v, j, -2), i) - 8 * D6At(L, Mv(v, j, -1), i) + 8 * D6At(L, Mv(v, j, 1), i) - D6At(L, Mv(v, j, 2), i)
    = 12 * 3 * M2At(L, v, i, j)
Third == Done => \A i, j, k \in D :
  M2At(L, Mv(v, k, 1), i, j) - M2At(L, Mv(v, k, -1), i, j) = 4 * M3At(L, v, i, j, k)
(* no preferred numbering of the fields *)
Perms == {p \in [D -> D] : \A i, j \in D : i # j => p[i] # p[j]}
Relabel == Done => \A p \in Perms :
  LET t == [k \in 1..4 |-> [s \in SortedTuples(n, k) |-> L[k][Sort([a \in 1..k |-> p[s[a]]])]]]
  IN  V24At(t, [i \in D |-> v[p[i]]]) = V24At(L, v)
(* a point in vacuum directions stands for the field vector that vanishes in all others *)
Embed(p) == [i \in D |-> IF \E k \in 1..Len(ord) : ord[k] = i THEN p[CHOOSE k \in 1..Len(ord) : ord[k] = i] ELSE 0]
Short == [k \in 1..Len(ord) |-> v[ord[k]]]
Fits == Done => \A i \in D : LET u == Embed(Short) IN u[i] # 0 => u[i] = v[i]

Mat(F(_, _), m) == [i \in 1..m |-> [j \in 1..m |-> F(i, j)]]
Exact(u) ==
  [V24 |-> V24At(L, u), C24 |-> V24At(C, u),
   D6 |-> [i \in D |-> D6At(L, u, i)], CD6 |-> [i \in D |-> D6At(C, u, i)],
   M2 |-> [i \in D |-> [j \in D |-> M2At(L, u, i, j)]],
   CM2 |-> [i \in D |-> [j \in D |-> M2At(C, u, i, j)]],
   M3 |-> [k \in D |-> [i \in D |-> [j \in D |-> M3At(L, u, i, j, k)]]],
   gauge2 |-> [a \in 1..ng |-> [b \in 1..ng |-> Gauge2(u, a, b)]],
   fre |-> [I \in 1..nf |-> [J \in 1..nf |-> FermionRe(u, I, J)]],
   fim |-> [I \in 1..nf |-> [J \in 1..nf |-> FermionIm(u, I, J)]]]
List(t, k) == {<<s, t[k][s]>> : s \in SortedTuples(n, k)}
Emit == Done => PrintT("CASE " \o ToJson(
  [n |-> n, ng |-> ng, nf |-> nf, ord |-> ord, v |-> v, short |-> Short, T |-> T,
   L |-> [k \in 1..4 |-> List(L, k)], C |-> [k \in 1..4 |-> List(C, k)],
   G |-> {<<p, q, G[p][q]>> : p \in DOMAIN G, q \in {Sorted2(i, j) : i \in D, j \in D}},
   Y |-> {<<p, k, Y[p][k]>> : p \in DOMAIN Y, k \in 0..n},
   debye24 |-> [i \in D |-> [j \in D |-> Debye24(i, j)]],
   dgnum |-> [a \in 1..ng |-> DebyeGaugeNum(a)], dgden |-> 12 * NGH,
   full |-> Exact(v), emb |-> Exact(Embed(Short)), parts |-> Parts,
   included |-> [loop |-> Included(1, FALSE), order0 |-> Included(0, FALSE), treeonly |-> Included(1, TRUE)]]))
=============================================================================
