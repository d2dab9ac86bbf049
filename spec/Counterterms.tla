--------------------------- MODULE Counterterms ---------------------------
(* Renormalisation at the tree-level vacuum.  The one-loop potential (an      *)
(* environment choice) shifts the gradient and the masses at the vacuum; the  *)
(* counterterm potential, a combination of the operators of the model, shifts *)
(* them back.  Operators are written as polynomials in the invariants of the  *)
(* model and evaluated with their first and second derivatives in all fields  *)
(* ("jets") at the vacuum, in exact integers: every operator is multiplied by *)
(* 16, fields are measured in a common unit.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Models,      \* set of model names
          Coefs,       \* values of coefficients
          Tadpoles,    \* TRUE: the one-loop part may contain linear terms
          Single,      \* TRUE: one operator at a time
          Pick(_)

VARIABLES stage, model, vac, C, loop, ct
vars == <<stage, model, vac, C, loop, ct>>

RECURSIVE SumTo(_, _)
SumTo(f, m) == IF m = 0 THEN 0 ELSE f[m] + SumTo(f, m - 1)
Sum(f) == SumTo(f, Len(f))

(* ---------------------------------------------------------------- jets *)
Dim(v) == Len(v)
Field(v, i) == TLCEval([c |-> v[i], g |-> [j \in 1..Dim(v) |-> IF j = i THEN 1 ELSE 0],
                h |-> [j \in 1..Dim(v) |-> [k \in 1..Dim(v) |-> 0]]])
Add(a, b) == TLCEval([c |-> a.c + b.c, g |-> [i \in DOMAIN a.g |-> a.g[i] + b.g[i]],
              h |-> [i \in DOMAIN a.g |-> [j \in DOMAIN a.g |-> a.h[i][j] + b.h[i][j]]]])
Times(z, a) == TLCEval([c |-> z * a.c, g |-> [i \in DOMAIN a.g |-> z * a.g[i]],
                h |-> [i \in DOMAIN a.g |-> [j \in DOMAIN a.g |-> z * a.h[i][j]]]])
Mul(a, b) == TLCEval([c |-> a.c * b.c, g |-> [i \in DOMAIN a.g |-> a.c * b.g[i] + b.c * a.g[i]],
              h |-> [i \in DOMAIN a.g |-> [j \in DOMAIN a.g |->
                       a.c * b.h[i][j] + b.c * a.h[i][j] + a.g[i] * b.g[j] + a.g[j] * b.g[i]]]])
Sq(a) == Mul(a, a)
RECURSIVE AddAll(_)
AddAll(s) == IF Len(s) = 1 THEN s[1] ELSE Add(s[1], AddAll(Tail(s)))
Zero(n) == [c |-> 0, g |-> [i \in 1..n |-> 0], h |-> [i \in 1..n |-> [j \in 1..n |-> 0]]]

(* ------------------------------------------------------------- doublets *)
(* a doublet is the tuple of its components: Re, Im of the charged one, Re,   *)
(* Im of the neutral one; twice its norm, twice the products of two           *)
Norm(v, d)    == AddAll([k \in 1..4 |-> Sq(Field(v, d[k]))])
Re2(v, d, e)  == AddAll([k \in 1..4 |-> Mul(Field(v, d[k]), Field(v, e[k]))])
Im2(v, d, e)  == AddAll(<<Mul(Field(v, d[1]), Field(v, e[2])), Times(-1, Mul(Field(v, d[2]), Field(v, e[1]))),
                          Mul(Field(v, d[3]), Field(v, e[4])), Times(-1, Mul(Field(v, d[4]), Field(v, e[3])))>>)

Doublets(m) == CASE m = "sm"          -> <<<<1, 2, 3, 4>>>>
                 [] m = "cxsm"        -> <<<<1, 2, 4, 3>>>>
                 [] m = "n2hdm"       -> <<<<1, 3, 7, 5>>, <<2, 4, 8, 6>>>>
                 [] OTHER             -> <<<<1, 2, 5, 6>>, <<3, 4, 7, 8>>>>

(* -------------------------------------------- the operators of the models *)
(* name: label of the counterterm; d: dimension of its coupling; j: 16 x the  *)
(* operator; root: the coupling is multiplied by the square root of two       *)
Op(name, d, j) == [name |-> name, d |-> d, root |-> FALSE, tad |-> FALSE, j |-> j]
Root(o) == [o EXCEPT !.root = TRUE]
Tad(name, v, i) == [name |-> name, d |-> 3, root |-> FALSE, tad |-> TRUE, j |-> Times(16, Field(v, i))]

Higgs2(v, d, e) == [A |-> Norm(v, d), B |-> Norm(v, e), R |-> Re2(v, d, e), I |-> Im2(v, d, e)]
Common2(p, n) ==
  << Op(n[1], 2, Times(8, p.A)), Op(n[2], 2, Times(8, p.B)),
     Op(n[3], 0, Times(2, Sq(p.A))), Op(n[4], 0, Times(2, Sq(p.B))), Op(n[5], 0, Times(4, Mul(p.A, p.B))),
     Op(n[6], 0, Times(4, Add(Sq(p.R), Sq(p.I)))), Op(n[7], 0, Times(4, Add(Sq(p.R), Times(-1, Sq(p.I))))) >>

Operators(m, v) ==
  LET d == Doublets(m) IN
  CASE m = "sm" ->
       LET A == Norm(v, d[1]) IN
       << Op("dmuSq", 2, Times(8, A)), Op("dlambda", 0, Times(4, Sq(A))),
          Tad("dT1", v, 1), Tad("dT2", v, 2), Tad("dT3", v, 3), Tad("dT4", v, 4) >>
    [] m = "cxsm" ->
       LET A == Norm(v, d[1])
           s == Field(v, 5)
           a == Field(v, 6)
           S == Add(Sq(s), Sq(a))
       IN << Op("dms", 2, Times(4, A)), Op("dlambda", 0, Sq(A)), Op("ddelta2", 0, Times(2, Mul(A, S))), Op("db2", 2, Times(4, S)),
             Op("dd2", 0, Sq(S)), Op("dReb1", 2, Times(4, Add(Sq(s), Times(-1, Sq(a))))), Op("dImb1", 2, Times(-8, Mul(s, a))),
             Root(Op("dRea1", 3, Times(16, s))), Root(Op("dIma1", 3, Times(-16, a))),
             Tad("dT1", v, 1), Tad("dT2", v, 2), Tad("dT3", v, 3), Tad("dT4", v, 4), Tad("dT5", v, 5), Tad("dT6", v, 6) >>
    [] m = "r2hdm" ->
       LET p == Higgs2(v, d[1], d[2]) IN
       Common2(p, <<"Dm11sq", "Dm22sq", "DL1", "DL2", "DL3", "DL4", "DL5">>)
       \o << Op("Dm12sq", 2, Times(-16, p.R)), Tad("DT1", v, 5), Tad("DT2", v, 7), Tad("DT3", v, 8) >>
    [] m = "c2hdm" ->
       LET p == Higgs2(v, d[1], d[2]) IN
       Common2(p, <<"Dm11sq", "Dm22sq", "DL1", "DL2", "DL3", "DL4", "Dre_L5">>)
       \o << Op("Dre_m12sq", 2, Times(-16, p.R)), Op("Dim_m12sq", 2, Times(16, p.I)), Op("Dim_L5", 0, Times(-8, Mul(p.R, p.I))),
             Op("Dim_L6", 0, Times(-8, Mul(p.A, p.I))),
             Tad("DTCharged", v, 3), Tad("DT1", v, 5), Tad("DT2", v, 7), Tad("DT3", v, 8) >>
    [] m = "n2hdm" ->
       LET p == Higgs2(v, d[1], d[2])
           S == Sq(Field(v, 9))
       IN Common2(p, <<"Du11sq", "Du22sq", "DL1", "DL2", "DL3", "DL4", "DL5">>)
       \o << Op("Dm12sq", 2, Times(-16, p.R)), Op("Dussq", 2, Times(8, S)), Op("DL6", 0, Times(2, Sq(S))),
             Op("DL7", 0, Times(4, Mul(p.A, S))), Op("DL8", 0, Times(4, Mul(p.B, S))),
             Tad("DT1", v, 7), Tad("DT2", v, 8), Tad("DTs", v, 9) >>
    [] m = "cpinthedark" ->
       LET p == Higgs2(v, d[1], d[2])
           s == Field(v, 9)
           S == Sq(s)
       IN Common2(p, <<"dm11s", "dm22s", "dL1", "dL2", "dL3", "dL4", "dL5">>)
       \o << Op("dmSs", 2, Times(8, S)), Op("dReA", 1, Times(16, Mul(p.R, s))), Op("dImA", 1, Times(-16, Mul(p.I, s))),
             Op("dL6", 0, Times(4, Sq(S))), Op("dL7", 0, Times(4, Mul(p.A, S))), Op("dL8", 0, Times(4, Mul(p.B, S))),
             Op("dImL5", 0, Times(-8, Mul(p.R, p.I))),
             Tad("dTCB", v, 3), Tad("dT1", v, 5), Tad("dT2", v, 7), Tad("dTCP", v, 8), Tad("dTS", v, 9) >>

(* vacua in units of a common scale *)
Pairs == {<<3, 4>>, <<4, 3>>, <<5, 12>>, <<12, 5>>, <<3, -4>>}
Singlet == {2, -3, 5}
At(n, f) == [i \in 1..n |-> IF i \in DOMAIN f THEN f[i] ELSE 0]
Vacua(m) ==
  CASE m = "sm"    -> {<<0, 0, 3, 0>>}
    [] m = "cxsm"  -> {<<0, 0, 0, 3, s, a>> : s \in {0, 2, -3}, a \in {0, 5, -1}}
    [] m = "n2hdm" -> {<<0, 0, 0, 0, 0, 0, p[1], p[2], s>> : p \in Pairs, s \in Singlet}
    [] m = "cpinthedark" -> {<<0, 0, 0, 0, 3, 0, 0, 0, 0>>}
    [] OTHER       -> {<<0, 0, 0, 0, p[1], 0, p[2], 0>> : p \in Pairs}

RECURSIVE Combine(_, _, _)
Combine(o, c, k) == IF k = 0 THEN Zero(Len(vac)) ELSE Add(Times(c[k], o[k].j), Combine(o, c, k - 1))

Init == stage = "start" /\ model = "" /\ vac = <<>> /\ C = <<>> /\ loop = <<>> /\ ct = <<>>

Load == /\ stage = "start"
        /\ \E m \in Pick(Models) : \E v \in Pick(Vacua(m)) :
             /\ model' = m
             /\ vac' = v
        /\ stage' = "loaded"
        /\ UNCHANGED <<C, loop, ct>>

Allowed(o) == Tadpoles \/ ~o.tad
Draw(o) == {[k \in 1..Len(o) |-> IF k = q THEN z ELSE 0] : q \in {q \in 1..Len(o) : Allowed(o[q])}, z \in Coefs}
Choose(o) == IF Single THEN \E c \in Pick(Draw(o)) : C' = c
             ELSE C' = [k \in 1..Len(o) |-> IF Allowed(o[k]) THEN RandomElement(Coefs \cup {0}) ELSE 0]

(* the one-loop part *)
Loop == /\ stage = "loaded"
        /\ LET o == Operators(model, vac) IN
             /\ Choose(o)
             /\ loop' = Combine(o, C', Len(o))
        /\ stage' = "shifted"
        /\ UNCHANGED <<model, vac, ct>>

(* the counterterms, determined by the shifts *)
Renormalise == /\ stage = "shifted"
               /\ LET o == Operators(model, vac) IN ct' = Combine(o, [k \in DOMAIN C |-> -C[k]], Len(o))
               /\ stage' = "renormalised"
               /\ UNCHANGED <<model, vac, C, loop>>
Next == Load \/ Loop \/ Renormalise
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ properties *)
Cancels == stage = "renormalised" =>
  \A i \in DOMAIN vac : ct.g[i] + loop.g[i] = 0 /\ \A j \in DOMAIN vac : ct.h[i][j] + loop.h[i][j] = 0
Symmetric == stage # "start" /\ loop # <<>> => \A i, j \in DOMAIN vac : loop.h[i][j] = loop.h[j][i]

(* the generators of the gauge group on a vector of fields *)
Act(t, d, w) == [i \in DOMAIN w |->
   LET In(k) == \E q \in 1..Len(d) : i = d[q][k]
       Of(k) == w[d[CHOOSE q \in 1..Len(d) : \E r \in 1..4 : i = d[q][r]][k]]
   IN CASE t = 0 -> IF In(1) THEN -Of(2) ELSE IF In(2) THEN Of(1) ELSE IF In(3) THEN -Of(4) ELSE IF In(4) THEN Of(3) ELSE 0
        [] t = 1 -> IF In(1) THEN -Of(4) ELSE IF In(2) THEN Of(3) ELSE IF In(3) THEN -Of(2) ELSE IF In(4) THEN Of(1) ELSE 0
        [] t = 2 -> IF In(1) THEN Of(3) ELSE IF In(2) THEN Of(4) ELSE IF In(3) THEN -Of(1) ELSE IF In(4) THEN -Of(2) ELSE 0
        [] t = 3 -> IF In(1) THEN -Of(2) ELSE IF In(2) THEN Of(1) ELSE IF In(3) THEN Of(4) ELSE IF In(4) THEN -Of(3) ELSE 0]
Unit(n, i) == [k \in 1..n |-> IF k = i THEN 1 ELSE 0]
(* Goldstone's theorem for everything but the linear terms *)
Goldstone == loop # <<>> /\ ~Tadpoles =>
  \A t \in 0..3 :
    LET w == Act(t, Doublets(model), vac) IN
    /\ Sum([i \in DOMAIN vac |-> loop.g[i] * w[i]]) = 0
    /\ \A i \in DOMAIN vac :
         Sum([j \in DOMAIN vac |-> loop.h[i][j] * w[j] + loop.g[j] * Act(t, Doublets(model), Unit(Len(vac), i))[j]]) = 0

Emit == stage = "renormalised" =>
  PrintT("CASE " \o ToJson([model |-> model, vac |-> vac, tadpoles |-> Tadpoles, g |-> loop.g, h |-> loop.h,
     ops |-> [k \in DOMAIN C |-> LET o == Operators(model, vac)[k] IN
                [name |-> o.name, d |-> o.d, root |-> o.root, c |-> C[k], g |-> o.j.g, h |-> o.j.h]]]))
==========================================================================
