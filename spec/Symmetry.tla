------------------------------ MODULE Symmetry ------------------------------
(* Sign-flip symmetries and flat directions of a potential                      *)
(*   V = const + sum of blocks + sum of monomials                               *)
(* blocks partition the vacuum directions: "quartic" (each direction on its     *)
(* own), "round" (depends on the sum of squares only), "swap" (symmetric under  *)
(* exchange, not under rotations), "absent".  A monomial is the set of quartic  *)
(* directions that enter with odd power.                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NMax, MaxMono, Kinds, Signs, Pick(_)
All(S) == S
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
VARIABLES pc, n, kind, mono, pt
vars == <<pc, n, kind, mono, pt>>
\* kind : sequence of <<block kind, size>>
RECURSIVE Width(_)
Width(ks) == IF ks = <<>> THEN 0 ELSE Head(ks)[2] + Width(Tail(ks))
Start(k) == Width(SubSeq(kind, 1, k - 1))
Dirs(k) == {Start(k) + j : j \in 1..kind[k][2]}
Of(i) == CHOOSE k \in DOMAIN kind : i \in Dirs(k)
Quartic == {i \in 1..n : kind[Of(i)][1] = "quartic"}
Absent == {i \in 1..n : kind[Of(i)][1] = "absent"}
Even(S) == Cardinality(S) % 2 = 0
\* the flips that leave the potential invariant
Group == {g \in SUBSET (1..n) : \A m \in mono : Even(g \cap m)}
Flip(g, p) == [i \in 1..n |-> IF i \in g THEN -p[i] ELSE p[i]]
\* representative: as many leading positive components as possible
RECURSIVE Measure(_, _)
Measure(p, i) == IF i = 0 THEN 0 ELSE 2 * Measure(p, i - 1) + (IF p[i] > 0 THEN 1 ELSE 0)
Orbit(p) == {Flip(g, p) : g \in Group}
Rep(p) == CHOOSE q \in Orbit(p) : \A r \in Orbit(p) : Measure(q, n) >= Measure(r, n)
Round(i, j) == i # j /\ Of(i) = Of(j) /\ kind[Of(i)][1] = "round"
MustPair == {<<i, j>> \in (1..n) \X (1..n) : i < j /\ Round(i, j)}
MayPair == MustPair \cup {<<i, j>> \in Absent \X Absent : i < j}

Init == pc = "n" /\ n = 0 /\ kind = <<>> /\ mono = {} /\ pt = <<>>
DrawN == pc = "n" /\ n' \in Pick(1..NMax) /\ pc' = "kinds" /\ UNCHANGED <<kind, mono, pt>>
Size(k) == CASE k = "quartic" -> {1} [] k = "absent" -> {1} [] k = "swap" -> {2, 3} [] OTHER -> {2, 3}
DrawKinds == /\ pc = "kinds"
             /\ IF Width(kind) = n THEN pc' = "mono" /\ UNCHANGED kind
                ELSE /\ \E k \in Pick(Kinds) : \E s \in Pick(Size(k)) :
                          kind' = Append(kind, IF s <= n - Width(kind) THEN <<k, s>> ELSE <<"quartic", 1>>)
                     /\ UNCHANGED pc
             /\ UNCHANGED <<n, mono, pt>>
DrawMono == /\ pc = "mono"
            /\ \/ Cardinality(mono) < MaxMono /\ (\E m \in Pick(SUBSET Quartic \ {{}}) : mono' = mono \cup {m}) /\ UNCHANGED pc
               \/ pc' = "pt" /\ UNCHANGED mono
            /\ UNCHANGED <<n, kind, pt>>
DrawPt == /\ pc = "pt"
          /\ IF Len(pt) < n THEN (\E s \in Pick(Signs) : pt' = Append(pt, s)) /\ UNCHANGED pc
             ELSE pc' = "done" /\ UNCHANGED pt
          /\ UNCHANGED <<n, kind, mono>>
Next == DrawN \/ DrawKinds \/ DrawMono \/ DrawPt
Spec == Init /\ [][Next]_vars
Ready == pc = "done"
(* properties *)
IsGroup == Ready => {} \in Group /\ \A g, h \in Group : ((g \ h) \cup (h \ g)) \in Group
Canonical == Ready => Rep(pt) \in Orbit(pt) /\ \A q \in Orbit(pt) : Rep(q) = Rep(pt)
Idempotent == Ready => Rep(Rep(pt)) = Rep(pt)
Unique == Ready => \A q, r \in Orbit(pt) : Measure(q, n) = Measure(r, n) => q = r
Emit == Ready => PrintT("CASE " \o ToJson([n |-> n, kind |-> kind, mono |-> mono, pt |-> pt, rep |-> Rep(pt), group |-> Group,
          absent |-> Absent, must |-> MustPair, may |-> MayPair]))
\* one case per set of monomials: every point is added by the check
EmitPot == (pc = "pt" /\ pt = <<>>) => PrintT("CASE " \o ToJson([n |-> n, kind |-> kind, mono |-> mono, group |-> Group,
          absent |-> Absent, must |-> MustPair, may |-> MayPair]))
=============================================================================
