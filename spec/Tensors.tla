----------------------------- MODULE Tensors -----------------------------
(* Symmetry of the coupling tensors.  A tensor is a function of its index     *)
(* tuples; its kind says which places may be exchanged.  It is built by       *)
(* entries that are set with all their images (orbit) or alone (entry), and   *)
(* may have a row of the wrong length.  Entries are codes 0, 1, 2, ...; 0 is  *)
(* the number zero.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, Sizes, Values, MaxSteps, Ragged, Pick(_)
VARIABLES kind, size, group, tensor, pure, ragged, n
vars == <<kind, size, group, tensor, pure, ragged, n>>

Rank(k) == CASE k \in {"scalar2", "fermion2"} -> 2 [] k \in {"scalar3", "fermion3"} -> 3 [] OTHER -> 4
(* range of the index at a place: <<m, n>> gauge bosons or fermions, scalars  *)
Range(k, s, i) == CASE k \in {"scalar2", "scalar3", "scalar4"} -> 1..s[2]
                    [] k = "fermion2" -> 1..s[1]
                    [] k = "fermion3" -> IF i < 3 THEN 1..s[1] ELSE 1..s[2]
                    [] k = "gauge" -> IF i < 3 THEN 1..s[1] ELSE 1..s[2]
Tuples(k, s) == {t \in [1..Rank(k) -> 1..(s[1] + s[2])] : \A i \in 1..Rank(k) : t[i] \in Range(k, s, i)}
Bijections(r) == {p \in [1..r -> 1..r] : \A i, j \in 1..r : p[i] = p[j] => i = j}
Group(k) == CASE k \in {"scalar2", "scalar3", "scalar4", "fermion2"} -> Bijections(Rank(k))
              [] k = "fermion3" -> {p \in Bijections(3) : p[3] = 3}
              [] k = "gauge" -> {p \in Bijections(4) : p[1] \in {1, 2} /\ p[2] \in {1, 2}}
Swaps(k) == CASE k \in {"scalar2", "fermion2"} -> {<<1, 2>>}
              [] k = "scalar3" -> {<<1, 2>>, <<2, 3>>}
              [] k = "scalar4" -> {<<1, 2>>, <<2, 3>>, <<3, 4>>}
              [] k = "fermion3" -> {<<1, 2>>}
              [] k = "gauge" -> {<<1, 2>>, <<3, 4>>}
Image(t, p) == [i \in DOMAIN t |-> t[p[i]]]
Swapped(t, w) == [t EXCEPT ![w[1]] = t[w[2]], ![w[2]] = t[w[1]]]

Init == /\ \E k \in Pick(Kinds) : \E s \in Pick(Sizes) : kind = k /\ size = s /\ group = TLCEval(Group(k)) /\ tensor = TLCEval([t \in Tuples(k, s) |-> 0])
        /\ pure = TRUE /\ ragged = FALSE /\ n = 0
Orbit == \E t \in Pick(DOMAIN tensor) : \E v \in Pick(Values) :
  /\ LET o == TLCEval({Image(t, p) : p \in group}) IN tensor' = TLCEval([u \in DOMAIN tensor |-> IF u \in o THEN v ELSE tensor[u]])
  /\ UNCHANGED <<kind, size, group, pure, ragged>>
Entry == \E t \in Pick(DOMAIN tensor) : \E v \in Pick(Values) :
  tensor' = TLCEval([tensor EXCEPT ![t] = v]) /\ pure' = FALSE /\ UNCHANGED <<kind, size, group, ragged>>
Cut == ~ragged /\ Ragged /\ kind \in {"scalar2", "scalar3", "scalar4"} /\ ragged' = TRUE /\ UNCHANGED <<kind, size, group, tensor, pure>>
Next == n < MaxSteps /\ n' = n + 1 /\ (Orbit \/ Entry \/ Cut)
Spec == Init /\ [][Next]_vars

Symmetric == \A p \in group : \A t \in DOMAIN tensor : tensor[t] = tensor[Image(t, p)]
Verdict == IF Symmetric /\ ~ragged THEN "Pass" ELSE "Fail"
(* orbits never break the symmetry *)
Built == pure => Symmetric
(* exchanges of two places suffice *)
Generated == Symmetric <=> \A t \in DOMAIN tensor : \A w \in Swaps(kind) : tensor[t] = tensor[Swapped(t, w)]
(* the exchanges are a group *)
Closed == n = 0 => \A p, q \in group : [i \in 1..Rank(kind) |-> p[q[i]]] \in group
(* one entry that differs from its images is enough *)
Witness == ~Symmetric <=> \E t \in DOMAIN tensor : \E p \in group : tensor[t] # tensor[Image(t, p)]
Emit == PrintT("CASE " \o ToJson([kind |-> kind, size |-> size, ragged |-> ragged, verdict |-> Verdict,
                                  set |-> {<<t, tensor[t]>> : t \in {u \in DOMAIN tensor : tensor[u] # 0}}]))
=============================================================================
