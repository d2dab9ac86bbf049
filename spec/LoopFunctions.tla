--------------------------- MODULE LoopFunctions ---------------------------
(* Loop functions of two, three and four squared masses are divided           *)
(* differences of g(x) = x log(x / mu^2).  A state is a list of arguments,    *)
(* each a base value plus a small displacement from it: arguments with the    *)
(* same base and displacement coincide, with the same base are close, base 0  *)
(* are vanishing (displacement 0) or nearly vanishing masses.                 *)
(* What holds for every divided difference (symmetry, recursion, the limit of *)
(* coinciding arguments) is checked on monomials, where all is exact.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxArgs, Bases, Shifts, MaxExp, Pick(_)
VARIABLES args, size, close
vars == <<args, size, close>>

Value(a) == 3 * a[1] + a[2]          \* a sample: any injective choice will do
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
(* divided difference of x^m at xs: complete homogeneous symmetric polynomial *)
(* of degree m - (Len(xs) - 1)                                                 *)
RECURSIVE H(_, _)
H(k, xs) == IF k < 0 THEN 0 ELSE IF xs = <<>> THEN (IF k = 0 THEN 1 ELSE 0)
            ELSE H(k, Tail(xs)) + (IF k = 0 THEN 0 ELSE Head(xs) * H(k - 1, xs))
DD(m, xs) == H(m - (Len(xs) - 1), xs)
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 THEN 1 ELSE IF n < k THEN 0 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)

Init == args = <<>> /\ size = 0 /\ close = 1
Start == /\ size = 0 /\ args' = args
         /\ \E k \in Pick(2..MaxArgs) : size' = k
         /\ \E e \in Pick(1..MaxExp) : close' = e
Add == /\ Len(args) < size
       /\ \E b \in Pick(Bases) : \E s \in Pick(Shifts) : args' = Append(args, <<b, s>>)
       /\ UNCHANGED <<size, close>>
Next == Start \/ Add
Spec == Init /\ [][Next]_vars
Done == size > 0 /\ Len(args) = size

Vals == [i \in 1..size |-> Value(args[i])]
Perms == {p \in [1..size -> 1..size] : \A i, j \in 1..size : i # j => p[i] # p[j]}
Symmetric == Done => \A m \in 0..5 : \A p \in Perms : DD(m, [i \in 1..size |-> Vals[p[i]]]) = DD(m, Vals)
Recursion == Done => \A m \in 0..5 :
  DD(m, Tail(Vals)) - DD(m, SubSeq(Vals, 1, size - 1)) = (Vals[size] - Vals[1]) * DD(m, Vals)
Coincident == Done => \A m \in 0..5 : (\A i \in 1..size : Vals[i] = Vals[1])
  => DD(m, Vals) = Choose(m, size - 1) * (IF m < size - 1 THEN 0 ELSE Pow(Vals[1], m - size + 1))

(* how the arguments hang together *)
Zero(a) == a[1] = 0 /\ a[2] = 0
Small(a) == a[1] = 0
NZ == Cardinality({i \in 1..size : Zero(args[i])})
NS == Cardinality({i \in 1..size : Small(args[i])})
Class == IF NS >= 2 /\ NZ < NS THEN "divergent"     \* logarithm of the vanishing masses
         ELSE IF NZ >= 2 THEN "regulated"           \* that logarithm left out
         ELSE IF NS = 1 /\ NZ = 0 THEN "vanishing"  \* tends to the value at zero
         ELSE "regular"
Near == \E i, j \in 1..size : args[i][1] = args[j][1] /\ args[i][2] # args[j][2]
(* coinciding arguments stay coinciding in every order of the arguments        *)
Groups == {{i \in 1..size : args[i] = args[j]} : j \in 1..size}
Partition == Done => /\ UNION Groups = 1..size
                     /\ \A A, B \in Groups : A = B \/ A \cap B = {}
Emit == Done => PrintT("CASE " \o ToJson([args |-> args, close |-> close, class |-> Class, near |-> Near,
                                          groups |-> Cardinality(Groups)]))
=============================================================================
