-------------------------- MODULE MC_PhaseRegistry --------------------------
EXTENDS PhaseRegistry
Iv(n, kn) == {<<a, b, k>> : a \in 0..n, b \in 0..n, k \in kn} 
IvGood(n, kn) == {iv \in Iv(n, kn) : iv[1] < iv[2]}
Iv4 == IvGood(4, {3})
Iv4k == IvGood(4, {2, 3, 5}) \cup {<<a, a, 1>> : a \in {1, 3}}
Iv6 == IvGood(6, {3, 4})
DepPool == {<<0, 0>>, <<5, -3>>, <<-7, 2>>, <<-3, 0>>, <<9, -4>>, <<-21, 6>>}
DepOne == {[w \in Wells |-> <<-3 * w, 0>>]}
\* slopes are even and offsets odd, so ties at half-integer temperatures need offsets that differ by a multiple of the slopes
DepPool4 == {<<1, -2>>, <<-1, 0>>, <<12, -6>>, <<-24, 4>>, <<8, -4>>, <<-31, 8>>, <<-6, 0>>, <<-11, 2>>}
DepAny4 == {f \in [Wells -> DepPool4] : \A w, v \in Wells : w < v => f[w] # f[v]}
DepAny == {f \in [Wells -> DepPool] : TRUE}
=============================================================================
