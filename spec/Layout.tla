------------------------------- MODULE Layout -------------------------------
(* Fields, vacuum directions and electroweak charge.  Field values are integers *)
(* (units of 1/8 GeV).                                                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NMax, MaxOps, Vals, Near, Offs, TreeVals, Pick(_)
All(S) == S
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
VARIABLES pc, n, ord, ew, tree, p, f, hist
vars == <<pc, n, ord, ew, tree, p, f, hist>>
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortSet(S \ {m})
Pos(i) == CHOOSE k \in DOMAIN ord : ord[k] = i
In(i) == \E k \in DOMAIN ord : ord[k] = i
Embed(q) == [i \in 1..n |-> IF In(i) THEN q[Pos(i)] ELSE 0]
Project(g) == [k \in DOMAIN ord |-> g[ord[k]]]
Strip(q) == [k \in DOMAIN ord |-> IF ord[k] \in ew THEN 0 ELSE q[k]]
RECURSIVE Sum(_, _)
Sum(g, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN g[i] * g[i] + Sum(g, S \ {i})
Scale2(g) == Sum(g, ew)            \* squared electroweak scale
Abs(x) == IF x < 0 THEN -x ELSE x
\* one-loop vacuum = tree-level vacuum: every component within 1 GeV up to sign
Same(q) == \A k \in DOMAIN ord : Abs(Abs(q[k]) - Abs(tree[k])) < 8

Init == pc = "n" /\ n = 0 /\ ord = <<>> /\ ew = {} /\ tree = <<>> /\ p = <<>> /\ f = <<>> /\ hist = <<>>
DrawN == /\ pc = "n" /\ n' \in Pick(1..NMax) /\ pc' = "layout" /\ UNCHANGED <<ord, ew, tree, p, f, hist>>
DrawLayout == /\ pc = "layout"
              /\ \E S \in Pick(SUBSET (1..n) \ {{}}) : ord' = SortSet(S)
              /\ ew' \in Pick(SUBSET (1..n)) /\ tree' = <<>> /\ pc' = "tree" /\ UNCHANGED <<n, p, f, hist>>
DrawTree == /\ pc = "tree"
            /\ IF Len(tree) < Len(ord) THEN (\E v \in Pick(TreeVals) : tree' = Append(tree, v)) /\ UNCHANGED <<pc, p>>
               ELSE pc' = "point" /\ UNCHANGED <<tree>> /\ p' = <<>>
            /\ UNCHANGED <<n, ord, ew, f, hist>>
\* a point close to the tree-level vacuum, or anywhere
DrawPoint == /\ pc = "point"
             /\ IF Len(p) < Len(ord)
                THEN /\ \E v \in Pick(Vals \cup Near) : \E far \in Pick(BOOLEAN) : \E d \in Pick(Offs) : \E s \in Pick({-1, 1}) :
                          p' = Append(p, IF far THEN v ELSE s * (tree[Len(p) + 1] + d))
                     /\ UNCHANGED <<pc, f>>
                ELSE pc' = "field" /\ f' = <<>> /\ UNCHANGED p
             /\ UNCHANGED <<n, ord, ew, tree, hist>>
DrawField == /\ pc = "field"
             /\ IF Len(f) < n THEN (\E v \in Pick(Vals) : f' = Append(f, v)) /\ UNCHANGED <<pc, hist>>
                ELSE pc' = "run" /\ UNCHANGED f /\ hist' = <<[op |-> "start", p |-> p, f |-> f]>>
             /\ UNCHANGED <<n, ord, ew, tree, p>>
More == pc = "run" /\ Len(hist) <= MaxOps
Op(o) == hist' = Append(hist, o)
DoEmbed == More /\ f' = Embed(p) /\ Op([op |-> "embed", out |-> f']) /\ UNCHANGED <<pc, n, ord, ew, tree, p>>
DoProject == More /\ p' = Project(f) /\ Op([op |-> "project", out |-> p']) /\ UNCHANGED <<pc, n, ord, ew, tree, f>>
DoStrip == More /\ p' = Strip(p) /\ Op([op |-> "strip", out |-> p']) /\ UNCHANGED <<pc, n, ord, ew, tree, f>>
DoScale == More /\ Op([op |-> "scale", out |-> Scale2(f)]) /\ UNCHANGED <<pc, n, ord, ew, tree, p, f>>
DoSame == More /\ Op([op |-> "same", out |-> Same(p)]) /\ UNCHANGED <<pc, n, ord, ew, tree, p, f>>
\* an undefined component never agrees
DoNan == More /\ Op([op |-> "nan", out |-> FALSE]) /\ UNCHANGED <<pc, n, ord, ew, tree, p, f>>
Next == DrawN \/ DrawLayout \/ DrawTree \/ DrawPoint \/ DrawField \/ DoEmbed \/ DoProject \/ DoStrip \/ DoScale \/ DoSame \/ DoNan
Spec == Init /\ [][Next]_vars
(* properties *)
Ready == pc = "run"
RoundTrip == Ready => Project(Embed(p)) = p
Outside == Ready => \A i \in 1..n : ~In(i) => Embed(p)[i] = 0
StripZero == Ready => Scale2(Embed(Strip(p))) = 0 /\ Strip(Strip(p)) = Strip(p)
StripKeeps == Ready => \A k \in DOMAIN ord : ord[k] \notin ew => Strip(p)[k] = p[k]
ScaleOfVacuum == Ready => Scale2(Embed(p)) = Sum(Embed(p), ew \cap {ord[k] : k \in DOMAIN ord})
SelfSame == Ready => Same(tree) /\ Same([k \in DOMAIN ord |-> -tree[k]])
Emit == (Ready /\ Len(hist) = MaxOps + 1) => PrintT("CASE " \o ToJson([n |-> n, ord |-> ord, ew |-> ew, tree |-> tree, hist |-> hist]))
=============================================================================
