----------------------------- MODULE PhaseTrace -----------------------------
(* Validation of recorded phase histories.  Temperatures are ranks.  A record: *)
(* [op, T, ret, k, lo, hi, on (every minimum lies on the curve), front, back]  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Temps == {}
MaxOps == 0
Kinds == {}
Starts == {}
Pick(S) == S
VARIABLES ph, hist, start
P == INSTANCE PhaseCurve
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES i, l
St(r) == [k |-> r.k, lo |-> r.lo, hi |-> r.hi]
Clauses(tr, n) ==
  LET r == tr[n] IN
  LET p == IF n = 1 THEN [k |-> <<>>, lo |-> -1, hi |-> -1] ELSE St(tr[n-1]) IN
  [ wellformed |-> P!WellFormed(St(r)),
    oncurve |-> r.on,
    step |-> CASE r.op = "new" -> r.k # <<>> /\ r.lo = r.a /\ r.hi = r.b
               [] r.op = "empty" -> r.k = <<>>
               [] r.op = "add" -> P!AddOK(p, r.T, St(r))
               [] r.op = "get" -> P!GetOK(p, r.T, St(r), r.ret)
               [] OTHER -> FALSE,
    ends |-> r.ends ]
Ok(c) == c.wellformed /\ c.oncurve /\ c.step /\ c.ends
Init == i \in DOMAIN Traces /\ l = 0 /\ ph = 0 /\ hist = 0 /\ start = 0
Next == /\ l < Len(Traces[i]) /\ Ok(Clauses(Traces[i], l + 1)) /\ l' = l + 1
        /\ UNCHANGED <<i, ph, hist, start>>
Spec == Init /\ [][Next]_<<i, l, ph, hist, start>>
Report == IF l < Len(Traces[i]) /\ ~Ok(Clauses(Traces[i], l + 1))
          THEN PrintT("CASE " \o ToJson([trace |-> i, step |-> l + 1, clauses |-> Clauses(Traces[i], l + 1)]))
          ELSE TRUE
=============================================================================
