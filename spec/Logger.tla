------------------------------- MODULE Logger -------------------------------
(* The logger as a state machine: which levels are on, and which stream is
   selected.  Every step is followed (in the harness) by one probe message per
   level, so the specification's `on` and `stream` are fully observed.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxSteps, MaxList, Steps, OptLevels, OptValues,
          Pick(_)   \* S itself (exhaustive) or one random element (simulation)

Levels == {"default","minimizerdetailed","mintracerdetailed","transitiondetailed",
           "gwdetailed","bouncedetailed","progdetailed","ewbgdetailed","debug"}
Streams == {"A", "B", "F"}      \* two string streams and a file

VARIABLES on, stream, popts, ctor, hist
vars == <<on, stream, popts, ctor, hist>>

Complete(f) == [l \in Levels |-> l # "minimizerdetailed"]
AllOff == [l \in Levels |-> FALSE]

Init == /\ on = [l \in Levels |-> l = "default"] /\ stream = "A"
        /\ popts = <<>>                          \* options accumulated by the parser object
        /\ ctor \in {"plain", "columns"}
        /\ hist = <<>>

Rec(op, arg, o, s) == hist' = Append(hist, [op |-> op, arg |-> arg, on |-> o, stream |-> s])
Go == Len(hist) < MaxSteps

\* lists of length k over S, or one random list
RECURSIVE Lists(_, _)
Lists(k, S) == IF k = 0 THEN {<<>>}
               ELSE UNION { { Append(p, x) : x \in Pick(S) } : p \in Lists(k - 1, S) }

SetLevel == /\ Go /\ "level" \in Steps
            /\ \E l \in Pick(Levels), b \in Pick(BOOLEAN) :
                 /\ on' = [on EXCEPT ![l] = b]
                 /\ Rec("level", <<l, b>>, on', stream)
            /\ UNCHANGED <<stream, popts, ctor>>

SetMap == /\ Go /\ "map" \in Steps
          /\ \E s \in Pick(SUBSET OptLevels) : \E f \in Pick([s \cap Levels -> BOOLEAN]) :
               /\ on' = [l \in Levels |-> IF l \in DOMAIN f THEN f[l] ELSE on[l]]
               /\ Rec("map", {<<l, f[l]>> : l \in DOMAIN f}, on', stream)
          /\ UNCHANGED <<stream, popts, ctor>>

Disable == /\ Go /\ "disable" \in Steps
           /\ on' = AllOff /\ Rec("disable", <<>>, on', stream)
           /\ UNCHANGED <<stream, popts, ctor>>

Disab == {<<"disabled", "">>}
\* an option: <<name, text>>; only the text "true" switches on
Opts == OptLevels \X OptValues
SwitchOpt(f, o) ==
  IF o[1] = "complete"
  THEN (IF o[2] = "true" THEN Complete(f) ELSE f)
  ELSE IF o[1] \in Levels THEN [f EXCEPT ![o[1]] = (o[2] = "true")] ELSE f
RECURSIVE Fold(_, _)
Fold(f, os) == IF os = <<>> THEN f ELSE Fold(SwitchOpt(f, Head(os)), Tail(os))

\* a plain list of option texts: positional, unless it disables everything
VecList ==
  /\ Go /\ "vector" \in Steps
  /\ \E k \in Pick(0..MaxList) : \E os \in Lists(k, Opts \union {<<"other", "x">>} \union Disab) :
       /\ on' = IF \E i \in 1..k : os[i][1] = "disabled" THEN AllOff ELSE Fold(on, os)
       /\ Rec("vector", os, on', stream)
  /\ UNCHANGED <<stream, popts, ctor>>

\* options of a program: they accumulate in the parser object, 'complete' is
\* the backdrop against which explicitly named levels are set
NamesOf(os) == {os[i][1] : i \in 1..Len(os)}
LastOf(os, n) == os[CHOOSE i \in 1..Len(os) : os[i][1] = n /\ \A j \in i+1..Len(os) : os[j][1] # n][2]
Explicit(f, os) == [l \in Levels |-> IF l \in NamesOf(os) THEN LastOf(os, l) = "true" ELSE f[l]]
Known(c) == IF c = "plain"
            THEN {"default","debug","ewbgdetailed","progdetailed","minimizerdetailed","disabled"}
            ELSE Levels \union {"complete", "disabled"}
FromParser(f, os) ==
  IF "disabled" \in NamesOf(os) THEN AllOff
  ELSE Explicit(IF "complete" \in NamesOf(os) /\ LastOf(os, "complete") = "true"
                THEN Complete(f) ELSE f, os)
ParserList ==
  /\ Go /\ "parser" \in Steps
  /\ \E k \in Pick(0..MaxList) : \E os \in Lists(k, {o \in Opts : o[1] \in Known(ctor)} \union Disab) :
       /\ popts' = popts \o os
       /\ on' = FromParser(on, popts')
       /\ Rec("parser", os, on', stream)
  /\ UNCHANGED <<stream, ctor>>

SetStream == /\ Go /\ "stream" \in Steps
             /\ \E s \in Streams : stream' = s /\ Rec("stream", s, on, s)
             /\ UNCHANGED <<on, popts, ctor>>

Next == SetLevel \/ SetMap \/ Disable \/ VecList \/ ParserList \/ SetStream
Spec == Init /\ [][Next]_vars

TypeOK == on \in [Levels -> BOOLEAN] /\ stream \in Streams
\* a level is on only if some step named it, 'complete' was given, or it is default
OnlyNamed == \A l \in Levels \ {"default"} : on[l] =>
   \E i \in 1..Len(hist) : hist[i].op \in {"level", "map", "vector", "parser"}
\* 'complete' alone never turns the minimiser's messages on
MinimizerSeparate ==
  (\A i \in 1..Len(hist) : hist[i].op = "parser" =>
      \A j \in 1..Len(hist[i].arg) : hist[i].arg[j][1] # "minimizerdetailed")
  /\ (\A i \in 1..Len(hist) : hist[i].op \in {"parser", "stream", "disable"})
  => ~on["minimizerdetailed"]
Emit == Len(hist) = MaxSteps => PrintT("CASE " \o ToJson([ctor |-> ctor, steps |-> hist]))
=============================================================================
