------------------------------ MODULE CliParser ------------------------------
(* The option parser: state = the text last given to every declared option.
   A history is a sequence of option lists (command line) or JSON objects; the
   specification says for every prefix which options are set to which text,
   which lists are refused, whether the required-option check accepts, and how
   often the help text has been printed.

   Tokens are structured (dashes, spelled name, separator, value), so that "the
   text after the first separator" is the value by construction; the harness
   concatenates the parts.                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS MaxSteps,    \* option lists per history
          MaxTokens,   \* tokens per list
          Modes,       \* subset of {"cli","json"}: kinds of steps
          Spellings,   \* set of <<canonical name, spelled name>>
          Values,      \* value texts
          Dashes, Seps,
          Pick(_)      \* S itself (exhaustive) or one random element (simulation)

\* How each constructor declares options.  The test program declares
\* req1, req2 (required) and opt1, opt2 (optional) on top.
Ctors == {"plain", "columns"}
Builtin(c) ==
  IF c = "plain"
  THEN {"logginglevel::default","logginglevel::debug","logginglevel::disabled",
        "logginglevel::ewbgdetailed","logginglevel::progdetailed",
        "logginglevel::minimizerdetailed","json"}
  ELSE {"logginglevel::default","logginglevel::debug","logginglevel::disabled",
        "logginglevel::ewbgdetailed","logginglevel::progdetailed",
        "logginglevel::minimizerdetailed","logginglevel::transitiondetailed",
        "logginglevel::mintracerdetailed","logginglevel::bouncedetailed",
        "logginglevel::gwdetailed","logginglevel::complete"}
Minim == {"usegsl","usecmaes","usenlopt","usemultithreading"}
Required == {"reqone","reqtwo"}
Optional == {"optone","opttwo"}
Declared(c, m) == Builtin(c) \union (IF m THEN Minim ELSE {}) \union Required \union Optional

VARIABLES ctor, minim,   \* how the parser was made
          val,           \* canonical name -> text | Unset | Unknown | AnyText
          helped,        \* help text already printed
          pend,          \* the list being written
          hist,          \* steps with their expected observations
          done

vars == <<ctor, minim, val, helped, pend, hist, done>>
Unset   == "<unset>"
Unknown == "<unknown>"   \* named in a refused list: not specified
AnyText == "<anytext>"   \* set by a bare flag: set, text not specified
Names == Required \union Optional \union Minim \union Builtin("plain") \union Builtin("columns")

Tokens == { t \in [d : Dashes, sp : Spellings, s : Seps, v : Values] :
             /\ (t.s = "" => t.v = "")
             /\ (t.s = " " => t.v \notin {"a=b", "=", "x==", "k=v w"}) }
Key(t)  == t.sp[1]
TextOf(t) == IF t.s = "" THEN AnyText ELSE t.v

\* ---- effect of a list of (key, text) pairs, left to right
Refused(c, m, pairs) ==
  \E i \in 1..Len(pairs) : pairs[i][1] # "help" /\ pairs[i][1] \notin Declared(c, m)

RECURSIVE Apply(_, _)
Apply(f, pairs) ==
  IF pairs = <<>> THEN f
  ELSE LET p == Head(pairs) IN
       Apply(IF p[1] = "help" THEN f ELSE [f EXCEPT ![p[1]] = p[2]], Tail(pairs))

\* After a refused list only options it does not name are specified.
AfterRefusal(f, pairs) ==
  [n \in DOMAIN f |-> IF \E i \in 1..Len(pairs) : pairs[i][1] = n THEN Unknown ELSE f[n]]

AsksHelp(pairs) == \E i \in 1..Len(pairs) : pairs[i][1] = "help"

\* "yes" / "no" / "unknown"
RequiredOk(f) ==
  IF \E n \in Required : f[n] = Unset THEN "no"
  ELSE IF \E n \in Required : f[n] = Unknown THEN "unknown" ELSE "yes"

Init == /\ ctor \in Ctors /\ minim \in BOOLEAN
        /\ val = [n \in Names |-> Unset]
        /\ helped = FALSE /\ pend = [kind |-> "none", toks |-> <<>>]
        /\ hist = <<>> /\ done = FALSE

Obs(v, h) == [val |-> v, req |-> RequiredOk(v), help |-> h]

Step(kind, enc, pairs) ==
  LET ref == Refused(ctor, minim, pairs)
      v2  == IF ref THEN AfterRefusal(val, pairs) ELSE Apply(val, pairs)
      \* a help request in a refused list may or may not have been reached
      h2  == IF AsksHelp(pairs) /\ ref THEN helped ELSE helped \/ AsksHelp(pairs)
      amb == ref /\ AsksHelp(pairs) /\ ~helped
  IN /\ ~amb
     /\ val' = v2 /\ helped' = h2
     /\ hist' = Append(hist, [kind |-> kind, enc |-> enc, refused |-> ref, obs |-> Obs(v2, h2)])
     /\ UNCHANGED <<ctor, minim, done>>

PairsOf(toks) == [i \in 1..Len(toks) |-> <<Key(toks[i]), TextOf(toks[i])>>]

Open(kind) == /\ kind \in Modes /\ ~done /\ Len(hist) < MaxSteps /\ pend.kind = "none"
              /\ pend' = [kind |-> kind, toks |-> <<>>]
              /\ UNCHANGED <<ctor, minim, val, helped, hist, done>>

TypeToken ==
  /\ pend.kind = "cli" /\ Len(pend.toks) < MaxTokens
  /\ \E t \in Pick(Tokens) : pend' = [pend EXCEPT !.toks = Append(@, t)]
  /\ UNCHANGED <<ctor, minim, val, helped, hist, done>>

SubmitCli ==
  /\ pend.kind = "cli"
  \* a lone json option means "read that file": see JSON steps
  /\ ~(Len(pend.toks) = 1 /\ Key(pend.toks[1]) = "json")
  /\ Step("cli", pend.toks, PairsOf(pend.toks))
  /\ pend' = [kind |-> "none", toks |-> <<>>]

\* A JSON object: distinct keys (in any spelling); comment keys vanish.
JsonKeys == { sp \in Spellings : sp[1] # "json" } \union
            { <<"<comment>", "reqone_comment">>, <<"<comment>", "x_comment">>,
              <<"<comment>", "OptOne_comment">>,
              \* not at the end, or not that word: ordinary (undeclared) options
              <<"x_commented", "x_commented">>, <<"_comment_x", "_comment_x">>,
              <<"reqone_comment_", "reqone_comment_">>, <<"comment", "comment">> }
TypePair ==
  /\ pend.kind = "json" /\ Len(pend.toks) < MaxTokens
  /\ \E k \in Pick(JsonKeys), v \in Pick(Values) :
       /\ \A i \in 1..Len(pend.toks) :
            /\ pend.toks[i][1][2] # k[2]
            /\ (k[1] # "<comment>" => pend.toks[i][1][1] # k[1])
       /\ pend' = [pend EXCEPT !.toks = Append(@, <<k, v>>)]
  /\ UNCHANGED <<ctor, minim, val, helped, hist, done>>

SubmitJson ==
  /\ pend.kind = "json"
  /\ LET ps == [i \in 1..Len(pend.toks) |-> <<pend.toks[i][1][1], pend.toks[i][2]>>]
         keep == SelectSeq(ps, LAMBDA p : p[1] # "<comment>")
     IN Step("json", [i \in 1..Len(pend.toks) |-> <<pend.toks[i][1][2], pend.toks[i][2]>>], keep)
  /\ pend' = [kind |-> "none", toks |-> <<>>]

\* A JSON file that cannot be read or parsed is refused and changes nothing.
BadJson ==
  /\ "json" \in Modes /\ ~done /\ Len(hist) < MaxSteps /\ pend.kind = "none"
  /\ \E what \in {"missing", "malformed"} :
       hist' = Append(hist, [kind |-> "badjson", enc |-> what, refused |-> TRUE, obs |-> Obs(val, helped)])
  /\ UNCHANGED <<ctor, minim, val, helped, pend, done>>

Finish == /\ ~done /\ Len(hist) >= 1 /\ done' = TRUE
          /\ UNCHANGED <<ctor, minim, val, helped, pend, hist>>
Next == \/ \E k \in {"cli","json"} : Open(k)
        \/ TypeToken \/ SubmitCli \/ TypePair \/ SubmitJson \/ BadJson
        \/ (Len(hist) = MaxSteps /\ Finish)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties
TypeOK == /\ ctor \in Ctors /\ helped \in BOOLEAN
          /\ \A n \in Names : val[n] \in Values \union {Unset, Unknown, AnyText}
\* an option that no accepted or refused list names is unset
NeverInvented ==
  \A n \in Names : n \notin Declared(ctor, minim) => val[n] \in {Unset, Unknown}
HelpIsSticky == [][helped => helped']_vars
\* last wins: after an accepted cli list the last token for a name decides
LastWins ==
  \A i \in 1..Len(hist) : (hist[i].kind = "cli" /\ ~hist[i].refused) =>
     \A j \in 1..Len(hist[i].enc) :
        LET t == hist[i].enc[j] IN
        (Key(t) # "help" /\ \A l \in j+1..Len(hist[i].enc) : Key(hist[i].enc[l]) # Key(t))
           => hist[i].obs.val[Key(t)] = TextOf(t)

Emit == done => PrintT("CASE " \o ToJson([ctor |-> ctor, minim |-> minim, steps |-> hist]))
=============================================================================
