------------------------------ MODULE Program ------------------------------
(* The way from a configuration to a run of the nine programs.             *)
(* A configuration is a choice for each group of options (a group holds    *)
(* options that are only valid or invalid together, e.g. first and last    *)
(* line).  A choice is the text of its settings; its standing is either    *)
(* what it means for the run, or the stage at which it has to be refused.  *)
(* The user starts from a working configuration and changes MaxDev groups; *)
(* the program then takes the stages one after the other.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Programs, MaxDev, Pick(_)
VARIABLES prog, cfg, left, form, pc, rows, first
vars == <<prog, cfg, left, form, pc, rows, first>>

Old  == {"BSMPT", "NLOVEV", "CalcCT", "TripleHiggsNLO", "VEVEVO"}
Plot == {"PotPlotter"}
Ana  == {"CalcTemps", "CalcGW", "MinimaTracer"}
LineRange == {"BSMPT", "NLOVEV", "CalcCT", "TripleHiggsNLO"} \cup Ana
Minimising == {"BSMPT", "NLOVEV", "VEVEVO"} \cup Ana

Stages == <<"parse", "required", "convert", "validate", "open", "line">>

Groups(p) ==
  {"model", "input", "output", "extra"}
  \cup (IF p \in LineRange THEN {"lines"} ELSE {"line"})
  \cup (IF p \in Minimising THEN {"minimisers", "threads"} ELSE {})
  \cup (IF p = "VEVEVO" THEN {"window"} ELSE {})
  \cup (IF p \in Old THEN {"terminal"} ELSE {})
  \cup (IF p \in Plot THEN {"temperature", "slice", "grid", "point"} ELSE {})
  \cup (IF p \in Ana THEN {"thigh", "mode", "num_pts", "ewsr"} ELSE {})
  \cup (IF p \in Ana \ {"MinimaTracer"} THEN {"vwall", "perc", "compl", "nlo", "maxpath"} ELSE {})
  \cup (IF p = "CalcGW" THEN {"trans_temp", "epsturb"} ELSE {})

Required(p) == {"model", "input", "output"} \cup (Groups(p) \cap {"lines", "line", "window", "temperature"})

(* good choices: text -> meaning; @ stands for a place the check provides *)
Good(p, g) ==
  CASE g = "model" -> ("model=cxsm" :> "cxsm") @@ ("model=CxSM" :> "cxsm") @@ ("model=CXSM" :> "cxsm")
                      @@ (IF p \in Plot THEN <<>> ELSE ("model=r2hdm" :> "r2hdm") @@ ("model=R2HDM" :> "r2hdm"))
    [] g = "input" -> ("input=@table" :> "table") @@ ("input=@sub/../table" :> "table")
    [] g = "output" -> ("output=@out" :> "out") @@ ("output=@sub/out" :> "out")
    [] g = "extra" -> ("" :> "")
    [] g = "lines" -> ("firstline=2 lastline=3" :> "23") @@ ("firstline=1 lastline=2" :> "2")
                      @@ ("firstline=3 lastline=3" :> "3") @@ ("firstline=3 lastline=9" :> "34")
                      @@ ("lastline=4 firstline=2" :> "234")
    [] g = "line" -> ("line=2" :> "2") @@ ("line=4" :> "4")
    [] g = "minimisers" -> ("" :> "6") @@ ("usegsl=true" :> "6") @@ ("usegsl=false" :> "4") @@ ("usenlopt=false" :> "2")
                      @@ ("usenlopt=true usegsl=false" :> "4") @@ ("usecmaes=false" :> "6")
    [] g = "threads" -> ("" :> IF p \in Ana THEN "false" ELSE "true")
                      @@ ("usemultithreading=true" :> "true") @@ ("usemultithreading=false" :> "false")
    [] g = "window" -> ("temperaturestart=20 temperaturestep=10 temperatureend=40" :> "20 30 40")
                      @@ ("temperaturestart=0 temperaturestep=7.5 temperatureend=20" :> "0 7.5 15")
                      @@ ("temperaturestart=55.5 temperaturestep=3 temperatureend=55.5" :> "55.5")
                      @@ ("temperatureend=1 temperaturestart=0 temperaturestep=5" :> "0")
    [] g = "terminal" -> ("" :> "") @@ ("terminaloutput=y" :> "") @@ ("terminaloutput=n" :> "")
    [] g = "temperature" -> ("temperature=0" :> "0") @@ ("temperature=121.5" :> "121.5")
    [] g = "slice" -> ("" :> "off") @@ ("slice=false" :> "off")
                      @@ ("slice=true min_start=0,0,0 min_end=10,20,30 npoints=4" :> "on4")
                      @@ ("slice=true min_end=10,20,30 min_start=0,0,0" :> "on100")
                      @@ ("slice=true npoints=100 min_start=0,0,0 min_end=10,20,30" :> "on100")
    [] g = "grid" -> ("" :> "none") @@ ("npoints1=3 low1=0 high1=10" :> "1")
                      @@ ("npoints2=2 low2=-5.5 high2=-1 npoints3=2 low3=-1 high3=0" :> "23")
                      @@ ("low1=0 high1=10" :> "none") @@ ("npoints1=0" :> "none")
    [] g = "point" -> ("" :> "0,0,0") @@ ("point=0,0,0" :> "0,0,0") @@ ("point=1.5,-2,3" :> "1.5,-2,3")
    [] g = "thigh" -> ("" :> "300") @@ ("thigh=300" :> "300") @@ ("thigh=0.125" :> "0.125") @@ ("thigh=512" :> "512")
    [] g = "mode" -> ("" :> "-1") @@ ("multistepmode=default" :> "-1") @@ ("multistepmode=-1" :> "-1")
                      @@ ("multistepmode=auto" :> "3") @@ ("multistepmode=3" :> "3")
                      @@ ("multistepmode=0" :> "0") @@ ("multistepmode=1" :> "1") @@ ("multistepmode=2" :> "2")
    [] g = "num_pts" -> ("" :> "10") @@ ("num_pts=10" :> "10") @@ ("num_pts=0" :> "0") @@ ("num_pts=23" :> "23")
    [] g = "ewsr" -> ("" :> "on") @@ ("checkewsr=on" :> "on") @@ ("checkewsr=off" :> "off")
                      @@ (IF p = "MinimaTracer" THEN <<>>
                          ELSE ("checkewsr=keep_bfb" :> "keep_bfb") @@ ("checkewsr=keep_ewsr" :> "keep_ewsr"))
    [] g = "vwall" -> ("" :> "0.95") @@ ("vwall=0.95" :> "0.95") @@ ("vwall=1" :> "1") @@ ("vwall=0.0625" :> "0.0625")
                      @@ ("vwall=-1" :> "-1") @@ ("vwall=-2" :> "-2")
    [] g = "perc" -> ("" :> "0.71") @@ ("perc_prbl=0.71" :> "0.71") @@ ("perc_prbl=0.5" :> "0.5") @@ ("perc_prbl=1" :> "1")
    [] g = "compl" -> ("" :> "0.01") @@ ("compl_prbl=0.01" :> "0.01") @@ ("compl_prbl=0" :> "0") @@ ("compl_prbl=0.25" :> "0.25")
    [] g = "nlo" -> ("" :> "on") @@ ("checknlo=on" :> "on") @@ ("checknlo=off" :> "off")
    [] g = "maxpath" -> ("" :> "7") @@ ("maxpathintegrations=7" :> "7") @@ ("maxpathintegrations=12" :> "12")
    [] g = "trans_temp" -> ("" :> "perc") @@ ("trans_temp=perc" :> "perc") @@ ("trans_temp=nucl_approx" :> "nucl_approx")
                      @@ ("trans_temp=nucl" :> "nucl") @@ ("trans_temp=compl" :> "compl")
    [] g = "epsturb" -> ("" :> "0.1") @@ ("epsturb=0.1" :> "0.1") @@ ("epsturb=0" :> "0") @@ ("epsturb=1" :> "1")
                      @@ ("epsturb=-1" :> "-1")

(* choices to be refused: text -> stage *)
Bad(p, g) ==
  (IF g \in Required(p) THEN "" :> "required" ELSE <<>>) @@
  CASE g = "model" -> ("model=foo" :> "validate") @@ ("model=" :> "validate") @@ ("model=cxsm2" :> "validate")
                      @@ ("model=NotSet" :> "validate")
    [] g = "input" -> ("input=@missing" :> "open") @@ ("input=@sub/missing" :> "open")
    [] g = "output" -> ("output=@missing/out" :> "open")
    [] g = "extra" -> ("foo=1" :> "parse") @@ ("modell=cxsm" :> "parse") @@ ("usegs=true" :> "parse")
                      @@ ("firstlines=2" :> "parse") @@ ("x=" :> "parse")
    [] g = "lines" -> ("firstline=2" :> "required") @@ ("lastline=3" :> "required")
                      @@ ("firstline=0 lastline=2" :> "validate") @@ ("firstline=3 lastline=2" :> "validate")
                      @@ ("firstline=-1 lastline=3" :> "validate") @@ ("firstline=-3 lastline=-2" :> "validate")
                      @@ ("firstline=2 lastline=0" :> "validate")
                      @@ ("firstline=x lastline=3" :> "convert") @@ ("firstline=2 lastline=" :> "convert")
    [] g = "line" -> ("line=1" :> "line") @@ ("line=0" :> "line") @@ ("line=-2" :> "line") @@ ("line=5" :> "line")
                      @@ ("line=x" :> "convert") @@ ("line=" :> "convert")
    [] g = "minimisers" -> ("usegsl=false usenlopt=false" :> "validate") @@ ("usecmaes=true" :> "validate")
                      @@ ("usenlopt=false usecmaes=true" :> "validate")
    [] g = "window" -> ("temperaturestart=20 temperaturestep=10" :> "required")
                      @@ ("temperaturestep=10 temperatureend=40" :> "required")
                      @@ ("temperaturestart=20 temperatureend=40" :> "required")
                      @@ ("temperaturestart=20 temperaturestep=0 temperatureend=40" :> "validate")
                      @@ ("temperaturestart=20 temperaturestep=-10 temperatureend=40" :> "validate")
                      @@ ("temperaturestart=40 temperaturestep=10 temperatureend=20" :> "validate")
                      @@ ("temperaturestart=-20 temperaturestep=10 temperatureend=40" :> "validate")
                      @@ ("temperaturestart=40 temperaturestep=-10 temperatureend=20" :> "validate")
                      @@ ("temperaturestart=20 temperaturestep=nan temperatureend=40" :> "validate")
                      @@ ("temperaturestart=nan temperaturestep=10 temperatureend=40" :> "validate")
                      @@ ("temperaturestart=20 temperaturestep=10 temperatureend=nan" :> "validate")
                      @@ ("temperaturestart=20 temperaturestep=10 temperatureend=x" :> "convert")
    [] g = "temperature" -> ("temperature=-1" :> "validate") @@ ("temperature=-20" :> "validate")
                      @@ ("temperature=nan" :> "validate") @@ ("temperature=x" :> "convert")
    [] g = "slice" -> ("slice=true" :> "validate") @@ ("slice=true min_start=0,0,0" :> "validate")
                      @@ ("slice=true min_end=0,0,0 npoints=3" :> "validate")
                      @@ ("slice=true min_start=0,0 min_end=1,2" :> "line")
                      @@ ("slice=true min_start=0,0,0 min_end=1,2" :> "line")
                      @@ ("slice=true min_start=0,0,0,0 min_end=1,2,3,4" :> "line")
                      @@ ("slice=true min_start=0,0,0 min_end=10,20,30 npoints=-4" :> "validate")
                      @@ ("slice=true min_start=0,x,0 min_end=10,20,30 npoints=4" :> "convert")
    [] g = "grid" -> ("npoints1=3" :> "validate") @@ ("npoints1=3 low1=0" :> "validate")
                      @@ ("npoints2=3 high2=0" :> "validate") @@ ("npoints3=2 low3=10 high3=0" :> "validate")
                      @@ ("npoints1=-1 low1=0 high1=1" :> "validate") @@ ("npoints3=-2" :> "validate")
                      @@ ("npoints1=3 low1=0 high1=10 npoints2=4" :> "validate")
                      @@ ("npoints1=x" :> "convert") @@ ("npoints1=2 low1=x high1=4" :> "convert")
    [] g = "point" -> ("point=1,2" :> "line") @@ ("point=1,2,3,4" :> "line") @@ ("point=1,x,3" :> "convert")
    [] g = "thigh" -> ("thigh=0" :> "validate") @@ ("thigh=-10" :> "validate") @@ ("thigh=nan" :> "validate")
                      @@ ("thigh=x" :> "convert") @@ ("thigh=" :> "convert")
    [] g = "mode" -> ("multistepmode=4" :> "validate") @@ ("multistepmode=-2" :> "validate")
                      @@ ("multistepmode=foo" :> "convert") @@ ("multistepmode=" :> "convert")
    [] g = "num_pts" -> ("num_pts=-1" :> "validate") @@ ("num_pts=x" :> "convert")
    [] g = "ewsr" -> ("checkewsr=foo" :> "validate") @@ ("checkewsr=" :> "validate") @@ ("checkewsr=keep" :> "validate")
    [] g = "vwall" -> ("vwall=0" :> "validate") @@ ("vwall=-3" :> "validate") @@ ("vwall=1.5" :> "validate")
                      @@ ("vwall=-0.5" :> "validate") @@ ("vwall=-1.5" :> "validate")
                      @@ ("vwall=nan" :> "validate") @@ ("vwall=x" :> "convert")
    [] g = "perc" -> ("perc_prbl=-0.1" :> "validate") @@ ("perc_prbl=1.1" :> "validate")
                      @@ ("perc_prbl=nan" :> "validate") @@ ("perc_prbl=x" :> "convert")
    [] g = "compl" -> ("compl_prbl=-0.1" :> "validate") @@ ("compl_prbl=1.1" :> "validate")
                      @@ ("compl_prbl=nan" :> "validate") @@ ("compl_prbl=x" :> "convert")
    [] g = "nlo" -> ("checknlo=maybe" :> "validate") @@ ("checknlo=" :> "validate")
    [] g = "maxpath" -> ("maxpathintegrations=x" :> "convert")
    [] g = "trans_temp" -> ("trans_temp=foo" :> "validate") @@ ("trans_temp=" :> "validate")
    [] g = "epsturb" -> ("epsturb=-0.5" :> "validate") @@ ("epsturb=1.5" :> "validate") @@ ("epsturb=-2" :> "validate")
                      @@ ("epsturb=nan" :> "validate") @@ ("epsturb=x" :> "convert")
    [] OTHER -> <<>>

Texts(p, g) == DOMAIN Good(p, g) \cup DOMAIN Bad(p, g)
Plain(p, g) == CASE g = "model" -> "model=cxsm" [] g = "input" -> "input=@table" [] g = "output" -> "output=@out"
                 [] g = "lines" -> "firstline=2 lastline=3" [] g = "line" -> "line=2"
                 [] g = "window" -> "temperaturestart=20 temperaturestep=10 temperatureend=40"
                 [] g = "temperature" -> "temperature=121.5" [] OTHER -> ""

(* the reference point only matters where it is used *)
Moot(p, c, g) == p \in Plot /\ g = "point" /\ c["slice"] \in DOMAIN Good(p, "slice") /\ Good(p, "slice")[c["slice"]] # "off"
                 /\ c[g] \in DOMAIN Bad(p, g) /\ Bad(p, g)[c[g]] = "line"
Refusers(p, c, s) == {g \in Groups(p) : c[g] \in DOMAIN Bad(p, g) /\ Bad(p, g)[c[g]] = s /\ ~Moot(p, c, g)}

(* arguments without names are model, input, output and the numbers; a prefix *)
(* of them leaves the rest of the required options missing                    *)
Numbers(p) == CASE p \in LineRange -> 2 [] p = "VEVEVO" -> 4 [] OTHER -> 0
Positional(p, c) == /\ p \notin Plot
                    /\ \A g \in Groups(p) \ Required(p) : c[g] = ""
                    /\ \A g \in Required(p) : c[g] # "" /\ ~(c[g] \in DOMAIN Bad(p, g) /\ Bad(p, g)[c[g]] = "required")

Init == /\ prog \in Pick(Programs) /\ left = MaxDev /\ form = "none" /\ pc = "edit" /\ rows = "none" /\ first = "none"
        /\ cfg = [g \in Groups(prog) |-> Plain(prog, g)]
Change == /\ pc = "edit" /\ left > 0
          /\ \E g \in Pick(Groups(prog)) : \E t \in Pick(Texts(prog, g) \ {cfg[g]}) : cfg' = [cfg EXCEPT ![g] = t]
          /\ left' = left - 1 /\ UNCHANGED <<prog, form, pc, rows, first>>
(* names in options, in a file, or by position; how many of the latter *)
Call == /\ pc = "edit"
        /\ \E f \in Pick({"options", "file"}
                    \cup (IF Positional(prog, cfg) THEN {"position"} \cup {"cut"} ELSE {})) : form' = f
        /\ pc' = "parse" /\ UNCHANGED <<prog, cfg, left, rows, first>>
Next_(s) == LET i == CHOOSE k \in DOMAIN Stages : Stages[k] = s
            IN IF i = Len(Stages) THEN "run" ELSE Stages[i + 1]
Step == /\ pc \in {Stages[i] : i \in DOMAIN Stages}
        /\ LET no == Refusers(prog, cfg, pc) # {} \/ (pc = "required" /\ form = "cut")
           IN /\ pc' = IF no THEN "refused" ELSE Next_(pc)
              /\ first' = IF no THEN pc ELSE first
        /\ UNCHANGED <<prog, cfg, left, form, rows>>
Run == pc = "run" /\ pc' = "accepted" /\ rows' = "some" /\ UNCHANGED <<prog, cfg, left, form, first>>
Done == pc \in {"accepted", "refused"} /\ UNCHANGED vars
Next == Change \/ Call \/ Step \/ Run
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Valid == form # "cut" /\ \A g \in Groups(prog) : cfg[g] \in DOMAIN Good(prog, g) \/ Moot(prog, cfg, g)
(* success exactly for complete and valid configurations; rows only then *)
Exactly == /\ pc = "accepted" => Valid
           /\ pc = "refused" => ~Valid
           /\ rows # "none" => pc = "accepted"
(* no choice is both meaningful and refused *)
Consistent == \A g \in Groups(prog) : DOMAIN Good(prog, g) \cap DOMAIN Bad(prog, g) = {}
Ends == <>(pc \in {"accepted", "refused"})
Meaning == [g \in Groups(prog) |-> IF cfg[g] \in DOMAIN Good(prog, g) THEN Good(prog, g)[cfg[g]] ELSE ""]
Emit == pc \in {"accepted", "refused"} =>
          PrintT("CASE " \o ToJson([prog |-> prog, cfg |-> cfg, form |-> form, ok |-> pc = "accepted",
                                    stage |-> first, meaning |-> Meaning]))
=============================================================================
