---------------------------- MODULE MC_CliParser ----------------------------
EXTENDS CliParser
All(S) == S
One(S) == {RandomElement(S)}
SpSmall == { <<"reqone","reqone">>, <<"reqtwo","ReqTWO">>, <<"optone","OPTONE">>, <<"nosuch","nosuch">> }
SpFull == { <<"reqone","reqone">>, <<"reqone","ReqOne">>, <<"reqone","REQONE">>,
            <<"reqtwo","reqTwo">>, <<"reqtwo","reqtwo">>, <<"optone","OptOne">>, <<"optone","optone">>,
            <<"opttwo","opttwo">>, <<"opttwo","oPTTwO">>,
            <<"usegsl","useGSL">>, <<"usenlopt","USENLOPT">>, <<"usecmaes","usecmaes">>,
            <<"usemultithreading","useMultithreading">>,
            <<"logginglevel::default","logginglevel::default">>,
            <<"logginglevel::complete","LoggingLevel::complete">>,
            <<"logginglevel::gwdetailed","logginglevel::GWdetailed">>,
            <<"json","json">>, <<"help","help">>, <<"help","HELP">>,
            <<"req","req">>, <<"reqonex","reqonex">>, <<"nosuch","nosuch">>, <<"opt one","opt one">> }
VTwo == {"v", "a=b"}
VSmall == {"v", "", "a=b"}
VFull == {"42", "-7", "3.25", "1e3", "true", "TRUE", "false", "True", "abc", "", "a=b", "=", "x==", "--v", "k=v w", " s ", "/p/q.dat"}
=============================================================================
