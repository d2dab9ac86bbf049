"""P01: command-line semantics of the option parser."""
import cfgcommon as C


def run(ck):
    r = ck.spec("MC_CliParser", cfg_text=C.cfg_parser(1, 2, ["cli"], "SpFull", "VSmall"), timeout=300)
    cases = r.cases
    r = ck.spec("MC_CliParser", cfg_text=C.cfg_parser(1, 1, ["cli"], "SpFull", "VFull", '{"--","-","","---"}', '{"=", " ", ""}'))
    cases += r.cases
    r = ck.spec("MC_CliParser", cfg_text=C.cfg_parser(2, 2, ["cli"], "SpSmall", "VTwo"), timeout=300)
    cases += r.cases
    r = ck.spec("MC_CliParser", cfg_text=C.cfg_parser(3, 4, ["cli"], "SpFull", "VFull", '{"--","-",""}', '{"="}', "One"),
                simulate=ck.pick(4000, 60000), depth=40, seed=ck.seed, workers=1)
    cases += r.cases
    C.run_parser(ck, ["cli"], cases)
    ck.assumptions = ["option texts are drawn from a pool of 17 representative texts (numbers, booleans, '=', "
                      "empty, spaces, dashes); option names from 22 spellings of declared and undeclared names",
                      "the value of a bare flag (no separator) is not specified, only that it counts as given"]
