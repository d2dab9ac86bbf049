// LIBS: TransitionTracer GW BounceSolution MinimumTracer Minimizer Models ThermalFunctions Utility
// Gravitational-wave record of a transition whose temperature, strength,
// duration and wall velocity are given.
#include "drv.h"
#include <BSMPT/gravitational_waves/gw.h>
#include <BSMPT/models/IncludeAllModels.h>
#include <BSMPT/utility/Logger.h>
using namespace BSMPT;

int main()
{
  Logger::Disable();
  const auto sm = GetSMConstants();
  std::shared_ptr<Class_Potential_Origin> model = ModelID::FChoose(ModelID::ModelIDs::SM, sm);
  return drive([&](const json &c) -> json
  {
    auto val = [&](const char *k) -> double
    {
      if (c[k].is_string()) return c[k] == "nan" ? NAN : c[k] == "inf" ? INFINITY : -INFINITY;
      return c[k];
    };
    BounceSolution b(model);
    b.CalcGstarPureRad();
    if (c.contains("gstar")) b.SetGstar(val("gstar"));
    b.epsturb             = val("eps");
    b.vwall               = val("vw");
    b.UserDefined_vwall   = val("vw");
    b.alpha               = val("alpha");
    b.betaH               = val("beta");
    b.Tnucl_approx        = c["T"][0];
    b.Tnucl               = c["T"][1];
    b.Tperc               = c["T"][2];
    b.Tcompl              = c["T"][3];
    StatusTemperature ok  = StatusTemperature::Success, no = StatusTemperature::NotMet;
    b.status_nucl_approx  = b.Tnucl_approx > 0 ? ok : no;
    b.status_nucl         = b.Tnucl > 0 ? ok : no;
    b.status_perc         = b.Tperc > 0 ? ok : no;
    b.status_compl        = b.Tcompl > 0 ? ok : no;
    b.percolation_temp_set = b.Tperc > 0;
    b.status_bounce_sol   = StatusGW::Success;
    GravitationalWave gw(b, c["which"].get<int>());
    auto data = [&](json r)
    {
      r["status"] = StatusGWToString.at(gw.data.status);
      r["T"]      = num(gw.data.transitionTemp);
      r["alpha"]  = num(gw.data.PTStrength);
      r["beta"]   = num(gw.data.InvTimeScale);
      r["vb"]     = num(gw.data.vb);
      r["kappa_sw"] = num(gw.data.kappa_sw);
      r["K_sw"]   = num(gw.data.K_sw);
      r["HR"]     = num(gw.data.HR);
      r["kappa_turb"] = num(gw.data.kappa_turb);
      r["K_turb"] = num(gw.data.K_turb);
      r["gstar"]  = num(gw.data.gstar);
      r["Hstar"]  = num(gw.data.Hstar);
      r["fsw"]    = num(gw.data.fPeakSoundWave);
      r["asw"]    = num(gw.data.h2OmegaPeakSoundWave);
      r["fturb"]  = num(gw.data.fPeakTurbulence);
      r["aturb"]  = num(gw.data.h2OmegaPeakTurbulence);
      return r;
    };
    json out = json::array();
    out.push_back(data({{"op", "new"}}));
    for (const auto &op : c["ops"])
    {
      std::string n = op[0];
      json r{{"op", n}};
      if (n == "fsw") gw.CalcPeakFrequencySoundWave();
      if (n == "asw") gw.CalcPeakAmplitudeSoundWave();
      if (n == "fturb") gw.CalcPeakFrequencyTurbulence();
      if (n == "aturb") gw.CalcPeakAmplitudeTurbulence();
      if (n == "amp") r["value"] = num(gw.CalcGWAmplitude(op[1], op[2], op[3]));
      if (n == "snr")
      {
        gw.data.swON   = op[1];
        gw.data.turbON = op[2];
        r["value"]     = num(gw.GetSNR(op[3], op[4], op[5]));
      }
      if (n == "sens") r["value"] = num(h2OmSens(op[1]));
      out.push_back(data(r));
    }
    return {{"steps", out}, {"csound", num(model->SMConstants.Csound)}, {"mpl", num(model->SMConstants.MPl)}};
  });
}
