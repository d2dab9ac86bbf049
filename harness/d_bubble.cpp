// LIBS: TransitionTracer GW BounceSolution MinimumTracer Minimizer Models ThermalFunctions Utility
// FLAGS: -Wl,--allow-multiple-definition -fno-inline
// The scan over temperatures and the characteristic temperatures of a
// transition whose bounce action as a function of temperature is given.
#include "synth.h"
#include <BSMPT/bounce_solution/bounce_solution.h>
#include <BSMPT/utility/Logger.h>
using namespace BSMPT;
static json scn;
static std::vector<double> tn, lr, sl;
static double Tc, cell;
static int calls;
static std::vector<json> called;

// log(S3/T): monotone cubic through the nodes, diverging at Tc
static double actionRatio(double T)
{
  if (T >= Tc) return 1e9;
  if (T <= tn.front()) return std::exp(lr.front());
  if (T >= tn.back()) return std::exp(lr.back()) * std::pow((Tc - tn.back()) / (Tc - T), 2);
  std::size_t k = 0;
  while (T > tn[k + 1]) k++;
  double h = tn[k + 1] - tn[k], x = (T - tn[k]) / h;
  return std::exp(lr[k] * (1 + 2 * x) * (1 - x) * (1 - x) + h * sl[k] * x * (1 - x) * (1 - x) +
                  lr[k + 1] * x * x * (3 - 2 * x) + h * sl[k + 1] * x * x * (x - 1));
}
static bool fails(double T)
{
  for (const auto &f : scn["fail"])
    if (T >= f[0].get<double>() and T <= f[1].get<double>()) return true;
  return false;
}
static double depth(double T) // true vacuum below the false one
{
  return scn["latent"].get<double>() * (Tc - T);
}
namespace BSMPT
{
void BounceActionInt::RasterizedVdl(double)
{
}
void BounceActionInt::CalculateAction(double)
{
  calls++;
  called.push_back(json{T, TrueVacuum, FalseVacuum, Path.front(), Path.back()});
  if (fails(T))
  {
    StateOfBounceActionInt = ActionStatus::Integration1DFailed;
    return;
  }
  Action                 = actionRatio(T) * T;
  StateOfBounceActionInt = ActionStatus::Success;
}
Minimum Phase::Get(double T)
{
  Minimum m;
  m.temp          = T;
  const auto &vac = scn[id == 0 ? "false" : "true"];
  for (double x : vac) m.point.push_back(x * (1 + (T < Tc ? 0.001 * (Tc - T) / Tc : 0)));
  m.potential = -scn["common"].get<double>() * std::pow(T, 4) - (id == 1 ? depth(T) : 0);
  if (id == 1 and T < scn["viable"].get<double>()) m.potential += 2 * depth(T);
  return m;
}
} // namespace BSMPT

int main()
{
  Logger::Disable();
  return drive([&](const json &c) -> json
  {
    scn  = c;
    Tc   = c["Tc"];
    cell = c["cell"];
    tn   = c["nodes"].get<std::vector<double>>();
    lr.clear();
    for (double r : c["ratios"].get<std::vector<double>>()) lr.push_back(std::log(r));
    std::size_t n = tn.size();
    sl.assign(n, 0);
    for (std::size_t k = 0; k + 1 < n; k++)
    {
      double d = (lr[k + 1] - lr[k]) / (tn[k + 1] - tn[k]);
      if (k > 0)
      {
        double e = (lr[k] - lr[k - 1]) / (tn[k] - tn[k - 1]);
        sl[k]    = d * e > 0 ? 2 * d * e / (d + e) : 0;
      }
      if (k + 2 == n) sl[k + 1] = d > 0 ? std::min(2 / cell, 3 * d) : 0;
    }
    calls = 0;
    called.clear();
    std::size_t dim = c["true"].size();
    std::vector<std::size_t> order;
    for (std::size_t i = 0; i < dim; i++) order.push_back(i);
    auto model = std::make_shared<synth::Model>(dim, order, std::vector<int>(dim, 0), std::vector<double>(dim, 1.0));
    struct M : synth::Model
    {
      using synth::Model::Model;
      double VEff(const std::vector<double> &v, double T, int diff, int) const override
      {
        std::vector<double> t = scn["true"], f = scn["false"];
        double a = 0, b = 0;
        for (std::size_t i = 0; i < v.size(); i++) a += std::abs(std::abs(v[i]) - std::abs(t[i])), b += std::abs(std::abs(v[i]) - std::abs(f[i]));
        bool tr = a < b;
        double C = scn["common"], L = scn["latent"];
        if (diff == -1) return -4 * C * std::pow(T, 3) + (tr ? L : 0);
        return -C * std::pow(T, 4) - (tr ? depth(T) : 0);
      }
    };
    auto m = std::make_shared<M>(dim, order, std::vector<int>(dim, 0), std::vector<double>(dim, 1.0));
    std::shared_ptr<Class_Potential_Origin> mp = m;
    auto mt = std::make_shared<MinimumTracer>();
    CoexPhases pair;
    pair.coex_pair_id   = 0;
    pair.T_low          = c["Tlow"];
    pair.T_high         = Tc + 10;
    pair.crit_temp      = Tc;
    pair.crit_status    = StatusCrit::Success;
    pair.false_phase.id = 0;
    pair.true_phase.id  = 1;
    pair.false_phase.MinTracer = pair.true_phase.MinTracer = mt;
    std::unique_ptr<BounceSolution> bp;
    if (c.contains("group"))
    {
      std::vector<Eigen::MatrixXd> g;
      for (const auto &x : c["group"])
      {
        Eigen::MatrixXd e = Eigen::MatrixXd::Zero(dim, dim);
        for (std::size_t i = 0; i < dim; i++)
          for (std::size_t j = 0; j < dim; j++) e(i, j) = x[i][j];
        g.push_back(e);
      }
      bp.reset(new BounceSolution(mp, mt, pair, c["vw"], c["eps"], c["maxpath"], c["scan"].get<std::size_t>(), g));
    }
    else
      bp.reset(new BounceSolution(mp, mt, pair, c["vw"], c["eps"], c["maxpath"], c["scan"].get<std::size_t>()));
    auto &b = *bp;
    if (c.contains("gstar")) b.SetGstar(c["gstar"]);
    json steps = json::array();
    auto list  = [&]
    {
      json l = json::array();
      for (const auto &s : b.SolutionList) l.push_back({num(s.T), num(s.Action), num(b.status_bounce_sol == StatusGW::Success ? b.GetBounceSol(s.T) : 0)});
      return l;
    };
    // values of the action's spline where the judge integrates
    auto samples = [&](double T)
    {
      json a       = json::array();
      double top   = b.SolutionList.back().T;
      const int P  = 60;
      static const double gx[4] = {0.1834346424956498, 0.5255324099163290, 0.7966664774136267, 0.9602898564975363};
      for (int i = 0; i < P; i++)
      {
        double lo = T + (top - T) * std::pow(double(i) / P, 3), hi = T + (top - T) * std::pow(double(i + 1) / P, 3);
        for (int k = 0; k < 4; k++)
          for (int s = -1; s <= 1; s += 2)
          {
            double t = (lo + hi) / 2 + s * gx[k] * (hi - lo) / 2;
            a.push_back({t, num(b.GetBounceSol(t)), k, hi - lo});
          }
      }
      return a;
    };
    auto state = [&](const json &op)
    {
      json r{{"op", op}};
      r["status"] = {StatusTemperatureToString.at(b.status_nucl_approx), StatusTemperatureToString.at(b.status_nucl),
                     StatusTemperatureToString.at(b.status_perc), StatusTemperatureToString.at(b.status_compl)};
      r["T"]      = {num(b.GetNucleationTempApprox()), num(b.GetNucleationTemp()), num(b.GetPercolationTemp()), num(b.GetCompletionTemp())};
      r["trans"]  = json::array();
      for (int k = 1; k <= 4; k++) r["trans"].push_back(num(b.CalcTransitionTemp(k)));
      r["vwall"]  = num(b.GetWallVelocity());
      return r;
    };
    json out{{"bounce", StatusGWToString.at(b.status_bounce_sol)}, {"list0", list()}, {"gstar", num(b.GetGstar())}, {"mpl", num(mp->SMConstants.MPl)}, {"csound", num(mp->SMConstants.Csound)}};
    json sym = json::array();
    for (std::size_t i = 0; i < dim; i++)
    {
      json row = json::array();
      for (std::size_t j = 0; j < dim; j++) row.push_back(num(b.OptimalDiscreteSymmetry(i, j)));
      sym.push_back(row);
    }
    out["symmetry"] = sym;
    for (const auto &op : c["ops"])
    {
      std::string n = op[0];
      if (n == "nucl_approx") b.CalculateNucleationTempApprox();
      if (n == "nucl") b.CalculateNucleationTemp();
      if (n == "perc") b.CalculatePercolationTemp(op[1].get<double>());
      if (n == "compl") b.CalculateCompletionTemp(op[1].get<double>());
      if (n == "strength" and b.status_perc == StatusTemperature::Success) b.CalculatePTStrength();
      json r = state(op);
      double T = n == "nucl_approx" ? b.Tnucl_approx : n == "nucl" ? b.Tnucl : n == "compl" ? b.Tcompl : b.Tperc;
      if (b.status_bounce_sol == StatusGW::Success and T > 0)
      {
        r["S"] = num(b.GetBounceSol(T));
        if (n != "nucl_approx" and n != "nucl") r["samples"] = samples(T);
        r["fraction"] = n == "perc" or n == "compl" ? num(b.CalcFalseVacFraction(T)) : json();
      }
      if (n == "strength" and b.status_perc == StatusTemperature::Success)
      {
        r["alpha"] = num(b.GetPTStrength());
        r["beta"]  = num(b.GetInvTimeScale());
        double h   = 1e-4;
        r["slope"] = num((b.GetBounceSol(T + h) / (T + h) - b.GetBounceSol(T - h) / (T - h)) / (2 * h));
      }
      steps.push_back(r);
    }
    out["steps"]  = steps;
    out["list"]   = list();
    out["calls"]  = calls;
    out["called"] = called;
    return out;
  });
}
