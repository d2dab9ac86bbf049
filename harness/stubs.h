// Scripted stand-ins for the numerical work behind a run of CalcTemps, CalcGW
// or MinimaTracer: global minimisation, phase tracing, bounce actions.  What
// they report for a parameter point is read from the file named by the
// environment variable STUB_SCENARIO; every call is appended to its "log".
// The program, the transition analysis and the gravitational-wave part are the
// real ones.  Linked with --allow-multiple-definition, this object first.
#pragma once
#include <BSMPT/transition_tracer/transition_tracer.h>
#include <fstream>
#include <nlohmann/json.hpp>
namespace BSMPT
{
namespace stub
{
using json = nlohmann::json;
inline json &scenario()
{
  static json s = []
  {
    std::ifstream f(std::getenv("STUB_SCENARIO"));
    json j;
    f >> j;
    return j;
  }();
  return s;
}
inline int pointOf(const Class_Potential_Origin &m)
{
  // the point whose line has most of the model's parameters in it
  auto par = m.get_parStored();
  int k = 0, best = -1, most = 1;
  for (const auto &p : scenario()["points"])
  {
    std::vector<double> q = p["par"];
    int same              = 0;
    for (double x : par)
      if (std::any_of(q.begin(), q.end(), [&](double y)
                      { return std::abs(x) > 0 and std::abs(x - y) <= 1e-12 * std::abs(x); }))
        same++;
    if (same > most)
    {
      most = same;
      best = k;
    }
    k++;
  }
  if (best < 0) throw std::runtime_error("stub: no scenario for this point");
  return best;
}
inline const json &script(const Class_Potential_Origin &m)
{
  return scenario()["points"][pointOf(m)];
}
inline void log(const Class_Potential_Origin &m, const std::string &what, json args = json::array())
{
  std::ofstream f(scenario()["log"].get<std::string>(), std::ios::app);
  f << json{{"point", pointOf(m)}, {"call", what}, {"args", args}}.dump() << "\n";
}
template <class E> E named(const std::unordered_map<E, std::string> &names, const std::string &s)
{
  for (const auto &x : names)
    if (x.second == s) return x.first;
  throw std::runtime_error("stub: no status " + s);
}
inline StatusTracing tracing(const std::string &s)
{
  return named(StatusTracingToString, s);
}
// the minimum of phase id at temperature T: one value per direction
inline std::vector<double> at(int id, double T, std::size_t n)
{
  std::vector<double> p;
  for (std::size_t i = 0; i < n; i++) p.push_back(1000 * (id + 1) + 100 * double(i) + T / 8);
  return p;
}
inline const json &pairOf(const BounceSolution &b)
{
  return script(*b.modelPointer)["pairs"][b.phase_pair.coex_pair_id];
}
inline StatusTemperature found(const json &x, double &T)
{
  if (x.is_null()) return StatusTemperature::NotMet;
  T = x.get<double>();
  return StatusTemperature::Success;
}
} // namespace stub

MinimumTracer::MinimumTracer(const std::shared_ptr<Class_Potential_Origin> &m, const int &w, const bool &mt)
{
  modelPointer      = m;
  WhichMinimizer    = w;
  UseMultithreading = mt;
  stub::log(*m, "tracer", {w, mt});
}
std::vector<double> MinimumTracer::GetGlobalMinimum(const double &T)
{
  stub::log(*modelPointer, "global_minimum", {T});
  return modelPointer->MinimizeOrderVEV(stub::at(-1, T, modelPointer->get_nVEV()));
}
int MinimumTracer::IsThereEWSymmetryRestoration()
{
  stub::log(*modelPointer, "ewsr");
  return stub::script(*modelPointer)["ewsr"];
}
bool Class_Potential_Origin::CheckNLOVEV(const std::vector<double> &v) const
{
  stub::log(*this, "nlo", v);
  return stub::script(*this)["nlo"];
}
Minimum Phase::Get(double T)
{
  Minimum m;
  m.temp      = T;
  m.point     = stub::at(id, T, MinTracer->ConvertToVEVDim(std::vector<double>(64, 0)).size());
  m.potential = -id;
  return m;
}
CoexPhases::CoexPhases(const int &i, const Phase &f, const Phase &t, const double &lo, const double &hi)
{
  coex_pair_id = i;
  false_phase  = f;
  true_phase   = t;
  T_low        = lo;
  T_high       = hi;
}
Vacuum::Vacuum(const double &lo,
               const double &hi,
               std::shared_ptr<MinimumTracer> &mt,
               std::shared_ptr<Class_Potential_Origin> &m,
               const int &mode,
               const int &n,
               const bool &only)
{
  stub::log(*m, "trace", {lo, hi, mode, n, only});
  const auto &s = stub::script(*m);
  T_low         = lo;
  T_high        = hi;
  num_points    = n;
  MinTracer     = mt;
  modelPointer  = m;
  status_vacuum = stub::named(StatusTracingToString, s["tracing"].get<std::string>());
  for (const auto &p : s["phases"])
  {
    Phase ph;
    ph.id        = int(PhasesList.size());
    ph.MinTracer = mt;
    for (double T : p["T"].get<std::vector<double>>())
    {
      Minimum x;
      x.temp      = T;
      x.point     = stub::at(ph.id, T, m->get_nVEV());
      x.potential = -1000 * (ph.id + 1) - T;
      ph.MinimumPhaseVector.push_back(x);
    }
    if (not ph.MinimumPhaseVector.empty())
    {
      ph.T_low  = ph.MinimumPhaseVector.front().temp;
      ph.T_high = ph.MinimumPhaseVector.back().temp;
    }
    PhasesList.push_back(ph);
  }
  if (only) return;
  status_coex_pairs = stub::named(StatusCoexPairToString, s["coex"].get<std::string>());
  for (const auto &p : s["pairs"])
  {
    CoexPhases c(int(CoexPhasesList.size()),
                 PhasesList.at(p["f"].get<int>()),
                 PhasesList.at(p["t"].get<int>()),
                 p["lo"].get<double>(),
                 p["hi"].get<double>());
    c.crit_status = stub::named(StatusCritToString, p["crit"].get<std::string>());
    c.crit_temp   = p["Tc"];
    CoexPhasesList.push_back(c);
  }
}
BounceSolution::BounceSolution(const std::shared_ptr<Class_Potential_Origin> &m,
                               const std::shared_ptr<MinimumTracer> &mt,
                               const CoexPhases &pair,
                               const double &vw,
                               const double &eps,
                               const int &maxpath,
                               const size_t &scan)
{
  modelPointer                    = m;
  MinTracer                       = mt;
  phase_pair                      = pair;
  Tc                              = pair.crit_temp;
  Tm                              = pair.T_low;
  UserDefined_vwall               = vw;
  epsturb                         = eps;
  MaxPathIntegrations             = maxpath;
  NumberOfInitialScanTemperatures = scan;
  if (vw >= 0) vwall = vw;
  CalcGstarPureRad();
  stub::log(*m, "bounce", {pair.coex_pair_id, vw, eps, maxpath});
  status_bounce_sol = stub::named(StatusGWToString, stub::pairOf(*this)["bounce"].get<std::string>());
}
void BounceSolution::CalculateNucleationTempApprox()
{
  stub::log(*modelPointer, "nucl_approx", {phase_pair.coex_pair_id});
  status_nucl_approx = stub::found(stub::pairOf(*this)["nucl_approx"], Tnucl_approx);
}
void BounceSolution::CalculateNucleationTemp()
{
  stub::log(*modelPointer, "nucl", {phase_pair.coex_pair_id});
  status_nucl = stub::found(stub::pairOf(*this)["nucl"], Tnucl);
  nucleation_temp_set = status_nucl == StatusTemperature::Success;
}
void BounceSolution::CalculatePercolationTemp(const double &frac)
{
  stub::log(*modelPointer, "perc", {phase_pair.coex_pair_id, frac});
  status_perc          = stub::found(stub::pairOf(*this)["perc"], Tperc);
  percolation_temp_set = status_perc == StatusTemperature::Success;
}
void BounceSolution::CalculateCompletionTemp(const double &frac)
{
  stub::log(*modelPointer, "compl", {phase_pair.coex_pair_id, frac});
  status_compl = stub::found(stub::pairOf(*this)["compl"], Tcompl);
}
void BounceSolution::CalculatePTStrength()
{
  stub::log(*modelPointer, "strength", {phase_pair.coex_pair_id});
  if (not percolation_temp_set) throw std::runtime_error("percolation temperature is not yet set.");
  const auto &p = stub::pairOf(*this);
  alpha         = p["alpha"];
  if (UserDefined_vwall < 0) vwall = p["vw"];
}
void BounceSolution::CalculateInvTimeScale()
{
  if (not percolation_temp_set) throw std::runtime_error("percolation temperature is not yet set.");
  betaH = stub::pairOf(*this)["beta"];
}
double BounceSolution::GetInvTimeScale()
{
  if (betaH == -1) CalculateInvTimeScale();
  return betaH;
}
} // namespace BSMPT
