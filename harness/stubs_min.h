// Scripted stand-ins for the two minimisations behind BSMPT, NLOVEV and VEVEVO:
// results are fixed functions of the parameter point, every call is appended to
// the file named by STUB_LOG.  Linked with --allow-multiple-definition.
#pragma once
#include <BSMPT/minimizer/Minimizer.h>
#include <BSMPT/models/ClassPotentialOrigin.h>
#include <cmath>
#include <cstdlib>
#include <fstream>
#include <nlohmann/json.hpp>
namespace BSMPT
{
namespace stub
{
inline void note(const nlohmann::json &j)
{
  if (const char *p = std::getenv("STUB_LOG"))
  {
    std::ofstream f(p, std::ios::app);
    f << j.dump() << "\n";
  }
}
// a number in [0, 1) that tells parameter points apart
inline double mark(const Class_Potential_Origin &m)
{
  double s = 0, w = 1;
  for (double x : m.get_parStored())
    s += (w += 0.37) * std::atan(x / 100);
  return s - std::floor(s);
}
} // namespace stub
namespace Minimizer
{
std::vector<double> Minimize_gen_all(const std::shared_ptr<Class_Potential_Origin> &m,
                                     const double &Temp,
                                     std::vector<double> &,
                                     const std::vector<double> &,
                                     const int &which,
                                     bool mt)
{
  stub::note({{"call", "minimize"}, {"args", {Temp, which, mt}}});
  auto v = m->get_vevTreeMin();
  for (auto &x : v)
    x = x * (0.5 + stub::mark(*m)) - Temp / 64;
  return v;
}
EWPTReturnType PTFinder_gen_all(const std::shared_ptr<Class_Potential_Origin> &m,
                                const double &lo,
                                const double &hi,
                                const int &which,
                                bool mt)
{
  stub::note({{"call", "ptfinder"}, {"args", {lo, hi, which, mt}}});
  EWPTReturnType r;
  double k     = stub::mark(*m);
  r.Tc         = 100 + 50 * k;
  r.vc         = 60 + 150 * std::fmod(7 * k, 1.0);
  r.StatusFlag = k < 0.2   ? MinimizerStatus::NOTVANISHINGATFINALTEMP
                 : k < 0.3 ? MinimizerStatus::NOTNLOSTABLE
                           : MinimizerStatus::SUCCESS;
  r.EWMinimum  = m->get_vevTreeMin();
  for (auto &x : r.EWMinimum)
    x *= k;
  return r;
}
} // namespace Minimizer
} // namespace BSMPT
