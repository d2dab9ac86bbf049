// LIBS: Minimizer Models ThermalFunctions Utility dl
// Global minimisation, critical temperature search, plane minimisation, on
// synthetic potentials; the back ends can be replaced by stand-ins that report
// a prescribed result.
#include "synth.h"
#include <BSMPT/minimizer/MinimizeGSL.h>
#include <BSMPT/minimizer/MinimizePlane.h>
#include <BSMPT/minimizer/Minimizer.h>
#include <BSMPT/utility/Logger.h>
#include <atomic>
#include <dlfcn.h>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_multimin.h>
#include <nlopt.h>
using namespace BSMPT;

namespace
{
template <class F> F next(const char *n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
enum Kind
{
  real_,
  fail_,
  point_
};
Kind gslKind = real_, nlKind = real_;
std::vector<double> gslPoint, nlPoint;
double nlVal = 0;
int nlCode   = 0;
std::atomic<int> gslCalls{0}, nlCalls{0};
std::vector<double> nlLo, nlHi; // search box of the last global search
} // namespace
extern "C"
{
  int gsl_multimin_fminimizer_set(gsl_multimin_fminimizer *s, gsl_multimin_function *f, const gsl_vector *x, const gsl_vector *ss)
  {
    static auto real = next<int (*)(gsl_multimin_fminimizer *, gsl_multimin_function *, const gsl_vector *, const gsl_vector *)>(
        "gsl_multimin_fminimizer_set");
    gslCalls++;
    return real(s, f, x, ss);
  }
  int gsl_multimin_fminimizer_iterate(gsl_multimin_fminimizer *s)
  {
    static auto real = next<int (*)(gsl_multimin_fminimizer *)>("gsl_multimin_fminimizer_iterate");
    if (gslKind == real_) return real(s);
    if (gslKind == fail_) return GSL_ENOPROG;
    for (std::size_t i = 0; i < s->x->size; i++) gsl_vector_set(s->x, i, gslPoint.at(i));
    return GSL_SUCCESS;
  }
  int gsl_multimin_test_size(const double size, double eps)
  {
    static auto real = next<int (*)(const double, double)>("gsl_multimin_test_size");
    return gslKind == point_ ? int(GSL_SUCCESS) : real(size, eps);
  }
  nlopt_result nlopt_optimize(nlopt_opt o, double *x, double *f)
  {
    static auto real = next<nlopt_result (*)(nlopt_opt, double *, double *)>("nlopt_optimize");
    nlCalls++;
    nlLo.assign(nlopt_get_dimension(o), 0);
    nlHi = nlLo;
    nlopt_get_lower_bounds(o, nlLo.data());
    nlopt_get_upper_bounds(o, nlHi.data());
    if (nlKind == real_) return real(o, x, f);
    for (std::size_t i = 0; i < nlPoint.size() and i < nlopt_get_dimension(o); i++) x[i] = nlPoint[i];
    *f = nlVal;
    return static_cast<nlopt_result>(nlCode);
  }
}

static void stubs(const json &c, const synth::Model &m, double T)
{
  gslKind = nlKind = real_;
  gslCalls = nlCalls = 0;
  nlLo = nlHi = {};
  if (c.contains("gsl"))
  {
    gslKind = c.at("gsl").is_array() ? point_ : fail_;
    if (gslKind == point_) gslPoint = c.at("gsl").get<std::vector<double>>();
  }
  if (c.contains("nlopt"))
  {
    nlKind  = point_;
    nlCode  = c.at("nlopt").at(0);
    nlPoint = c.at("nlopt").at(1).get<std::vector<double>>();
    nlVal   = m.f(nlPoint, T);
  }
}

static json one(const json &c)
{
  std::string cmd = c.at("cmd");
  if (cmd == "mask")
  {
    json a = json::array();
    for (int i = 0; i < 8; i++)
    {
      auto u = Minimizer::GetMinimizers(i);
      a.push_back({u.UseCMAES, u.UseGSL, u.UseNLopt, Minimizer::CalcWhichMinimizer(i & 2, i & 1, i & 4)});
    }
    return {{"masks", a}, {"def", Minimizer::WhichMinimizerDefault}};
  }
  auto model = synth::make(c);
  std::shared_ptr<Class_Potential_Origin> mp = model;
  double T   = c.value("T", 0.0);
  int mask   = c.value("mask", 6);
  bool thr   = c.value("threads", false);
  stubs(c, *model, T);
  json o;
  if (cmd == "glob")
  {
    std::vector<double> check = c.value("check", std::vector<double>{}), start = c.value("start", model->get_vevTreeMin());
    auto sol     = Minimizer::Minimize_gen_all(mp, T, check, start, mask, thr);
    o["sol"]     = nums(sol);
    o["check"]   = nums(check);
    o["V"]       = num(model->f(sol, T));
    o["V0"]      = num(model->f(std::vector<double>(sol.size(), 0), T));
  }
  else if (cmd == "ptf")
  {
    auto r      = Minimizer::PTFinder_gen_all(mp, c.at("Ts"), c.at("Te"), mask, thr);
    o["status"] = static_cast<int>(r.StatusFlag);
    o["vc"]     = num(r.vc);
    o["Tc"]     = num(r.Tc);
    o["min"]    = nums(r.EWMinimum);
  }
  else if (cmd == "next")
  {
    json a = json::array();
    for (auto &m : Minimizer::FindNextLocalMinima(mp, c.at("start").get<std::vector<double>>(), T, mask)) a.push_back(nums(m));
    o["minima"] = a;
  }
  else if (cmd == "dev")
  {
    std::vector<std::pair<double, double>> rg;
    for (auto &r : c.at("ranges")) rg.push_back({r.at(0), r.at(1)});
    auto d = Minimizer::MinimaDevelopmentWithTemperature(mp, c.at("Ts"), c.at("Te"), c.at("step"), rg, c.at("seed"), c.at("n"), mask);
    json a = json::array();
    for (auto &l : d)
    {
      json b = json::array();
      for (auto &p : l) b.push_back({num(p.first), nums(p.second)});
      a.push_back(b);
    }
    o["dev"] = a;
  }
  else if (cmd == "plane")
  {
    auto r = Minimizer::MinimizePlane(c.at("base").get<std::vector<double>>(), c.at("sym").get<std::vector<double>>(),
                                      c.at("broken").get<std::vector<double>>(), mp, T, mask);
    o["V"]   = num(r.PotVal);
    o["min"] = nums(r.Minimum);
    o["Vat"] = num(model->f(r.Minimum, T));
  }
  else if (cmd == "coord")
  {
    Minimizer::PointerContainerMinPlane p;
    p.modelPointer = mp;
    p.Point        = c.at("base").get<std::vector<double>>();
    p.normalvector = c.at("normal").get<std::vector<double>>();
    p.Index        = c.at("index");
    p.nVEV         = model->get_nVEV();
    p.Temp         = T;
    o["x"]         = nums(Minimizer::TransformCoordinates(c.at("tilde").get<std::vector<double>>(), p));
  }
  o["box"]      = {nums(nlLo), nums(nlHi)};
  o["gslCalls"] = int(gslCalls);
  o["nlCalls"]  = int(nlCalls);
  return o;
}
int main() { return drive(one); }
