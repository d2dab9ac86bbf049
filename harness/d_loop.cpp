// LIBS: Models ThermalFunctions Utility
// Thermal functions and loop functions of several masses.
#include "synth.h"
#include <BSMPT/ThermalFunctions/ThermalFunctions.h>
#include <gsl/gsl_errno.h>
using namespace BSMPT;
using namespace BSMPT::ThermalFunctions;

struct Loop : synth::Model
{
  Loop(double s) : synth::Model(1, {0}, {}, {1.}) { set_scale(s); }
};

static json safe(std::function<double()> f)
{
  try
  {
    return num(f());
  }
  catch (const std::exception &)
  {
    return "throw";
  }
}

static json one(const json &c)
{
  std::string cmd = c.at("cmd");
  gsl_set_error_handler_off();
  if (cmd == "loop")
  {
    Loop l(c.at("scale"));
    json o = json::array();
    for (const auto &q : c.at("args"))
    {
      auto a = q.get<std::vector<double>>();
      if (a.size() == 2) o.push_back(safe([&] { return l.fbase(a[0], a[1]); }));
      if (a.size() == 3) o.push_back(safe([&] { return l.fbaseTri(a[0], a[1], a[2]); }));
      if (a.size() == 4) o.push_back(safe([&] { return l.fbaseFour(a[0], a[1], a[2], a[3]); }));
    }
    return {{"values", o}};
  }
  if (cmd == "thermal")
  {
    json o = json::array();
    for (const auto &q : c.at("calls"))
    {
      std::string f = q.at("f");
      double x      = q.at("x");
      int d = q.at("d"), n = q.at("n");
      std::map<std::string, std::function<double()>> fs{{"boson", [&] { return JbosonInterpolated(x, d); }},
                                                       {"fermion", [&] { return JfermionInterpolated(x, d); }},
                                                       {"bosonlow", [&] { return JbosonInterpolatedLow(x, n, d); }},
                                                       {"fermionlow", [&] { return JfermionInterpolatedLow(x, n, d); }},
                                                       {"high", [&] { return JInterpolatedHigh(x, n, d); }},
                                                       {"bosonneg", [&] { return JbosonInterpolatedNegative(x, d); }},
                                                       {"bosonint", [&] { return JbosonNumericalIntegration(x, d); }},
                                                       {"fermionint", [&] { return JfermionNumericalIntegration(x, d); }}};
      o.push_back(safe(fs.at(f)));
    }
    return {{"values", o}};
  }
  return {{"exception", "cmd"}};
}

int main() { return drive(one); }
