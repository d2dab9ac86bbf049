// LIBS: MinimumTracer Minimizer Models ThermalFunctions Utility
// The diagnosis of the potential at high temperature.
#include "synth.h"
#include <BSMPT/minimum_tracer/minimum_tracer.h>
using namespace BSMPT;
int main()
{
  return drive(
      [](const json &c) -> json
      {
        const auto A      = c.at("A").get<std::vector<std::vector<double>>>();
        const auto x0     = c.at("centre").get<std::vector<double>>();
        const auto cold   = c.at("cold").get<std::vector<double>>();
        const double lift = c.at("lift"), power = c.at("power");
        const auto d      = x0.size();
        auto m            = synth::make(json{{"tree", std::vector<double>(d, 100.)},
                                             {"wells", json::array()},
                                             {"nH", c.at("nH")},
                                             {"order", c.at("order")},
                                             {"ew", c.at("ew")}});
        m->f = [=](const std::vector<double> &p, double T)
        {
          double s = lift;
          for (std::size_t i = 0; i < d; i++)
          {
            s += cold[i] * p[i] * p[i] + (cold[i] != 0 ? 0.1 * std::pow(p[i], 4) : 0);
            for (std::size_t j = 0; j < d; j++)
              s += 0.5 * (1 + std::pow(T, power)) * (p[i] - x0[i]) * A[i][j] * (p[j] - x0[j]);
          }
          return s;
        };
        MinimumTracer t(m, 2, false);
        int r = t.IsThereEWSymmetryRestoration();
        return {{"code", r},
                {"status", StatusEWSRToString.at(t.GetStatusEWSR(r))},
                {"at", nums(t.HighTemperatureVEV)}};
      });
}
