// LIBS: MinimumTracer Minimizer Models Utility
// Grids, temperature scans, and the potential of a shipped model at given points.
#include "synth.h"
#include <BSMPT/minimizer/Minimizer.h>
#include <BSMPT/minimum_tracer/minimum_tracer.h>
#include <BSMPT/models/IncludeAllModels.h>
using namespace BSMPT;
using V = std::vector<double>;

static json rows(const std::vector<V> &g)
{
  json r = json::array();
  for (auto &x : g) r.push_back(nums(x));
  return r;
}

// one minimum, moving with the temperature
static json develop(const json &c)
{
  V m = c.at("at"), s = c.at("slope"), k = c.at("k");
  std::size_t n = m.size();
  std::vector<std::size_t> order;
  for (std::size_t i = 0; i < n; i++) order.push_back(i);
  auto p = std::make_shared<synth::Model>(n, order, std::vector<int>(n, 0), V(n, 0.));
  p->f = p->f0 = [=](const V &x, double T)
  {
    double r = 0;
    for (std::size_t i = 0; i < n; i++) r += k[i] * std::pow(x[i] - m[i] - s[i] * T, 2);
    return r;
  };
  std::vector<std::pair<double, double>> ranges;
  for (std::size_t i = 0; i < n; i++) ranges.push_back({m[i] - 50, m[i] + 80});
  auto d = Minimizer::MinimaDevelopmentWithTemperature(p, c.at("start"), c.at("stop"), c.at("step"), ranges, c.at("seed"),
                                                       c.at("points"), c.at("which"));
  json r = json::array();
  for (auto &chain : d)
  {
    json j = json::array();
    for (auto &e : chain) j.push_back({num(e.first), nums(e.second)});
    r.push_back(j);
  }
  return {{"chains", r}};
}

static json veff(const json &c)
{
  std::shared_ptr<Class_Potential_Origin> m = ModelID::FChoose(ModelID::getModel(c.at("model").get<std::string>()), GetSMConstants());
  m->setUseIndexCol(c.at("legend"));
  m->initModel(c.at("line").get<std::string>());
  json r = json::array();
  for (auto &q : c.at("at"))
  {
    V v      = q[0];
    double T = q[1];
    auto p   = m->MinimizeOrderVEV(v);
    json e{{"V", num(m->VEff(p, T))}, {"v", num(m->EWSBVEV(p))}};
    if (c.value("min", false))
    {
      V check;
      auto s     = Minimizer::Minimize_gen_all(m, T, check, m->get_vevTreeMin(), Minimizer::WhichMinimizerDefault, false);
      e["depth"] = num(m->VEff(m->MinimizeOrderVEV(s), T));
    }
    r.push_back(e);
  }
  return {{"at", r}, {"legend", m->addLegendVEV()}};
}

int main()
{
  return drive(
      [](const json &c) -> json
      {
        std::string cmd = c.at("cmd");
        if (cmd == "axis")
          return {{"rows", rows(Create1DimGrid(c.at("point").get<V>(), c.at("axis").get<int>(), c.at("low").get<double>(), c.at("high").get<double>(), c.at("n").get<int>()))}};
        if (cmd == "line") return {{"rows", rows(Create1DimGrid(c.at("a").get<V>(), c.at("b").get<V>(), c.at("n").get<int>()))}};
        if (cmd == "develop") return develop(c);
        return veff(c);
      });
}
