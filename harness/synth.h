// Synthetic potentials with vacua known in closed form.  A case describes the
// field layout (which field directions are vacuum directions, which of them are
// electroweak-charged) and the potential; everything else of the model is inert.
#pragma once
#include "drv.h"
#include <BSMPT/models/ClassPotentialOrigin.h>
#include <BSMPT/models/SMparam.h>
#include <functional>
#include <limits>
#include <memory>

namespace synth
{
using namespace BSMPT;
using Fn = std::function<double(const std::vector<double> &, double)>;

class Model : public Class_Potential_Origin
{
public:
  Fn f;  // effective potential in vacuum directions
  Fn f0; // tree level (Order = 0): used by the symmetry/flatness detection
  Model(std::size_t nH, const std::vector<std::size_t> &order, const std::vector<int> &ew,
        const std::vector<double> &treemin)
      : Class_Potential_Origin(GetSMConstants())
  {
    NNeutralHiggs = nH;
    NChargedHiggs = 0;
    NHiggs        = nH;
    NGauge        = 4;
    NLepton       = 9;
    NQuarks       = 12;
    nPar          = 1;
    nParCT        = 1;
    nVEV          = order.size();
    VevOrder      = order;
    initVectors();
    for (std::size_t i = 0; i < nH; i++)
    {
      // kinds of electroweak charge: which gauge bosons couple to the field
      int q = i < ew.size() ? ew[i] : 0;
      if (q == 1) Curvature_Gauge_G2H2[0][0][i][i] = 0.5;
      if (q == 2) Curvature_Gauge_G2H2[3][3][i][i] = 0.3;
      if (q == 3) Curvature_Gauge_G2H2[1][1][i][i] = 0.2, Curvature_Gauge_G2H2[2][2][i][i] = -0.2;
    }
    vevTreeMin = treemin;
    vevTree    = MinimizeOrderVEV(treemin);
  }
  double VEff(const std::vector<double> &v, double T = 0, int diff = 0, int Order = 1) const override
  {
    (void)diff;
    std::vector<double> p;
    if (v.size() == NHiggs)
      for (auto i : VevOrder) p.push_back(v.at(i));
    else
      p = v;
    return Order == 0 ? f0(p, T) : f(p, T);
  }
  void ReadAndSet(const std::string &, std::vector<double> &) override {}
  std::vector<std::string> addLegendCT() const override { return {"ct"}; }
  std::vector<std::string> addLegendTemp() const override
  {
    std::vector<std::string> l{"T_c", "v_c", "omega_c/T_c"};
    for (auto &x : addLegendVEV()) l.push_back(x);
    return l;
  }
  std::vector<std::string> addLegendTripleCouplings() const override { return {}; }
  std::vector<std::string> addLegendVEV() const override
  {
    std::vector<std::string> l;
    for (std::size_t i = 0; i < nVEV; i++) l.push_back("w" + std::to_string(i));
    return l;
  }
  void set_gen(const std::vector<double> &) override {}
  void set_CT_Pot_Par(const std::vector<double> &) override {}
  void write() const override {}
  void SetCurvatureArrays() override {}
  bool CalculateDebyeSimplified() override { return false; }
  bool CalculateDebyeGaugeSimplified() override { return false; }
  double VTreeSimplified(const std::vector<double> &) const override { return 0; }
  double VCounterSimplified(const std::vector<double> &) const override { return 0; }
  void TripleHiggsCouplings() override {}
  std::vector<double> calc_CT() const override { return {0}; }
  void Debugging(const std::vector<double> &, std::vector<double> &) const override {}
};

struct Well
{
  std::vector<double> c, vel; // position c + vel*T
  double lo, hi;              // exists for lo <= T <= hi
  double a, b;                // depth a + b*T + cq*(T-m)^2
  double cq = 0, m = 0;
  double depth(double T) const { return a + b * T + cq * (T - m) * (T - m); }
};

inline double quad(const std::vector<double> &p, const std::vector<double> &c)
{
  double s = 0;
  for (std::size_t i = 0; i < p.size(); i++) s += (p[i] - c[i]) * (p[i] - c[i]);
  return s;
}

// V = min over the wells existing at T of  depth(T) + k/2 (1+T^2) |phi-pos(T)|^2
inline Fn wells(const std::vector<Well> &ws, double k)
{
  return [ws, k](const std::vector<double> &p, double T)
  {
    double best = std::numeric_limits<double>::infinity();
    std::vector<double> c(p.size());
    for (const auto &w : ws)
    {
      if (T < w.lo or T > w.hi) continue;
      for (std::size_t i = 0; i < p.size(); i++) c[i] = w.c[i] + w.vel[i] * T;
      best = std::min(best, w.depth(T) + 0.5 * k * (1 + T * T) * quad(p, c));
    }
    return best;
  };
}

inline Fn generic0()
{
  return [](const std::vector<double> &p, double)
  {
    double s = 1;
    for (std::size_t i = 0; i < p.size(); i++)
      s += (i + 1.) * p[i] * p[i] + 1.7 * (i + 2.) * p[i] + 0.013 * (i + 1) * (i + 1) * p[i] * p[i] * p[i];
    return s;
  };
}

inline std::vector<Well> readWells(const json &j)
{
  std::vector<Well> r;
  for (const auto &w : j)
    r.push_back({w.at("c").get<std::vector<double>>(), w.at("vel").get<std::vector<double>>(), w.at("lo"), w.at("hi"),
                 w.at("a"), w.at("b"), w.value("cq", 0.0), w.value("m", 0.0)});
  return r;
}

// phi^4 with a cubic thermal term in one radial direction n:
// V = D (T^2-T0^2) r^2 - E T r^3 + lam/4 r^4  + m/2 |phi_perp|^2
inline Fn cubic(double D, double T0, double E, double lam, double m)
{
  return [=](const std::vector<double> &p, double T)
  {
    double r = std::abs(p[0]), s = D * (T * T - T0 * T0) * r * r - E * T * r * r * r + lam / 4 * r * r * r * r;
    for (std::size_t i = 1; i < p.size(); i++) s += 0.5 * m * (1 + T * T) * p[i] * p[i];
    return s;
  };
}

inline std::shared_ptr<Model> make(const json &c)
{
  std::vector<double> tree = c.at("tree").get<std::vector<double>>();
  std::vector<std::size_t> order;
  if (c.contains("order"))
    order = c.at("order").get<std::vector<std::size_t>>();
  else
    for (std::size_t i = 0; i < tree.size(); i++) order.push_back(i);
  std::size_t nH      = c.contains("nH") ? c.at("nH").get<std::size_t>() : order.size();
  std::vector<int> ew = c.contains("ew") ? c.at("ew").get<std::vector<int>>() : std::vector<int>(nH, 1);
  auto m              = std::make_shared<Model>(nH, order, ew, tree);
  m->f0               = generic0();
  std::string pot     = c.value("pot", "wells");
  if (pot == "wells")
    m->f = wells(readWells(c.at("wells")), c.value("k", 0.5));
  else if (pot == "cubic")
  {
    m->f  = cubic(c.at("D"), c.at("T0"), c.at("E"), c.at("lam"), c.value("m", 1.0));
    m->f0 = [fn = m->f](const std::vector<double> &p, double)
    { double r2 = quad(p, std::vector<double>(p.size(), 0)), s = 0; for (std::size_t i = 1; i < p.size(); i++) s += p[i];
      (void)r2; return p[0] * p[0] * 2 + std::pow(p[0], 4) * 0.1 + s + 3 * s * s + 5; };
  }
  return m;
}
} // namespace synth
