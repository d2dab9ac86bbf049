// LIBS: Models ThermalFunctions Utility
// FLAGS: -Wl,--allow-multiple-definition -fno-inline
// Counterterms for one-loop derivatives at the vacuum that are given (here), or
// for those of the model (d_ctreal.cpp).
#include "drv.h"
#include <BSMPT/models/ClassPotentialOrigin.h>
#include <BSMPT/models/IncludeAllModels.h>
#include <Eigen/Dense>
using namespace BSMPT;
#ifndef REAL_ONE_LOOP
static std::vector<double> grad, hess;
namespace BSMPT
{
std::vector<double> Class_Potential_Origin::WeinbergFirstDerivative() const { return grad; }
std::vector<double> Class_Potential_Origin::WeinbergSecondDerivative() const { return hess; }
Eigen::MatrixXd Class_Potential_Origin::WeinbergSecondDerivativeAsMatrixXd() const
{
  Eigen::MatrixXd m(NHiggs, NHiggs);
  for (std::size_t i = 0; i < NHiggs; i++)
    for (std::size_t j = 0; j < NHiggs; j++) m(i, j) = hess.at(j * NHiggs + i);
  return m;
}
} // namespace BSMPT
#endif

int main()
{
  return drive(
      [](const json &c) -> json
      {
        static std::shared_ptr<Class_Potential_Origin> m;
        static std::string loaded;
        const std::string point = c.at("model").get<std::string>() + c.at("line").get<std::string>();
        const bool load         = point != loaded;
        if (load)
        {
          loaded = "";
          m      = ModelID::FChoose(ModelID::getModel(c.at("model")), GetSMConstants());
          m->setUseIndexCol(c.at("legend"));
        }
        auto n = m->get_NHiggs();
#ifndef REAL_ONE_LOOP
        grad = c.at("g").get<std::vector<double>>();
        hess.clear();
        for (const auto &r : c.at("h"))
          for (double x : r) hess.push_back(x);
        if (grad.size() != n or hess.size() != n * n) return {{"size", n}};
#endif
        // the point is loaded once for several one-loop parts
        std::vector<double> ct;
        if (load)
          ct = m->initModel(c.at("line").get<std::string>()).second;
        else
        {
          ct = m->calc_CT();
          m->set_CT_Pot_Par(ct);
        }
        loaded = point;
        json o;
        o["labels"] = m->addLegendCT();
        o["ct"]     = nums(ct);
        auto v      = m->MinimizeOrderVEV(m->get_vevTreeMin());
        o["v"]      = nums(v);
        auto N      = m->NablaVCT(v);
        auto H      = m->HessianCT(v);
        auto M      = m->HiggsMassMatrix(v);
        json a = json::array(), g = json::array(), b = json::array(), t = json::array(), mm = json::array();
        for (std::size_t i = 0; i < n; i++)
        {
          a.push_back(num(N(i)));
          g.push_back(num(m->CounterTerm(v, i + 1)));
          t.push_back(num(m->VTree(v, i + 1)));
          json r = json::array(), q = json::array();
          for (std::size_t j = 0; j < n; j++) r.push_back(num(H(i, j))), q.push_back(num(M(i, j)));
          b.push_back(r);
          mm.push_back(q);
        }
        o["N"] = a;
        o["G"] = g;
        o["H"] = b;
        o["M"] = mm;
        o["tree"] = t;
#ifdef REAL_ONE_LOOP
        auto W = m->WeinbergSecondDerivativeAsMatrixXd();
        o["loopg"] = nums(m->WeinbergFirstDerivative());
        json l = json::array();
        for (std::size_t i = 0; i < n; i++)
        {
          json r = json::array();
          for (std::size_t j = 0; j < n; j++) r.push_back(num(W(i, j)));
          l.push_back(r);
        }
        o["looph"] = l;
        // the loop potential itself, by difference quotients
        json d = json::array();
        for (std::size_t i = 0; i < n; i++)
        {
          json r = json::array();
          for (double h : {0.2, 0.1})
          {
            auto x = v, y = v;
            x[i] += h;
            y[i] -= h;
            r.push_back(num((m->V1Loop(x, 0, 0) - m->V1Loop(y, 0, 0)) / (2 * h)));
          }
          d.push_back(r);
        }
        o["fd"] = d;
        // ... and its masses, without the massless scalars, whose own loop is
        // singular there
        const auto m0    = m->HiggsMassesSquared(v, 0);
        std::size_t gold = 0;
        for (double x : m0) gold += std::abs(x) < 1e-3;
        auto V = [&](std::vector<double> x, std::size_t i, double hi, std::size_t j, double hj)
        {
          x[i] += hi;
          x[j] += hj;
          auto ms = m->HiggsMassesSquared(x, 0);
          std::sort(ms.begin(), ms.end(), [](double a, double b) { return std::abs(a) < std::abs(b); });
          double res = m->V1Loop(x, 0, 0);
          for (std::size_t k = 0; k < gold; k++)
            if (ms[k] != 0)
              res -= ms[k] * ms[k] / (64 * M_PI * M_PI) * (std::log(std::abs(ms[k]) / std::pow(m->get_scale(), 2)) - 1.5);
          return res;
        };
        json f = json::array();
        for (std::size_t i = 0; i < n; i++)
          for (std::size_t j = 0; j <= i; j++)
          {
            double q[2];
            int k = 0;
            for (double h : {0.4, 0.2})
              q[k++] = (V(v, i, h, j, h) - V(v, i, h, j, -h) - V(v, i, -h, j, h) + V(v, i, -h, j, -h)) / (4 * h * h);
            f.push_back(num((4 * q[1] - q[0]) / 3));
          }
        o["fdh"]  = f;
        o["gold"] = gold;
        o["min"]  = num(*std::min_element(m0.begin(), m0.end()));
        double light = 1e20;
        for (double x : m0)
          if (std::abs(x) >= 1e-3) light = std::min(light, x);
        o["light"] = num(light);
#endif
        return o;
      });
}
