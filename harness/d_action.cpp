// LIBS: BounceSolution Utility
// The bounce action of a potential in a given frame: fields y = c + s R q, the
// potential E (x^2/2 - x^3/2 + a x^4/8 + sum_k kappa_k p_k^2 / 2) + offset with
// x = q_1 and p_k = q_k - A_k (x - x0)(x - x1) along the other axes.
#include "drv.h"
#include <BSMPT/bounce_solution/action_calculation.h>
using namespace BSMPT;
using vec = std::vector<double>;

static json one(const json &c)
{
  const double a = c.at("a"), s = c.at("s"), E = c.at("E"), off = c.at("offset");
  const vec cen = c.at("centre"), kappa = c.at("kappa"), A = c.at("bend");
  const std::vector<vec> R = c.at("R");
  const double x0 = 0, x1 = (3 + std::sqrt(9 - 8 * a)) / (2 * a);
  const std::size_t n = cen.size();
  long calls = 0;
  auto toq = [&](const vec &y)
  {
    vec q(n, 0);
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t j = 0; j < n; j++) q[j] += R[i][j] * (y[i] - cen[i]) / s;
    return q;
  };
  auto toy = [&](const vec &q)
  {
    vec y = cen;
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t j = 0; j < n; j++) y[i] += s * R[i][j] * q[j];
    return y;
  };
  std::function<double(vec)> V = [&](vec y)
  {
    calls++;
    vec q    = toq(y);
    double x = q[0], v = x * x / 2 - x * x * x / 2 + a * x * x * x * x / 8;
    for (std::size_t k = 1; k < n; k++)
    {
      double p = q[k] - A[k - 1] * (x - x0) * (x1 - x);
      v += kappa[k - 1] * p * p / 2;
    }
    return E * v + off;
  };
  std::function<vec(vec)> dV = [&](vec y)
  {
    vec q = toq(y), g(n, 0), r(n, 0);
    double x = q[0];
    g[0] = x - 1.5 * x * x + a * x * x * x / 2;
    for (std::size_t k = 1; k < n; k++)
    {
      double p = q[k] - A[k - 1] * (x - x0) * (x1 - x);
      g[k]     = kappa[k - 1] * p;
      g[0] -= kappa[k - 1] * p * A[k - 1] * (x1 + x0 - 2 * x);
    }
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t j = 0; j < n; j++) r[i] += E / s * R[i][j] * g[j];
    return r;
  };
  std::vector<vec> path;
  for (const auto &q : c.at("path")) path.push_back(toy(q.get<vec>()));
  vec tv = toy(c.at("true").get<vec>()), fv = toy(c.at("false").get<vec>());
  std::unique_ptr<BounceActionInt> b;
  if (c.at("gradient"))
    b = std::make_unique<BounceActionInt>(path, tv, fv, V, dV, c.at("T").get<double>(), c.at("maxpath").get<int>());
  else
    b = std::make_unique<BounceActionInt>(path, tv, fv, V, c.at("T").get<double>(), c.at("maxpath").get<int>());
  b->Alpha = c.at("alpha");
  b->CalculateAction();
  json o = {{"action", num(b->Action)}, {"state", int(b->StateOfBounceActionInt)},
            {"oned", int(b->StateOf1DIntegration)}, {"path", int(b->StateOfPathDeformation)}, {"T", num(b->T)}, {"calls", calls}};
  if (b->rho_sol.size() > 2 and b->l_sol.size() == b->rho_sol.size())
  {
    o["rho"] = {num(b->rho_sol.front()), num(b->rho_sol.back())};
    o["end"] = nums(toq(b->Spline(b->l_sol.back())));
    o["start"] = nums(toq(b->Spline(b->l_sol.front())));
  }
  return o;
}
int main() { return drive(one); }
