// LIBS: MinimumTracer BounceSolution Minimizer Models ThermalFunctions Utility
// Field layouts: coordinate maps, electroweak part, one-loop vacuum check;
// discrete symmetries, flat directions.
#include "synth.h"
#include <BSMPT/minimum_tracer/minimum_tracer.h>
#include <BSMPT/models/IncludeAllModels.h>
using namespace BSMPT;

static json ops(const json &c, const std::shared_ptr<Class_Potential_Origin> &m, MinimumTracer &tr)
{
  std::vector<double> p = c.at("p"), f = c.at("f");
  json out = json::array();
  for (const std::string &op : c.at("ops").get<std::vector<std::string>>())
  {
    if (op == "embed")
    {
      f = m->MinimizeOrderVEV(p);
      out.push_back(nums(f));
    }
    else if (op == "project")
    {
      p = tr.ConvertToVEVDim(f);
      out.push_back(nums(p));
    }
    else if (op == "strip")
    {
      m->SetEWVEVZero(p);
      out.push_back(nums(p));
    }
    else if (op == "scale")
      out.push_back(num(m->EWSBVEV(f)));
    else if (op == "same")
      out.push_back(m->CheckNLOVEV(p));
    else if (op == "nan") // is a vacuum with an undefined component accepted?
    {
      bool any = false;
      for (std::size_t i = 0; i < p.size(); i++)
      {
        auto q = p;
        q[i]   = std::nan("");
        any    = any or m->CheckNLOVEV(q);
      }
      out.push_back(any);
    }
  }
  return {{"out", out}};
}

static json one(const json &c)
{
  std::string cmd = c.at("cmd");
  if (cmd == "layout")
  {
    auto m = synth::make(c);
    m->f   = m->f0;
    MinimumTracer tr(m, 2, false);
    return ops(c, m, tr);
  }
  if (cmd == "model")
  {
    static std::map<std::string, std::shared_ptr<Class_Potential_Origin>> models;
    auto &m = models[c.at("model")];
    if (not m)
    {
      m = ModelID::FChoose(ModelID::getModel(c.at("model")), GetSMConstants());
      m->setUseIndexCol(c.at("legend"));
      m->initModel(c.at("line").get<std::string>());
    }
    if (c.contains("ops"))
    {
      static std::map<std::string, std::shared_ptr<MinimumTracer>> cache;
      auto &t = cache[c.at("model")];
      if (not t) t = std::make_shared<MinimumTracer>(m, 2, false);
      return ops(c, m, *t);
    }
    std::vector<double> order;
    for (auto i : m->Get_VevOrder()) order.push_back(i);
    return {{"n", m->get_NHiggs()}, {"nVEV", m->get_nVEV()}, {"ord", order}, {"tree", nums(m->get_vevTreeMin())},
            {"labels", m->addLegendVEV().size()}};
  }
  if (cmd == "sym")
  {
    // V/1e4 = 1 + sum of blocks + sum of monomials, in units of 100 GeV
    auto m      = synth::make(c);
    json blocks = c.at("blocks"), mono = c.at("mono");
    struct Block
    {
      std::vector<std::size_t> d;
      double a, b;
      bool round;
    };
    std::vector<Block> bl;
    for (const auto &b : blocks)
      bl.push_back({b.at("dirs").get<std::vector<std::size_t>>(), b.at("a"), b.at("b"), b.at("round")});
    std::vector<Block> mn;
    for (const auto &t : mono) mn.push_back({t.at("dirs").get<std::vector<std::size_t>>(), t.at("c"), 0, false});
    m->f0 = [=](const std::vector<double> &x, double)
    {
      double v = 1;
      for (const auto &b : bl)
      {
        double r2 = 0, r4 = 0;
        for (std::size_t i : b.d)
        {
          double y = x.at(i) / 100;
          r2 += y * y;
          r4 += y * y * y * y;
        }
        v += b.a * r2 + b.b * (b.round ? r2 * r2 : r4);
      }
      for (const auto &t : mn)
      {
        double y = t.a;
        for (std::size_t i : t.d) y *= x.at(i) / 100;
        v += y;
      }
      return 1e4 * v;
    };
    m->f = m->f0;
    MinimumTracer tr(m, 2, false);
    json o, g = json::array(), pts = json::array();
    for (auto &e : tr.GroupElements)
    {
      json row = json::array();
      for (int i = 0; i < e.rows(); i++)
      {
        double off = 0;
        for (int j = 0; j < e.cols(); j++)
          if (j != i) off += std::abs(e(i, j));
        row.push_back(off == 0 ? e(i, i) : 7.0);
      }
      g.push_back(row);
    }
    o["group"] = g;
    o["f1"]    = tr.flat_1D_dirs;
    o["f2"]    = tr.flat_2D_dirs;
    o["f3"]    = tr.flat_3D_dirs;
    for (const auto &x : c.at("points"))
    {
      std::vector<double> p = x, r = p, fl = p;
      tr.ReduceVEV(r);
      auto rr = r;
      tr.ReduceVEV(rr);
      Minimum mi;
      mi.point = p;
      tr.ReduceVEV(mi);
      tr.ConvertToNonFlatDirections(fl);
      auto fl2 = fl;
      tr.ConvertToNonFlatDirections(fl2);
      pts.push_back({{"r", nums(r)}, {"rr", nums(rr)}, {"m", nums(mi.point)}, {"fl", nums(fl)}, {"fl2", nums(fl2)},
                     {"V", num(m->f0(p, 0))}, {"Vr", num(m->f0(r, 0))}, {"Vfl", num(m->f0(fl, 0))}});
    }
    o["points"] = pts;
    return o;
  }
  return {{"exception", "cmd"}};
}
int main() { return drive(one); }
