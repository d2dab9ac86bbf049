// LIBS: Models ThermalFunctions Utility
// Model objects: histories of loading points and evaluating predictions.
#include "drv.h"
#include <BSMPT/models/ClassPotentialOrigin.h>
#include <BSMPT/models/IncludeAllModels.h>
#include <map>
using namespace BSMPT;
using Obj = std::unique_ptr<Class_Potential_Origin>;
using Nums = std::map<std::string, std::vector<double>>;

template <class T> void flat(std::vector<double> &o, const T &x) { o.push_back(x); }
inline void flat(std::vector<double> &o, const std::complex<double> &x)
{
  o.push_back(x.real());
  o.push_back(x.imag());
}
template <class T> void flat(std::vector<double> &o, const std::vector<T> &x)
{
  for (const auto &y : x) flat(o, y);
}
template <class T> std::vector<double> flat(const T &x)
{
  std::vector<double> o;
  flat(o, x);
  return o;
}

struct World
{
  std::string model;
  json c;
  std::vector<std::string> lines;
  std::vector<std::vector<double>> pars, cts;
  Obj make()
  {
    Obj m = ModelID::FChoose(ModelID::getModel(model), GetSMConstants());
    m->setUseIndexCol(c.at("legend"));
    return m;
  }
  double scale(const Obj &m, int s) const { return m->get_vevTreeMin().empty() ? 200 : (s == 1 ? 173.5 : 421.25); }
  void prepare()
  {
    lines = c.at("lines").get<std::vector<std::string>>();
    for (auto &l : lines)
    {
      auto r = make()->initModel(l);
      pars.push_back(r.first);
      cts.push_back(r.second);
    }
  }
  std::vector<double> v1, v2;
  void apply(Obj &m, const json &e, bool coup);
  void vectors(const Obj &m);
  Nums observe(Obj &m, const json &st, bool deep);
};

void World::vectors(const Obj &m)
{
  auto n = m->get_NHiggs();
  v1.assign(n, 0);
  v2.assign(n, 0);
  for (std::size_t i = 0; i < n; i++) v2[i] = (i % 2 ? -1 : 1) * (11.0 + 17.0 * i);
  for (auto i : m->Get_VevOrder()) v1[i] = 60 + 30.0 * i;
}

void World::apply(Obj &m, const json &e, bool coup)
{
  std::string op = e.at("op");
  int p = e.at("p"), q = e.at("q"), s = e.at("s");
  if (op == "line") m->initModel(lines.at(p - 1));
  if (op == "par") m->initModel(pars.at(p - 1));
  if (op == "all") m->set_All(pars.at(p - 1), cts.at(q - 1));
  if (op == "reset") m->resetScale(scale(m, s));
  if (op == "scale") m->set_scale(scale(m, s));
  if (op == "tree") m->SetUseTreeLevel(e.at("b"));
  if (op == "triple") m->TripleHiggsCouplings();
  if (op == "look")
  {
    vectors(m);
    if (coup) m->write(); // prints the rotation to the mass basis, too
    m->CalculateDebye();
    m->CalculateDebyeGauge();
    m->FindSignSymmetries();
    m->addLegendTripleCouplings();
    for (int d = 1; d <= (int)m->get_NHiggs(); d++) m->VTree(v1, d);
  }
}

Nums World::observe(Obj &m, const json &st, bool deep)
{
  Nums o;
  if (st.at("pt") == 0) return o;
  vectors(m);
  auto n = m->get_NHiggs();
  deep = deep and st.at("coup");
  o["par"]   = m->get_parStored();
  o["L2"]    = flat(m->Get_Curvature_Higgs_L2());
  o["L3"]    = flat(m->Get_Curvature_Higgs_L3());
  o["L4"]    = flat(m->Get_Curvature_Higgs_L4());
  o["G2H2"]  = flat(m->Get_Curvature_Gauge_G2H2());
  o["QF2H1"] = flat(m->Get_Curvature_Quark_F2H1());
  o["LF2H1"] = flat(m->Get_Curvature_Lepton_F2H1());
  o["par"]   = m->get_parStored();
  o["parCT"] = m->get_parCTStored();
  o["tree"]  = m->get_vevTreeMin();
  o["scale"] = {m->get_scale()};
  o["debye"] = flat(m->get_DebyeHiggs());
  o["order"] = flat(m->Get_VevOrder());
  for (const auto &v : {v1, v2})
  {
    for (double T : {0.0, 87.0})
    {
      flat(o["higgs"], m->HiggsMassesSquared(v, T));
      flat(o["gauge"], m->GaugeMassesSquared(v, T));
      o["VEff"].push_back(m->VEff(v, T));
      o["V1Loop"].push_back(m->V1Loop(v, T, 0));
    }
    flat(o["quark"], m->QuarkMassesSquared(v));
    flat(o["lepton"], m->LeptonMassesSquared(v));
    o["VTree"].push_back(m->VTree(v));
    o["VTree"].push_back(m->VTree(v, 0, true));
    o["CT"].push_back(m->CounterTerm(v));
    o["CT"].push_back(m->CounterTerm(v, 0, true));
    for (std::size_t d = 1; d <= n; d++)
    {
      o["dVTree"].push_back(m->VTree(v, d));
      o["dCT"].push_back(m->CounterTerm(v, d));
    }
    o["ew"].push_back(m->EWSBVEV(v));
  }
  o["loop"] = {m->fbase(1e4, 2e4), m->fbaseTri(1e4, 2e4, 5e3), m->CWTerm(1e4, 1.5)};
  if (deep)
  {
    o["ctid"] = m->GetCTIdentities();
    o["calc"] = m->calc_CT();
  }
  if (st.at("trip"))
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t j = 0; j < n; j++)
        for (std::size_t k = 0; k < n; k++)
        {
          o["tripTree"].push_back(m->get_TripleHiggsCorrectionsTreePhysical(i, j, k));
          o["tripCT"].push_back(m->get_TripleHiggsCorrectionsCTPhysical(i, j, k));
          o["tripCW"].push_back(m->get_TripleHiggsCorrectionsCWPhysical(i, j, k));
        }
  return o;
}

static std::string differ(const Nums &a, const Nums &b)
{
  for (const auto &x : a)
  {
    auto it = b.find(x.first);
    if (it == b.end()) return x.first + " missing";
    if (it->second.size() != x.second.size())
      return x.first + " has " + std::to_string(x.second.size()) + " entries instead of " + std::to_string(it->second.size());
    double sc = 0;
    for (double y : it->second)
      if (std::isfinite(y)) sc = std::max(sc, std::abs(y));
    for (std::size_t i = 0; i < x.second.size(); i++)
    {
      double p = x.second[i], q = it->second[i];
      if (std::isnan(p) and std::isnan(q)) continue;
      if (p == q) continue;
      if (not(std::abs(p - q) <= 1e-9 * sc))
        return x.first + "[" + std::to_string(i) + "] = " + std::to_string(p) + " instead of " + std::to_string(q);
    }
  }
  return "";
}

static json one(const json &c)
{
  // {"worlds": [{"model","legend","lines"}...], "hist": [{"i","e"}], "after": [...], "canon": [[...]]}
  static std::map<std::string, std::shared_ptr<World>> worlds;
  static std::map<std::string, Nums> fresh;
  std::vector<std::shared_ptr<World>> w;
  std::vector<std::string> key;
  std::vector<Obj> obj;
  for (const auto &d : c.at("worlds"))
  {
    auto k  = d.dump();
    auto &x = worlds[k];
    if (not x)
    {
      x        = std::make_shared<World>();
      x->model = d.at("model");
      x->c     = d;
      x->prepare();
    }
    w.push_back(x);
    key.push_back(k);
    obj.push_back(x->make());
  }
  const json &hist = c.at("hist"), &after = c.at("after"), &canon = c.at("canon");
  for (std::size_t s = 0; s < hist.size(); s++)
  {
    int i      = hist[s].at("i").get<int>() - 1;
    json state = after[s];
    std::string bad;
    auto k = key[i] + state.dump();
    if (not fresh.count(k))
    {
      try
      {
        Obj f = w[i]->make();
        for (const auto &e : canon[s]) w[i]->apply(f, e, false);
        fresh[k] = w[i]->observe(f, state, true);
      }
      catch (const std::exception &e)
      {
        fresh[k] = {{std::string("exception ") + e.what(), {}}};
      }
    }
    const Nums &want = fresh[k];
    bool refused     = not want.empty() and want.begin()->first.rfind("exception ", 0) == 0;
    try
    {
      w[i]->apply(obj[i], hist[s].at("e"), state.at("coup"));
      bool last = s + 1 == hist.size();
      if (not(c.at("each") or last or hist[s].at("e").at("op") == "look" or refused)) continue;
      bad = differ(w[i]->observe(obj[i], state, last or refused), want);
      if (bad.empty() and last) bad = differ(w[i]->observe(obj[i], state, true), want);
    }
    catch (const std::exception &e)
    {
      // a point that is refused by a new object is refused here, too
      std::string x = std::string("exception ") + e.what();
      if (refused and want.begin()->first == x) return {{"bad", ""}, {"refused", true}};
      bad = x;
    }
    if (not bad.empty()) return {{"step", s}, {"bad", bad}};
  }
  return {{"bad", ""}};
}
int main() { return drive(one); }
