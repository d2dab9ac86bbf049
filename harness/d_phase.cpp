// LIBS: MinimumTracer Minimizer Models ThermalFunctions Utility
// Phases, tracing, coexisting pairs on synthetic potentials.
#include "synth.h"
#include <BSMPT/minimum_tracer/minimum_tracer.h>
#include <BSMPT/utility/Logger.h>
using namespace BSMPT;

static json phaseJ(const Phase &p)
{
  json o{{"id", p.id}, {"lo", num(p.T_low)}, {"hi", num(p.T_high)}, {"n", p.MinimumPhaseVector.size()}};
  json a = json::array();
  for (auto &m : p.MinimumPhaseVector) a.push_back({num(m.temp), nums(m.point), num(m.potential), m.EdgeOfPhase});
  o["mins"] = a;
  return o;
}

static json vacuum(const json &c)
{
  auto model = synth::make(c);
  std::shared_ptr<Class_Potential_Origin> mp = model;
  auto mt = std::make_shared<MinimumTracer>(mp, c.value("minimizer", 6), c.value("threads", false));
  if (c.contains("htv")) mt->HighTemperatureVEV = c.at("htv").get<std::vector<double>>();
  if (c.contains("saved"))
    for (auto &s : c.at("saved"))
    {
      Minimum m;
      m.temp  = s.at(0);
      m.point = s.at(1).get<std::vector<double>>();
      mt->SavedMinimaFromVEVSplitting.push_back(m);
    }
  Vacuum vac(c.at("Tlow"), c.at("Thigh"), mt, mp, c.at("mode"), c.value("num_points", 10), c.value("only_tracing", false));
  json o{{"status", StatusTracingToString.at(vac.status_vacuum)},
         {"coex", StatusCoexPairToString.at(vac.status_coex_pairs)}};
  json ph = json::array(), pr = json::array();
  for (auto &p : vac.PhasesList) ph.push_back(phaseJ(p));
  for (auto &p : vac.CoexPhasesList)
    pr.push_back({{"id", p.coex_pair_id},
                  {"false", p.false_phase.id},
                  {"true", p.true_phase.id},
                  {"lo", num(p.T_low)},
                  {"hi", num(p.T_high)},
                  {"Tc", num(p.crit_temp)},
                  {"st", StatusCritToString.at(p.crit_status)}});
  o["phases"] = ph;
  o["pairs"]  = pr;
  return o;
}

// one phase: constructor, then a history of Add / Get
static json phaseHistory(const json &c)
{
  auto model = synth::make(c);
  std::shared_ptr<Class_Potential_Origin> mp = model;
  auto mt = std::make_shared<MinimumTracer>(mp, c.value("minimizer", 6), false);
  const json &k = c.at("ctor");
  std::string kind = k.at("k");
  std::vector<double> start;
  if (k.contains("start")) start = k.at("start").get<std::vector<double>>();
  double glob = -1, T = k.value("T", 0.0), A = k.value("A", 0.0), B = k.value("B", 0.0);
  Phase p;
  if (kind == "glob1")
    p = Phase(start, A, B, glob, mt);
  else if (kind == "glob2")
    p = Phase(T, start, A, B, glob, mt);
  else if (kind == "one")
    p = Phase(start, A, B, mt);
  else if (kind == "two")
    p = Phase(T, start, A, B, mt);
  else if (kind == "min")
    p = Phase(T, A, B, mt);
  else
    p.MinTracer = mt;
  json states = json::array();
  json o      = phaseJ(p);
  o["glob"]   = num(glob);
  states.push_back(o);
  for (const auto &op : c.at("ops"))
  {
    json r;
    if (op.at("op") == "add")
    {
      Minimum m;
      m.temp      = op.at("T");
      m.point     = op.at("pt").get<std::vector<double>>();
      m.potential = op.at("V");
      p.Add(m);
    }
    else
    {
      Minimum m = p.Get(op.at("T").get<double>());
      r         = {num(m.temp), nums(m.point), num(m.potential)};
    }
    json s   = phaseJ(p);
    s["ret"] = r;
    states.push_back(s);
  }
  return {{"states", states}};
}

// several phases given as curves over ranges; registered, paired, looked up
static json registry(const json &c)
{
  auto model = synth::make(c);
  std::shared_ptr<Class_Potential_Origin> mp = model;
  auto mt = std::make_shared<MinimumTracer>(mp, c.value("minimizer", 6), false);
  Vacuum vac(c.at("Tlow"), c.at("Thigh"), mt, mp, -2, 0, true);
  vac.PhasesList.clear();
  vac.CoexPhasesList.clear();
  vac.status_vacuum     = StatusTracing::Success;
  vac.status_coex_pairs = StatusCoexPair::NoCoexPairs;
  json out = json::array();
  for (const auto &op : c.at("ops"))
  {
    json r;
    std::string what = op.at("op");
    if (what == "reg")
    {
      Phase p;
      p.MinTracer = mt;
      for (const auto &m : op.at("mins"))
      {
        Minimum x;
        x.temp      = m.at(0);
        x.point     = m.at(1).get<std::vector<double>>();
        x.potential = m.at(2);
        p.Add(x);
      }
      if (p.MinimumPhaseVector.size() > 0)
      {
        p.T_low  = p.MinimumPhaseVector.front().temp;
        p.T_high = p.MinimumPhaseVector.back().temp;
      }
      vac.addPhase(p);
    }
    else if (what == "find")
    {
      Minimum x;
      x.temp  = op.at("T");
      x.point = op.at("pt").get<std::vector<double>>();
      r       = vac.MinimumFoundAlready(x);
    }
    else if (what == "overlap")
      r = vac.DoPhasesOverlap(vac.PhasesList.at(op.at("i")), vac.PhasesList.at(op.at("j")));
    else if (what == "globoverlap")
      r = vac.DoGlobMinOverlap(vac.PhasesList.at(op.at("i")), vac.PhasesList.at(op.at("j")));
    else if (what == "number")
      for (std::size_t i = 0; i < vac.PhasesList.size(); i++) vac.PhasesList[i].id = i;
    else if (what == "region")
    {
      vac.setCoexRegion(op.at("mode"));
      r = json{StatusTracingToString.at(vac.status_vacuum), StatusCoexPairToString.at(vac.status_coex_pairs)};
    }
    else if (what == "pairs")
    {
      vac.setCoexPhases();
      r = json::array();
      for (auto &p : vac.CoexPhasesList)
        r.push_back({{"id", p.coex_pair_id},
                     {"false", p.false_phase.id},
                     {"true", p.true_phase.id},
                     {"lo", num(p.T_low)},
                     {"hi", num(p.T_high)},
                     {"Tc", num(p.crit_temp)},
                     {"st", StatusCritToString.at(p.crit_status)}});
    }
    json ph = json::array();
    if (c.value("full", false) or what == "reg")
      for (auto &p : vac.PhasesList)
        ph.push_back({num(p.T_low), num(p.T_high), p.MinimumPhaseVector.size(), nums(p.MinimumPhaseVector.front().point),
                      p.MinimumPhaseVector.front().EdgeOfPhase, p.MinimumPhaseVector.back().EdgeOfPhase, p.id});
    out.push_back({{"r", r}, {"ph", ph}});
  }
  return {{"steps", out}};
}

int main()
{
  Logger::Disable();
  return drive([](const json &c) -> json
  {
    std::string cmd = c.at("cmd");
    if (cmd == "vacuum") return vacuum(c);
    if (cmd == "phase") return phaseHistory(c);
    if (cmd == "registry") return registry(c);
    throw std::runtime_error("cmd");
  });
}
