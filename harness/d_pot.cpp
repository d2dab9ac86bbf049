// LIBS: Minimizer Models ThermalFunctions Utility
// A potential with given coupling tensors: polynomial, derivatives, mass
// matrices, thermal masses and the effective potential as the sum of its parts;
// the same for the shipped models.
#include "synth.h"
#include <BSMPT/ThermalFunctions/ThermalFunctions.h>
#include <BSMPT/models/IncludeAllModels.h>
#include <Eigen/Dense>
#include <algorithm>
using namespace BSMPT;
using Eigen::MatrixXcd;
using Eigen::MatrixXd;

class Pot : public synth::Model
{
public:
  // everything of the base class is used as it is
  using Base = Class_Potential_Origin;
  double VEff(const std::vector<double> &v, double T = 0, int diff = 0, int Order = 1) const override
  {
    return Base::VEff(v, T, diff, Order);
  }
  explicit Pot(const json &c) : synth::Model(c.at("n"), order(c), {}, std::vector<double>(order(c).size(), 1.))
  {
    NHiggs  = c.at("n");
    NGauge  = std::max<std::size_t>(1, c.at("ng").get<std::size_t>());
    NQuarks = NLepton = std::max<std::size_t>(1, c.at("nf").get<std::size_t>());
    initVectors();
    fill(c.at("L"), Curvature_Higgs_L1, Curvature_Higgs_L2, Curvature_Higgs_L3, Curvature_Higgs_L4);
    fill(c.at("C"), Curvature_Higgs_CT_L1, Curvature_Higgs_CT_L2, Curvature_Higgs_CT_L3, Curvature_Higgs_CT_L4);
    for (const auto &g : c.at("G"))
    {
      std::size_t a = g[0][0].get<int>() - 1, b = g[0][1].get<int>() - 1, i = g[1][0].get<int>() - 1, j = g[1][1].get<int>() - 1;
      double x = g[2];
      Curvature_Gauge_G2H2[a][b][i][j] = Curvature_Gauge_G2H2[b][a][i][j] = x;
      Curvature_Gauge_G2H2[a][b][j][i] = Curvature_Gauge_G2H2[b][a][j][i] = x;
    }
    for (const auto &y : c.at("Y"))
    {
      std::size_t a = y[0][0].get<int>() - 1, b = y[0][1].get<int>() - 1, k = y[1];
      std::complex<double> z(y[2][0].get<double>(), y[2][1].get<double>());
      if (k == 0)
      {
        Curvature_Quark_F2[a][b] = Curvature_Quark_F2[b][a] = z;
        Curvature_Lepton_F2[a][b] = Curvature_Lepton_F2[b][a] = z;
      }
      else
      {
        Curvature_Quark_F2H1[a][b][k - 1] = Curvature_Quark_F2H1[b][a][k - 1] = z;
        Curvature_Lepton_F2H1[a][b][k - 1] = Curvature_Lepton_F2H1[b][a][k - 1] = z;
      }
    }
    SetCurvatureDone = true;
    gaugeGeneral     = c.at("dgden").get<int>() > 0;
    CalculateDebye();
    if (gaugeGeneral) CalculateDebyeGauge();
  }
  bool gaugeGeneral = false;
  const std::vector<std::vector<double>> &debyeG() const { return DebyeGauge; }
  static std::vector<std::size_t> order(const json &c)
  {
    std::vector<std::size_t> o;
    for (int i : c.at("ord").get<std::vector<int>>()) o.push_back(i - 1);
    return o;
  }
  // tensors are given for sorted indices only; the base class symmetrises
  void fill(const json &t, std::vector<double> &l1, std::vector<std::vector<double>> &l2,
            std::vector<std::vector<std::vector<double>>> &l3,
            std::vector<std::vector<std::vector<std::vector<double>>>> &l4)
  {
    for (const auto &rank : t)
      for (const auto &e : rank)
      {
        auto s   = e[0].get<std::vector<int>>();
        double x = e[1];
        if (s.size() == 1) l1[s[0] - 1] = x;
        if (s.size() == 2) l2[s[0] - 1][s[1] - 1] = x;
        if (s.size() == 3) l3[s[0] - 1][s[1] - 1][s[2] - 1] = x;
        if (s.size() == 4) l4[s[0] - 1][s[1] - 1][s[2] - 1][s[3] - 1] = x;
      }
    sym2Dim(l2, NHiggs, NHiggs);
    sym3Dim(l3, NHiggs, NHiggs, NHiggs);
    sym4Dim(l4, NHiggs, NHiggs, NHiggs, NHiggs);
  }
  // does every permutation of indices read the declared value
  int asymmetric(const json &t, bool ct) const
  {
    int bad = 0;
    for (const auto &rank : t)
      for (const auto &e : rank)
      {
        auto s   = e[0].get<std::vector<int>>();
        double x = e[1];
        std::sort(s.begin(), s.end());
        do
        {
          double y = 0;
          if (s.size() == 1) y = (ct ? Curvature_Higgs_CT_L1 : Curvature_Higgs_L1)[s[0] - 1];
          if (s.size() == 2) y = (ct ? Curvature_Higgs_CT_L2 : Curvature_Higgs_L2)[s[0] - 1][s[1] - 1];
          if (s.size() == 3) y = (ct ? Curvature_Higgs_CT_L3 : Curvature_Higgs_L3)[s[0] - 1][s[1] - 1][s[2] - 1];
          if (s.size() == 4) y = (ct ? Curvature_Higgs_CT_L4 : Curvature_Higgs_L4)[s[0] - 1][s[1] - 1][s[2] - 1][s[3] - 1];
          bad += y != x;
        } while (std::next_permutation(s.begin(), s.end()));
      }
    return bad;
  }
};

static json mat(const MatrixXd &m)
{
  json r = json::array();
  for (int i = 0; i < m.rows(); i++)
  {
    json row = json::array();
    for (int j = 0; j < m.cols(); j++) row.push_back(num(m(i, j)));
    r.push_back(row);
  }
  return r;
}
static json mat(const MatrixXcd &m) { return json{mat(MatrixXd(m.real())), mat(MatrixXd(m.imag()))}; }
template <class T> static json grid(const std::vector<std::vector<T>> &m)
{
  json r = json::array();
  for (auto &row : m) r.push_back(nums(row));
  return r;
}

// eigenvalues of a symmetric matrix given in the case
static std::vector<double> eig(const json &m)
{
  int n = m.size();
  if (n == 0) return {0.};
  MatrixXd a(n, n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) a(i, j) = m[i][j];
  Eigen::SelfAdjointEigenSolver<MatrixXd> es(a);
  std::vector<double> r(n);
  for (int i = 0; i < n; i++) r[i] = es.eigenvalues()[i];
  return r;
}
static std::vector<double> singular(const json &re, const json &im)
{
  int n = re.size();
  if (n == 0) return {0.};
  MatrixXcd a(n, n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) a(i, j) = std::complex<double>(re[i][j].get<double>(), im[i][j].get<double>());
  Eigen::JacobiSVD<MatrixXcd> svd(a);
  std::vector<double> r(n);
  for (int i = 0; i < n; i++) r[n - 1 - i] = std::pow(svd.singularValues()[i], 2);
  return r;
}

// one-loop potential put together from the parts of the specification
static double reference(const json &parts, const std::map<std::string, std::vector<double>> &m0,
                        const std::map<std::string, std::vector<double>> &mT, double T, double scale, double eps)
{
  const double pi = M_PI;
  double res      = 0;
  for (const auto &p : parts)
  {
    const auto &ms = m0.at(p.at("kind"));
    double dof     = p.at("dof"), cb = p.at("cb6").get<double>() / 6;
    bool boson = p.at("boson");
    for (double x : ms)
    {
      if (std::abs(x) < eps) x = 0;
      double v = 0;
      if (std::abs(x) >= 1e-4) v += x * x / (64 * pi * pi) * (std::log(std::abs(x) / (scale * scale)) - cb);
      if (T != 0)
        v += std::pow(T, 4) / (2 * pi * pi) *
             (boson ? ThermalFunctions::JbosonInterpolated(x / (T * T)) : ThermalFunctions::JfermionInterpolated(x / (T * T)));
      res += dof * v;
    }
    if (p.at("daisy") == 1)
    {
      double s = 0;
      for (double x : mT.at(p.at("kind"))) s += x > 0 ? std::pow(x, 1.5) : 0;
      for (double x : ms) s -= x > 0 ? std::pow(x, 1.5) : 0;
      res += -T / (12 * pi) * s;
    }
  }
  return res;
}

static json addT(json m, const json &d, double den, double T)
{
  for (std::size_t i = 0; i < m.size(); i++)
    for (std::size_t j = 0; j < m.size(); j++) m[i][j] = m[i][j].get<double>() + d[i][j].get<double>() / den * T * T;
  return m;
}
static json scaled(json m, double f)
{
  for (auto &r : m)
    for (auto &x : r) x = x.get<double>() * f;
  return m;
}

static json refOf(const json &c, const json &ex, double T, const Pot &p)
{
  std::map<std::string, std::vector<double>> m0, mT;
  json M      = scaled(ex.at("M2"), 0.5);
  m0["higgs"] = eig(M);
  mT["higgs"] = eig(addT(M, c.at("debye24"), 24, T));
  json g      = scaled(ex.at("gauge2"), 0.5);
  m0["gauge"] = eig(g);
  for (std::size_t a = 0; a < g.size(); a++)
    if (p.gaugeGeneral) g[a][a] = g[a][a].get<double>() + c.at("dgnum")[a].get<double>() / c.at("dgden").get<double>() * T * T;
  mT["gauge"]  = eig(g);
  m0["quark"]  = singular(ex.at("fre"), ex.at("fim"));
  m0["lepton"] = m0["quark"];
  json r;
  for (auto &kv : m0) r["m0"][kv.first] = nums(kv.second);
  for (auto &kv : mT) r["mT"][kv.first] = nums(kv.second);
  r["loop"] = num(reference(c.at("parts"), m0, mT, T, p.get_scale(), 1e-10));
  return r;
}

// What the temperature derivative is short of for a known reason: it lacks the
// derivative of the thermal masses, takes the eigenvalues of the derivative of the
// Higgs mass matrix for the Higgs masses, and integrates the thermal functions
// where the potential interpolates them.
static double missing(const Class_Potential_Origin &p, const std::vector<double> &v, double T)
{
  auto sum = [](const std::vector<double> &l)
  {
    double s = 0;
    for (double x : l)
      if (x > 0) s += std::pow(x, 1.5);
    return s;
  };
  auto cubes = [&](double t) { return sum(p.HiggsMassesSquared(v, t)) + sum(p.GaugeMassesSquared(v, t)); };
  double h = 1e-4 * (1 + T);
  double r = -T / (12 * M_PI) * (cubes(T + h) - cubes(T - h)) / (2 * h);
  auto pieces = [&](const std::vector<double> &l, double dof, bool boson)
  {
    for (double x : l)
    {
      double q = x / (T * T);
      if (q < 0) continue;
      double v0 = boson ? ThermalFunctions::JbosonInterpolated(q) - ThermalFunctions::JbosonNumericalIntegration(q, 0)
                        : ThermalFunctions::JfermionInterpolated(q) - ThermalFunctions::JfermionNumericalIntegration(q, 0);
      double v1 = boson ? ThermalFunctions::JbosonInterpolated(q, 1) - ThermalFunctions::JbosonNumericalIntegration(q, 1)
                        : ThermalFunctions::JfermionInterpolated(q, 1) - ThermalFunctions::JfermionNumericalIntegration(q, 1);
      r += dof / (2 * M_PI * M_PI) * (4 * T * T * T * v0 - 2 * T * x * v1);
    }
  };
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(p.HiggsMassMatrix(v, T, -1), Eigen::EigenvaluesOnly);
  std::vector<double> slopes(es.eigenvalues().data(), es.eigenvalues().data() + es.eigenvalues().size());
  for (double x : p.HiggsMassesSquared(v, 0))
  {
    double q = x / (T * T);
    r += 1 / (2 * M_PI * M_PI) * (4 * T * T * T * (ThermalFunctions::JbosonInterpolated(q) - ThermalFunctions::JbosonNumericalIntegration(0, 0)) -
                                  2 * T * x * ThermalFunctions::JbosonInterpolated(q, 1));
  }
  r += -1 / (12 * M_PI) * (sum(p.HiggsMassesSquared(v, T)) - sum(p.HiggsMassesSquared(v, 0)) - sum(slopes));
  pieces(p.GaugeMassesSquared(v, 0), 3, true);
  pieces(p.QuarkMassesSquared(v), -6, false);
  pieces(p.LeptonMassesSquared(v), -2, false);
  return r;
}

static json look(const Pot &p, const std::vector<double> &v, double T)
{
  json o;
  int n = v.size();
  o["V"]    = num(p.VTree(v));
  o["Vx"]   = num(p.VTree(v, 0, true));
  o["C"]    = num(p.CounterTerm(v));
  o["loop"] = num(p.V1Loop(v, T, 0));
  o["eff"]  = num(p.VEff(v, T));
  o["eff0"] = num(p.VEff(v, T, 0, 0));
  json d = json::array(), cd = json::array(), h3 = json::array(), ed = json::array(), fd = json::array(), e0 = json::array();
  for (int i = 1; i <= n; i++)
  {
    d.push_back(num(p.VTree(v, i)));
    cd.push_back(num(p.CounterTerm(v, i)));
    h3.push_back(mat(p.HiggsMassMatrix(v, 0, i)));
    ed.push_back(num(p.VEff(v, T, i)));
    e0.push_back(num(p.VEff(v, T, i, 0)));
    json f = json::array();
    for (double h : {1e-3, 5e-4})
    {
      auto a = v, b = v;
      a[i - 1] -= h;
      b[i - 1] += h;
      f.push_back(num((p.VEff(b, T) - p.VEff(a, T)) / (2 * h)));
    }
    fd.push_back(f);
  }
  o["dV"] = d;
  o["dC"] = cd;
  o["M3"] = h3;
  o["dE"] = ed;
  o["dE0"] = e0;
  o["fd"] = fd;
  if (T > 0)
  {
    o["dT"]  = num(p.VEff(v, T, -1));
    json f   = json::array();
    for (double h : {1e-3, 5e-4}) f.push_back(num((p.VEff(v, T + h) - p.VEff(v, T - h)) / (2 * h)));
    o["fdT"] = f;
    o["missing"] = num(missing(p, v, T));
    o["MT1"] = mat(p.HiggsMassMatrix(v, T, -1));
  }
  o["M2"]    = mat(p.HiggsMassMatrix(v, 0, 0));
  o["M2T"]   = mat(p.HiggsMassMatrix(v, T, 0));
  o["h0"]    = nums(p.HiggsMassesSquared(v, 0));
  o["hT"]    = nums(p.HiggsMassesSquared(v, T));
  o["g0"]    = nums(p.GaugeMassesSquared(v, 0));
  o["gT"]    = nums(p.GaugeMassesSquared(v, T));
  o["q"]     = nums(p.QuarkMassesSquared(v));
  o["l"]     = nums(p.LeptonMassesSquared(v));
  o["Q"]     = mat(p.QuarkMassMatrix(v));
  o["Le"]    = mat(p.LeptonMassMatrix(v));
  return o;
}

// the functions that accept a shortened list give what they give for the full one
static json shortsOf(const Class_Potential_Origin &p, const std::vector<double> &s, const std::vector<double> &u, double T)
{
  json r = json::array();
  auto cmp = [&](const std::string &w, double a, double b)
  {
    if (not(a == b or (std::isnan(a) and std::isnan(b)))) r.push_back({w, num(a), num(b)});
  };
  auto cmpv = [&](const std::string &w, const std::vector<double> &a, const std::vector<double> &b)
  {
    if (a != b) r.push_back({w, nums(a), nums(b)});
  };
  for (int order : {1, 0})
    for (double t : {0., T})
      for (int d = -1; d <= (int)u.size(); d++)
        cmp("VEff(T=" + std::to_string(t) + ",diff=" + std::to_string(d) + ",order=" + std::to_string(order) + ")", p.VEff(s, t, d, order),
            p.VEff(u, t, d, order));
  for (double t : {0., T})
  {
    cmpv("HiggsMassesSquared", p.HiggsMassesSquared(s, t), p.HiggsMassesSquared(u, t));
    cmpv("GaugeMassesSquared", p.GaugeMassesSquared(s, t), p.GaugeMassesSquared(u, t));
  }
  cmpv("QuarkMassesSquared", p.QuarkMassesSquared(s), p.QuarkMassesSquared(u));
  cmpv("LeptonMassesSquared", p.LeptonMassesSquared(s), p.LeptonMassesSquared(u));
  if (p.HiggsMassMatrix(s, T) != p.HiggsMassMatrix(u, T)) r.push_back({"HiggsMassMatrix", 0, 0});
  return r;
}

// ---------------------------------------------------------------- shipped models
struct Open : Class_Potential_Origin
{
  template <class M> static const M &get(const Class_Potential_Origin &o, M Class_Potential_Origin::*m) { return o.*m; }
  static const auto &L1(const Class_Potential_Origin &o) { return get(o, &Open::Curvature_Higgs_L1); }
  static const auto &C1(const Class_Potential_Origin &o) { return get(o, &Open::Curvature_Higgs_CT_L1); }
  static const auto &C2(const Class_Potential_Origin &o) { return get(o, &Open::Curvature_Higgs_CT_L2); }
  static const auto &C3(const Class_Potential_Origin &o) { return get(o, &Open::Curvature_Higgs_CT_L3); }
  static const auto &C4(const Class_Potential_Origin &o) { return get(o, &Open::Curvature_Higgs_CT_L4); }
  static const auto &DG(const Class_Potential_Origin &o) { return get(o, &Open::DebyeGauge); }
};

using T1 = std::vector<double>;
using T2 = std::vector<T1>;
using T3 = std::vector<T2>;
using T4 = std::vector<T3>;
struct Poly
{
  const T1 &a;
  const T2 &b;
  const T3 &c;
  const T4 &d;
  std::size_t n;
  double value(const T1 &v, double *scale = nullptr) const
  {
    double r = 0, s = 0;
    auto add = [&](double x) { r += x, s += std::abs(x); };
    for (std::size_t i = 0; i < n; i++)
    {
      add(a[i] * v[i]);
      for (std::size_t j = 0; j < n; j++)
      {
        add(b[i][j] * v[i] * v[j] / 2);
        for (std::size_t k = 0; k < n; k++)
        {
          add(c[i][j][k] * v[i] * v[j] * v[k] / 6);
          for (std::size_t l = 0; l < n; l++) add(d[i][j][k][l] * v[i] * v[j] * v[k] * v[l] / 24);
        }
      }
    }
    if (scale) *scale = s;
    return r;
  }
  double grad(const T1 &v, std::size_t i, double *scale) const
  {
    double r = 0, s = 0;
    auto add = [&](double x) { r += x, s += std::abs(x); };
    add(a[i]);
    for (std::size_t j = 0; j < n; j++)
    {
      add(b[i][j] * v[j]);
      for (std::size_t k = 0; k < n; k++)
      {
        add(c[i][j][k] * v[j] * v[k] / 2);
        for (std::size_t l = 0; l < n; l++) add(d[i][j][k][l] * v[j] * v[k] * v[l] / 6);
      }
    }
    *scale = s;
    return r;
  }
  double hess(const T1 &v, std::size_t i, std::size_t j) const
  {
    double r = b[i][j];
    for (std::size_t k = 0; k < n; k++)
    {
      r += c[i][j][k] * v[k];
      for (std::size_t l = 0; l < n; l++) r += d[i][j][k][l] * v[k] * v[l] / 2;
    }
    return r;
  }
  double third(const T1 &v, std::size_t i, std::size_t j, std::size_t k) const
  {
    double r = c[i][j][k];
    for (std::size_t l = 0; l < n; l++) r += d[i][j][k][l] * v[l];
    return r;
  }
  // how far from being the same under a permutation of the indices
  int asymmetric() const
  {
    int bad   = 0;
    auto diff = [](double x, double y) { return std::abs(x - y) > 1e-12 * (std::abs(x) + std::abs(y)); };
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t j = 0; j < n; j++)
      {
        bad += diff(b[i][j], b[j][i]);
        for (std::size_t k = 0; k < n; k++)
        {
          bad += diff(c[i][j][k], c[j][i][k]) + diff(c[i][j][k], c[i][k][j]);
          for (std::size_t l = 0; l < n; l++)
            bad += diff(d[i][j][k][l], d[j][i][k][l]) + diff(d[i][j][k][l], d[i][k][j][l]) + diff(d[i][j][k][l], d[i][j][l][k]);
        }
      }
    return bad;
  }
};

static std::vector<double> sv(const MatrixXcd &m)
{
  Eigen::JacobiSVD<MatrixXcd> svd(m);
  std::vector<double> r;
  for (int i = m.rows() - 1; i >= 0; i--) r.push_back(std::pow(svd.singularValues()[i], 2));
  return r;
}
static std::vector<double> ev(const MatrixXd &m)
{
  Eigen::SelfAdjointEigenSolver<MatrixXd> es(m);
  return std::vector<double>(es.eigenvalues().data(), es.eigenvalues().data() + m.rows());
}

static json ship(const json &c)
{
  auto m = ModelID::FChoose(ModelID::getModel(c.at("model").get<std::string>()), GetSMConstants());
  m->setUseIndexCol(c.at("legend"));
  auto read = m->initModel(c.at("line").get<std::string>());
  // (a saddle point of the tree-level potential has no counterterms)
  bool finite = true;
  for (double x : read.second) finite = finite and std::isfinite(x);
  if (not finite)
  {
    for (std::size_t k = 0; k < read.second.size(); k++) read.second[k] = 0.25 * (k + 1);
    m->set_All(read.first, read.second);
  }
  const auto &p = *m;
  std::size_t n = p.get_NHiggs();
  json bad      = json::array();
  int compared  = 0;
  auto cmp      = [&](const std::string &w, double x, double y, double tol)
  {
    compared++;
    if (not(std::abs(x - y) <= tol)) bad.push_back({w, num(x), num(y)});
  };
  auto cmps = [&](const std::string &w, const T1 &x, const T1 &y, double rel, double abs)
  {
    if (x.size() != y.size()) bad.push_back({w, nums(x), nums(y)});
    double s = 0;
    for (double z : y) s = std::max(s, std::abs(z));
    for (std::size_t k = 0; k < x.size() and k < y.size(); k++) cmp(w, x[k], y[k], rel * s + abs);
  };
  Poly L{Open::L1(p), p.Get_Curvature_Higgs_L2(), p.Get_Curvature_Higgs_L3(), p.Get_Curvature_Higgs_L4(), n};
  Poly C{Open::C1(p), Open::C2(p), Open::C3(p), Open::C4(p), n};
  cmp("symmetry of the couplings", L.asymmetric(), 0, 0);
  cmp("symmetry of the counterterms", C.asymmetric(), 0, 0);
  const auto &G = p.Get_Curvature_Gauge_G2H2();
  std::size_t g = G.size();
  for (std::size_t a = 0; a < g; a++)
    for (std::size_t b = 0; b < g; b++)
      for (std::size_t i = 0; i < n; i++)
        for (std::size_t j = 0; j < n; j++)
          if (std::abs(G[a][b][i][j] - G[b][a][i][j]) + std::abs(G[a][b][i][j] - G[a][b][j][i]) > 1e-12)
            bad.push_back({"symmetry of the gauge couplings", a, b, i, j});
  const auto &Yq = p.Get_Curvature_Quark_F2H1();
  const auto &Yl = p.Get_Curvature_Lepton_F2H1();
  for (auto *Y : {&Yq, &Yl})
    for (std::size_t a = 0; a < Y->size(); a++)
      for (std::size_t b = 0; b < Y->size(); b++)
        for (std::size_t i = 0; i < n; i++)
          if (std::abs((*Y)[a][b][i] - (*Y)[b][a][i]) > 1e-12) bad.push_back({"symmetry of the Yukawa couplings", a, b, i});
  // thermal masses
  // (the closed forms leave out fermions lighter than the bottom quark)
  MatrixXd D(n, n), light(n, n);
  for (std::size_t i = 0; i < n; i++)
    for (std::size_t j = 0; j < n; j++)
    {
      double d = 0, w = 0;
      for (std::size_t k = 0; k < n; k++) d += L.d[i][j][k][k];
      for (std::size_t k = 0; k < g; k++) d += 3 * G[k][k][i][j];
      for (std::size_t a = 0; a < Yq.size(); a++)
        for (std::size_t b = 0; b < Yq.size(); b++)
        {
          double x = 6 * (std::conj(Yq[a][b][i]) * Yq[a][b][j]).real();
          d += x;
          if (std::abs(Yq[a][b][i]) < 0.012) w += std::abs(x);
        }
      for (std::size_t a = 0; a < Yl.size(); a++)
        for (std::size_t b = 0; b < Yl.size(); b++)
        {
          double x = 2 * (std::conj(Yl[a][b][i]) * Yl[a][b][j]).real();
          d += x;
          w += std::abs(x);
        }
      D(i, j)     = d / 24;
      light(i, j) = w / 24;
    }
  MatrixXd DH(n, n);
  for (std::size_t i = 0; i < n; i++)
    for (std::size_t j = 0; j < n; j++)
    {
      DH(i, j) = p.get_DebyeHiggs()[i][j];
      cmp("thermal mass " + std::to_string(i) + " " + std::to_string(j), DH(i, j), D(i, j), 1.01e-5 + light(i, j));
    }
  {
    auto q = ModelID::FChoose(ModelID::getModel(c.at("model").get<std::string>()), GetSMConstants());
    q->setUseIndexCol(c.at("legend"));
    q->initModel(c.at("line").get<std::string>());
    q->CalculateDebye(true);
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t j = 0; j < n; j++)
        cmp("thermal mass from couplings " + std::to_string(i) + " " + std::to_string(j), q->get_DebyeHiggs()[i][j], std::abs(D(i, j)) <= 1e-5 ? 0 : D(i, j),
            1e-10);
  }
  json smooth = 0, short_ = 0;
  for (const auto &pt : c.at("points"))
  {
    auto v   = pt.at("v").get<T1>();
    double T = pt.at("T");
    double s;
    double tree = L.value(v, &s);
    // closed forms hold in vacuum directions
    bool vac = true;
    for (std::size_t i = 0; i < n; i++)
      if (v[i] != 0 and std::find(p.Get_VevOrder().begin(), p.Get_VevOrder().end(), i) == p.Get_VevOrder().end()) vac = false;
    auto whole = [&](const T1 &w, double t)
    { return p.VEff(w, t) - p.VTree(w) - p.CounterTerm(w) + p.VTree(w, 0, true) + p.CounterTerm(w, 0, true); };
    if (vac) cmp("tree level", p.VTree(v), tree, 1e-11 * s + 1e-9);
    cmp("tree level from couplings", p.VTree(v, 0, true), tree, 1e-11 * s + 1e-9);
    double ct = C.value(v, &s);
    if (vac) cmp("counterterms", p.CounterTerm(v), ct, 1e-11 * s + 1e-9);
    cmp("counterterms from couplings", p.CounterTerm(v, 0, true), ct, 1e-11 * s + 1e-9);
    for (std::size_t i = 0; i < n; i++)
    {
      double e = L.grad(v, i, &s);
      cmp("tree derivative " + std::to_string(i + 1), p.VTree(v, i + 1), e, 1e-11 * s + 1e-9);
      cmp("tree derivative in the potential " + std::to_string(i + 1), p.VEff(v, T, i + 1, 0), e, 1e-11 * s + 1e-9);
      e = C.grad(v, i, &s);
      cmp("counterterm derivative " + std::to_string(i + 1), p.CounterTerm(v, i + 1), e, 1e-11 * s + 1e-9);
    }
    MatrixXd M(n, n);
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t j = 0; j < n; j++) M(i, j) = L.hess(v, i, j);
    double mscale = M.cwiseAbs().maxCoeff();
    MatrixXd MT   = M + T * T * DH;
    auto cmpm     = [&](const std::string &w, const MatrixXd &x, const MatrixXd &y, double tol)
    { cmp(w, (x - y).cwiseAbs().maxCoeff(), 0, tol); };
    cmpm("scalar mass matrix", p.HiggsMassMatrix(v, 0, 0), M, 1e-11 * mscale);
    cmpm("thermal scalar mass matrix", p.HiggsMassMatrix(v, T, 0), MT, 1e-11 * mscale + 1e-9 * T * T);
    if (T > 0) cmpm("temperature derivative of the mass matrix", p.HiggsMassMatrix(v, T, -1), 2 * T * DH, 1e-9 * T);
    for (std::size_t k = 0; k < n; k++)
    {
      MatrixXd D3(n, n);
      for (std::size_t i = 0; i < n; i++)
        for (std::size_t j = 0; j < n; j++) D3(i, j) = L.third(v, i, j, k);
      cmpm("derivative of the mass matrix", p.HiggsMassMatrix(v, 0, k + 1), D3, 1e-10 * (1 + D3.cwiseAbs().maxCoeff()));
    }
    MatrixXd MG = MatrixXd::Zero(g, g);
    for (std::size_t a = 0; a < g; a++)
      for (std::size_t b = 0; b < g; b++)
        for (std::size_t i = 0; i < n; i++)
          for (std::size_t j = 0; j < n; j++) MG(a, b) += G[a][b][i][j] * v[i] * v[j] / 2;
    MatrixXd MGT = MG;
    for (std::size_t a = 0; a < g; a++)
      for (std::size_t b = 0; b < g; b++) MGT(a, b) += T * T * Open::DG(p)[a][b];
    auto fm = [&](const auto &Y, const auto &Y0)
    {
      MatrixXcd F(Y.size(), Y.size());
      for (std::size_t a = 0; a < Y.size(); a++)
        for (std::size_t b = 0; b < Y.size(); b++)
        {
          F(a, b) = Y0[a][b];
          for (std::size_t i = 0; i < n; i++) F(a, b) += Y[a][b][i] * v[i];
        }
      return F;
    };
    MatrixXcd FQ = fm(Yq, p.Get_Curvature_Quark_F2()), FL = fm(Yl, p.Get_Curvature_Lepton_F2());
    cmp("quark mass matrix", (p.QuarkMassMatrix(v) - FQ).cwiseAbs().maxCoeff(), 0, 1e-9);
    cmp("lepton mass matrix", (p.LeptonMassMatrix(v) - FL).cwiseAbs().maxCoeff(), 0, 1e-9);
    std::map<std::string, T1> m0, mT;
    m0["higgs"] = ev(M);
    mT["higgs"] = ev(MT);
    m0["gauge"] = ev(MG);
    mT["gauge"] = ev(MGT);
    m0["quark"] = sv(FQ);
    m0["lepton"] = sv(FL);
    cmps("scalar masses", p.HiggsMassesSquared(v, 0), m0["higgs"], 1e-9, 1.01e-5);
    cmps("thermal scalar masses", p.HiggsMassesSquared(v, T), mT["higgs"], 1e-9, 1.01e-5);
    cmps("gauge masses", p.GaugeMassesSquared(v, 0), m0["gauge"], 1e-9, 1.01e-5);
    cmps("thermal gauge masses", p.GaugeMassesSquared(v, T), mT["gauge"], 1e-9, 1.01e-5);
    cmps("quark masses", p.QuarkMassesSquared(v), m0["quark"], 1e-9, 1.01e-5);
    cmps("lepton masses", p.LeptonMassesSquared(v), m0["lepton"], 1e-9, 1.01e-5);
    double loop = reference(c.at("parts"), m0, mT, T, p.get_scale(), 1e-10);
    cmp("one-loop contribution", p.V1Loop(v, T, 0), loop, 1e-7 * std::abs(loop) + 1e-4 * (1 + T));
    std::map<std::string, double> part{{"tree", p.VTree(v)}, {"counterterms", p.CounterTerm(v)}, {"loop", p.V1Loop(v, T, 0)}};
    for (auto &o : {std::pair<std::string, int>{"loop", 1}, {"order0", 0}})
    {
      double sum = 0, mag = 0;
      for (const auto &k : c.at("included").at(o.first)) sum += part[k.get<std::string>()], mag += std::abs(part[k.get<std::string>()]);
      cmp("potential as a sum (" + o.first + ")", p.VEff(v, T, 0, o.second), sum, 1e-10 * mag + 1e-6);
    }
    // shortened lists
    T1 s0;
    for (auto i : p.Get_VevOrder()) s0.push_back(v[i]);
    T1 u(n, 0.);
    for (std::size_t k = 0; k < s0.size(); k++) u[p.Get_VevOrder()[k]] = s0[k];
    if (p.MinimizeOrderVEV(s0) != u) bad.push_back({"what a shortened list stands for", nums(p.MinimizeOrderVEV(s0)), nums(u)});
    for (auto &x : shortsOf(p, s0, u, T)) bad.push_back(x);
    // derivatives of the whole, where masses neither vanish nor coincide
    auto apart = [](T1 x, double f)
    {
      std::sort(x.begin(), x.end());
      double top = std::max(std::abs(x.front()), std::abs(x.back()));
      for (std::size_t k = 0; k < x.size(); k++)
        if (std::abs(x[k]) < f * top or (k and x[k] - x[k - 1] < f * top)) return false;
      return true;
    };
    if (apart(m0["higgs"], 2e-4) and apart(mT["higgs"], 2e-4))
    {
      smooth = smooth.get<int>() + 1;
      auto der = [&](const std::string &w, double d, std::function<double(double)> f, double h, double tol)
      {
        double a = (f(h) - f(-h)) / (2 * h), b = (f(h / 2) - f(-h / 2)) / h, e = std::abs(a - b);
        cmp(w, d, b, 20 * e + tol);
        return b;
      };
      double vs = std::abs(p.VEff(v, T)), scale = vs / 100 + 1;
      for (std::size_t i = 0; i < n; i++)
        der("derivative " + std::to_string(i + 1) + " of the potential", p.VEff(v, T, i + 1),
            [&](double h)
            {
              auto w = v;
              w[i] += h;
              return whole(w, T);
            },
            0.02, 1e-5 * scale);
      if (T > 0)
      {
        auto n   = bad.size();
        double d = p.VEff(v, T, -1), m = missing(p, v, T);
        double b = der("temperature derivative of the potential", d, [&](double h) { return whole(v, T + h); }, 0.02, 1e-5 * scale);
        if (bad.size() > n and std::abs(d - (b - m)) <= 1e-3 * std::abs(m) + 1e-4 * scale)
        {
          bad.erase(bad.begin() + n);
          short_ = short_.get<int>() + 1;
        }
      }
    }
  }
  return {{"bad", bad}, {"compared", compared}, {"smooth", smooth}, {"short", short_}, {"tensors", {L.asymmetric(), C.asymmetric()}}};
}

static json one(const json &c)
{
  std::string cmd = c.at("cmd");
  if (cmd == "pot")
  {
    Pot p(c);
    auto v = c.at("v").get<std::vector<double>>(), s = c.at("short").get<std::vector<double>>();
    double T = c.at("T");
    json o;
    o["asym"]   = p.asymmetric(c.at("L"), false) + p.asymmetric(c.at("C"), true);
    o["scale"]  = num(p.get_scale());
    o["full"]   = look(p, v, T);
    o["debye"]  = grid(p.get_DebyeHiggs());
    o["debyeG"] = grid(p.debyeG());
    o["ref"]    = refOf(c, c.at("full"), T, p);
    auto u      = p.MinimizeOrderVEV(s);
    o["u"]      = nums(u);
    o["short"]  = shortsOf(p, s, u, T);
    json refused = json::array();
    for (std::size_t k = 0; k <= v.size() + 2; k++)
    {
      if (k == v.size() or k == s.size()) continue;
      bool r = false;
      try
      {
        p.VEff(std::vector<double>(k, 1.), T);
      }
      catch (const std::exception &)
      {
        r = true;
      }
      refused.push_back(r);
    }
    o["refused"] = refused;
    p.SetUseTreeLevel(true);
    o["treeonly"] = num(p.VEff(v, T));
    p.SetUseTreeLevel(false);
    o["again"] = num(p.VEff(v, T));
    return o;
  }
  if (cmd == "ship") return ship(c);
  return {{"exception", "cmd"}};
}

int main() { return drive(one); }
