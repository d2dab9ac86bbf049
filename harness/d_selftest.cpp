// LIBS: Models Minimizer ThermalFunctions Utility
// FLAGS: -Wl,--allow-multiple-definition -fno-inline
// The self-test of a model whose tensors, labels, loop derivatives and vacuum
// search are given, and the symmetry tests of given tensors.
#include "drv.h"
#include <BSMPT/minimizer/Minimizer.h>
#include <BSMPT/models/ClassPotentialOrigin.h>
#include <BSMPT/models/IncludeAllModels.h>
#include <BSMPT/models/ModelTestfunctions.h>
#include <BSMPT/models/SMparam.h>
#include <BSMPT/utility/Logger.h>
#include <Eigen/Dense>
#include <sstream>
using namespace BSMPT;

static std::vector<double> grad, found, asked;
static Eigen::MatrixXd hess;
static int which;
namespace BSMPT
{
std::vector<double> Class_Potential_Origin::WeinbergFirstDerivative() const { return grad; }
std::vector<double> Class_Potential_Origin::WeinbergSecondDerivative() const
{
  return std::vector<double>(hess.data(), hess.data() + hess.size());
}
Eigen::MatrixXd Class_Potential_Origin::WeinbergSecondDerivativeAsMatrixXd() const { return hess; }
namespace Minimizer
{
std::vector<double> Minimize_gen_all_tree_level(const ModelID::ModelIDs &,
                                                const std::vector<double> &,
                                                const std::vector<double> &,
                                                const ISMConstants &,
                                                std::vector<double> &,
                                                const std::vector<double> &start,
                                                int WhichMinimizer,
                                                bool)
{
  asked = start;
  which = WhichMinimizer;
  return found;
}
} // namespace Minimizer
} // namespace BSMPT

static double val(const json &j) { return j.is_string() ? std::nan("") : j.get<double>(); }
static std::vector<double> vals(const json &j)
{
  std::vector<double> r;
  for (const auto &x : j) r.push_back(val(x));
  return r;
}
static std::complex<double> cplx(const json &e, std::size_t k) { return {val(e[k]), val(e[k + 1])}; }

class Given : public Class_Potential_Origin
{
  json c;
  std::vector<std::string> labels(const char *k) const
  {
    std::vector<std::string> r;
    for (int i = 0; i < c.at("labels").at(k).get<int>(); i++) r.push_back(k + std::to_string(i));
    return r;
  }
  // the polynomial itself, and what the model offers instead
  double off(const char *k, const std::vector<double> &v, double x) const
  {
    const auto &o = c.at("other").at(k);
    if (o.is_null()) return x;
    if (v.at(VevOrder.at(o.at("field"))) * o.at("side").get<double>() <= 0) return x;
    return x * val(o.at("factor"));
  }

public:
  Given(const json &cc, const ISMConstants &sm) : Class_Potential_Origin(sm), c(cc)
  {
    Model         = ModelID::ModelIDs::CXSM;
    NNeutralHiggs = NHiggs = c.at("nH");
    NChargedHiggs          = 0;
    NGauge                 = 4;
    NLepton                = c.at("nL");
    NQuarks                = c.at("nQ");
    nPar                   = 1;
    nParCT                 = c.at("nCT");
    VevOrder               = c.at("order").get<std::vector<std::size_t>>();
    nVEV                   = VevOrder.size();
    initVectors();
    auto fill = [&](const char *k, auto f)
    {
      for (const auto &e : c.at(k)) f(e, val(e.back()));
    };
    auto I = [](const json &e, int k) { return e[k].get<std::size_t>(); };
    fill("L1", [&](const json &e, double x) { Curvature_Higgs_L1[I(e, 0)] += x; });
    fill("L2", [&](const json &e, double x) { Curvature_Higgs_L2[I(e, 0)][I(e, 1)] += x; });
    fill("L3", [&](const json &e, double x) { Curvature_Higgs_L3[I(e, 0)][I(e, 1)][I(e, 2)] += x; });
    fill("L4", [&](const json &e, double x) { Curvature_Higgs_L4[I(e, 0)][I(e, 1)][I(e, 2)][I(e, 3)] += x; });
    fill("C1", [&](const json &e, double x) { Curvature_Higgs_CT_L1[I(e, 0)] += x; });
    fill("C2", [&](const json &e, double x) { Curvature_Higgs_CT_L2[I(e, 0)][I(e, 1)] += x; });
    fill("C3", [&](const json &e, double x) { Curvature_Higgs_CT_L3[I(e, 0)][I(e, 1)][I(e, 2)] += x; });
    fill("C4", [&](const json &e, double x) { Curvature_Higgs_CT_L4[I(e, 0)][I(e, 1)][I(e, 2)][I(e, 3)] += x; });
    fill("G", [&](const json &e, double x) { Curvature_Gauge_G2H2[I(e, 0)][I(e, 1)][I(e, 2)][I(e, 3)] += x; });
    fill("FL0", [&](const json &e, double) { Curvature_Lepton_F2[I(e, 0)][I(e, 1)] += cplx(e, 2); });
    fill("FL1", [&](const json &e, double) { Curvature_Lepton_F2H1[I(e, 0)][I(e, 1)][I(e, 2)] += cplx(e, 3); });
    fill("FQ0", [&](const json &e, double) { Curvature_Quark_F2[I(e, 0)][I(e, 1)] += cplx(e, 2); });
    fill("FQ1", [&](const json &e, double) { Curvature_Quark_F2H1[I(e, 0)][I(e, 1)][I(e, 2)] += cplx(e, 3); });
    vevTreeMin           = vals(c.at("v"));
    vevTree              = MinimizeOrderVEV(vevTreeMin);
    SetCurvatureDone     = true;
    UseVTreeSimplified   = c.at("tree");
    UseVCounterSimplified = c.at("counter");
  }
  void ReadAndSet(const std::string &, std::vector<double> &) override {}
  std::vector<std::string> addLegendCT() const override { return labels("ct"); }
  std::vector<std::string> addLegendTemp() const override { return labels("temp"); }
  std::vector<std::string> addLegendTripleCouplings() const override { return labels("triple"); }
  std::vector<std::string> addLegendVEV() const override { return labels("vev"); }
  void set_gen(const std::vector<double> &) override {}
  void set_CT_Pot_Par(const std::vector<double> &) override {}
  void write() const override {}
  void SetCurvatureArrays() override {}
  bool CalculateDebyeSimplified() override { return false; }
  bool CalculateDebyeGaugeSimplified() override { return false; }
  double poly(const std::vector<double> &v, const char *a, const char *b, const char *d, const char *e) const
  {
    double s = 0;
    auto sum = [&](const char *k, std::size_t rank, double share)
    {
      for (const auto &t : c.at(k))
      {
        double p = share;
        for (std::size_t i = 0; i < rank; i++) p *= v.at(t[i]);
        if (p != 0) s += p * val(t[rank]);
      }
    };
    sum(a, 1, 1);
    sum(b, 2, 1. / 2);
    sum(d, 3, 1. / 6);
    sum(e, 4, 1. / 24);
    return s;
  }
  double VTreeSimplified(const std::vector<double> &v) const override { return off("tree", v, poly(v, "L1", "L2", "L3", "L4")); }
  double VCounterSimplified(const std::vector<double> &v) const override
  {
    return off("counter", v, poly(v, "C1", "C2", "C3", "C4"));
  }
  void TripleHiggsCouplings() override {}
  std::vector<double> calc_CT() const override { return std::vector<double>(c.at("calc").get<std::size_t>(), 1.5); }
  std::vector<double> GetCTIdentities() const override { return vals(c.at("identities")); }
  void Debugging(const std::vector<double> &, std::vector<double> &) const override {}
};

static json verdict(ModelTests::TestResults r) { return ModelTests::TestResultsToString(r); }

template <class T> struct Nest
{
  static T make(const std::vector<std::size_t> &d, std::size_t k)
  {
    return T(d[k], Nest<typename T::value_type>::make(d, k + 1));
  }
};
template <> struct Nest<double>
{
  static double make(const std::vector<std::size_t> &, std::size_t) { return 0; }
};
template <> struct Nest<std::complex<double>>
{
  static std::complex<double> make(const std::vector<std::size_t> &, std::size_t) { return 0; }
};
template <class S> using V1 = std::vector<S>;
template <class S> using V2 = std::vector<V1<S>>;
template <class S> using V3 = std::vector<V2<S>>;
template <class S> using V4 = std::vector<V3<S>>;

static json symmetry(const json &c)
{
  const std::string k = c.at("kind");
  auto d              = c.at("dims").get<std::vector<std::size_t>>();
  using C             = std::complex<double>;
  auto I              = [](const json &e, int i) { return e[i].get<std::size_t>(); };
  const int cut       = c.at("cut");
  json r;
  auto drop = [&](auto &t)
  {
    if (cut >= 0) t.at(cut).pop_back();
  };
  if (k == "scalar2")
  {
    auto t = Nest<V2<double>>::make(d, 0);
    for (const auto &e : c.at("set")) t.at(I(e, 0)).at(I(e, 1)) = val(e[2]);
    drop(t);
    r.push_back(verdict(ModelTests::CheckSymmetricTensorScalarSecond(t)));
  }
  else if (k == "scalar3")
  {
    auto t = Nest<V3<double>>::make(d, 0);
    for (const auto &e : c.at("set")) t.at(I(e, 0)).at(I(e, 1)).at(I(e, 2)) = val(e[3]);
    drop(t);
    r.push_back(verdict(ModelTests::CheckSymmetricTensorScalarThird(t)));
  }
  else if (k == "scalar4" or k == "gauge")
  {
    auto t = Nest<V4<double>>::make(d, 0);
    for (const auto &e : c.at("set")) t.at(I(e, 0)).at(I(e, 1)).at(I(e, 2)).at(I(e, 3)) = val(e[4]);
    drop(t);
    r.push_back(verdict(k == "gauge" ? ModelTests::CheckSymmetricTensorGauge(t) : ModelTests::CheckSymmetricTensorScalarFourth(t)));
  }
  else if (k == "fermion2")
  {
    auto t = Nest<V2<C>>::make(d, 0);
    for (const auto &e : c.at("set")) t.at(I(e, 0)).at(I(e, 1)) = cplx(e, 2);
    r.push_back(verdict(ModelTests::CheckSymmetricTensorLeptons(t)));
    r.push_back(verdict(ModelTests::CheckSymmetricTensorQuarks(t)));
  }
  else
  {
    auto t = Nest<V3<C>>::make(d, 0);
    for (const auto &e : c.at("set")) t.at(I(e, 0)).at(I(e, 1)).at(I(e, 2)) = cplx(e, 3);
    r.push_back(verdict(ModelTests::CheckSymmetricTensorLeptonsThird(t)));
    r.push_back(verdict(ModelTests::CheckSymmetricTensorQuarksThird(t)));
  }
  return {{"verdicts", r}};
}

int main()
{
  return drive(
      [](const json &c) -> json
      {
        if (c.contains("kind")) return symmetry(c);
        ISMConstants sm(GetSMConstants());
        std::complex<double> *V[] = {&sm.C_Vud, &sm.C_Vus, &sm.C_Vub, &sm.C_Vcd, &sm.C_Vcs, &sm.C_Vcb, &sm.C_Vtd, &sm.C_Vts, &sm.C_Vtb};
        if (c.contains("masses")) // what a correct model has to give
        {
          json ckm = json::array();
          for (auto *v : V) ckm.push_back({v->real(), v->imag()});
          return {{"boson", {sm.C_MassW, sm.C_MassZ}},
                  {"lepton", {sm.C_MassElectron, sm.C_MassMu, sm.C_MassTau}},
                  {"quark", {sm.C_MassUp, sm.C_MassCharm, sm.C_MassTop, sm.C_MassDown, sm.C_MassStrange, sm.C_MassBottom}},
                  {"ckm", ckm}};
        }
        for (int i = 0; i < 9; i++) *V[i] = {val(c.at("ckm")[i][0]), val(c.at("ckm")[i][1])};
        Given m(c, sm);
        const auto n = m.get_NHiggs();
        grad         = vals(c.at("grad"));
        hess.resize(n, n);
        for (std::size_t i = 0; i < n; i++)
          for (std::size_t j = 0; j < n; j++) hess(i, j) = val(c.at("hess")[i][j]);
        found = vals(c.at("found"));
        asked.clear();
        which = -1;
        std::ostringstream os;
        Logger::SetOStream(os);
        m.CheckImplementation(c.at("which").get<int>());
        Logger::SetOStream(std::cout);
        return {{"text", os.str()},
                {"ctnumber", verdict(ModelTests::CheckCTNumber(m))},
                {"identities", verdict(ModelTests::CheckCTIdentities(m))},
                {"asked", nums(asked)},
                {"which", which}};
      });
}
