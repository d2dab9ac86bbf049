// LIBS: Utility
// Replays histories of CliParser.tla and Logger.tla.
#include "drv.h"
#include <BSMPT/utility/Logger.h>
#include <BSMPT/utility/parser.h>
#include <fstream>
#include <memory>
#include <sstream>
using namespace BSMPT;

#ifndef DRIVER_FULL
// The two symbols the utility library takes from the models library; weak, so
// that a real definition wins.
namespace BSMPT
{
__attribute__((weak)) void ShowInputError() {}
namespace ModelID
{
__attribute__((weak)) std::unordered_map<ModelIDs, std::string> InvertModelNames()
{
  return {};
}
} // namespace ModelID
} // namespace BSMPT
#endif

static std::string scratch;
static int fileno_ = 0;
static std::string newfile() { return scratch + "/f" + std::to_string(getpid()) + "_" + std::to_string(fileno_++); }

static std::unique_ptr<parser> make(const json &c)
{
  std::unique_ptr<parser> p;
  if (c.at("ctor") == "plain")
    p = std::make_unique<parser>();
  else
    p = std::make_unique<parser>(true);
  if (c.value("minim", false)) p->enable_minimizer_options();
  return p;
}

// the option that names the JSON file, in varying spelling
static std::string jsonopt()
{
  static int n = 0;
  const char *v[] = {"--json=", "--JSON=", "--Json=", "-json="};
  return v[n++ % 4];
}

static const char *HEADER = "@@HELP-HEADER@@";
static std::size_t count(const std::string &s, const std::string &w)
{
  std::size_t n = 0;
  for (auto p = s.find(w); p != std::string::npos; p = s.find(w, p + 1)) n++;
  return n;
}

template <typename T> json rd(const parser &p, const std::string &n)
{
  try
  {
    T v = p.get_value<T>(n);
    return v;
  }
  catch (const std::exception &)
  {
    return nullptr;
  }
}

static json runParser(const json &c)
{
  std::ostringstream os;
  for (auto l : {LoggingLevel::Default}) Logger::SetLevel(l, true);
  Logger::SetOStream(os);
  auto p = make(c);
  p->set_help_header(HEADER);
  p->add_argument("ReqOne", "r1", true);
  p->add_argument("reqTwo", "r2", "dflt", true);
  p->add_argument("optONE", "o1", "dfltopt", false);
  p->add_argument("opttwo", false);
  json out = json::array();
  for (const auto &st : c.at("steps"))
  {
    json o;
    std::string kind = st.at("kind");
    bool refused     = false;
    Logger::SetLevel(LoggingLevel::Default, true);
    try
    {
      if (kind == "cli")
      {
        std::vector<std::string> in;
        for (const auto &t : st.at("enc"))
          in.push_back(t.at("d").get<std::string>() + t.at("sp").at(1).get<std::string>() +
                       t.at("s").get<std::string>() + t.at("v").get<std::string>());
        p->add_input(in);
      }
      else
      {
        std::string f = newfile();
        if (kind == "json")
        {
          json d = json::object();
          for (const auto &kv : st.at("enc")) d[kv.at(0).get<std::string>()] = kv.at(1);
          std::ofstream(f) << d.dump();
        }
        else if (st.at("enc") == "malformed")
          std::ofstream(f) << "{\"reqone\": ";
        p->add_input(std::vector<std::string>{jsonopt() + f});
        unlink(f.c_str());
      }
    }
    catch (const std::exception &e)
    {
      refused = true;
    }
    o["refused"] = refused;
    Logger::SetLevel(LoggingLevel::Default, true);
    json vals = json::object();
    for (const auto &[n, unused] : st.at("obs").at("val").items())
    {
      // read under two spellings
      std::string up = n;
      for (auto &ch : up) ch = std::toupper(ch);
      json a = rd<std::string>(*p, n), b = rd<std::string>(*p, up);
      vals[n] = json{{"s", a}, {"s2", b}, {"i", rd<int>(*p, n)}, {"u", rd<unsigned>(*p, n)},
                     {"d", rd<double>(*p, n)}, {"b", rd<bool>(*p, n)}};
    }
    o["val"]  = vals;
    o["help"] = count(os.str(), HEADER);
    o["req"]  = p->all_required_set();
    out.push_back(o);
  }
  // the throwing variant, at the end since it prints the help
  bool chk = true;
  try
  {
    p->check_required_parameters();
  }
  catch (const parserException &)
  {
    chk = false;
  }
  return json{{"steps", out}, {"check", chk}, {"help_end", count(os.str(), HEADER)}};
}

static const std::vector<std::pair<std::string, LoggingLevel>> LV{
    {"default", LoggingLevel::Default},
    {"minimizerdetailed", LoggingLevel::MinimizerDetailed},
    {"mintracerdetailed", LoggingLevel::MinTracerDetailed},
    {"transitiondetailed", LoggingLevel::TransitionDetailed},
    {"gwdetailed", LoggingLevel::GWDetailed},
    {"bouncedetailed", LoggingLevel::BounceDetailed},
    {"progdetailed", LoggingLevel::ProgDetailed},
    {"ewbgdetailed", LoggingLevel::EWBGDetailed},
    {"debug", LoggingLevel::Debug}};
static LoggingLevel lv(const std::string &n)
{
  for (auto &x : LV)
    if (x.first == n) return x.second;
  throw std::runtime_error("level " + n);
}

static json runLogger(const json &c)
{
  // A and B are two string streams, F a file
  std::ostringstream A, B;
  std::string F = newfile();
  if (!c.value("fresh", false))
  {
    std::map<LoggingLevel, bool> m;
    for (auto &x : LV) m[x.second] = (x.second == LoggingLevel::Default);
    m[LoggingLevel::Complete] = false;
    Logger::SetLevel(m);
  }
  Logger::SetOStream(A);
  auto p = make(c);
  json out = json::array();
  int serial = 0;
  auto readF = [&]() { std::ifstream f(F); std::stringstream s; s << f.rdbuf(); return s.str(); };
  // asking for the status of a level is itself an operation on the logger: it
  // is left out between the steps unless the case wants it
  const bool always = c.value("status", false);
  auto probe        = [&](bool status)
  {
    A.str(""); B.str("");
    std::string f0 = readF();
    json o = json::object();
    for (auto &x : LV)
    {
      std::string a0 = A.str(), b0 = B.str(), g0 = readF();
      std::string msg = "probe " + std::to_string(serial++) + " of " + x.first;
      Logger::Write(x.second, msg);
      auto tail = [&](const std::string &now, const std::string &before) -> json
      {
        std::string d = now.size() >= before.size() ? now.substr(before.size()) : "<shrunk>" + now;
        if (d.empty()) return 0;
        if (d == msg + "\n") return 1;
        return d;
      };
      o[x.first] = json{{"A", tail(A.str(), a0)}, {"B", tail(B.str(), b0)}, {"F", tail(readF(), g0)},
                        {"st", nullptr}};
      if (status) o[x.first]["st"] = Logger::GetLoggingLevelStatus(x.second);
    }
    return o;
  };
  json first       = probe(always);
  std::size_t left = c.at("steps").size();
  for (const auto &st : c.at("steps"))
  {
    std::string op  = st.at("op");
    const auto &arg = st.at("arg");
    json o;
    try
    {
      if (op == "level")
        Logger::SetLevel(lv(arg.at(0)), arg.at(1).get<bool>());
      else if (op == "map")
      {
        std::map<LoggingLevel, bool> m;
        for (const auto &a : arg) m[lv(a.at(0))] = a.at(1).get<bool>();
        Logger::SetLevel(m);
      }
      else if (op == "disable")
        Logger::Disable();
      else if (op == "vector" or op == "parser")
      {
        std::vector<std::string> in;
        for (const auto &a : arg)
        {
          std::string n = a.at(0), v = a.at(1);
          if (n == "other") in.push_back("--Model=" + v);
          else if (n == "disabled") in.push_back(op == "vector" ? "--logginglevel::disabled" : "--logginglevel::disabled=");
          else in.push_back("--logginglevel::" + n + "=" + v);
        }
        if (op == "vector") SetLogger(in);
        else p->add_input(in);
      }
      else if (op == "json")
      {
        json d = json::object();
        for (const auto &a : arg)
          d["logginglevel::" + a.at(0).get<std::string>()] = a.at(1);
        d["logginglevel::default_comment"] = "false";
        std::string f = newfile();
        std::ofstream(f) << d.dump();
        p->add_input(std::vector<std::string>{jsonopt() + f});
        unlink(f.c_str());
      }
      else if (op == "stream")
      {
        if (arg == "A") Logger::SetOStream(A);
        else if (arg == "B") Logger::SetOStream(B);
        else Logger::SetOStream(F);
      }
      o["refused"] = false;
    }
    catch (const std::exception &e)
    {
      o["refused"] = true;
      o["what"]    = e.what();
    }
    o["probe"] = probe(always or --left == 0);
    out.push_back(o);
  }
  Logger::SetOStream(std::cout);
  unlink(F.c_str());
  return json{{"first", first}, {"steps", out}};
}

int main()
{
  char tmpl[] = "/tmp/vcfgXXXXXX";
  scratch     = mkdtemp(tmpl);
  int r       = drive([](const json &c) { return c.at("what") == "parser" ? runParser(c) : runLogger(c); });
  rmdir(scratch.c_str());
  return r;
}
