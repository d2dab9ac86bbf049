// LIBS: Minimizer Models ThermalFunctions Utility dl
// Multi-start minimisation under controlled schedules: the local minimiser's
// entry points and the locks are interposed; every worker runs only while it
// holds the token.  Events are the real calls of the real code.
#include "synth.h"
#include <BSMPT/minimizer/MinimizeGSL.h>
#include <BSMPT/minimizer/Minimizer.h>
#include <BSMPT/utility/Logger.h>
#include <atomic>
#include <condition_variable>
#include <cstring>
#include <dlfcn.h>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_multimin.h>
#include <map>
#include <pthread.h>
#include <unistd.h>
#include <set>
using namespace BSMPT;

namespace
{
struct Event
{
  long stamp;
  int w;
  bool take, ok;
  std::vector<double> x;
};
std::atomic<bool> active{false}, token{false};
thread_local int me = 0; // worker number, 0: not managed
thread_local bool failing = false;
thread_local int last = GSL_CONTINUE;
thread_local std::vector<double> startpt;
thread_local std::vector<Event> *mylog = nullptr;
std::vector<std::vector<Event> *> logs;
std::atomic<long> stamp{0};
std::atomic<int> created{0};
std::map<std::vector<double>, int> outcome; // start -> 0: the local minimiser is made to fail

// ---- token
pthread_mutex_t tm_ = PTHREAD_MUTEX_INITIALIZER;
pthread_cond_t tc_  = PTHREAD_COND_INITIALIZER;
int (*real_lock)(pthread_mutex_t *), (*real_try)(pthread_mutex_t *);
std::set<int> alive;
int holder = 0;
bool go    = false, allfail = false;
std::vector<int> sched;
std::size_t pos = 0;
std::atomic<int> takes{0};
int tail = 0, rr = 0; // the schedule starts when `tail` starts have been taken
unsigned long rnd = 1;
int policy = 0; // before the schedule: 0 round robin, 1 random

void choose() // with tm_ held
{
  if (alive.empty())
  {
    holder = 0;
    return;
  }
  while (takes >= tail and pos < sched.size())
  {
    int w = sched[pos++];
    if (alive.count(w))
    {
      holder = w;
      return;
    }
  }
  if (policy == 1)
  {
    rnd    = rnd * 6364136223846793005UL + 1442695040888963407UL;
    auto i = alive.begin();
    std::advance(i, (rnd >> 33) % alive.size());
    holder = *i;
    return;
  }
  auto i = alive.upper_bound(rr);
  if (i == alive.end()) i = alive.begin();
  holder = rr = *i;
}
void wait_turn() // with tm_ held
{
  while (not go or holder != me) pthread_cond_wait(&tc_, &tm_);
}
void yield_()
{
  if (not token or not me) return;
  real_lock(&tm_);
  choose();
  pthread_cond_broadcast(&tc_);
  wait_turn();
  pthread_mutex_unlock(&tm_);
}
void record(bool take, bool ok, const std::vector<double> &x)
{
  if (mylog) mylog->push_back({stamp.fetch_add(1, std::memory_order_relaxed), me, take, ok, x});
}
struct Tramp
{
  void *(*f)(void *);
  void *a;
  int id;
  std::vector<Event> *log;
};
void *tramp(void *p)
{
  Tramp t = *static_cast<Tramp *>(p);
  delete static_cast<Tramp *>(p);
  me    = t.id;
  mylog = t.log;
  if (token)
  {
    real_lock(&tm_);
    wait_turn();
    pthread_mutex_unlock(&tm_);
  }
  void *r = t.f(t.a);
  if (token)
  {
    real_lock(&tm_);
    alive.erase(me);
    choose();
    pthread_cond_broadcast(&tc_);
    pthread_mutex_unlock(&tm_);
  }
  me = 0;
  return r;
}
template <class F> F next(const char *n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
std::vector<double> vec(const gsl_vector *x)
{
  std::vector<double> r;
  for (std::size_t i = 0; i < x->size; i++) r.push_back(gsl_vector_get(x, i));
  return r;
}
bool recording() { return active and mylog; }
} // namespace

extern "C"
{
  // number of workers
  int get_nprocs()
  {
    const char *n = getenv("DRV_CPUS");
    return n ? atoi(n) : 4;
  }
#ifndef FREE_RUNNING
  int pthread_mutex_lock(pthread_mutex_t *m)
  {
    if (not real_lock) real_lock = next<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
    if (not token or not me or m == &tm_) return real_lock(m);
    if (not real_try) real_try = next<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
    yield_();
    int n = 0;
    while (real_try(m) == EBUSY)
    {
      // the owner has to run; do not burn the schedule on waiting
      real_lock(&tm_);
      auto i = alive.upper_bound(me);
      if (i == alive.end()) i = alive.begin();
      holder = *i;
      pthread_cond_broadcast(&tc_);
      wait_turn();
      pthread_mutex_unlock(&tm_);
      if (++n > 100000) _exit(86);
    }
    return 0;
  }
#endif
  int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg)
  {
    static auto real = next<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
    if (not active) return real(t, a, f, arg);
    auto l = new std::vector<Event>;
    logs.push_back(l);
    int id = ++created;
    if (token)
    {
      real_lock(&tm_);
      alive.insert(id);
      pthread_mutex_unlock(&tm_);
    }
    return real(t, a, tramp, new Tramp{f, arg, id, l});
  }
  int pthread_join(pthread_t t, void **r)
  {
    static auto real = next<int (*)(pthread_t, void **)>("pthread_join");
    if (active and token and not me and not go)
    {
      real_lock(&tm_);
      go = true;
      choose();
      pthread_cond_broadcast(&tc_);
      pthread_mutex_unlock(&tm_);
    }
    return real(t, r);
  }
  int gsl_multimin_fminimizer_set(gsl_multimin_fminimizer *s, gsl_multimin_function *f, const gsl_vector *x, const gsl_vector *ss)
  {
    static auto real = next<int (*)(gsl_multimin_fminimizer *, gsl_multimin_function *, const gsl_vector *, const gsl_vector *)>(
        "gsl_multimin_fminimizer_set");
    if (recording())
    {
      startpt = vec(x);
      auto i  = outcome.find(startpt);
      failing = allfail or (i != outcome.end() and i->second == 0);
      last    = GSL_CONTINUE;
      record(true, false, startpt);
      takes.fetch_add(1, std::memory_order_relaxed);
      yield_();
    }
    return real(s, f, x, ss);
  }
  int gsl_multimin_fminimizer_iterate(gsl_multimin_fminimizer *s)
  {
    static auto real = next<int (*)(gsl_multimin_fminimizer *)>("gsl_multimin_fminimizer_iterate");
    int r            = recording() and failing ? int(GSL_ENOPROG) : real(s);
    if (r) last = r;
    return r;
  }
  int gsl_multimin_test_size(const double size, double eps)
  {
    static auto real = next<int (*)(const double, double)>("gsl_multimin_test_size");
    return last = real(size, eps);
  }
  void gsl_multimin_fminimizer_free(gsl_multimin_fminimizer *s)
  {
    static auto real = next<void (*)(gsl_multimin_fminimizer *)>("gsl_multimin_fminimizer_free");
    if (recording())
    {
      record(false, last == GSL_SUCCESS, vec(s->x));
      real(s);
      yield_();
      return;
    }
    real(s);
  }
}

static void begin(bool tok)
{
  if (not real_lock) real_lock = next<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
  for (auto l : logs) delete l;
  logs.clear();
  logs.push_back(new std::vector<Event>);
  mylog   = logs[0];
  stamp   = 0;
  created = 0;
  takes = 0, pos = 0, rr = 0, holder = 0, go = false;
  alive.clear();
  token  = tok;
  active = true;
}
static std::vector<Event> end()
{
  active = token = false;
  mylog          = nullptr;
  std::vector<Event> all;
  for (auto l : logs) all.insert(all.end(), l->begin(), l->end());
  std::sort(all.begin(), all.end(), [](auto &a, auto &b) { return a.stamp < b.stamp; });
  return all;
}

static json multi(const json &c)
{
  auto model       = synth::make(c);
  int seed         = c.value("seed", 5);
  double T         = c.value("T", 0.0);
  std::size_t dim  = model->get_nVEV(), maxsol = c.value("maxsol", 20);
  bool threads     = c.value("threads", true);
  std::string api  = c.value("api", "save");
  std::vector<std::vector<double>> rows, starts;
  // the starts of this seed: a sequential search in which every start fails
  outcome.clear();
  allfail = true;
  begin(false);
  auto none = Minimizer::GSL_Minimize_gen_all(*model, T, seed, rows, maxsol, false);
  for (auto &e : end())
    if (e.take) starts.push_back(e.x);
  allfail = false;
  json o{{"probe", {{"n", starts.size()}, {"success", none.second}, {"rows", rows.size()}}}};
  std::map<std::vector<double>, int> idx;
  double reach = 0;
  for (std::size_t i = 0; i < starts.size(); i++)
  {
    idx[starts[i]] = i + 1;
    for (double x : starts[i]) reach = std::max(reach, std::abs(x));
  }
  o["reach"]    = reach;
  o["distinct"] = idx.size();
  // outcomes: failing everywhere except where said; negative = counted from the end
  auto mode = c.value("outcomes", "real");
  if (mode == "tail")
  {
    auto &tl = c.at("tail");
    for (std::size_t i = 0; i < starts.size(); i++)
    {
      std::size_t k        = i + tl.size();
      outcome[starts[i]] = k < starts.size() ? 0 : tl[k - starts.size()].get<int>();
    }
    tail = static_cast<int>(starts.size() - tl.size());
  }
  else if (mode == "mod")
  {
    for (std::size_t i = 0; i < starts.size(); i++) outcome[starts[i]] = (i * 2654435761u + seed) % c.at("mod").get<unsigned>() == 0;
    tail = c.value("skip", 0);
  }
  else
    tail = 0;
  sched  = c.value("sched", std::vector<int>{});
  policy = c.value("policy", 0);
  rnd    = c.value("rnd", 1UL);
  rows.clear();
  begin(threads and not c.value("free", false));
  std::pair<std::vector<double>, bool> res;
  if (api == "save")
    res = Minimizer::GSL_Minimize_gen_all(*model, T, seed, rows, maxsol, threads);
  else if (api == "max")
    res = Minimizer::GSL_Minimize_gen_all(*model, T, seed, maxsol, threads);
  else
    res = Minimizer::GSL_Minimize_gen_all(*model, T, seed, threads);
  auto ev = end();
  o["workers"] = threads ? int(created) : 1;
  json je      = json::array();
  std::vector<int> cur(created + 1, 0);
  std::vector<double> depth(starts.size(), 0.0);
  std::map<std::vector<double>, std::vector<int>> sols;
  bool faithful = true;
  for (auto &e : ev)
  {
    if (e.take)
    {
      auto i     = idx.find(e.x);
      cur[e.w] = i == idx.end() ? 0 : i->second;
      je.push_back({1, e.w, cur[e.w], 0});
    }
    else
    {
      je.push_back({0, e.w, cur[e.w], e.ok});
      if (e.ok and cur[e.w])
      {
        sols[e.x].push_back(cur[e.w]);
        depth[cur[e.w] - 1] = model->f(e.x, T);
      }
    }
  }
  o["ev"] = je;
  json jr = json::array();
  for (auto &r : rows)
  {
    std::vector<double> x(r.begin(), r.begin() + std::min(dim, r.size()));
    auto it = sols.find(x);
    int id  = 0;
    if (it != sols.end() and not it->second.empty())
    {
      id = it->second.back();
      if (it->second.size() > 1) it->second.pop_back();
    }
    jr.push_back(id);
    if (r.size() != dim + 2 or r[dim + 1] != model->f(x, T) or r[dim] != model->EWSBVEV(model->MinimizeOrderVEV(x))) faithful = false;
  }
  o["rows"]     = api == "save" ? jr : json();
  o["faithful"] = faithful;
  auto it       = sols.find(res.first);
  o["ret"]      = it == sols.end() ? 0 : it->second.front();
  o["success"]  = res.second;
  o["dim"]      = res.first.size();
  json jd       = json::array();
  for (auto &kv : sols)
    for (int i : kv.second) jd.push_back({i, depth[i - 1]});
  o["depth"] = jd;
  return o;
}
int main() { return drive(multi); }
