// Common part of the conformance drivers: one JSON case per input line, one
// JSON observation per output line.
#pragma once
#include <functional>
#include <iostream>
#include <nlohmann/json.hpp>
#include <string>
#include <unistd.h>
#include <cmath>
using json = nlohmann::json;
inline json num(double x)
{
  if (std::isnan(x)) return "nan";
  if (std::isinf(x)) return x > 0 ? "inf" : "-inf";
  return x;
}
inline json nums(const std::vector<double> &v)
{
  json a = json::array();
  for (double x : v) a.push_back(num(x));
  return a;
}
inline int drive(const std::function<json(const json &)> &f)
{
  // results go to the original stdout, whatever the code prints
  FILE *out = fdopen(dup(1), "w");
  if (!freopen("/dev/null", "w", stdout)) return 3;
  std::string line;
  while (std::getline(std::cin, line))
  {
    if (line.empty()) continue;
    json c = json::parse(line), r;
    try
    {
      r = f(c);
    }
    catch (const std::exception &e)
    {
      r = json{{"exception", e.what()}};
    }
    catch (const char *e)
    {
      r = json{{"exception", e}};
    }
    catch (...)
    {
      r = json{{"exception", "unknown"}};
    }
    fprintf(out, "%s\n", r.dump().c_str());
    fflush(out);
  }
  return 0;
}
