// What the solver printed, read the way a user reads it.
#pragma once
#include <string.h>
#include <map>
#include <string>
#include <vector>
#include "cnf.h"

namespace vf {

struct Out {
  std::vector<std::string> verdicts;  // every line that is exactly SAT, UNSAT or TIMEOUT
  std::string verdict;                // the last of them
  bool consistent = true;             // all of them agree
  std::map<std::string, long> counters;
  bool has_model = false;
  std::vector<std::string> model_lines;
  std::string check;  // CORRECT, INCORRECT or empty
};

inline std::vector<std::string> lines(const std::string &s) {
  std::vector<std::string> r;
  size_t i = 0;
  while (i < s.size()) {
    size_t j = s.find('\n', i);
    if (j == std::string::npos) j = s.size();
    r.emplace_back(s, i, j - i);
    i = j + 1;
  }
  return r;
}

inline bool parse_lit(const char *p, L &l, const char **end = nullptr) {
  auto num = [&](int &v) {
    if (*p < '0' || *p > '9') return false;
    long x = 0;
    while (*p >= '0' && *p <= '9') {
      x = x * 10 + (*p++ - '0');
      if (x > 100000000) return false;
    }
    v = (int)x;
    return true;
  };
  if (!num(l.var)) return false;
  l.eq = true;
  if (*p == '!') {
    l.eq = false;
    p++;
  }
  if (*p != '=') return false;
  p++;
  if (!num(l.val)) return false;
  if (end) *end = p;
  else
    while (*p == ' ') p++;
  return end || !*p;
}

inline std::string strip(std::string l) {
  size_t k = 0;
  for (char c : l)
    if (c != '\a' && c != '\r') l[k++] = c;
  l.resize(k);
  while (!l.empty() && (l.back() == ' ' || l.back() == '\t')) l.pop_back();
  size_t b = 0;
  while (b < l.size() && (l[b] == ' ' || l[b] == '\t')) b++;
  return l.substr(b);
}

inline Out parse_out(const std::string &s) {
  Out o;
  bool in_model = false;
  // the final report starts at the last verdict line; what precedes it is the log
  for (auto &raw : lines(s)) {
    std::string l = strip(raw);
    if (l == "SAT" || l == "UNSAT" || l == "TIMEOUT") {
      o.verdicts.push_back(l);
      in_model = false;
      o.model_lines.clear();
      o.counters.clear();
      continue;
    }
    if (o.verdicts.empty()) continue;
    if (l.rfind("The model:", 0) == 0) {
      in_model = true;
      o.has_model = true;
      continue;
    }
    size_t v = l.find("Verifying model");
    if (v != std::string::npos) {
      in_model = false;
      if (l.find("model is CORRECT") != std::string::npos) o.check = "CORRECT";
      else if (l.find("model is INCORRECT") != std::string::npos) o.check = "INCORRECT";
      continue;
    }
    if (in_model) {
      if (!l.empty()) o.model_lines.push_back(l);
      continue;
    }
    size_t c = l.find(':');
    if (c != std::string::npos) {
      char *e;
      long n = strtol(l.c_str() + c + 1, &e, 10);
      if (!*e && e > l.c_str() + c + 1) o.counters[strip(l.substr(0, c))] = n;
    }
  }
  if (!o.verdicts.empty()) o.verdict = o.verdicts.back();
  for (auto &v : o.verdicts)
    if (v != o.verdict) o.consistent = false;
  return o;
}

}  // namespace vf
