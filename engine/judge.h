// What a user can tell from one solver run.
#pragma once
#include "vf.h"

namespace vf {

// verdict (and, if asked, model) of one run against the reference; "" = right
inline std::string judge(Unit &u, const Mode &m, const RunResult &r, Probe &pb, bool model, Out *keep = nullptr) {
  std::string e = ended(r);
  if (!e.empty()) return m.name + ": " + e;
  Out o = parse_out(r.out);
  if (o.verdict.empty()) return m.name + ": no verdict";
  if (!o.consistent) return m.name + ": contradictory verdicts";
  std::string want = is_sat(u) ? "SAT" : "UNSAT";
  if (o.verdict != want) return m.name + ": answered " + o.verdict + ", but the formula is " + (want == "SAT" ? "satisfiable" : "unsatisfiable");
  if (model && want == "SAT") {
    e = model_error(u.f, o, m.alg == BV);
    if (!e.empty()) return m.name + ": " + e;
    if (o.check != "CORRECT") return m.name + ": the solver's own check says " + (o.check.empty() ? "nothing" : o.check);
  }
  pb.outcome(o.verdict + " " + std::to_string(o.counters["Decisions"]) + " " + std::to_string(o.counters["Backtracks"]) + " " +
             std::to_string(o.counters["Units"]));
  if (o.counters["Backtracks"] > 0) pb.hard(text(u.f));
  if (keep) *keep = o;
  return "";
}

// the final report of a run, timing aside
inline std::string report(const RunResult &r) {
  std::string e = ended(r);
  if (!e.empty()) return "(" + e + ")";
  Out o = parse_out(r.out);
  std::string s = o.verdict.empty() ? "(no verdict)" : o.verdict;
  for (auto &c : o.counters) s += "; " + c.first + " " + std::to_string(c.second);
  if (o.has_model) {
    s += "; model";
    for (auto &l : o.model_lines) s += " " + l;
  }
  if (!o.check.empty()) s += "; " + o.check;
  return s;
}
inline bool fits_bitvec(const Cnf &f) {
  for (int d : f.dom)
    if (d > 64) return false;
  return true;
}
inline fam::F pinned(const Emit &e, const char *key, const char *val) {
  return [&e, key, val](const char *n, const Cnf &f, int x) {
    Unit u;
    u.fam = n;
    u.f = f;
    u.expect = x;
    u.pin(key, val);
    e(u);
  };
}

inline std::string run_modes(Unit &u, Probe &pb, const std::vector<Mode> &ms, bool model) {
  std::string t = text(u.f);
  bool large = u.fam.rfind("huge", 0) == 0 || u.fam == "abyss";
  for (auto &m : ms) {
    if (!u.wants("mode", m.name)) continue;
    Env env = env0();
    Lib *lib = lib_of(m), *shipped = m.alg == BV ? BIT_O : SRC_O;
    if (large) {  // too long for the build with the hooks
      env.wall_ms *= 6;
      if (shipped) lib = shipped;
    }
    RunResult r = solve(lib, m, t, env);
    pb.evaluations++;
    std::string e = judge(u, m, r, pb, model);
    if (!e.empty()) {
      u.pin("mode", m.name);
      return e;
    }
  }
  if (pb.units % 5000 == 1) pb.sample(t);
  return "";
}

// comment lines with every character in several places
inline const std::vector<std::string> &odd_comments() {
  static const std::vector<std::string> all = [] {
    std::vector<std::string> r;
    std::string chars = "\t\x01\x7f\x80\xc3\xff";
    for (char c = 33; c < 127; c++) chars += c;
    for (char c : chars)
      for (std::string before : {"c", "c ", "c a 1"}) r.push_back(before + c + (before.size() > 2 ? " 1=0 0" : ""));
    return r;
  }();
  return all;
}
// a text with a line at its start, at its end and between all its lines
inline std::string interleaved(const std::string &t, const std::string &line) {
  std::string r = line + "\n";
  for (char c : t) {
    r += c;
    if (c == '\n') r += line + "\n";
  }
  return r;
}

}  // namespace vf
