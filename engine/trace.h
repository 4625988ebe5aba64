// The solver's -verbose log as a list of events over set literals.
#pragma once
#include "out.h"
#include "sets.h"

namespace vf {

enum EvKind { E_DECISION, E_REDUCE, E_ENTAIL, E_CONFLICT, E_LATEST, E_RESOLVENT, E_LEARN, E_BACKJUMP, E_COUNT, E_FLIP };
enum Reason { R_CLAUSE, R_DECISION, R_ENTAIL, R_NONE };
struct Ev {
  EvKind kind;
  SL lit;
  L raw{0, true, 0};  // as printed (src only)
  int level = 0;      // or count
  Reason reason = R_NONE;
  SC clause;
  std::vector<L> rawc;
};

struct Trace {
  std::vector<Ev> ev;
  std::string error;  // a line that could not be read
};

// bitvec: the literal is printed as a 64-bit string, most significant first
inline bool parse_bits(const std::string &l, SL &s, std::string *rest = nullptr) {
  size_t e = l.find('=');
  if (e == std::string::npos || e == 0) return false;
  for (size_t i = 0; i < e; i++)
    if (l[i] < '0' || l[i] > '9') return false;
  s.var = atoi(l.c_str());
  s.set.reset();
  size_t i = e + 1, n = 0;
  while (i + n < l.size() && (l[i + n] == '0' || l[i + n] == '1')) n++;
  if (n != 64) return false;
  for (size_t k = 0; k < 64; k++)
    if (l[i + k] == '1') s.set.set(63 - k);
  if (rest) *rest = l.substr(i + n);
  else if (i + n != l.size()) return false;
  return true;
}

inline Trace parse_trace(const std::string &out, const std::vector<int> &dom, bool bv) {
  Trace t;
  auto ls = lines(out);
  size_t i = 0;
  auto lit_ok = [&](const L &l) { return l.var >= 1 && l.var <= (int)dom.size() && l.val >= 0 && l.val < dom[l.var - 1]; };
  auto clause = [&](size_t &k, Ev &e) {  // literals, one per line, up to a blank line
    while (k < ls.size()) {
      std::string s = strip(ls[k]);
      if (s.empty()) {
        k++;
        return true;
      }
      if (bv) {
        SL x;
        if (!parse_bits(s, x) || x.var < 1 || x.var > (int)dom.size()) return false;
        e.clause.push_back(x);
      } else {
        L x;
        if (!parse_lit(s.c_str(), x) || !lit_ok(x)) return false;
        e.rawc.push_back(x);
        e.clause.push_back(to_sl(x, dom));
      }
      k++;
    }
    return true;
  };
  auto starts = [](const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; };
  bool have_unit = false;
  Ev unit;
  bool pending_decision = false;
  auto bad = [&](size_t k) { t.error = "unreadable log line: " + (k < ls.size() ? ls[k] : std::string("(end)")); };
  auto src_lit = [&](const std::string &s, Ev &e) {  // "v=d", "v!=d" or "v!d"
    std::string u = s;
    size_t b = u.find('!');
    if (b != std::string::npos && (b + 1 >= u.size() || u[b + 1] != '=')) u.insert(b + 1, "=");
    const char *end;
    if (!parse_lit(u.c_str(), e.raw, &end) || !lit_ok(e.raw)) return false;
    e.lit = to_sl(e.raw, dom);
    return true;
  };
  while (i < ls.size()) {
    std::string s = strip(ls[i]);
    // the first message follows the file name and the time on the same line
    size_t tab = s.rfind('\t');
    if (tab != std::string::npos) s = strip(s.substr(tab + 1));
    Ev e;
    if (starts(s, "Decision: ")) {
      e.kind = E_DECISION;
      if (bv ? !parse_bits(s.substr(10), e.lit) : !src_lit(s.substr(10), e)) return bad(i), t;
      pending_decision = true;
      t.ev.push_back(e);
      i++;
    } else if (starts(s, "Reducing literal: ")) {
      e.kind = E_REDUCE;
      if (!src_lit(s.substr(18), e)) return bad(i), t;
      size_t p = s.find(" at level ");
      if (p == std::string::npos) return bad(i), t;
      e.level = atoi(s.c_str() + p + 10);
      i++;
      if (i >= ls.size() || !starts(strip(ls[i]), "The reason for the literal")) return bad(i), t;
      i++;
      std::string r = i < ls.size() ? strip(ls[i]) : "";
      if (r == "-1" || r == "-2") {
        e.reason = r == "-1" ? R_DECISION : R_ENTAIL;
        i++;
      } else {
        e.reason = R_CLAUSE;
        if (!clause(i, e)) return bad(i), t;
      }
      t.ev.push_back(e);
    } else if (starts(s, "Entailment... ")) {
      e.kind = E_ENTAIL;
      if (!src_lit(s.substr(14), e)) return bad(i), t;
      t.ev.push_back(e);
      i++;
    } else if (starts(s, "There is a conflict at level:")) {
      e.kind = E_CONFLICT;
      e.level = atoi(s.c_str() + strlen("There is a conflict at level:"));
      i++;
      if (i >= ls.size() || !starts(strip(ls[i]), "Conflicting clause")) return bad(i), t;
      i++;
      if (!clause(i, e)) return bad(i), t;
      if (bv && i + 1 < ls.size()) i += 2;  // the watched literals
      t.ev.push_back(e);
    } else if (starts(s, "Latest falsified literal")) {
      e.kind = E_LATEST;
      i++;
      if (i >= ls.size() || !(bv ? parse_bits(strip(ls[i]), e.lit) : src_lit(strip(ls[i]), e))) return bad(i), t;
      i += 2;  // "It's reason:"
      if (bv) {
        if (!clause(i, e)) return bad(i), t;
      } else
        i++;
      t.ev.push_back(e);
    } else if (starts(s, "Resolvent:") || starts(s, "Learned a clause:")) {
      e.kind = s[0] == 'R' ? E_RESOLVENT : E_LEARN;
      i++;
      if (!clause(i, e)) return bad(i), t;
      t.ev.push_back(e);
    } else if (starts(s, "We are backtracking to the level:")) {
      e.kind = E_BACKJUMP;
      e.level = atoi(s.c_str() + strlen("We are backtracking to the level:"));
      t.ev.push_back(e);
      i++;
    } else if (starts(s, "# of backtracks so far:")) {
      e.kind = E_COUNT;
      e.level = atoi(s.c_str() + strlen("# of backtracks so far:"));
      t.ev.push_back(e);
      i++;
    } else if (starts(s, "Conflict: Propagating ")) {
      e.kind = E_FLIP;
      if (!src_lit(s.substr(22), e)) return bad(i), t;
      t.ev.push_back(e);
      i++;
    } else if (bv && starts(s, "unit c")) {
      unit = Ev();
      i++;
      if (!clause(i, unit)) return bad(i), t;
      have_unit = true;
    } else if (bv && s.find(" at level ") != std::string::npos) {
      std::string rest;
      if (!parse_bits(s, e.lit, &rest) || !starts(rest, " at level ")) return bad(i), t;
      e.kind = E_REDUCE;
      e.level = atoi(rest.c_str() + 10);
      if (pending_decision) e.reason = R_DECISION;
      else if (have_unit) {
        e.reason = R_CLAUSE;
        e.clause = unit.clause;
      }
      pending_decision = false;
      have_unit = false;
      t.ev.push_back(e);
      i++;
    } else if (s == "SAT" || s == "UNSAT" || s == "TIMEOUT") {
      break;
    } else {
      i++;
    }
  }
  return t;
}

}  // namespace vf
