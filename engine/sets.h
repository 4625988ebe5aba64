// Finite-domain literals as (variable, set of allowed values), clause database,
// propagation to fixpoint and a plain search: the reference semantics for
// formulas too large for trying every assignment.
#pragma once
#include <bitset>
#include <algorithm>
#include "cnf.h"

namespace vf {

const int MAXDOM = 320;
using Bits = std::bitset<MAXDOM>;

struct SL {
  int var = 0;
  Bits set;
  bool operator==(const SL &o) const { return var == o.var && set == o.set; }
};
using SC = std::vector<SL>;

inline Bits full(int d) {
  Bits b;
  for (int i = 0; i < d; i++) b.set(i);
  return b;
}
inline SL to_sl(const L &l, const std::vector<int> &dom) {
  SL s;
  s.var = l.var;
  s.set.set(l.val);
  if (!l.eq) s.set = full(dom[l.var - 1]) & ~s.set;
  return s;
}
// canonical form: sorted, no duplicates; merged: one literal per variable
inline std::string key(const SL &s) {
  std::string k = std::to_string(s.var) + ":";
  for (int i = 0; i < MAXDOM; i++)
    if (s.set[i]) k += std::to_string(i) + ",";
  return k;
}
inline std::string key(const SC &c, bool merge) {
  std::vector<std::string> ks;
  if (merge) {
    SC m;
    for (auto &s : c) {
      bool f = false;
      for (auto &t : m)
        if (t.var == s.var) {
          t.set |= s.set;
          f = true;
        }
      if (!f) m.push_back(s);
    }
    for (auto &s : m) ks.push_back(key(s));
  } else
    for (auto &s : c) ks.push_back(key(s));
  std::sort(ks.begin(), ks.end());
  ks.erase(std::unique(ks.begin(), ks.end()), ks.end());
  std::string r;
  for (auto &k : ks) r += k + ";";
  return r;
}
inline std::string show(const SL &s, const std::vector<int> &dom) {
  Bits f = full(dom[s.var - 1]);
  if (s.set.count() == 1) {
    for (int i = 0; i < MAXDOM; i++)
      if (s.set[i]) return std::to_string(s.var) + "=" + std::to_string(i);
  }
  Bits n = f & ~s.set;
  if (n.count() == 1) {
    for (int i = 0; i < MAXDOM; i++)
      if (n[i]) return std::to_string(s.var) + "!=" + std::to_string(i);
  }
  std::string r = std::to_string(s.var) + "={";
  for (int i = 0; i < dom[s.var - 1]; i++)
    if (s.set[i]) r += (r.back() == '{' ? "" : ",") + std::to_string(i);
  return r + "}";
}
inline std::string show(const SC &c, const std::vector<int> &dom) {
  std::string r;
  for (auto &s : c) r += (r.empty() ? "" : " ") + show(s, dom);
  return r.empty() ? "(empty)" : r;
}

// Unit propagation over sets: false if a clause (or a domain) became empty.
inline bool propagate(const std::vector<const SC *> &db, std::vector<Bits> &dom) {
  bool change = true;
  while (change) {
    change = false;
    for (auto *c : db) {
      const SL *open = nullptr;
      int n = 0;
      bool sat = false;
      Bits u;
      for (auto &l : *c) {
        Bits b = dom[l.var - 1] & l.set;
        if (b.none()) continue;
        if (b == dom[l.var - 1]) {
          sat = true;
          break;
        }
        if (open && open->var == l.var) {
          u |= l.set;
          continue;
        }
        open = &l;
        u = l.set;
        if (++n > 1) break;
      }
      if (sat || n > 1) continue;
      if (!n) return false;
      Bits b = dom[open->var - 1] & u;
      if (b != dom[open->var - 1]) {
        dom[open->var - 1] = b;
        change = true;
      }
    }
  }
  return true;
}
inline bool search(const std::vector<const SC *> &db, std::vector<Bits> dom, long &budget) {
  if (!propagate(db, dom)) return false;
  int best = -1;
  size_t bc = MAXDOM + 1;
  for (size_t i = 0; i < dom.size(); i++) {
    size_t c = dom[i].count();
    if (c == 0) return false;
    if (c > 1 && c < bc) {
      bc = c;
      best = (int)i;
    }
  }
  if (best < 0) return true;
  if (--budget < 0) return false;
  for (int v = 0; v < MAXDOM; v++) {
    if (!dom[best][v]) continue;
    std::vector<Bits> d = dom;
    d[best].reset();
    d[best].set(v);
    if (search(db, d, budget)) return true;
    if (budget < 0) return false;
  }
  return false;
}
inline std::vector<SC> to_sc(const Cnf &f) {
  std::vector<SC> r;
  for (auto &c : f.cls) {
    SC s;
    for (auto &l : c) s.push_back(to_sl(l, f.dom));
    r.push_back(s);
  }
  return r;
}
// -1 unknown (budget), 0 unsat, 1 sat
inline int ref_sat(const Cnf &f, long budget = 2000000) {
  auto sc = to_sc(f);
  std::vector<const SC *> db;
  for (auto &c : sc) db.push_back(&c);
  std::vector<Bits> dom;
  for (int d : f.dom) dom.push_back(full(d));
  bool s = search(db, dom, budget);
  if (s) return 1;
  return budget < 0 ? -1 : 0;
}

}  // namespace vf
