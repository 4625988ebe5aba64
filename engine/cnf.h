// Finite-domain CNF formulas and a deliberately boring reference semantics.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace vf {

struct L {
  int var;  // from 1
  bool eq;
  int val;
  bool operator==(const L &o) const { return var == o.var && eq == o.eq && val == o.val; }
  bool operator<(const L &o) const {
    if (var != o.var) return var < o.var;
    if (val != o.val) return val < o.val;
    return eq < o.eq;
  }
};
using Cl = std::vector<L>;
using Model = std::vector<int>;  // value of variable i at i-1

struct Cnf {
  std::vector<int> dom;  // domain size of variable i at i-1
  std::vector<Cl> cls;
  int nv() const { return (int)dom.size(); }
};

inline std::string str(const L &l) {
  return std::to_string(l.var) + (l.eq ? "=" : "!=") + std::to_string(l.val);
}
inline std::string str(const Cl &c) {
  std::string s;
  for (auto &l : c) s += str(l) + " ";
  return s + "0";
}
inline std::string text(const Cnf &f) {
  std::string s = "p cnf " + std::to_string(f.nv()) + " " + std::to_string(f.cls.size()) + "\n";
  for (int i = 0; i < f.nv(); i++) s += "d " + std::to_string(i + 1) + " " + std::to_string(f.dom[i]) + "\n";
  for (auto &c : f.cls) s += str(c) + "\n";
  return s;
}
inline bool holds(const L &l, const Model &m) { return (m[l.var - 1] == l.val) == l.eq; }
inline bool holds(const Cl &c, const Model &m) {
  for (auto &l : c)
    if (holds(l, m)) return true;
  return false;
}
inline bool holds(const Cnf &f, const Model &m) {
  for (auto &c : f.cls)
    if (!holds(c, m)) return false;
  return true;
}

// All models, by trying every assignment, variable by variable; a clause is
// tested as soon as its last variable has a value.
struct Reference {
  const Cnf &f;
  std::vector<std::vector<const Cl *>> by_last;
  long steps = 0;
  explicit Reference(const Cnf &f_) : f(f_), by_last(f_.nv() + 1) {
    for (auto &c : f.cls) {
      int last = 0;
      for (auto &l : c)
        if (l.var > last) last = l.var;
      by_last[last].push_back(&c);
    }
  }
  template <class F>
  bool each(Model &m, int i, F &&fn) {  // fn returns false to stop
    for (auto *c : by_last[i])
      if (!holds(*c, m)) return true;
    if (i == f.nv()) return fn(m);
    for (int v = 0; v < f.dom[i]; v++) {
      steps++;
      m[i] = v;
      if (!each(m, i + 1, fn)) return false;
    }
    m[i] = -1;
    return true;
  }
  bool sat() {
    Model m(f.nv(), -1);
    bool found = false;
    each(m, 0, [&](const Model &) { found = true; return false; });
    return found;
  }
  std::vector<Model> models(size_t limit = SIZE_MAX) {
    std::vector<Model> r;
    Model m(f.nv(), -1);
    each(m, 0, [&](const Model &x) { r.push_back(x); return r.size() < limit; });
    return r;
  }
};

}  // namespace vf
