#include <set>
#include "vf.h"
#include <math.h>

namespace vf {
namespace fam {

static std::vector<L> literals(const std::vector<int> &dom) {
  std::vector<L> r;
  for (int i = 0; i < (int)dom.size(); i++)
    for (int v = 0; v < dom[i]; v++) {
      r.push_back({i + 1, true, v});
      r.push_back({i + 1, false, v});
    }
  return r;
}

// every sequence of up to maxcl clauses, each any sequence of up to maxlen
// literals: repeated literals, tautologies, units and empty clauses included
void tiny(const std::vector<int> &dom, int maxlen, int maxcl, const F &fn) {
  auto ls = literals(dom);
  std::vector<Cl> pool{{}};
  size_t from = 0;
  for (int k = 0; k < maxlen; k++) {
    size_t to = pool.size();
    for (size_t i = from; i < to; i++)
      for (auto &l : ls) {
        Cl c = pool[i];
        c.push_back(l);
        pool.push_back(c);
      }
    from = to;
  }
  Cnf f;
  f.dom = dom;
  std::function<void(int)> go = [&](int left) {
    fn("tiny", f, -1);
    if (!left) return;
    for (auto &c : pool) {
      f.cls.push_back(c);
      go(left - 1);
      f.cls.pop_back();
    }
  };
  go(maxcl);
}

static void choose(Cnf &f, const std::vector<Cl> &pool, int maxcl, const char *name, const F &fn) {
  std::function<void(size_t, int)> go = [&](size_t from, int left) {
    if (!f.cls.empty()) fn(name, f, -1);
    if (!left) return;
    for (size_t i = from; i < pool.size(); i++) {
      f.cls.push_back(pool[i]);
      go(i + 1, left - 1);
      f.cls.pop_back();
    }
  };
  go(0, maxcl);
}

// every set of up to maxcl clauses with at most one literal per variable
void subsets(const std::vector<int> &dom, int width, int maxcl, const F &fn) {
  std::vector<Cl> pool;
  std::function<void(size_t, Cl &)> go = [&](size_t v, Cl &c) {
    if (v == dom.size()) {
      if (!c.empty() && (int)c.size() <= width) pool.push_back(c);
      return;
    }
    go(v + 1, c);
    for (int x = 0; x < dom[v]; x++)
      for (int eq = 0; eq < 2; eq++) {
        c.push_back({(int)v + 1, eq == 1, x});
        go(v + 1, c);
        c.pop_back();
      }
  };
  Cl c;
  go(0, c);
  // widest clauses last, so that the first counterexample is short
  std::stable_sort(pool.begin(), pool.end(), [](const Cl &a, const Cl &b) { return a.size() < b.size(); });
  Cnf f;
  f.dom = dom;
  choose(f, pool, maxcl, "subsets", fn);
}

// two-valued variables; a literal is written as = or != by turns
void boolean_subsets(int n, int maxcl, const F &fn) {
  std::vector<Cl> pool;
  int total = 1;
  for (int i = 0; i < n; i++) total *= 3;
  for (int code = 1; code < total; code++) {
    Cl c;
    int x = code;
    for (int v = 1; v <= n; v++, x /= 3) {
      if (x % 3 == 0) continue;
      int val = x % 3 - 1;
      if ((code + v) % 2) c.push_back({v, true, val});
      else c.push_back({v, false, 1 - val});
    }
    pool.push_back(c);
  }
  Cnf f;
  f.dom.assign(n, 2);
  choose(f, pool, maxcl, "boolean", fn);
}

// k-colouring of every graph with n vertices
void graphs(int n, int k, const F &fn) {
  std::vector<std::pair<int, int>> e;
  for (int a = 1; a <= n; a++)
    for (int b = a + 1; b <= n; b++) e.push_back({a, b});
  for (long g = 0; g < (1L << e.size()); g++) {
    Cnf f;
    f.dom.assign(n, k);
    for (size_t i = 0; i < e.size(); i++)
      if (g >> i & 1)
        for (int c = 0; c < k; c++) f.cls.push_back({{e[i].first, false, c}, {e[i].second, false, c}});
    fn("graphs", f, -1);
  }
}

// every network of binary relations between n variables of domain d
void csp(int n, int d, int nrel, bool support, const F &fn) {
  auto rel = [&](int r, int a, int b) {
    switch (r) {
      case 0: return true;
      case 1: return a != b;
      case 2: return a == b;
      case 3: return a < b;
      case 4: return a > b;
      case 5: return (a + 1) % d == b;
      case 6: return a <= b;
      default: return a + b != d - 1;
    }
  };
  std::vector<std::pair<int, int>> e;
  for (int a = 1; a <= n; a++)
    for (int b = a + 1; b <= n; b++) e.push_back({a, b});
  long total = 1;
  for (size_t i = 0; i < e.size(); i++) total *= nrel;
  for (long g = 0; g < total; g++) {
    Cnf f;
    f.dom.assign(n, d);
    long x = g;
    for (size_t i = 0; i < e.size(); i++, x /= nrel) {
      int r = x % nrel;
      if (!r) continue;
      for (int a = 0; a < d; a++) {
        if (support) {
          Cl c{{e[i].first, false, a}};
          for (int b = 0; b < d; b++)
            if (rel(r, a, b)) c.push_back({e[i].second, true, b});
          if ((int)c.size() <= d) f.cls.push_back(c);
        } else
          for (int b = 0; b < d; b++)
            if (!rel(r, a, b)) f.cls.push_back({{e[i].first, false, a}, {e[i].second, false, b}});
      }
    }
    fn(support ? "csp-support" : "csp", f, -1);
  }
}

static Cnf pigeon(int p, int h) {
  Cnf f;
  f.dom.assign(p, h);
  for (int v = 0; v < h; v++)
    for (int a = 1; a <= p; a++)
      for (int b = a + 1; b <= p; b++) f.cls.push_back({{b, false, v}, {a, false, v}});
  return f;
}
static Cnf pigeon_bool(int p, int h) {
  Cnf f;
  f.dom.assign(p * h, 2);
  auto x = [&](int a, int v) { return a * h + v + 1; };
  for (int a = 0; a < p; a++) {
    Cl c;
    for (int v = 0; v < h; v++) c.push_back({x(a, v), true, 1});
    f.cls.push_back(c);
  }
  for (int v = 0; v < h; v++)
    for (int a = 0; a < p; a++)
      for (int b = a + 1; b < p; b++) f.cls.push_back({{x(a, v), false, 1}, {x(b, v), true, 0}});
  return f;
}
void pigeons(int lo, int hi, const F &fn) {
  for (int n = lo; n <= hi; n++) {
    fn("pigeons", pigeon(n, n - 1), 0);
    fn("pigeons", pigeon(n, n), 1);
    if (n <= 5) {
      fn("pigeons-bool", pigeon_bool(n, n - 1), 0);
      fn("pigeons-bool", pigeon_bool(n, n), 1);
    }
  }
}

// families with a known answer in which one size grows: variables, domains,
// clause lengths, clauses
void scale(int size, const F &fn) {
  std::vector<int> sizes;
  for (int n = 1; n <= size; n = n < 12 ? n + 1 : n + (n / 7)) sizes.push_back(n);
  for (int n : {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 299, 300})
    if (n <= size) sizes.push_back(n);
  std::sort(sizes.begin(), sizes.end());
  sizes.erase(std::unique(sizes.begin(), sizes.end()), sizes.end());
  for (int n : sizes) {
    // implication chain of n variables
    for (int d : {2, 3}) {
      Cnf f;
      f.dom.assign(n, d);
      for (int i = n - 1; i >= 1; i--) f.cls.push_back({{i, false, d - 1}, {i + 1, true, d - 1}});
      fn("chain", f, 1);
      f.cls.push_back({{1, true, d - 1}});
      fn("chain", f, 1);
      f.cls.push_back({{n, false, d - 1}});
      fn("chain", f, 0);
    }
    // chain closed by conflict: v1=0 and v1!=0 both lead to a contradiction
    {
      Cnf f;
      f.dom.assign(n + 2, 3);
      for (int i = 1; i < n; i++) {
        f.cls.push_back({{i, false, 0}, {i + 1, true, 0}});
        f.cls.push_back({{i, true, 0}, {i + 1, false, 0}});
      }
      f.cls.push_back({{n, false, 0}, {n + 1, true, 1}});
      f.cls.push_back({{n, false, 0}, {n + 1, true, 2}});
      fn("loop", f, 1);
      f.cls.push_back({{1, true, 0}, {n + 2, true, 1}});
      f.cls.push_back({{n, true, 0}, {n + 2, true, 2}});
      fn("loop", f, 0);
    }
    // one clause of n literals, all but the k-th refuted by units before / after it
    for (int k : {1, n / 2 + 1, n}) {
      for (int after = 0; after < 2; after++) {
        Cnf f;
        f.dom.assign(n, 3);
        Cl c;
        for (int i = 1; i <= n; i++) c.push_back({i, i % 2 == 0, i % 3});
        if (after) f.cls.push_back(c);
        for (int i = 1; i <= n; i++)
          if (i != k) f.cls.push_back({{i, i % 2 != 0, i % 3}});
        if (!after) f.cls.push_back(c);
        fn("long-clause", f, 1);
        f.cls.push_back({{k, k % 2 != 0, k % 3}});
        fn("long-clause", f, 0);
      }
    }
    // one clause of n literals that decisions refute one by one
    if (n <= 300) {
      Cnf f;
      f.dom.assign(n + 1, 2);
      Cl c;
      for (int i = 1; i <= n; i++) c.push_back({i, true, 1});
      f.cls.push_back(c);
      for (int i = 1; i <= n; i++) f.cls.push_back({{i, false, 1}, {n + 1, true, 1}});
      fn("decided-clause", f, 1);
      for (int i = 1; i <= n; i++) f.cls.push_back({{i, false, 1}, {n + 1, true, 0}});
      fn("decided-clause", f, 0);
    }
    // one variable of n values, all but one excluded
    for (int k : {0, n / 2, n - 1}) {
      Cnf f;
      f.dom.assign(1, n);
      for (int v = 0; v < n; v++)
        if (v != k) f.cls.push_back({{1, false, v}});
      fn("domain", f, 1);
      f.cls.push_back({{1, false, k}});
      fn("domain", f, 0);
      Cnf g;
      g.dom.assign(1, n);
      g.cls.push_back({{1, true, k}});
      fn("domain", g, 1);
      if (n > 1) {
        g.cls.push_back({{1, true, (k + 1) % n}});
        fn("domain", g, 0);
      }
    }
    // two variables of n values that must be equal, and differ
    if (n <= 70) {
      Cnf f;
      f.dom.assign(2, n);
      for (int v = 0; v < n; v++) f.cls.push_back({{1, false, v}, {2, true, v}});
      fn("equal", f, 1);
      f.cls.push_back({{2, false, n - 1}});
      fn("equal", f, n > 1);
      for (int v = 0; v < n; v++) f.cls.push_back({{1, false, v}, {2, false, v}});
      fn("equal", f, 0);
    }
    // a clause with all values of one large domain, refuted through a second variable
    if (n >= 2 && n <= 70) {
      Cnf f;
      f.dom = {n, n};
      Cl c;
      for (int v = 0; v + 1 < n; v++) c.push_back({1, true, v});
      f.cls.push_back(c);
      for (int v = 0; v + 1 < n; v++) f.cls.push_back({{1, false, v}, {2, true, n - 1}});
      for (int v = 0; v + 1 < n; v++) f.cls.push_back({{1, false, v}, {2, true, 0}});
      fn("values", f, 0);
      f.cls.pop_back();
      fn("values", f, 1);
    }
    // the same clause n times
    {
      Cnf f;
      f.dom.assign(3, 3);
      for (int i = 0; i < n; i++) f.cls.push_back({{1 + i % 3, false, i % 2}, {1 + (i + 1) % 3, true, 2}});
      fn("repeat", f, -1);
    }
    // parity around a ring: contradictory
    if (n >= 3 && n <= 40) {
      Cnf f;
      f.dom.assign(n, 2);
      for (int i = 1; i <= n; i++) {
        int a = i, b = i % n + 1;
        bool flip = i == n;
        for (int x = 0; x < 2; x++) f.cls.push_back({{a, false, x}, {b, true, flip ? 1 - x : x}});
      }
      fn("ring", f, 0);
      f.cls.pop_back();
      fn("ring", f, 1);
    }
    // odd cycles with two colours, and with three
    if (n >= 3 && n <= 60) {
      for (int k = 2; k <= 3; k++) {
        Cnf f;
        f.dom.assign(n, k);
        for (int i = 1; i <= n; i++)
          for (int c = 0; c < k; c++) f.cls.push_back({{i, false, c}, {i % n + 1, false, c}});
        fn("cycle", f, k == 3 || n % 2 == 0);
      }
    }
  }
}

void long_lines(int size, const F &fn) {
  for (int n = 8; n <= size; n = n * 5 / 4) {
    Cnf f;
    f.dom.assign(n, 3);
    Cl c;
    for (int i = 1; i <= n; i++) c.push_back({i, true, 2});
    for (int i = 1; i <= n; i++) f.cls.push_back({{i, false, 2}});
    f.cls.push_back(c);
    fn("long-line", f, 0);
    std::swap(f.cls.front(), f.cls.back());
    fn("long-line", f, 0);
    f.cls.pop_back();
    fn("long-line", f, 1);
  }
}

static Cnf queens(int n) {
  Cnf f;
  f.dom.assign(n, n);
  for (int a = 1; a <= n; a++)
    for (int b = a + 1; b <= n; b++)
      for (int x = 0; x < n; x++)
        for (int y = 0; y < n; y++)
          if (x == y || abs(x - y) == b - a) f.cls.push_back({{a, false, x}, {b, false, y}});
  return f;
}
static Cnf latin(int n, int mode) {
  Cnf f;
  f.dom.assign(n * n, n);
  auto id = [&](int r, int c) { return r * n + c + 1; };
  for (int a = 0; a < n * n; a++)
    for (int b = a + 1; b < n * n; b++)
      if (a / n == b / n || a % n == b % n)
        for (int v = 0; v < n; v++) f.cls.push_back({{a + 1, false, v}, {b + 1, false, v}});
  if (mode == 1) {  // the diagonal holds one value once too often / exactly
    for (int i = 0; i < n; i++) f.cls.push_back({{id(i, i), true, 0}});
  } else if (mode == 2) {  // value 0 in all but one diagonal cell, not in the last: impossible
    for (int i = 0; i + 1 < n; i++) f.cls.push_back({{id(i, i), true, 0}});
    f.cls.push_back({{id(n - 1, n - 1), false, 0}});
  }
  return f;
}
// n variables of d values, pairwise ordered: v1 < v2 < ... (fits iff n <= d)
static Cnf ladder(int n, int d) {
  Cnf f;
  f.dom.assign(n, d);
  for (int i = 1; i < n; i++)
    for (int a = 0; a < d; a++) {
      Cl c{{i, false, a}};
      for (int b = a + 1; b < d; b++) c.push_back({i + 1, true, b});
      f.cls.push_back(c);
    }
  return f;
}
// every assignment of n variables excluded by a clause of its own, but for `holes`
static Cnf cube(int n, int d, int holes) {
  Cnf f;
  f.dom.assign(n, d);
  int t = 1;
  for (int i = 0; i < n; i++) t *= d;
  for (int a = 0; a < t - holes; a++) {
    Cl c;
    int x = a;
    for (int i = 1; i <= n; i++, x /= d) c.push_back({i, false, x % d});
    f.cls.push_back(c);
  }
  return f;
}

void search_heavy(bool thorough, const F &fn) {
  pigeons(2, thorough ? 7 : 6, fn);
  for (int n = 1; n <= (thorough ? 9 : 7); n++) fn("queens", queens(n), n != 2 && n != 3);
  for (int n = 2; n <= (thorough ? 5 : 4); n++) {
    fn("latin", latin(n, 0), 1);
    fn("latin", latin(n, 1), 1);
    fn("latin", latin(n, 2), 0);
  }
  for (int d = 2; d <= (thorough ? 9 : 7); d++) {
    fn("ladder", ladder(d, d), 1);
    fn("ladder", ladder(d + 1, d), 0);
  }
  for (int n = 1; n <= 4; n++)
    for (int d = 2; d <= 4; d++) {
      if ((n == 4 && d == 4) && !thorough) continue;
      fn("cube", cube(n, d, 0), 0);
      fn("cube", cube(n, d, 1), 1);
    }
  for (int n = 5; n <= (thorough ? 8 : 7); n++) {
    fn("cube", cube(n, 2, 0), 0);
    fn("cube", cube(n, 2, 1), 1);
  }
}

// Known answers that take hundreds to tens of thousands of conflicts (size 1: a few
// hundred, for runs that are logged)
void long_runs(int size, const F &fn) {
  for (int n = 7; n <= (size > 1 ? size > 2 ? 9 : 8 : 7); n++) fn("long-run", pigeon(n, n - 1), 0);
  for (int n = 6; n <= (size > 1 ? 7 : 6); n++) {
    fn("long-run", pigeon_bool(n, n - 1), 0);
    fn("long-run", pigeon_bool(n, n), 1);
  }
  for (int holes = 0; holes < 2; holes++) {
    for (int n = 8; n <= (size > 1 ? size > 2 ? 12 : 10 : 9); n++) fn("long-run", cube(n, 2, holes), holes);
    fn("long-run", cube(5, 4, holes), holes);
    fn("long-run", cube(6, 3, holes), holes);
    if (size > 1) fn("long-run", cube(3, 9, holes), holes);
    if (size > 1) fn("long-run", cube(2, 24, holes), holes);
    if (size > 1) fn("long-run", cube(4, 6, holes), holes);
    if (size > 2) fn("long-run", cube(7, 3, holes), holes);
  }
  for (int n = 8; n <= (size > 1 ? size > 2 ? 20 : 14 : 9); n++) fn("long-run", queens(n), 1);
  for (int d = 8; d <= (size > 1 ? 12 : 9); d++) {
    fn("long-run", ladder(d, d), 1);
    fn("long-run", ladder(d + 1, d), 0);
  }
  for (int mode = 0; mode < 3; mode++) fn("long-run", latin(5, mode), mode < 2);
}

// Mixed formulas without structure of their own, enumerated exhaustively within an
// algebraic bound: the literals are read off the orbit x, ax, aax, ... (mod 1000003)
// for every multiplier a of a range, every shape (variables, values, literals per
// clause, share of !=) and lengths below, at and above the point where about one
// model is left. Every 16th has clauses that repeat a literal.
void congruent(int lo_a, int hi_a, double lo, double cap, const F &fn) {
  static const std::vector<int> ds = {2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 31, 32, 33, 63, 64};
  const long P = 1000003;
  for (int n = 2; n <= 20; n++)
    for (int d : ds) {
      double space = 1;
      for (int i = 0; i < n; i++) space *= d;
      if (space <= lo || space > cap) continue;
      for (int k = 2; k <= 6; k++)             // 5: lengths 2 to 4 by turns, 6: 2 to 4 and some 1
        for (int neg : {0, 1, 2, 4})  // quarters of != literals, but for some
          for (int mixed = 0; mixed < 2; mixed++) {
            if (mixed && (d == 2 || n < 3)) continue;
            int width = k >= 5 ? 3 : k;
            // chance that a clause is false, and how many clauses leave one model on average
            double q = 1, f = neg / 4.0 * (1.0 / d) + (1 - neg / 4.0) * (1 - 1.0 / d);
            for (int i = 0; i < width; i++) q *= f;
            double mid = n * log((double)d) / -log(1 - q);
            if (mid > (cap > 5000 ? 110 : 40)) continue;
            for (double share : {0.75, 1.0, 1.3, 2.0}) {
              int m = (int)(mid * share + 0.5);
              if (m < 2) m = 2;
              for (int i = lo_a; i <= hi_a; i++) {
                const long a = 271828 + i;
                Cnf g;
                for (int v = 0; v < n; v++) g.dom.push_back(mixed ? 2 + (a + v * v) % (d - 1) : d);
                long x = 1 + (n * 31 + d * 7 + k * 3 + neg + m) * 911L % (P - 1);
                auto next = [&](int range) {
                  x = x * a % P;
                  return (int)((x * range) / P);
                };
                for (int c = 0; c < m; c++) {
                  Cl cl;
                  int len = k == 5 ? 2 + c % 3 : k == 6 ? (c % 7 == 6 ? 1 : 2 + c % 3) : k;
                  for (int j = 0; j < len; j++) {
                    int v = next(n);
                    bool ne = neg == 4 ? next(16) != 0 : next(4) < neg;
                    L l{v + 1, !ne, next(g.dom[v])};
                    bool dup = false;
                    for (auto &o : cl) dup = dup || (o.var == l.var && o.val == l.val && o.eq == l.eq);
                    if (!dup || a % 16 == 0) cl.push_back(l);
                  }
                  g.cls.push_back(cl);
                }
                fn("congruent", g, -1);
              }
            }
          }
    }
}

// The same problem at other sizes: each small formula of a base set again with its values
// spread over a larger domain, its variables behind others, its clauses behind others, its
// literals behind false ones, and its search below many decisions. Satisfiability is unchanged.
static void at_size(const Cnf &f, int k, int how, const F &fn, const char *name, int expect) {
  Cnf g = f;
  int n = f.nv();
  switch (how) {
    case 0:
    case 1:
    case 7: {  // values spread over k: the lowest, the highest, and between; the others are excluded
      int most = 0;
      for (int d : f.dom) most = std::max(most, d);
      if (most > k || most < 2) return;
      g.cls.clear();
      auto at = [&](int d, int v) { return how == 1 ? (v == 0 ? k - 1 : v == 1 ? 0 : k - v) : d == 1 ? k - 1 : v * (k - 1) / (d - 1); };
      std::vector<std::set<int>> used(n);
      for (int i = 0; i < n; i++) {
        g.dom[i] = k;
        for (int v = 0; v < f.dom[i]; v++) used[i].insert(at(f.dom[i], v));
        if ((int)used[i].size() != f.dom[i]) return;
      }
      auto map = [&](const L &l) { return at(f.dom[l.var - 1], l.val); };
      auto exclude = [&]() {
        for (int i = 0; i < n; i++) {
          if (how == 7 || (i + how) % 2) {
            Cl c;
            for (int v : used[i]) c.push_back({i + 1, true, v});
            // often enough that every heuristic prefers these values
            for (size_t j = 0; j < (how == 7 ? f.cls.size() + 1 : 1); j++) g.cls.push_back(c);
          } else
            for (int v = 0; v < k; v++)
              if (!used[i].count(v)) g.cls.push_back({{i + 1, false, v}});
        }
      };
      if (how) exclude();
      for (auto &c : f.cls) {
        Cl d;
        for (auto &l : c) d.push_back({l.var, l.eq, map(l)});
        g.cls.push_back(d);
      }
      if (!how) exclude();
      break;
    }
    case 2:  // k other variables first, one of them open at the end
      g.dom.assign(k, 2);
      g.dom.insert(g.dom.end(), f.dom.begin(), f.dom.end());
      for (auto &c : g.cls)
        for (auto &l : c) l.var += k;
      for (int i = 1; i < k; i++) g.cls.push_back({{i, true, i % 2}});
      break;
    case 3: {  // k other clauses first
      g.dom.push_back(3);
      std::vector<Cl> first;
      for (int i = 0; i < k; i++) first.push_back({{n + 1, true, 2}, {n + 1, false, i % 3}});
      g.cls.insert(g.cls.begin(), first.begin(), first.end());
      break;
    }
    case 4:    // k false literals before, in the middle of, and after those of each clause
    case 5: {  // and here they become false by a decision or two only
      for (int i = 0; i < k; i++) g.dom.push_back(2 + i % 2);
      int x = n + k + 1;
      if (how == 5) g.dom.push_back(3);
      for (size_t j = 0; j < g.cls.size(); j++) {
        auto &c = g.cls[j];
        Cl more;
        for (int i = 0; i < k; i++) more.push_back({n + 1 + i, i % 2 == 0, 1});  // an open variable would multiply the branches
        c.insert(j % 3 == 0 ? c.begin() : j % 3 == 1 ? c.begin() + c.size() / 2 : c.end(), more.begin(), more.end());
      }
      for (int i = 0; i < k; i++) {
        if (how == 5) {  // whatever x is, they are false
          g.cls.push_back({{n + 1 + i, i % 2 != 0, 1}, {x, false, 0}});
          g.cls.push_back({{n + 1 + i, i % 2 != 0, 1}, {x, true, 0}, {x, true, 2}});
          g.cls.push_back({{n + 1 + i, i % 2 != 0, 1}, {x, true, 0}, {x, true, 1}});
        } else
          g.cls.push_back({{n + 1 + i, i % 2 != 0, 1}});
      }
      break;
    }
    case 6: {  // k variables that every heuristic decides first
      std::vector<Cl> first;
      for (int i = 0; i < k; i++) {
        g.dom.push_back(3);
        g.dom.push_back(2);
        for (int j = 0; j < 12; j++) first.push_back({{n + 2 * i + 1, true, 1}, {n + 2 * i + 2, true, 1}});
      }
      g.cls.insert(g.cls.begin(), first.begin(), first.end());
      break;
    }
  }
  fn(name, g, expect);
}
// levels: unsatisfiable ones below free decisions too (chronological backtracking has to
// go through all of these)
void embedded(int size, bool logged, bool levels, const F &fn) {
  static const char *names[] = {"at-size-values", "at-size-values", "at-size-variables", "at-size-clauses", "at-size-literals", "at-size-false", "at-size-levels"};
  auto base = [&](const char *, const Cnf &f, int expect) {
    if (f.cls.empty() || f.nv() > 16) return;
    if (expect < 0) {
      Unit u;
      u.f = f;
      u.expect = -1;
      expect = is_sat(u);
    }
    for (int how = 0; how < 7; how++) {
      if (how == 6 && !expect && !levels) continue;
      std::vector<int> ks;
      if (how < 2) ks = {5, 9, 17, 33, 64};
      else if (how == 3) ks = {40, 300};
      else if (how == 6) ks = {10, 40};
      else ks = {6, 10, 20, 70};
      if (size > 1 && how > 1) ks.insert(ks.end(), {130, 300});
      if (size > 1 && how < 2) ks.insert(ks.end(), {130, 260});
      if (logged) ks.pop_back();
      for (int k : ks) at_size(f, k, how, fn, names[how], expect);
    }
  };
  for (int n = 2; n <= 3; n++)
    for (int d = 2; d <= 3; d++)
      for (int holes = 0; holes < 2; holes++) base("", cube(n, d, holes), holes);
  for (int d = 3; d <= 4; d++) {
    base("", ladder(d, d), 1);
    base("", ladder(d + 1, d), 0);
  }
  pigeons(3, 4, base);
  base("", latin(3, 2), 0);
  base("", queens(3), 0);
  base("", queens(4), 1);
  graphs(4, 2, base);
  graphs(4, 3, base);
  Cnf empty = cube(2, 2, 1);  // an empty clause, and one variable that no value is left to
  empty.cls.insert(empty.cls.begin() + 1, Cl());
  base("", empty, 0);
  empty.cls[1] = {{2, false, 0}};
  empty.cls.push_back({{2, false, 1}});
  base("", empty, 0);
  csp(3, 3, size > 1 ? 6 : 3, false, base);
  csp(3, 3, size > 1 ? 6 : 3, true, base);
  long k = 0;
  congruent(1, 1, 0, 130, [&](const char *n, const Cnf &f, int x) {
    if (k++ % (size > 1 ? 2 : 8) == 0) base(n, f, x);
  });
}

// unsatisfiable ones below many free decisions
void deep(bool thorough, const F &fn) {
  embedded(thorough ? 2 : 1, false, true, [&](const char *n, const Cnf &f, int x) {
    if (!x && std::string(n) == "at-size-levels") fn(n, f, x);
  });
}

// counts, values and levels beyond what 16 bits hold
void huge(bool thorough, const F &fn) {
  std::vector<std::pair<Cnf, int>> base;
  auto add = [&](const char *, const Cnf &f, int x) { base.push_back({f, x}); };
  add("", cube(2, 3, 1), 1);  // each needs some search
  add("", cube(3, 2, 0), 0);
  if (thorough) {
    add("", queens(4), 1);
    add("", pigeon(4, 3), 0);
    add("", latin(3, 2), 0);
  }
  for (auto &b : base)
    for (int k : {33000, 66000}) {
      at_size(b.first, k, 7, fn, "huge-values", b.second);
      at_size(b.first, k, 2, fn, "huge-variables", b.second);
      at_size(b.first, k, 3, fn, "huge-clauses", b.second);
      Cnf one = b.first;
      at_size(one, k / (int)one.cls.size() + 1, 4, fn, "huge-literals", b.second);
    }
}
// a search at level 33000 (for heuristics that decide in the order of the clauses)
void abyss(int levels, const F &fn) {
  for (int core = 0; core < 4; core++) {
    Cnf f = core == 3 ? cube(3, 3, 1) : core == 0 ? cube(3, 2, 0) : core == 1 ? queens(4) : pigeon(4, 3), g;
    for (int i = 1; i <= levels; i++) {
      g.dom.push_back(3);
      g.cls.push_back({{i, true, i % 3}, {i, true, (i + 1) % 3}});
    }
    for (size_t j = 0; j < f.cls.size(); j++) {
      Cl c = f.cls[j];
      for (auto &l : c) l.var += levels;
      // an unsatisfiable core leaves one of its levels no way out but the other value
      int i = core == 1 ? levels - (int)(j % 7) : core == 0 && j % 2 ? 100 : levels - 2;
      if (core < 3) c.push_back({i, true, core == 1 ? (i + 2) % 3 : (i + 1) % 3});
      g.cls.push_back(c);
    }
    g.dom.insert(g.dom.end(), f.dom.begin(), f.dom.end());
    fn("abyss", g, 1);
  }
}

// long chains and wide fans of propagations, before, after and between decisions, that lead to a core which needs search
void vast(bool thorough, const F &fn) {
  for (int n : {700, 5000, 20000}) {
    if (n == 20000 && !thorough) continue;
    for (int core = 0; core < 2; core++) {
      Cnf k = core ? cube(2, 3, 1) : cube(3, 2, 0);
      for (int shape = 0; shape < (n > 700 ? 2 : 3); shape++)
        for (int rev = 0; rev < 2; rev++)
          for (int decided = 0; decided < 2; decided++) {
            if (n > 700 && rev != (shape + core) % 2) continue;
            // all variables but the first follow from the first
            Cnf f;
            int d = rev ? 3 : 2;
            f.dom.assign(n, d);
            std::vector<Cl> c;
            if (!decided) c.push_back({{1, true, d - 1}});
            for (int i = 1; i < n; i++) {
              int from = shape == 1 ? 1 : shape == 2 ? (i + 1) / 2 : i;
              c.push_back({{from, false, d - 1}, {i + 1, true, d - 1}});
              if (decided) c.push_back({{from, true, d - 1}, {i + 1, true, 0}});
            }
            if (rev) std::reverse(c.begin(), c.end());
            // the core holds whatever the first is
            for (auto cl : k.cls) {
              for (auto &l : cl) l.var += n;
              if (decided) {
                Cl other = cl;
                other.push_back({n, false, 0});
                c.push_back(other);
              }
              cl.push_back({n, false, d - 1});
              c.push_back(cl);
            }
            if (decided && d == 3) c.push_back({{n, false, 1}});
            f.cls = c;
            f.dom.insert(f.dom.end(), k.dom.begin(), k.dom.end());
            fn("vast", f, core);
          }
    }
    // one clause of n literals, refuted but for one
    for (int k : {1, n / 2, n})
      for (int after = 0; after < 2; after++) {
        Cnf f;
        f.dom.assign(n, 3);
        Cl c;
        for (int i = 1; i <= n; i++) c.push_back({i, i % 2 == 0, i % 3});
        if (after) f.cls.push_back(c);
        for (int i = 1; i <= n; i++)
          if (i != k) f.cls.push_back({{i, i % 2 != 0, i % 3}});
        if (!after) f.cls.push_back(c);
        fn("vast", f, 1);
      }
  }
}

void standard(bool thorough, const F &fn) {
  for (auto &d : std::vector<std::vector<int>>{{1}, {2}, {3}}) tiny(d, thorough ? 4 : 3, 2, [&](const char *n, const Cnf &f, int e) {
    fn(n, f, e);
  });
  for (auto &d : std::vector<std::vector<int>>{{1, 2}, {2, 2}, {2, 3}, {3, 3}}) tiny(d, 2, 2, fn);
  if (thorough) {
    tiny({2, 2}, 2, 3, fn);
    tiny({2, 2, 2}, 2, 2, fn);
    tiny({4}, 3, 2, fn);
  }
  boolean_subsets(3, thorough ? 6 : 4, fn);
  subsets({3, 3}, 2, thorough ? 4 : 3, fn);
  subsets({2, 3}, 2, thorough ? 5 : 4, fn);
  subsets({3, 2, 2}, 3, thorough ? 3 : 2, fn);
  for (int n = 2; n <= 5; n++)
    for (int k = 2; k <= 3; k++) graphs(n, k, fn);
  if (thorough) {
    graphs(6, 3, fn);
    graphs(6, 2, fn);
    graphs(5, 4, fn);
  }
  csp(3, 3, 8, false, fn);
  csp(3, 3, 8, true, fn);
  csp(3, 4, 6, false, fn);
  csp(4, 3, thorough ? 5 : 3, false, fn);
  csp(4, 3, thorough ? 5 : 4, true, fn);
  if (thorough) csp(5, 3, 3, false, fn);
  scale(300, fn);
  search_heavy(thorough, fn);
  long_runs(thorough ? 3 : 2, fn);
  embedded(thorough ? 2 : 1, false, false, fn);
  congruent(1, thorough ? 2000 : 60, 0, 1100, fn);
  congruent(1, thorough ? 1000 : 24, 1100, thorough ? 1e8 : 1e7, fn);
}

void conflicts(bool thorough, const F &fn) {
  boolean_subsets(3, thorough ? 5 : 3, fn);
  subsets({3, 3}, 2, thorough ? 3 : 2, fn);
  subsets({2, 3}, 2, thorough ? 4 : 3, fn);
  for (int n = 3; n <= 5; n++)
    for (int k = 2; k <= 3; k++) graphs(n, k, fn);
  if (thorough) graphs(6, 3, fn);
  csp(3, 3, 8, false, fn);
  csp(3, 3, 8, true, fn);
  csp(4, 3, thorough ? 5 : 3, false, fn);
  csp(4, 3, thorough ? 5 : 3, true, fn);
  scale(thorough ? 130 : 40, fn);
  search_heavy(thorough, fn);
  long_runs(thorough ? 2 : 1, fn);
  embedded(thorough ? 2 : 1, !thorough, false, fn);
  congruent(1, thorough ? 120 : 12, 0, thorough ? 1e4 : 1100, fn);
}

void small_conflicts(bool thorough, const F &fn) {
  boolean_subsets(2, 4, fn);
  for (int n = 3; n <= 4; n++)
    for (int k = 2; k <= 3; k++) graphs(n, k, fn);
  csp(3, 3, thorough ? 8 : 6, false, fn);
  csp(3, 3, thorough ? 8 : 6, true, fn);
  for (int n = 2; n <= 3; n++)
    for (int d = 2; d <= 3; d++) {
      fn("cube", cube(n, d, 0), 0);
      fn("cube", cube(n, d, 1), 1);
    }
  fn("cube", cube(4, 2, 0), 0);
  fn("cube", cube(4, 2, 1), 1);
  pigeons(3, 4, fn);
  boolean_subsets(3, thorough ? 4 : 2, fn);
  for (int d = 3; d <= 4; d++) {
    fn("ladder", ladder(d, d), 1);
    fn("ladder", ladder(d + 1, d), 0);
  }
  fn("latin", latin(3, 2), 0);
  fn("queens", queens(4), 1);
  fn("queens", queens(3), 0);
  congruent(1, thorough ? 20 : 1, 0, thorough ? 130 : 64, fn);
  if (thorough) {
    csp(4, 3, 3, false, fn);
    graphs(5, 3, fn);
  }
}

}  // namespace fam
}  // namespace vf
