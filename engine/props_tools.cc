// The converters and the benchmark generator.
#include <math.h>
#include <string.h>
#include <sstream>
#include "judge.h"

namespace vf {

static const char *BUILD = "sources compiled -O1 -DMVL_VERIF and called through main() in-process behave as the shipped executable does";

// ---------------------------------------------------------------- reading files
struct Head {
  long vars = -1, clauses = -1;
};
static std::vector<std::string> words(const std::string &l) {
  std::vector<std::string> r;
  std::istringstream s(l);
  std::string w;
  while (s >> w) r.push_back(w);
  return r;
}
static bool number(const std::string &s, long &n) {
  if (s.empty()) return false;
  char *e;
  n = strtol(s.c_str(), &e, 10);
  return !*e;
}
static std::string head(const std::vector<std::string> &w, Head &h) {
  if (h.vars >= 0) return "two problem lines";
  if (w.size() != 4 || w[0] != "p" || (w[1] != "cnf" && w[1] != "mvcnf") || !number(w[2], h.vars) || !number(w[3], h.clauses)) return "bad problem line";
  return "";
}
// extended DIMACS as the README describes it
static std::string read_finite(const std::string &t, Cnf &f, Head &h) {
  bool clauses = false;
  for (auto &l : lines(t)) {
    if (l.empty() || l[0] == 'c') continue;
    auto w = words(l);
    if (w.empty()) continue;
    if (w[0] == "p") {
      std::string e = head(w, h);
      if (!e.empty()) return e + ": " + l;
      continue;
    }
    if (h.vars < 0) return "a line before the problem line: " + l;
    if (w[0] == "d") {
      long v, d;
      if (clauses) return "a domain line after a clause";
      if (w.size() != 3 || !number(w[1], v) || !number(w[2], d) || d < 1) return "bad domain line: " + l;
      if (v != f.nv() + 1) return "domain lines out of order: " + l;
      f.dom.push_back((int)d);
      continue;
    }
    clauses = true;
    if (w.back() != "0") return "a clause without end-marker: " + l;
    Cl c;
    for (size_t i = 0; i + 1 < w.size(); i++) {
      L x;
      if (!parse_lit(w[i].c_str(), x)) return "bad literal: " + l;
      if (x.var < 1 || x.var > f.nv()) return "undeclared variable: " + l;
      if (x.val < 0 || x.val >= f.dom[x.var - 1]) return "value out of range: " + l;
      c.push_back(x);
    }
    f.cls.push_back(c);
  }
  if (h.vars < 0) return "no problem line";
  return "";
}
// DIMACS, one clause per line; as a formula with two-valued variables
static std::string read_boolean(const std::string &t, Cnf &f, Head &h) {
  for (auto &l : lines(t)) {
    if (l.empty() || l[0] == 'c') continue;
    auto w = words(l);
    if (w.empty()) continue;
    if (w[0] == "p") {
      std::string e = head(w, h);
      if (!e.empty()) return e + ": " + l;
      f.dom.assign(std::max(0L, h.vars), 2);
      continue;
    }
    if (h.vars < 0) return "a line before the problem line: " + l;
    if (w.back() != "0") return "a clause without end-marker: " + l;
    Cl c;
    for (size_t i = 0; i + 1 < w.size(); i++) {
      long v;
      if (!number(w[i], v) || v == 0) return "bad literal: " + l;
      if (labs(v) > h.vars) return "undeclared variable: " + l;
      c.push_back({(int)labs(v), true, v > 0});
    }
    f.cls.push_back(c);
  }
  if (h.vars < 0) return "no problem line";
  return "";
}
// DIMACS over atoms v=d of the finite formula g
static std::string read_atoms(const std::string &t, const Cnf &g, Cnf &f, Head &h) {
  std::vector<int> base(g.nv() + 1, 0);
  for (int i = 0; i < g.nv(); i++) base[i + 1] = base[i] + g.dom[i];
  f.dom.assign(base[g.nv()], 2);
  for (auto &l : lines(t)) {
    if (l.empty() || l[0] == 'c') continue;
    auto w = words(l);
    if (w.empty()) continue;
    if (w[0] == "p") {
      std::string e = head(w, h);
      if (!e.empty()) return e + ": " + l;
      continue;
    }
    if (h.vars < 0) return "a line before the problem line: " + l;
    if (w.back() != "0") return "a clause without end-marker: " + l;
    Cl c;
    for (size_t i = 0; i + 1 < w.size(); i++) {
      bool neg = w[i][0] == '-';
      L x;
      if (!parse_lit(w[i].c_str() + neg, x) || !x.eq) return "bad literal: " + l;
      if (x.var < 1 || x.var > g.nv() || x.val < 0 || x.val >= g.dom[x.var - 1]) return "no such atom: " + l;
      c.push_back({base[x.var - 1] + x.val + 1, true, !neg});
    }
    f.cls.push_back(c);
  }
  if (h.vars < 0) return "no problem line";
  return "";
}

// ---------------------------------------------------------------- running tools
static MemFile *fin() {
  static MemFile *f = new MemFile("in");
  return f;
}
static MemFile *fout() {
  static MemFile *f = new MemFile("out");
  return f;
}
static std::string convert(const char *cmd, const std::string &in, std::string &out, Probe &pb) {
  fin()->set(in);
  fout()->set("stale\n");
  RunResult r = run(SRC, {cmd, "-file", fin()->path, "-model", fout()->path}, env0());
  pb.evaluations++;
  std::string e = ended(r);
  if (!e.empty()) return std::string(cmd) + ": " + e;
  out = fout()->get();
  return "";
}
static int bool_lit(const L &l) { return l.eq == (l.val == 1) ? l.var : -l.var; }
static std::string dimacs(const Cnf &f) {
  std::string t = "p cnf " + std::to_string(f.nv()) + " " + std::to_string(f.cls.size()) + "\n";
  for (auto &c : f.cls) {
    for (auto &l : c) t += std::to_string(bool_lit(l)) + " ";
    t += "0\n";
  }
  return t;
}

// ---------------------------------------------------------------- Boolean to finite
static const std::vector<std::string> DIMACS_LAYOUTS = {"plain", "no-newline", "literal-lines", "one-line", "percent", "no-last-0", "comments", "crlf", "tabs", "blank", "more-vars",
                                                        "fewer-vars", "leading", "long-comment", "split-pairs", "problem-blanks", "comment-inside", "blank-inside", "comment-before-0"};
static std::string dimacs_layout(const Cnf &f, const std::string &lay) {
  if (lay.rfind("comment #", 0) == 0) return interleaved(dimacs_layout(f, "plain"), odd_comments()[atoi(lay.c_str() + 9)]);
  int n = f.nv() + (lay == "more-vars" ? 2 : lay == "fewer-vars" ? -1 : 0);
  std::string t;
  if (lay == "comments") t += "c first\nc p cnf 9 9\n";
  if (lay == "long-comment") t += "c " + std::string(5000, '1') + "\n";
  const char *b = lay == "problem-blanks" ? " \t " : " ";
  t += std::string("p") + b + "cnf" + b + std::to_string(n) + b + std::to_string(f.cls.size()) + (b[1] ? " \n" : "\n");
  for (size_t i = 0; i < f.cls.size(); i++) {
    bool last = i + 1 == f.cls.size();
    if (lay == "comments") t += "c 1 -1 0\n";
    if (lay == "blank") t += i % 2 ? "\n" : " \t\n";
    std::string sep = lay == "literal-lines" ? "\n" : lay == "tabs" ? "\t" : lay == "blank" ? "   " : " ";
    if (lay == "leading") t += "  ";
    int k = 0;
    for (auto &l : f.cls[i]) {
      t += std::to_string(bool_lit(l)) + sep;
      if (lay == "split-pairs" && ++k % 2 == 0) t += "\n";
      if (lay == "comment-inside") t += ++k % 2 ? "\nc 1 0\nc\n" : "\nc -1\n  ";
      if (lay == "blank-inside") t += ++k % 2 ? "\n\n" : "\n \t\n";
    }
    if (lay == "comment-before-0") t += "\nc 0\n";
    if (!(lay == "no-last-0" && last)) t += "0";
    t += lay == "one-line" && !last ? "  " : "\n";
  }
  if (lay == "percent") t += "%\n0\n1 0\n-1 0\n";
  if (lay == "crlf") {
    std::string s;
    for (char c : t) {
      if (c == '\n') s += '\r';
      s += c;
    }
    t = s;
  }
  if (lay == "no-newline") t.pop_back();
  return t;
}
static Reg c21({"C21", "exploration",
                "all small Boolean formulas, and larger ones of up to 10001 (thorough: 100001) variables, x 19 layouts of the DIMACS file (one of them x 300 comments): the file -b2f writes is extended DIMACS with a two-valued domain for every variable, as many clauses, and "
                "exactly the same models; non-trivial: distinct input texts",
                [](const Emit &e, bool th) {
                  auto fn = to_units(e);
                  fam::tiny({2}, 2, 2, fn);
                  fam::tiny({2, 2}, 2, 2, fn);
                  fam::boolean_subsets(2, 4, fn);
                  fam::boolean_subsets(3, th ? 4 : 2, fn);
                  // one clause, literals repeated and opposed in every way
                  fam::tiny({2}, th ? 8 : 6, 1, fn);
                  fam::tiny({2, 2}, th ? 5 : 4, 1, fn);
                  fam::tiny({2, 2, 2}, th ? 4 : 3, 1, fn);
                  if (th) fam::tiny({2, 2, 2}, 2, 2, fn);
                  for (int n : {10, 100, 1000}) {  // larger numbers, longer lines
                    Cnf f;
                    f.dom.assign(n, 2);
                    Cl c;
                    for (int i = 1; i <= n; i++) c.push_back({i, true, i % 3 == 0});
                    f.cls.push_back(c);
                    for (int i = 1; i <= n; i++) f.cls.push_back({{i, true, i % 2}});
                    fn("wide", f, -1);
                  }
                  // many variables, clauses, literals: at each size a clause of every length up to it, and many short ones
                  for (int n : {7, 8, 9, 10, 11, 16, 17, 32, 33, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 999, 1001, 10001, 33000, 66000, 100001}) {
                    if (n > 66000 && !th) continue;
                    Cnf f;
                    f.dom.assign(n, 2);
                    std::vector<int> lens = {1, 2, 3, n / 2, n - 1, n};
                    if (n <= 300) {
                      lens.clear();
                      for (int i = 1; i <= n; i++) lens.push_back(i);
                    }
                    for (int len : lens) {
                      Cl c;
                      for (int i = 0; i < len; i++) c.push_back({n - (i + len) % n, true, (i + len) % 2});
                      f.cls.push_back(c);
                    }
                    fn("sizes", f, -1);
                    f.cls.clear();
                    for (int i = 1; i <= n; i++) f.cls.push_back({{i, true, i % 2}, {n + 1 - i, true, i % 3 == 0}, {1 + i * 7 % n, true, i % 5 == 0}});
                    fn("sizes", f, -1);
                    f.cls = {{{n, true, 0}}, {{n, true, 1}, {1, true, 0}}};
                    fn("sizes", f, -1);
                  }
                  Unit u;
                  u.fam = "comments";
                  u.f.dom = {2, 2, 2};
                  u.f.cls = {{{1, true, 1}, {2, true, 0}}, {{1, true, 0}}, {{2, true, 1}, {3, true, 1}}};
                  u.pin("comments", 1);
                  e(u);
                  long k = 0;
                  fam::embedded(th ? 2 : 1, false, false, [&](const char *n, const Cnf &f, int x) {
                    for (int d : f.dom)
                      if (d != 2) return;
                    if (th || k++ % 3 == 0) fn(n, f, x);
                  });
                },
                [](Unit &u, Probe &pb) -> std::string {
                  auto all = DIMACS_LAYOUTS;
                  if (u.has("comments"))
                    for (size_t i = 0; i < odd_comments().size(); i++) all.push_back("comment #" + std::to_string(i));
                  for (auto &lay : all) {
                    if (!u.wants("layout", lay)) continue;
                    if (u.f.cls.empty() && (lay == "no-last-0" || lay == "no-newline")) continue;
                    bool empty_last = !u.f.cls.empty() && u.f.cls.back().empty();
                    if (lay == "no-last-0" && empty_last) continue;  // there is no such clause in the file then
                    std::string in = dimacs_layout(u.f, lay), out;
                    pb.hard(in);
                    std::string e = convert("-b2f", in, out, pb);
                    Cnf g;
                    Head h;
                    if (e.empty()) e = read_finite(out, g, h);
                    if (e.empty()) {
                      int used = 0;
                      for (auto &c : u.f.cls)
                        for (auto &l : c) used = std::max(used, l.var);
                      int n = std::max(used, u.f.nv() + (lay == "more-vars" ? 2 : lay == "fewer-vars" ? -1 : 0));
                      if (g.nv() != n) e = "declares " + std::to_string(g.nv()) + " variables instead of " + std::to_string(n);
                      for (int d : g.dom)
                        if (e.empty() && d != 2) e = "a domain of " + std::to_string(d);
                      if (e.empty() && g.cls.size() != u.f.cls.size()) e = "has " + std::to_string(g.cls.size()) + " clauses instead of " + std::to_string(u.f.cls.size());
                      if (e.empty() && (h.clauses != (long)u.f.cls.size())) e = "the problem line is changed";
                      pb.outcome(out);
                      if (e.empty() && n <= 6) {
                        Model m(n, 0);
                        for (long k = 0; k < 1L << n && e.empty(); k++) {
                          for (int i = 0; i < n; i++) m[i] = k >> i & 1;
                          if (holds(u.f, m) != holds(g, m)) e = "differs on an assignment";
                        }
                      } else if (e.empty()) {
                        // too many assignments: clause by clause
                        for (size_t i = 0; i < g.cls.size() && e.empty(); i++) {
                          std::set<int> a, b;
                          for (auto &l : u.f.cls[i]) a.insert(bool_lit(l));
                          for (auto &l : g.cls[i]) b.insert(bool_lit(l));
                          if (a != b) e = "clause " + std::to_string(i + 1) + " differs";
                        }
                      }
                    }
                    if (!e.empty()) {
                      u.pin("layout", lay);
                      return "-b2f, " + lay + ": " + e;
                    }
                  }
                  if (pb.units % 300 == 1) pb.sample(dimacs(u.f));
                  return "";
                },
                {BUILD}});

// ---------------------------------------------------------------- finite to Boolean
// Formulas over one variable of domain d whose models show which values v and w were taken for
static void value_pairs(int d, int v, int w, const fam::F &fn) {
  for (int eq = 0; eq < 4; eq++) {
    Cnf f;
    f.dom = {d};
    f.cls = {{{1, (eq & 1) != 0, v}}, {{1, (eq & 2) != 0, w}}};
    fn("value-pair", f, -1);
  }
  if (v == w) return;
  Cnf f;
  f.dom = {d};
  f.cls = {{{1, true, v}, {1, true, w}}};
  fn("value-pair", f, -1);
}
static void gen_encode(const Emit &e, bool th) {
  // the converters document nothing for a problem without clauses
  auto fn = [&](const char *n, const Cnf &f, int x) {
    if (f.cls.empty()) return;
    Unit u;
    u.fam = n;
    u.f = f;
    u.expect = x;
    e(u);
  };
  for (auto &d : std::vector<std::vector<int>>{{1}, {2}, {3}, {4}, {1, 2}, {2, 2}, {1, 1}}) fam::tiny(d, 2, 2, fn);
  fam::tiny({2, 3}, 2, th ? 2 : 1, fn);
  fam::tiny({3, 1}, 2, th ? 2 : 1, fn);
  fam::tiny({3, 3}, 2, 1, fn);
  fam::tiny({5}, 1, 2, fn);
  fam::tiny({7}, 1, 2, fn);
  // one clause, literals repeated and opposed in every way
  fam::tiny({2}, 4, 1, fn);
  fam::tiny({3}, 3, 1, fn);
  fam::tiny({2, 2}, th ? 4 : 3, 1, fn);
  fam::subsets({3, 2}, 2, 2, fn);
  fam::subsets({4, 1, 2}, 2, th ? 2 : 1, fn);
  fam::subsets({2, 1, 3}, 2, th ? 2 : 1, fn);
  fam::subsets({1, 3, 2, 3}, 2, 1, fn);
  if (th) {
    fam::subsets({3, 3}, 2, 2, fn);
    fam::subsets({2, 2, 2}, 2, 2, fn);
    fam::tiny({1, 3, 2}, 2, 1, fn);
    fam::graphs(3, 3, fn);
    fam::pigeons(2, 3, fn);
  }
  for (int d = 3; d <= (th ? 40 : 14); d++)
    for (int v : {0, 1, d / 2, d - 1})
      for (bool eq : {true, false}) {
        Cnf f;
        f.dom = {d};
        f.cls = {{{1, eq, v}}};
        fn("one-variable", f, -1);
        f.dom = {2, d, 1};
        f.cls = {{{2, eq, v}, {1, true, 1}}, {{1, false, 1}}};
        fn("between", f, -1);
      }
  // every value of larger domains, named so that mistaking one for another changes the models
  for (int d = 3; d <= (th ? 40 : 14); d++)
    for (int v = 0; v < d; v++)
      for (int w = 0; w < d; w++)
        if (v <= w || th) value_pairs(d, v, w, fn);
  // comments of every kind; blank lines and comments between the clauses: see the layouts below
  for (int k = 0; k < 2; k++) {
    Unit u;
    u.fam = "comments";
    u.f.dom = {3, 2, 1};
    u.f.cls = {{{1, true, 2}, {2, false, 1}}, {{2, true, 1}, {1, false, 0}}, {{1, false, 1}, {3, true, 0}}};
    if (k) u.f.cls.push_back({{1, true, 0}, {2, true, 0}}), u.f.cls.push_back({{2, true, 1}, {1, true, 1}}), u.f.cls.push_back({{1, false, 2}});
    u.pin("comments", 1);
    e(u);
  }
  // the same kind of problems with many variables, clauses, literals or values
  auto large = [&](const char *n, const Cnf &f, int x) {
    if (f.cls.empty()) return;
    Unit u;
    u.fam = n;
    u.f = f;
    u.expect = x;
    u.pin("large", 1);
    e(u);
  };
  long k = 0;
  fam::embedded(th ? 2 : 1, false, false, [&](const char *n, const Cnf &f, int x) {
    if (std::string(n) != "at-size-levels" && (th || k++ % 3 == 0)) large(n, f, x);
  });
  // (the last ones: more atoms, variables and clauses than 16 bits count)
  for (int n : {9, 10, 11, 40, 99, 100, 101, 300, 1000, 4000, 11000, 33000, 66000})
    for (int d : {1, 2, 3, 10, 12}) {
      // all variables fixed but the last, which a clause over all of them fixes
      if (n * d > 4000 && n <= 1000 && !th) continue;
      if (n > 1000 && (d == 1 || n * d > (th ? 200000 : 140000))) continue;
      for (int turn = 0; turn < (n > 1000 ? 2 : 3); turn++) {
        Cnf f;
        f.dom.assign(n, d);
        for (int i = 2; i < n; i += 3) f.dom[i] = 2;
        Cl all;
        auto at = [&](int i) { return (i * 7 + turn) % f.dom[i - 1]; };
        for (int i = 1; i < n; i++) {
          bool eq = (i + turn) % 2;
          f.cls.push_back({{i, true, at(i)}});
          if (f.dom[i - 1] > 1) all.push_back({i, eq, eq ? (at(i) + 1) % f.dom[i - 1] : at(i)});
        }
        all.insert(turn == 0 ? all.begin() : turn == 1 ? all.end() : all.begin() + all.size() / 2, L{n, true, f.dom[n - 1] - 1});
        f.cls.insert(turn == 1 ? f.cls.end() : f.cls.begin(), all);
        large("many", f, 1);
      }
    }
  for (int d : {257, 300, th ? 490 : 400}) {
    Cnf f;
    f.dom = {2, d, 3};
    f.cls = {{{2, true, d - 1}, {2, true, d / 2}, {1, true, 1}}, {{1, true, 0}}, {{3, false, 1}, {2, false, d / 2}}, {{3, true, 2}}};
    large("wide", f, 1);
  }
  fam::scale(th ? 300 : 100, large);
  fam::congruent(1, th ? 8 : 1, 0, th ? 1e5 : 1e4, [&](const char *n, const Cnf &f, int x) {
    if (th || k++ % 7 == 0) large(n, f, x);
  });
}
static std::vector<std::string> finite_layouts(const Cnf &f, bool few, bool comments) {
  std::string p = text(f), c, b, w, r, x, q, y;
  if (comments) {
    std::vector<std::string> v;
    for (auto &l : odd_comments()) v.push_back(interleaved(p, l));
    return v;
  }
  for (char ch : p) {
    if (ch == '\n') r += '\r';
    r += ch;
  }
  if (few) return {p, r};
  x = "c " + std::string(9000, '1') + "\n" + p;
  for (auto &l : lines(p)) {
    c += "c 1=1 0\n" + l + "\n";
    b += (l[0] == 'p' ? "" : "\n \t\n") + l + "\n";
    for (char ch : l) {
      bool decl = l[0] == 'p' || l[0] == 'd';
      q += decl && ch == ' ' ? '\t' : ch;
      if (decl && ch == ' ') y += " \t  ";
      else if (l[0] == 'p' && ch == 'c') y += "mvc";
      else y += ch;
    }
    q += "\n";
    y += l[0] == 'p' || l[0] == 'd' ? " \t\n" : "\n";
    if (l[0] == 'p' || l[0] == 'd') w += l + "\n";
    else {
      w += "  ";
      for (char ch : l) w += ch == ' ' ? std::string(" \t ") : std::string(1, ch);
      w += " \n";
    }
  }
  return {p, p.substr(0, p.size() - 1), c, b, w, p + "\n\n", r, x, q, y};
}
// the models of the input; false: more than we care to compare
static bool input_models(const Cnf &f, std::vector<Model> &ms);
// the models of a formula, by search with propagation; false: more than limit
static bool models_of(const Cnf &b, size_t limit, std::vector<Model> &ms) {
  auto sc = to_sc(b);
  std::vector<const SC *> db;
  for (auto &c : sc) db.push_back(&c);
  std::vector<Bits> dom;
  for (int d : b.dom) dom.push_back(full(d));
  std::function<bool(std::vector<Bits>)> go = [&](std::vector<Bits> d) {
    if (!propagate(db, d)) return true;
    for (int i = 0; i < b.nv(); i++)
      if (d[i].count() > 1) {
        for (int v = 0; v < b.dom[i]; v++) {
          if (!d[i][v]) continue;
          auto e = d;
          e[i].reset();
          e[i].set(v);
          if (!go(e)) return false;
        }
        return true;
      }
    Model m;
    for (int i = 0; i < b.nv(); i++) m.push_back((int)d[i]._Find_first());
    ms.push_back(m);
    return ms.size() <= limit;
  };
  return go(dom);
}
static bool input_models(const Cnf &f, std::vector<Model> &ms) {
  double n = 1;
  for (int d : f.dom) n *= d;
  if (n > 3000) {
    for (int d : f.dom)
      if (d > MAXDOM) return false;
    return models_of(f, 200, ms);
  }
  ms = Reference(f).models();
  return true;
}
static Reg c22({"C22", "exploration",
                "small finite formulas (domains 1..7 in combination, single domains up to 40 with every pair of values; problems of up to 200 models with many variables, values, clauses or literals) x layouts: the file -linenc writes is DIMACS with true header counts, and has exactly one "
                "model per model of the input; non-trivial: distinct input texts",
                gen_encode,
                [](Unit &u, Probe &pb) -> std::string {
                  auto ls = finite_layouts(u.f, u.has("large"), u.has("comments"));
                  std::vector<Model> want;
                  if (!input_models(u.f, want)) {
                    pb.skipped++;
                    return "";
                  }
                  for (size_t k = 0; k < ls.size(); k++) {
                    if (!u.wants("layout", std::to_string(k))) continue;
                    std::string out, e = convert("-linenc", ls[k], out, pb);
                    pb.hard(ls[k]);
                    Cnf b;
                    Head h;
                    if (e.empty()) e = read_boolean(out, b, h);
                    if (e.empty() && h.clauses != (long)b.cls.size())
                      e = "the header says " + std::to_string(h.clauses) + " clauses, there are " + std::to_string(b.cls.size());
                    if (e.empty()) {
                      std::vector<Model> ms;
                      models_of(b, want.size(), ms);
                      pb.outcome(out);
                      if (ms.size() != want.size())
                        e = "the input has " + std::to_string(want.size()) + " models, the output " + (ms.size() > want.size() ? "more" : std::to_string(ms.size()));
                    }
                    if (!e.empty()) {
                      u.pin("layout", k);
                      return "-linenc: " + e;
                    }
                  }
                  if (pb.units % 1000 == 1) pb.sample(text(u.f));
                  return "";
                },
                {BUILD, "inputs with at least one clause line"}});
static Reg c23({"C23", "exploration",
                "small finite formulas (domains 1..7 in combination, single domains up to 40 with every pair of values; problems of up to 200 models with many variables, values, clauses or literals) x layouts: the file -quadenc writes has true header counts and its models are exactly the "
                "assignments of true to one atom v=d per variable that are models of the input; non-trivial: distinct input texts",
                gen_encode,
                [](Unit &u, Probe &pb) -> std::string {
                  auto ls = finite_layouts(u.f, u.has("large"), u.has("comments"));
                  std::vector<Model> want;
                  if (!input_models(u.f, want)) {
                    pb.skipped++;
                    return "";
                  }
                  for (size_t k = 0; k < ls.size(); k++) {
                    if (!u.wants("layout", std::to_string(k))) continue;
                    std::string out, e = convert("-quadenc", ls[k], out, pb);
                    pb.hard(ls[k]);
                    Cnf b;
                    Head h;
                    if (e.empty()) e = read_atoms(out, u.f, b, h);
                    if (e.empty() && h.clauses != (long)b.cls.size())
                      e = "the header says " + std::to_string(h.clauses) + " clauses, there are " + std::to_string(b.cls.size());
                    if (e.empty() && h.vars != b.nv()) e = "the header says " + std::to_string(h.vars) + " variables, there are " + std::to_string(b.nv());
                    if (e.empty()) {
                      std::vector<Model> ms;
                      models_of(b, want.size(), ms);
                      pb.outcome(out);
                      for (auto &m : want) {
                        Model one;
                        for (int i = 0; i < u.f.nv(); i++)
                          for (int d = 0; d < u.f.dom[i]; d++) one.push_back(m[i] == d);
                        if (e.empty() && !holds(b, one)) e = "a model of the input is lost";
                      }
                      if (e.empty() && ms.size() != want.size()) e = "the output has models that the input lacks";
                    }
                    if (!e.empty()) {
                      u.pin("layout", k);
                      return "-quadenc: " + e;
                    }
                  }
                  if (pb.units % 1000 == 1) pb.sample(text(u.f));
                  return "";
                },
                {BUILD, "inputs with at least one clause line"}});

// ---------------------------------------------------------------- the generator
// Streams of rand(): every sequence over 0..V-1 for the first H calls, then a fair
// continuation; and fair streams with every deviation in at most `dev` of the first N calls.
static int fair(long i, long salt) {
  uint64_t x = (uint64_t)(i + 1) * 0x9E3779B97F4A7C15ull + (uint64_t)salt * 0xD1B54A32D192ED03ull;
  x ^= x >> 29;
  x *= 0xBF58476D1CE4E5B9ull;
  x ^= x >> 32;
  return (int)(x & 0x7fffffff);
}
struct Stream {
  std::vector<int> prefix;
  std::map<long, int> dev;
  long salt = 0;
  std::string str() const {
    std::string s = std::to_string(salt);
    for (int p : prefix) s += "," + std::to_string(p);
    for (auto &d : dev) s += ";" + std::to_string(d.first) + ":" + std::to_string(d.second);
    return s;
  }
  int at(long i) const {
    if (i < (long)prefix.size()) return prefix[i];
    auto d = dev.find(i);
    if (d != dev.end()) return d->second;
    return fair(i, salt);
  }
};
static std::string each_stream(int V, int H, int N, int dev, const std::function<std::string(const Stream &)> &fn) {
  Stream s;
  std::function<std::string(int)> pre = [&](int k) -> std::string {
    if (k == H) return fn(s);
    for (int v = 0; v < V; v++) {
      s.prefix.push_back(v);
      std::string e = pre(k + 1);
      s.prefix.pop_back();
      if (!e.empty()) return e;
    }
    return "";
  };
  std::string e = pre(0);
  if (!e.empty()) return e;
  for (long salt = 1; salt <= 2; salt++) {
    Stream t;
    t.salt = salt;
    std::function<std::string(int, int)> go = [&](int from, int left) -> std::string {
      std::string e = fn(t);
      if (!e.empty() || !left) return e;
      for (int i = from; i < N; i++)
        for (int v = 0; v < V; v++) {
          t.dev[i] = v;
          e = go(i + 1, left - 1);
          t.dev.erase(i);
          if (!e.empty()) return e;
        }
      return "";
    };
    e = go(0, dev);
    if (!e.empty()) return e;
  }
  return "";
}
static int lcm(int a, int b) {
  int x = a, y = b;
  while (y) {
    int t = x % y;
    x = y;
    y = t;
  }
  return a / x * b;
}
struct Gen {
  int vars, clauses, size, sat, dom, drand, boolean;  // -1: option not given
  std::vector<std::string> args(const std::string &path) const {
    std::vector<std::string> a{"-genben", "-var", std::to_string(vars), "-clause", std::to_string(clauses)};
    auto opt = [&](const char *n, int v) {
      if (v >= 0) {
        a.push_back(n);
        a.push_back(std::to_string(v));
      }
    };
    opt("-clausesize", size);
    opt("-sat", sat);
    opt("-domain", dom);
    opt("-drand", drand);
    opt("-bool", boolean);
    a.push_back("-file");
    a.push_back(path);
    return a;
  }
  std::string str() const {
    std::string s;
    for (auto &x : args("F")) s += x + " ";
    return s;
  }
};
static void gen_args(const Emit &e, bool boolean, bool th) {
  bool few = false, cover = false;
  auto emit = [&](std::vector<int> v) {
    Unit u;
    u.fam = "arguments";
    u.f.dom = {2};
    static const char *N[] = {"vars", "clauses", "size", "sat", "dom", "drand", "bool"};
    for (int i = 0; i < 7; i++) u.pin(N[i], v[i]);
    if (th) u.pin("thorough", 1);
    if (few) u.pin("few", 1);
    if (cover) u.pin("cover", 1);
    e(u);
  };
  int b = boolean ? 0 : 1;
  for (int vars = 1; vars <= (th ? 5 : 4); vars++)
    for (int clauses : {1, 2, 3, 4})
      for (int size = 1; size <= vars && size <= 4; size++)
        for (int sat : {0, 1, -1}) {
          if (boolean) {
            emit({vars, clauses, size, sat, -1, -1, 0});
            continue;
          }
          for (int dom = 1; dom <= 4; dom++)
            for (int drand : {0, 1, -1}) {
              if (sat < 0 && (dom != 3 || drand == 1)) continue;
              if (drand < 0 && sat == 0) continue;
              emit({vars, clauses, size, sat, dom, drand, b});
            }
        }
  // defaults: three literals, ten values
  emit({3, 2, -1, -1, -1, -1, b});
  emit({4, 6, -1, 1, -1, -1, b});
  if (!boolean) {
    emit({3, 3, 2, 1, -1, 1, 1});
    emit({3, 2, 3, 0, 10, 1, 1});
  }
  emit({20, 40, 3, 1, boolean ? -1 : 5, -1, b});
  emit({12, 60, 3, 1, boolean ? -1 : 2, -1, b});
  emit({12, 60, 3, 0, boolean ? -1 : 2, -1, b});
  // many variables, clauses, literals, values
  few = true;
  for (int vars : {9, 11, 40, 100, 130, 260, 300})
    for (int clauses : {1, 10, 100, 300})
      for (int size : {1, 5, 8, 9, 20, 33, 65, 130})
        for (int sat : {0, 1}) {
          if (size > vars || (size > vars / 2 && vars > 11) || clauses * size > (th ? 20000 : 4000)) continue;
          if (boolean) {
            emit({vars, clauses, size, sat, -1, -1, b});
            continue;
          }
          for (int dom : {2, 9, 11, 70, 260})
            for (int drand : {0, 1}) emit({vars, clauses, size, sat, dom, drand, b});
        }
  // more than 8 and 16 bits hold
  for (int k : {257, 1000, 33000, 66000})
    for (int sat : {0, 1}) {
      for (auto &v : std::vector<std::vector<int>>{{k, 4, 3}, {3, k, 2}, {k, k, 2}, {k < 2000 ? 4 * k : 2000, 3, std::min(k, 700)}}) {
        if (boolean) {
          emit({v[0], v[1], v[2], sat, -1, -1, b});
          continue;
        }
        emit({v[0], v[1], v[2], sat, 3, 0, b});
        emit({v[0], v[1], v[2], sat, 300, 1, b});
      }
      if (!boolean) {
        emit({3, 4, 2, sat, k, 0, b});
        emit({3, 4, 2, sat, k, 1, b});
        emit({3, 4, 2, sat, 20 * k, 0, b});
      }
    }
  // every literal and domain size, of many
  cover = true;
  for (int sat : {0, 1}) {
    if (boolean) {
      for (int vars : {33, 130, 400, 1100, 3000}) emit({vars, 300, 3, sat, -1, -1, b});
      for (int vars : {40000, 70000})
        if (th || (vars == 40000 && !sat)) emit({vars, 100000, 5, sat, -1, -1, b});
      continue;
    }
    for (auto &p : std::vector<std::pair<int, int>>{{2, 40}, {2, 130}, {3, 300}, {20, 30}, {130, 3}, {300, 2}, {700, 2}, {th ? 3000 : 1100, 2}, {2, th ? 3000 : 1100}})
      for (int drand : {0, 1}) emit({p.first, sat && p.second > 9 ? 10 : 300, sat ? 1 : 2, sat, p.second, drand, b});
    for (int vars : {40000, 70000})
      if (th || (vars == 40000 && !sat)) emit({vars, 100000, 5, sat, 2, 0, b});
  }
}
// satisfiable? Tries what the literals at one place of each clause say; -1: do not know
static int planted(const Cnf &f) {
  size_t longest = 0;
  for (auto &c : f.cls) longest = std::max(longest, c.size());
  for (size_t p = 0; p < longest; p++) {
    Model m(f.nv(), 0);
    for (auto &c : f.cls)
      if (!c.empty()) {
        const L &l = c[std::min(p, c.size() - 1)];
        m[l.var - 1] = l.eq ? l.val : f.dom[l.var - 1] == 2 ? 1 - l.val : m[l.var - 1];
      }
    if (holds(f, m)) return 1;
  }
  return ref_sat(f, 300);
}
static std::string run_gen(Unit &u, Probe &pb) {
  Gen g{(int)u.num("vars"), (int)u.num("clauses"), (int)u.num("size"), (int)u.num("sat"), (int)u.num("dom"), (int)u.num("drand"), (int)u.num("bool")};
  bool boolean = g.boolean == 0, th = u.num("thorough");
  int size = g.size < 0 ? 3 : g.size, dom = g.dom < 0 ? 10 : g.dom;
  bool sat = g.sat != 0;
  int V = boolean ? lcm(2, g.vars) : lcm(g.vars, g.drand == 1 ? lcm(dom, lcm(std::max(1, dom - 1), std::max(1, dom - 2))) : dom);
  int cap = th ? 60 : 24;
  if (V > cap) V = cap;
  // how many calls one run makes, about
  long N = g.vars * (g.drand == 1 ? 2 : 1) + (long)g.clauses * size * 2;
  int H = 0;
  bool large = u.has("few");
  double budget = large ? (th ? 200 : 24) : th ? 60000 : 2500, c = 1;
  while (H < N && c * V <= budget) {
    c *= V;
    H++;
    if (V == 1) break;
  }
  int dev = (double)N * N * V * V / 2 <= budget ? 2 : (double)N * V <= budget * 4 ? 1 : 0;
  std::set<int> doms;
  std::set<std::pair<int, int>> lits;     // that occurred
  std::vector<int> maxdom(g.vars + 1, 0);
  auto one = [&](const Stream &s) -> std::string {
    if (!u.wants("stream", s.str())) return "";
    fout()->set("stale\n");
    Env env = env0();
    env.rnd = [&](long i) { return s.at(i); };
    env.rand_horizon = std::max(100000L, 4 * N);
    RunResult r = run(SRC, g.args(fout()->path), env);
    pb.evaluations++;
    pb.count["rand_calls"] += r.rands;
    std::string e = ended(r), out = fout()->get();
    if (r.status == HORIZON) e = "does not end";
    Cnf f;
    Head h;
    if (e.empty()) e = boolean ? read_boolean(out, f, h) : read_finite(out, f, h);
    if (e.empty()) {
      if (!u.has("cover")) {
        pb.outcome(out);
        pb.hard(g.str() + out);
      }
      if (h.vars != g.vars || h.clauses != g.clauses) e = "wrong header";
      else if ((long)f.cls.size() != g.clauses) e = "writes " + std::to_string(f.cls.size()) + " clauses";
      else if (f.nv() != g.vars) e = "declares " + std::to_string(f.nv()) + " variables";
      if (!boolean)
        for (int d : f.dom) {
          if (e.empty() && (g.drand == 1 ? d < 1 || d > dom : d != dom)) e = "a domain of " + std::to_string(d);
          doms.insert(d);
        }
      for (auto &c : f.cls) {
        if (!e.empty()) break;
        if ((int)c.size() != size) e = "a clause of " + std::to_string(c.size()) + " literals: " + str(c);
        for (size_t i = 0; i < c.size() && e.empty(); i++) {
          lits.insert({c[i].var, c[i].val});
          for (size_t j = 0; j < i; j++)
            if (boolean ? c[i] == c[j] : c[i].var == c[j].var) e = "a repeated " + std::string(boolean ? "literal: " : "variable: ") + str(c);
        }
      }
      if (e.empty() && sat) {
        int s = g.vars <= 6 && dom <= 4 ? (int)Reference(f).sat() : large ? planted(f) : ref_sat(f);
        if (s < 0) pb.skipped++;
        if (s == 0) e = "-sat 1 gives an unsatisfiable problem";
      }
    }
    if (!e.empty()) {
      u.pin("stream", s.str());
      return g.str() + ": " + e;
    }
    return "";
  };
  bool cover = u.has("cover");
  std::string e = cover ? "" : each_stream(V, H, (int)std::min(N, 400L), dev, one);
  if (!e.empty()) return e;
  // everything the arguments allow can be generated
  if (!u.has("stream") && (cover || !large) && (cover || g.vars * (boolean ? 2 : dom) <= 40)) {
    // look further for what has not occurred yet
    // of many random domain sizes the big ones are too rare to wait for all their values
    bool values = !(cover && g.drand == 1);
    size_t all = values ? (size_t)g.vars * (boolean ? 2 : dom) : 0, alld = !boolean && g.drand == 1 ? dom : 0;
    // runs until everything has occurred, four times over, if all is equally likely
    auto enough = [](double kinds, double draws) { return (long)(4 * kinds * (std::log(kinds + 1) + 5) / std::max(1.0, draws)); };
    long cap = cover ? (g.vars > 10000 ? 20 : 200) + std::max(enough(all, sat ? std::min(g.clauses, g.vars) : (double)g.clauses * size), enough(alld, g.vars)) : 6000;
    for (long salt = 3; salt < cap && e.empty() && (lits.size() < all || doms.size() < alld); salt++) {
      Stream s;
      s.salt = salt;
      e = one(s);
    }
    if (!e.empty()) return e;
    for (int v = 1; v <= g.vars && e.empty() && values; v++)
      for (int d = 0; d < (boolean ? 2 : dom) && e.empty(); d++)
        if (!lits.count({v, d})) e = "no stream of random numbers leads to a literal " + std::to_string(v) + "=" + std::to_string(d);
    if (!boolean && g.drand == 1)
      for (int d = 1; d <= dom && e.empty(); d++)
        if (!doms.count(d)) e = "no stream of random numbers leads to a domain of " + std::to_string(d);
    if (!e.empty()) return g.str() + ": " + e;
  }
  if (pb.units % 40 == 1) pb.sample(g.str());
  return "";
}
static Reg c24({"C24", "fault_enumeration",
                "arguments of -genben -bool 1 x answers of rand(): every sequence of residues for the first calls, and every deviation in up to two of the calls of two "
                "fair streams; the run ends, the file is well-formed and as asked for, and satisfiable with -sat 1; every literal and domain size can occur; non-trivial: distinct files",
                [](const Emit &e, bool th) { gen_args(e, false, th); }, run_gen, {BUILD, "rand() answers fairly in the long run; clauses ask for no more literals than there are variables"}});
static Reg c25({"C25", "fault_enumeration",
                "arguments of -genben -bool 0 x answers of rand() as in C24: the run ends, the file is well-formed DIMACS as asked for, no literal repeated in a clause, and satisfiable "
                "with -sat 1; non-trivial: distinct files",
                [](const Emit &e, bool th) { gen_args(e, true, th); }, run_gen, {BUILD, "rand() answers fairly in the long run; clauses ask for no more literals than there are variables"}});

// ---------------------------------------------------------------- pipelines
static std::string solve_all(Unit &u, const std::string &t, bool want, const char *what, Probe &pb, bool with_model = true) {
  static auto ms = modes("nc wl ch bv nc-lazy wl+r2");
  Cnf f;
  Head h;
  std::string e = read_finite(t, f, h);
  if (!e.empty()) return std::string(what) + ": " + e;
  for (auto &m : ms) {
    if (!u.wants("mode", m.name) || (m.alg == BV && !fits_bitvec(f))) continue;
    RunResult r = solve(lib_of(m), m, t, env0());
    pb.evaluations++;
    std::string e = ended(r);
    Out o = parse_out(r.out);
    if (e.empty() && o.verdict != (want ? "SAT" : "UNSAT")) e = "answers " + o.verdict + " instead of " + (want ? "SAT" : "UNSAT");
    if (e.empty() && want && with_model) e = model_error(f, o, m.alg == BV);
    pb.outcome(o.verdict + std::to_string(o.counters["Decisions"]) + "," + std::to_string(o.counters["Backtracks"]));
    if (o.counters["Backtracks"] > 0) pb.hard(t);
    if (!e.empty()) {
      u.pin("mode", m.name);
      return std::string(what) + ", " + m.name + ": " + e;
    }
  }
  return "";
}
static Reg c33({"C33", "exploration",
                "small formulas x {-b2f | solve, -linenc | -b2f | solve} and generated problems x {-genben | solve, -genben -bool 0 | -b2f | solve} x engines: the verdict is that of the "
                "first file, the model one of the file solved; non-trivial: distinct files on whose solution some run backtracked",
                [](const Emit &e, bool th) {
                  auto b = pinned(e, "kind", "boolean");
                  fam::tiny({2, 2}, 2, 2, b);
                  fam::tiny({2}, 4, 1, b);
                  fam::tiny({2, 2}, 3, 1, b);
                  fam::boolean_subsets(2, 4, b);
                  fam::boolean_subsets(3, th ? 4 : 3, b);
                  auto f = [&](const char *n, const Cnf &g, int x) {
                    if (g.cls.empty()) return;
                    pinned(e, "kind", "finite")(n, g, x);
                  };
                  for (auto &d : std::vector<std::vector<int>>{{1}, {2}, {3}, {1, 2}}) fam::tiny(d, 2, 2, f);
                  fam::tiny({2, 2}, 3, 1, f);
                  fam::subsets({3, 2}, 2, 2, f);
                  fam::subsets({3, 3}, 2, th ? 3 : 2, f);
                  fam::graphs(4, 3, f);
                  fam::graphs(4, 2, f);
                  fam::pigeons(2, 4, f);
                  fam::csp(3, 3, th ? 5 : 3, true, f);
                  fam::csp(3, 3, th ? 5 : 3, false, f);
                  for (int d = 3; d <= (th ? 24 : 14); d++)
                    for (int v = 0; v < d; v++)
                      for (int w = v; w < d; w++) value_pairs(d, v, w, f);
                  // the same with variables numbered far apart: chains of implications between them, closed or not
                  for (int n : {99, 100, 255, 256, 300, 1000, 4096, 9999, 10000, 12345, 32767, 32768, 65535, 65536, 70001, 100001}) {
                    if (n > 70001 && !th) continue;
                    for (int signs = 0; signs < 8; signs++)
                      for (int open = 0; open < 2; open++) {
                        if (open && n > 1000 && signs > 1) continue;
                        Unit u;
                        u.fam = "wide";
                        int v[3] = {n, n / 2 + 1, 1};
                        u.f.dom.assign(n, 2);
                        auto l = [&](int i, bool flip) { return L{v[i], true, ((signs >> i & 1) ^ (int)flip)}; };
                        u.f.cls = {{l(0, false)}, {l(1, true), l(2, false)}, {l(0, true), l(1, false)}};
                        if (!open) u.f.cls.push_back(Cl{l(2, true)});
                        // a decision for each of very many variables takes much memory: fix the others
                        if (open && n > 1000)
                          for (int i = 2; i < n; i++)
                            if (i != v[1]) u.f.cls.push_back(Cl{L{i, true, (int)((i * 2654435761u) >> 20 & 1)}});
                        u.pin("kind", "wide");
                        u.pin("want", open);
                        e(u);
                      }
                  }
                  for (int n : {300, 700, 3000})
                    for (int open = 0; open < 2; open++)
                      for (int d : {1, 2, 3}) {
                        if (n * d > 3000) continue;
                        Unit u;
                        u.fam = "wide";
                        u.f.dom.assign(n, d);
                        u.f.cls = {{L{n, true, d - 1}}, {L{n, false, d - 1}, L{1, true, 0}}};
                        if (!open) u.f.cls.push_back(Cl{L{1, false, 0}});
                        u.pin("kind", "widefinite");
                        u.pin("want", open);
                        e(u);
                      }
                  for (int boolean = 0; boolean < 2; boolean++)
                    for (int vars = 1; vars <= 6; vars++)
                      for (int clauses : {1, 4, 12, 30})
                        for (int salt = 1; salt <= (th ? 40 : 8); salt++) {
                          Unit u;
                          u.fam = "generated";
                          u.f.dom = {2};
                          u.pin("kind", "generated");
                          u.pin("bool", boolean);
                          u.pin("vars", vars);
                          u.pin("clauses", clauses);
                          u.pin("salt", salt);
                          e(u);
                        }
                },
                [](Unit &u, Probe &pb) -> std::string {
                  std::string k = u.get("kind"), out, o2, e;
                  if (k == "boolean" || k == "wide") {
                    e = convert("-b2f", dimacs(u.f), out, pb);
                    if (e.empty()) e = solve_all(u, out, k == "wide" ? u.num("want") : is_sat(u), "-b2f", pb);
                    return e;
                  }
                  if (k == "finite" || k == "widefinite") {
                    e = convert("-linenc", text(u.f), out, pb);
                    if (e.empty()) e = convert("-b2f", out, o2, pb);
                    if (e.empty()) e = solve_all(u, o2, k == "widefinite" ? u.num("want") : is_sat(u), "-linenc and -b2f", pb);
                    if (pb.units % 1000 == 1) pb.sample(text(u.f));
                    return e;
                  }
                  bool boolean = u.num("bool");
                  for (int size = 1; size <= 3 && size <= u.num("vars"); size++)
                    for (int dom = 2; dom <= (boolean ? 2 : 4); dom++) {
                      std::string key = std::to_string(size) + "," + std::to_string(dom);
                      if (!u.wants("size", key)) continue;
                      Gen g{(int)u.num("vars"), (int)u.num("clauses"), size, 1, boolean ? -1 : dom, 0, boolean ? 0 : 1};
                      Env env = env0();
                      long salt = u.num("salt");
                      env.rnd = [&](long i) { return fair(i, salt * 16 + size * 4 + dom); };
                      env.rand_horizon = 100000;
                      fout()->set("");
                      RunResult r = run(SRC, g.args(fout()->path), env);
                      pb.evaluations++;
                      e = ended(r);
                      out = fout()->get();
                      if (e.empty() && boolean) {
                        e = convert("-b2f", out, o2, pb);
                        out = o2;
                      }
                      if (e.empty()) e = solve_all(u, out, true, "-genben", pb);
                      if (!e.empty()) {
                        u.pin("size", key);
                        return g.str() + ": " + e;
                      }
                    }
                  return "";
                },
                {BUILD}});

}  // namespace vf
