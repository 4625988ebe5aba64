// The environment's answers: clock, file system, input layout, memory contents,
// option order. Everything the program cannot choose is enumerated.
#include "judge.h"

#include <unistd.h>

namespace vf {

static const char *BUILD = "sources compiled -O1 -DMVL_VERIF and called through main() in-process behave as the shipped executable does";

// ------------------------------------------------------------------ time limit
static void gen_time(const Emit &e, bool th) {
  auto fn = to_units(e);
  fam::pigeons(3, th ? 6 : 5, fn);
  fam::search_heavy(false, [&](const char *n, const Cnf &f, int x) {
    if (f.nv() <= (th ? 12 : 6)) fn(n, f, x);
  });
  fam::csp(3, 3, 4, false, fn);
  fam::boolean_subsets(2, 3, fn);
  fam::graphs(4, 3, fn);
  fam::scale(12, fn);
  if (th) fam::graphs(5, 3, fn);
}
// Which clock reads are outside the search: the first `lead` (they set the start) and the
// last `tail` (they measure the time to report). Taken from two runs of each engine;
// a jump at any read between them must be noticed in every run.
struct Reads {
  long lead = 0, tail = 0;
  std::string error;
};
static const Reads &outside(const Mode &m) {
  static std::map<std::string, Reads> cache;
  auto it = cache.find(m.name);
  if (it != cache.end()) return it->second;
  Reads r;
  r.lead = r.tail = 1000;
  for (int sat = 0; sat < 2; sat++) {
    Cnf f;
    f.dom = {3, 3, 3, 3};
    f.cls = {{{1, true, 0}, {2, true, 0}}, {{3, true, 0}, {4, true, 0}}};
    if (!sat) {
      f.dom = {2, 2};
      for (int i = 0; i < 4; i++) f.cls.push_back({{1, true, i & 1}, {2, true, i >> 1}});
      f.cls.erase(f.cls.begin(), f.cls.begin() + 2);
    }
    std::string t = text(f);
    RunResult base = solve(lib_of(m), m, t, env0(), false, {"-time", "7"});
    std::string want = report(base);
    long lead = -1, last = 0;
    for (long k = 1; k <= base.polls; k++) {
      Env env = env0();
      env.jump_at = k;
      env.jump = 7.5;
      RunResult x = solve(lib_of(m), m, t, env, false, {"-time", "7"});
      if (parse_out(x.out).verdict != "TIMEOUT") continue;
      if (lead < 0) lead = k - 1;
      last = k;
    }
    if (lead < 0) r.error = "no TIMEOUT whatever the clock read at which the limit has passed";
    r.lead = std::min(r.lead, lead);
    r.tail = std::min(r.tail, base.polls - last);
  }
  return cache[m.name] = r;
}
static Reg c14({"C14", "fault_enumeration",
                "formulas x engines x limits x every clock read at which the clock can jump past (or to just before) the limit. Past, in the search: TIMEOUT within 8 further reads, "
                "without another decision, no model; before the limit, or before or after the search: the undisturbed report; non-trivial: distinct (formula, engine, read) with a TIMEOUT",
                gen_time,
                [](Unit &u, Probe &pb) -> std::string {
                  static auto ms = modes("nc nc-lazy nc+r1 wl wl+r2 wl-lazy ch ch-lazy bv bv-vsids+r1");
                  std::string t = text(u.f);
                  for (auto &m : ms) {
                    if (!u.wants("mode", m.name) || !fits_bitvec(u.f)) continue;
                    auto &out = outside(m);
                    for (const char *limit : {"1", "7", "100000"}) {
                      if (!u.wants("limit", limit)) continue;
                      long L = atol(limit);
                      std::vector<std::string> more = {"-time", limit};
                      RunResult base = solve(lib_of(m), m, t, env0(), false, more);
                      pb.evaluations++;
                      std::string e = ended(base);
                      std::string undisturbed = report(base);
                      long N = base.polls;
                      if (e.empty() && parse_out(base.out).verdict == "TIMEOUT") e = "TIMEOUT although no time passed";
                      if (e.empty() && report(solve(lib_of(m), m, t, env0())) != undisturbed) e = "the limit changes the report although it is not reached";
                      if (e.empty() && N < 2) e = "never reads the clock";
                      if (e.empty()) e = out.error;
                      // every read for short runs; the first and last 60 and then each 7th for long ones
                      for (long k = 1; k <= N && e.empty(); k++) {
                        if (k > 60 && k < N - 60 && k % 7) continue;
                        for (int past = 1; past >= 0 && e.empty(); past--) {
                          if (!u.wants("read", std::to_string(k)) || !u.wants("past", std::to_string(past))) continue;
                          Env env = env0();
                          env.jump_at = k;
                          env.jump = past ? L + 0.5 : L - 0.5;
                          RunResult r = solve(lib_of(m), m, t, env, false, more);
                          pb.evaluations++;
                          Out o = parse_out(r.out);
                          e = ended(r);
                          if (e.empty() && !o.consistent) e = "contradictory verdicts";
                          if (e.empty() && !past && report(r) != undisturbed)
                            e = "below the limit: reports [" + report(r) + "] instead of [" + undisturbed + "]";
                          if (e.empty() && past) {
                            if (o.verdict == "TIMEOUT") {
                              pb.hard(t + m.name + limit + std::to_string(k));
                              pb.count["timeouts"]++;
                              if (o.has_model) e = "a model with TIMEOUT";
                              else if (r.polls > k + 8) e = "went on for " + std::to_string(r.polls - k) + " clock reads after the limit";
                              else if (r.decisions > r.decisions_at_jump) e = "made a decision after the limit had passed";
                            } else if (report(r) != undisturbed)
                              e = "reports [" + report(r) + "], neither TIMEOUT nor [" + undisturbed + "]";
                            else if (k > out.lead && k <= N - out.tail)
                              e = "did not notice that the limit had passed with " + std::to_string(N - k) + " clock reads to go";
                          }
                          if (!e.empty()) {
                            u.pin("read", k);
                            u.pin("past", past);
                            e += ", limit " + std::string(limit) + " s, clock jumps at read " + std::to_string(k);
                          }
                          pb.outcome(o.verdict + " " + std::to_string(o.counters["Decisions"]));
                        }
                      }
                      if (!e.empty()) {
                        u.pin("mode", m.name);
                        u.pin("limit", limit);
                        return m.name + ": " + e;
                      }
                    }
                  }
                  if (pb.units % 40 == 1) pb.sample(t);
                  return "";
                },
                {BUILD, "the solver measures time by gettimeofday, clock_gettime or time"}});

// ------------------------------------------------------------------ layout
struct Layout {
  std::string name;
  std::function<void(std::vector<std::string> &)> apply;  // lines, without newline
};
static std::string subst(const std::string &s, const std::string &a, const std::string &b) {
  std::string r;
  for (size_t i = 0; i < s.size();) {
    if (s.compare(i, a.size(), a) == 0) {
      r += b;
      i += a.size();
    } else
      r += s[i++];
  }
  return r;
}
static bool is_clause(const std::string &l) { return !l.empty() && l[0] != 'c' && l[0] != 'p' && l[0] != 'd'; }
static std::vector<Layout> layouts(size_t nlines) {
  std::vector<Layout> r;
  auto each = [&](const char *n, std::function<std::string(const std::string &)> f) {
    r.push_back({n, [f](std::vector<std::string> &v) {
                   for (auto &l : v) l = f(l);
                 }});
  };
  each("mvcnf", [](const std::string &l) { return l[0] == 'p' ? subst(l, "cnf", "mvcnf") : l; });
  each("tabs", [](const std::string &l) { return l[0] == 'c' ? l : subst(l, " ", "\t"); });
  each("wide", [](const std::string &l) { return l[0] == 'c' ? l : subst(l, " ", "   "); });
  each("tab-and-space", [](const std::string &l) { return is_clause(l) ? subst(l, " ", " \t") : l; });
  each("leading", [](const std::string &l) { return is_clause(l) ? "  " + l : l; });
  each("leading-tab", [](const std::string &l) { return is_clause(l) ? "\t" + l : l; });
  each("trailing", [](const std::string &l) { return l + "  "; });
  each("trailing-tab", [](const std::string &l) { return l + "\t"; });
  each("crlf", [](const std::string &l) { return l + "\r"; });
  std::vector<std::string> fill = {"", "  ", "\t", "c a comment", "c", "c 1=0 2!=1 0", "comment 1=1 0", "c p cnf 9 9", "c d 1 7", "c " + std::string(300, 'x'),
                                   "c " + std::string(1100, '1'), "c " + std::string(12000, 'z')};
  for (size_t k = 0; k < fill.size(); k++) {
    std::string s = fill[k];
    for (size_t at = 0; at <= nlines; at++)
      r.push_back({"line" + std::to_string(k) + "@" + std::to_string(at), [s, at](std::vector<std::string> &v) {
                     // only after the problem line for blank lines: the problem line comes first but for comments
                     v.insert(v.begin() + std::min(at, v.size()), s);
                   }});
    r.push_back({"line" + std::to_string(k) + "@all", [s](std::vector<std::string> &v) {
                   std::vector<std::string> w;
                   for (auto &l : v) {
                     w.push_back(s);
                     w.push_back(l);
                   }
                   w.push_back(s);
                   v = w;
                 }});
  }
  return r;
}
static std::string with_layout(const Cnf &f, const std::vector<std::string> &names, bool newline) {
  auto v = lines(text(f));
  static std::map<size_t, std::map<std::string, Layout>> cache;
  auto &ls = cache[v.size()];
  if (ls.empty())
    for (auto &l : layouts(v.size())) ls[l.name] = l;
  for (auto &n : names)
    if (!n.empty()) ls[n].apply(v);
  std::string t;
  for (size_t i = 0; i < v.size(); i++) t += v[i] + (i + 1 < v.size() || newline ? "\n" : "");
  return t;
}
// how long lines may be and how many there may be
static std::vector<std::pair<std::string, std::function<void(std::vector<std::string> &)>>> sizes(size_t len) {
  std::vector<std::pair<std::string, std::function<void(std::vector<std::string> &)>>> r;
  std::string words = "c";
  while (words.size() < len) words += words.size() % 3 ? " 1!=0 0" : " 2=1 0";
  words.resize(std::max<size_t>(len, 1));
  for (int at = 0; at < 4; at++) {
    auto put = [at](std::vector<std::string> &v, const std::string &l, size_t n) {
      size_t i = at == 0 ? 0 : at == 1 ? 1 : at == 2 ? v.size() - 1 : v.size();
      v.insert(v.begin() + i, n, l);
    };
    std::string k = "@" + std::to_string(at);
    r.push_back({"comment" + k, [=](std::vector<std::string> &v) { put(v, words, 1); }});
    r.push_back({"comments" + k, [=](std::vector<std::string> &v) { put(v, "c 1!=0 0", len); }});
    if (at > 0) r.push_back({"blank-lines" + k, [=](std::vector<std::string> &v) { put(v, "", len); }});
    if (at > 0) r.push_back({"blank-line" + k, [=](std::vector<std::string> &v) { put(v, std::string(len, ' '), 1); }});
  }
  for (char c : {' ', '\t'}) {
    std::string run(len, c);
    r.push_back({std::string("between ") + (c == ' ' ? "blanks" : "tabs"), [=](std::vector<std::string> &v) {
                   for (auto &l : v)
                     if (is_clause(l)) l = subst(l, " ", run);
                 }});
    r.push_back({std::string("before ") + (c == ' ' ? "blanks" : "tabs"), [=](std::vector<std::string> &v) {
                   for (auto &l : v)
                     if (is_clause(l)) l = run + l;
                 }});
    r.push_back({std::string("behind ") + (c == ' ' ? "blanks" : "tabs"), [=](std::vector<std::string> &v) {
                   for (auto &l : v) l += run;
                 }});
    r.push_back({std::string("in the declarations ") + (c == ' ' ? "blanks" : "tabs"), [=](std::vector<std::string> &v) {
                   for (auto &l : v)
                     if (l[0] == 'p' || l[0] == 'd') l = subst(l, " ", run);
                 }});
    r.push_back({std::string("at the end ") + (c == ' ' ? "blanks" : "tabs"), [=](std::vector<std::string> &v) { v.back() = subst(v.back(), " 0", run + "0"); }});
  }
  return r;
}
static Reg c16({"C16", "exploration",
                "base formulas x every layout change (comments and blank lines of several kinds and lengths at every position, tabs, runs of blanks, leading and trailing blanks, "
                "CR LF, no final newline, 'p mvcnf') alone and in pairs x engines; the report must be that of the plain layout; plus lines of every length up to thousands of "
                "literals; non-trivial: distinct texts",
                [](const Emit &e, bool th) {
                  auto base = pinned(e, "kind", "layout");
                  Cnf a;
                  a.dom = {3, 2, 4};
                  a.cls = {{{1, false, 0}, {2, true, 1}}, {{3, true, 3}, {2, false, 1}}, {{1, true, 2}, {3, false, 3}}, {{2, true, 0}, {1, false, 2}, {3, true, 0}}};
                  base("plain", a, -1);
                  a.cls.push_back({{1, false, 1}, {3, false, 3}});
                  a.cls.push_back({{1, false, 2}, {3, false, 3}});
                  base("plain", a, -1);
                  Cnf b;
                  b.dom = {2, 2};
                  b.cls = {{{1, true, 0}, {2, true, 0}}, {{1, true, 0}, {2, true, 1}}, {{1, true, 1}, {2, false, 0}}, {{1, true, 1}, {2, false, 1}}};
                  base("plain", b, 0);
                  Cnf c;
                  c.dom = {12, 11, 10, 25};
                  c.cls = {{{1, true, 11}, {2, true, 10}}, {{1, false, 11}}, {{4, true, 24}, {2, false, 10}}, {{3, true, 9}}, {{3, false, 9}, {4, false, 3}}};
                  base("plain", c, 1);
                  c.cls.push_back({{4, false, 24}, {3, true, 1}});
                  base("plain", c, 0);
                  Cnf d;
                  d.dom = {2};
                  d.cls = {{{1, false, 1}}};
                  base("plain", d, 1);
                  d.cls.push_back({{1, true, 1}});
                  base("plain", d, 0);
                  if (th) {
                    fam::boolean_subsets(2, 3, base);
                    fam::subsets({2, 3}, 2, 2, base);
                  }
                  for (long len : {2L, 31L, 127L, 128L, 255L, 256L, 257L, 511L, 512L, 1000L, 1023L, 1024L, 1025L, 2047L, 2048L, 2999L, 3000L, 3001L, 4095L, 4096L, 4097L, 8191L, 8192L, 8193L, 10000L, 16384L,
                                   32767L, 32768L, 65535L, 65536L, 65537L, 70000L, 140000L, th ? 1050000L : 262145L})
                    for (auto f : {a, c}) {
                      Unit u;
                      u.fam = "sizes";
                      u.f = f;
                      u.pin("kind", "size");
                      u.pin("len", len);
                      e(u);
                    }
                  for (auto f : {a, b, c}) pinned(e, "kind", "comment")("comments", f, -1);
                  auto lone = pinned(e, "kind", "length");
                  fam::long_lines(th ? 20000 : 5000, lone);
                  fam::scale(th ? 300 : 130, lone);
                },
                [](Unit &u, Probe &pb) -> std::string {
                  static auto ms = modes("nc wl ch bv");
                  static auto len = modes("nc wl bv");
                  if (u.get("kind") == "length") {
                    // verdicts of formulas whose lines and numbers grow; CH recurses per decision and has its own check
                    std::vector<Mode> fit;
                    for (auto &m : len)
                      if (m.alg != BV || fits_bitvec(u.f)) fit.push_back(m);
                    pb.hard(text(u.f));
                    return run_modes(u, pb, fit, true);
                  }
                  std::string plain = text(u.f);
                  if (u.get("kind") == "comment") {
                    for (auto &m : ms) {
                      if (!u.wants("mode", m.name)) continue;
                      std::string want = report(solve(lib_of(m), m, plain, env0()));
                      for (auto &l : odd_comments()) {
                        std::string t = interleaved(plain, l), got = report(solve(lib_of(m), m, t, env0()));
                        pb.evaluations++;
                        pb.hard(t);
                        if (got != want) {
                          u.pin("mode", m.name);
                          return m.name + ": with comments [" + l + "] reports [" + got + "] instead of [" + want + "]";
                        }
                      }
                    }
                    return "";
                  }
                  if (u.get("kind") == "size") {
                    for (auto &m : ms) {
                      if (!u.wants("mode", m.name)) continue;
                      std::string want = report(solve(lib_of(m), m, plain, env0()));
                      for (auto &z : sizes(u.num("len"))) {
                        if (!u.wants("layout", z.first)) continue;
                        auto v = lines(plain);
                        z.second(v);
                        std::string t;
                        for (auto &l : v) t += l + "\n";
                        std::string got = report(solve(lib_of(m), m, t, env0()));
                        pb.evaluations++;
                        pb.hard(z.first + u.get("len") + plain);
                        if (got != want) {
                          u.pin("layout", z.first);
                          u.pin("mode", m.name);
                          return m.name + ": with " + z.first + " of " + u.get("len") + " reports [" + got + "] instead of [" + want + "]";
                        }
                      }
                    }
                    return "";
                  }
                  size_t n = lines(plain).size();
                  std::vector<std::string> names{""};
                  for (auto &l : layouts(n)) names.push_back(l.name);
                  for (auto &m : ms) {
                    if (!u.wants("mode", m.name)) continue;
                    RunResult b = solve(lib_of(m), m, plain, env0());
                    std::string e = judge(u, m, b, pb, true), want = report(b);
                    if (!e.empty()) return e;
                    for (auto &x : names)
                      for (auto &y : names) {
                        // pairs: a change of all lines with any other
                        bool wx = x.find('@') == std::string::npos || x.find("@all") != std::string::npos;
                        if (!y.empty() && (x == y || !wx || x.empty())) continue;
                        for (int nl = 0; nl < 2; nl++) {
                          std::string key = x + "+" + y + "+" + std::to_string(nl);
                          if (!u.wants("layout", key)) continue;
                          std::string t = with_layout(u.f, {x, y}, nl);
                          RunResult r = solve(lib_of(m), m, t, env0());
                          pb.evaluations++;
                          pb.hard(t);
                          pb.outcome(report(r));
                          if (report(r) != want) {
                            u.pin("layout", key);
                            u.pin("mode", m.name);
                            return m.name + ": with layout " + key + " reports [" + report(r) + "] instead of [" + want + "]";
                          }
                        }
                      }
                  }
                  pb.sample(with_layout(u.f, {"crlf", "line3@2"}, false));
                  return "";
                },
                {BUILD, "layouts outside the documented format (domain lines out of order, several clauses on a line, values out of range) are not explored"}});

// ------------------------------------------------------------------ verbose
static Reg c18({"C18", "exploration",
                "bounded families x every engine and heuristic, with and without -verbose and with -model: the same report; non-trivial: distinct formulas on which some run backtracked",
                [](const Emit &e, bool th) {
                  auto fn = to_units(e);
                  fam::conflicts(th, fn);
                  for (auto &d : std::vector<std::vector<int>>{{1}, {2}, {3}, {1, 2}}) fam::tiny(d, 2, 2, fn);
                },
                [](Unit &u, Probe &pb) -> std::string {
                  static auto ms = modes("nc nc-vsids nc-vsids_pos nc-lazy nc+r2 wl wl-vsids_pos wl-lazy wl+r2 ch ch-lazy bv bv-vsids bv+r1");
                  std::string t = text(u.f);
                  for (auto &m : ms) {
                    if (!u.wants("mode", m.name) || (m.alg == BV && !fits_bitvec(u.f))) continue;
                    RunResult q = solve(lib_of(m), m, t, env0()), v = solve(lib_of(m), m, t, env0(), true);
                    pb.evaluations += 2;
                    std::string a = report(q), b = report(v);
                    pb.outcome(a);
                    if (parse_out(q.out).counters["Backtracks"] > 0) pb.hard(t);
                    if (a != b) {
                      u.pin("mode", m.name);
                      return m.name + ": reports [" + a + "], with -verbose [" + b + "]";
                    }
                  }
                  if (pb.units % 3000 == 1) pb.sample(t);
                  return "";
                },
                {BUILD}});

// ------------------------------------------------------------------ determinism
static Reg c19({"C19", "fault_enumeration",
                "bounded families x engines x what fresh memory contains (heap 00, A5, FF, 01; stack 00, FF, 7F), where it lies, the time of day, the answers of rand(), and a repeated run: the whole output is the same byte for byte; "
                "non-trivial: distinct formulas on which some run backtracked",
                [](const Emit &e, bool th) {
                  auto fn = to_units(e);
                  for (auto &d : std::vector<std::vector<int>>{{1}, {2}, {3}, {1, 2}}) fam::tiny(d, 2, 2, fn);
                  fam::boolean_subsets(3, th ? 4 : 3, fn);
                  fam::subsets({3, 3}, 2, th ? 3 : 2, fn);
                  fam::graphs(4, 3, fn);
                  fam::csp(3, 3, th ? 8 : 5, true, fn);
                  fam::scale(th ? 130 : 40, fn);
                  fam::search_heavy(th, fn);
                },
                [](Unit &u, Probe &pb) -> std::string {
                  static auto ms = modes("nc nc-vsids nc-vsids_pos nc-lazy nc+r2 wl wl-vsids_pos wl-lazy wl+r2 ch ch-lazy bv bv-vsids bv+r1");
                  struct Mem {
                    unsigned char heap;
                    int stack;
                  };
                  static const Mem mem[] = {{0xA5, 0x7F}, {0x00, 0x00}, {0xFF, 0xFF}, {0x01, 0x00}, {0x00, 0xFF}};
                  std::string t = text(u.f);
                  for (auto &m : ms) {
                    if (!u.wants("mode", m.name) || (m.alg == BV && !fits_bitvec(u.f))) continue;
                    std::string first;
                    for (int k = 0; k < 6; k++) {
                      Env env = env0();
                      env.fill = mem[k % 5].heap;
                      env.stack_fill = mem[k % 5].stack;
                      env.clock_start = k * 86461.125;
                      env.heap_shift = k * 4112;
                      env.heap_order = k % 3;
                      env.rnd = [&](long i) { return (int)(((i + 1) * 1103515245L * (k + 1) + 12345 * k) >> 8 & 0x7fffffff); };
                      RunResult r = solve(lib_of(m), m, t, env, true);
                      pb.evaluations++;
                      std::string got = r.out + ended(r);
                      if (k == 0) {
                        first = got;
                        Out o = parse_out(got);
                        pb.outcome(report(r));
                        if (o.counters["Backtracks"] > 0) pb.hard(t);
                      } else if (got != first) {
                        u.pin("mode", m.name);
                        size_t i = 0;
                        while (i < got.size() && i < first.size() && got[i] == first[i]) i++;
                        return m.name + ": the output depends on what memory contained: [" + first.substr(i > 20 ? i - 20 : 0, 60) + "] or [" + got.substr(i > 20 ? i - 20 : 0, 60) + "]";
                      }
                    }
                  }
                  if (pb.units % 2000 == 1) pb.sample(t);
                  return "";
                },
                {BUILD}});

// ------------------------------------------------------------------ optimized build
static Reg c31({"C31", "exploration",
                "bounded families x every engine and heuristic: the -O3 build without hooks and the -O1 build with them print the same, byte for byte, log included; non-trivial: "
                "distinct formulas on which some run backtracked",
                [](const Emit &e, bool th) {
                  auto fn = to_units(e);
                  fam::conflicts(th, fn);
                  for (auto &d : std::vector<std::vector<int>>{{1}, {2}, {3}, {1, 2}, {2, 2}}) fam::tiny(d, 2, 2, fn);
                },
                [](Unit &u, Probe &pb) -> std::string {
                  static auto ms = modes("nc nc-vsids nc-vsids_pos nc-lazy nc+r2 wl wl-vsids_pos wl-lazy wl+r2 ch ch-lazy bv bv-vsids bv+r1");
                  std::string t = text(u.f);
                  for (auto &m : ms) {
                    if (!u.wants("mode", m.name) || (m.alg == BV && !fits_bitvec(u.f))) continue;
                    RunResult a = solve(lib_of(m), m, t, env0(), true), b = solve(m.alg == BV ? BIT_O : SRC_O, m, t, env0(), true);
                    pb.evaluations += 2;
                    pb.outcome(report(a));
                    if (parse_out(a.out).counters["Backtracks"] > 0) pb.hard(t);
                    if (a.out + ended(a) != b.out + ended(b)) {
                      u.pin("mode", m.name);
                      return m.name + ": -O1 [" + report(a) + "], -O3 [" + report(b) + "]";
                    }
                  }
                  if (pb.units % 3000 == 1) pb.sample(t);
                  return "";
                },
                {"in-process execution through main() behaves as the shipped executable does"}});

// ------------------------------------------------------------------ memory safety
static std::string misused(const RunResult &r) {
  std::string e = ended(r);
  return r.status == EXITED || r.status == HORIZON || r.status == HUNG ? "" : e;
}
static std::string misuse_tools(Unit &u, Probe &pb) {
  static MemFile in("in"), out("out");
  std::string p = text(u.f), b = "c a comment\np cnf " + std::to_string(u.f.nv()) + " " + std::to_string(u.f.cls.size()) + "\n";
  for (auto &c : u.f.cls) {  // = as positive, != as negative
    for (auto &l : c) b += std::to_string(l.eq ? l.var : -l.var) + " ";
    b += "0\n";
  }
  for (int k = 0; k < 8; k++) {
    if (!u.wants("run", std::to_string(k))) continue;
    const char *cmd[] = {"-linenc", "-quadenc", "-b2f", "-b2f"};
    std::string t = k % 4 < 2 ? p : b;
    if (k % 4 == 3) {  // one literal per line, the trailer of SATLIB files
      for (char &c : t)
        if (c == ' ' && &c > &t[0] + t.find('\n', t.find("p cnf"))) c = '\n';
      t += "%\n0\n";
    }
    if (k >= 4) t.pop_back();
    in.set(t);
    out.set("stale\n");
    Env env = env0();
    env.wall_ms *= 5;
    RunResult r = run(SRC, {cmd[k % 4], "-file", in.path, "-model", out.path}, env);
    pb.evaluations++;
    pb.hard(t);
    std::string e = misused(r);
    if (!e.empty()) {
      u.pin("run", k);
      return std::string(cmd[k % 4]) + ": " + e;
    }
    pb.outcome(out.get());
  }
  return "";
}
static std::string misuse_generator(Unit &u, Probe &pb) {
  static MemFile out("out");
  for (int b = 0; b < 2; b++)
    for (int size : {1, 2, 3, 9, 33, 130})
      for (int dom : {1, 2, 10, 65, 300})
        for (int drand = 0; drand < 2; drand++)
          for (int sat = 0; sat < 2; sat++)
            for (int salt = 0; salt < 3; salt++) {
              if (size > u.f.nv() || (b == 0 && (drand || dom != 2))) continue;
              if (salt && u.f.nv() * (long)u.f.cls.size() > 1000) continue;
              auto n = [](long x) { return std::to_string(x); };
              std::vector<std::string> a{"-genben", "-var", n(u.f.nv()), "-clause", n(u.f.cls.size()), "-clausesize", n(size), "-sat", n(sat), "-bool", n(b), "-file", out.path};
              if (b) a.insert(a.end(), {"-domain", n(dom), "-drand", n(drand)});
              std::string line;
              for (auto &x : a) line += (x == out.path ? "F" : x) + " ";
              line += n(salt);
              if (!u.wants("line", line)) continue;
              out.set("");
              Env env = env0();
              env.wall_ms *= 5;
              env.rand_horizon = 1000000;
              env.rnd = [&](long i) {
                uint64_t x = (uint64_t)(i + 1) * 0x9E3779B97F4A7C15ull + salt * 0xD1B54A32D192ED03ull;
                x ^= x >> 29;
                x *= 0xBF58476D1CE4E5B9ull;
                x ^= x >> 32;
                return (int)(x & 0x7fffffff);
              };
              RunResult r = run(SRC, a, env);
              pb.evaluations++;
              pb.hard(line);
              std::string e = misused(r);
              if (!e.empty()) {
                u.pin("line", line);
                return line + ": " + e;
              }
              pb.outcome(out.get());
            }
  return "";
}
static Reg c29({"C29", "exploration",
                "bounded families x every engine, heuristic, converter, and arguments of the generator, under AddressSanitizer, UndefinedBehaviorSanitizer and checked containers; non-trivial: distinct formulas on which "
                "some run backtracked",
                [](const Emit &e, bool th) {
                  auto fn = to_units(e);
                  for (auto &d : std::vector<std::vector<int>>{{1}, {2}, {3}, {1, 2}}) fam::tiny(d, 2, th ? 2 : 1, fn);
                  fam::tiny({1, 2}, 1, 2, fn);
                  fam::boolean_subsets(2, 4, fn);
                  fam::boolean_subsets(3, th ? 3 : 2, fn);
                  fam::subsets({3, 3}, 2, th ? 3 : 1, fn);
                  fam::subsets({2, 3}, 2, th ? 3 : 2, fn);
                  fam::graphs(4, 3, fn);
                  fam::graphs(4, 2, fn);
                  fam::csp(3, 3, th ? 6 : 4, false, fn);
                  fam::csp(3, 3, th ? 6 : 4, true, fn);
                  fam::scale(th ? 300 : 40, fn);
                  fam::long_lines(th ? 5000 : 1200, fn);
                  fam::search_heavy(th, [&](const char *n, const Cnf &f, int x) {
                    if (th || f.nv() <= 6) fn(n, f, x);
                  });
                  long k = 0;
                  fam::long_runs(1, [&](const char *n, const Cnf &f, int x) {
                    if (th || k++ % 4 == 0) fn(n, f, x);
                  });
                  fam::embedded(th ? 2 : 1, !th, false, [&](const char *n, const Cnf &f, int x) {
                    if (th || k++ % 5 == 0) fn(n, f, x);
                  });
                  fam::congruent(1, th ? 20 : 1, 0, 1100, [&](const char *n, const Cnf &f, int x) {
                    if (th || k++ % 4 == 0) fn(n, f, x);
                  });
                  // the converters
                  auto tool = pinned(e, "kind", "tools");
                  for (auto &d : std::vector<std::vector<int>>{{1}, {2}, {3}, {1, 2}}) fam::tiny(d, 2, th ? 2 : 1, tool);
                  fam::boolean_subsets(2, 3, tool);
                  fam::subsets({1, 3, 2, 3}, 2, 1, tool);
                  fam::scale(th ? 300 : 100, tool);
                  fam::long_lines(th ? 5000 : 1200, tool);
                  fam::embedded(1, !th, false, [&](const char *n, const Cnf &f, int x) {
                    if (th || k++ % 11 == 0) tool(n, f, x);
                  });
                  // the generator
                  auto gen = pinned(e, "kind", "generator");
                  for (int vars : {1, 2, 3, 9, 33, 100, 130, 300})
                    for (int clauses : {0, 1, 2, 10, 100, 300}) {
                      Cnf f;
                      f.dom.assign(vars, 2);
                      f.cls.assign(clauses, Cl());
                      gen("generator", f, 0);
                    }
                },
                [](Unit &u, Probe &pb) -> std::string {
                  static auto ms = modes("nc nc-vsids nc-vsids_pos nc-lazy nc+r2 wl wl-vsids_pos wl-lazy wl+r1 ch ch-lazy bv bv-vsids bv+r1");
                  if (u.get("kind") == "tools") return misuse_tools(u, pb);
                  if (u.get("kind") == "generator") return misuse_generator(u, pb);
                  std::string t = text(u.f);
                  for (auto &m : ms) {
                    if (!u.wants("mode", m.name) || (m.alg == BV && !fits_bitvec(u.f))) continue;
                    for (int v = 0; v < 2; v++) {
                      Env env = env0();
                      env.wall_ms *= 5;
                      RunResult r = solve(lib_of(m), m, t, env, v);
                      pb.evaluations++;
                      std::string e = ended(r);
                      if (r.status == EXITED || r.status == HORIZON || r.status == HUNG) e = "";  // C13's and C16's business
                      if (!e.empty()) {
                        u.pin("mode", m.name);
                        return m.name + ": " + e;
                      }
                      pb.outcome(report(r));
                      if (parse_out(r.out).counters["Backtracks"] > 0) pb.hard(t);
                    }
                  }
                  if (pb.units % 300 == 1) pb.sample(t);
                  return "";
                },
                {"what the sanitizers and checked containers do not detect is not detected (reads of uninitialised memory: see C19)"}});

// ------------------------------------------------------------------ command line
static void orders(std::vector<std::vector<std::string>> opts, const std::function<void(const std::vector<std::string> &)> &fn) {
  std::vector<int> p(opts.size());
  for (size_t i = 0; i < p.size(); i++) p[i] = i;
  do {
    std::vector<std::string> a;
    for (int i : p) a.insert(a.end(), opts[i].begin(), opts[i].end());
    fn(a);
  } while (std::next_permutation(p.begin(), p.end()));
}
// a file is found by any name
static std::string file_names(Unit &u, Probe &pb) {
  static MemFile in("in"), out("out");
  char dir[] = "/tmp/vf-names-XXXXXX";
  if (!mkdtemp(dir)) return "";
  std::string d = dir, e;
  auto far = [](std::string p, size_t n) {  // the same file, by a path of n characters
    size_t at = p.rfind('/');
    while (p.size() + 2 <= n) p.insert(at, "/.");
    if (p.size() < n) p.insert(at, "/");
    return p;
  };
  std::vector<std::string> names;
  for (size_t n : {31, 32, 63, 64, 79, 80, 99, 100, 127, 128, 199, 200, 255, 256, 257, 299, 300, 511, 512, 513, 999, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4000, 4095}) names.push_back(far(d + "/f", n));
  for (std::string n : {"a b", " ", "50%", "%s%s%n%d", "-wl", "-file", "-model", "c", "p cnf", "\"x\"", "'", "$HOME", "a;b", "*", "\xc3\xbc", "x=1", "#", "a\\b", "~", "f.cnf.txt.", "0", "1"}) names.push_back(d + "/" + n);
  for (size_t n : {100, 200, 250, 255}) names.push_back(d + "/" + std::string(n, 'n'));
  std::string t = text(u.f), bool_t = "p cnf 2 2\n1 2 0\n-1 0\n";
  using Args = std::vector<std::string>;
  struct Cmd {
    Lib *lib;
    Args args;
    const std::string *text;
    bool reads, writes;
  };
  const std::vector<Cmd> cmds = {{SRC, {"-solvenc"}, &t, true, false}, {SRC, {"-solvenc", "-wl"}, &t, true, false}, {SRC, {"-solvech"}, &t, true, false}, {BIT, {"-solvenc"}, &t, true, false},
                                 {SRC, {"-b2f"}, &bool_t, true, true}, {SRC, {"-linenc"}, &t, true, true}, {SRC, {"-quadenc"}, &t, true, true},
                                 {SRC, {"-genben", "-var", "4", "-clause", "3", "-clausesize", "2", "-bool", "1"}, &t, false, true},
                                 {SRC, {"-genben", "-var", "4", "-clause", "3", "-clausesize", "2", "-bool", "0"}, &t, false, true}};
  Env env = env0();
  env.rnd = [](long i) { return (int)i; };
  for (auto &c : cmds) {
    bool gen = !c.reads;
    auto go = [&](const std::string &i, const std::string &o, std::string &got) {
      Args a = c.args;
      if (!gen) a.insert(a.end(), {"-file", i});
      if (c.writes) a.insert(a.end(), {gen ? "-file" : "-model", o});
      RunResult r = run(c.lib, a, env);
      pb.evaluations++;
      got = ended(r) + report(r);
      if (!c.writes) return;
      if (FILE *f = fopen(o.c_str(), "r")) {
        got += "|";
        for (int ch; (ch = fgetc(f)) != EOF;) got += (char)ch;
        fclose(f);
      } else
        got += "no file";
    };
    in.set(*c.text);
    out.set("");
    std::string want, got;
    go(in.path, out.path, want);
    for (auto &n : names)
      for (int write = 0; write < 2; write++) {
        if (!e.empty() || !(write ? c.writes : c.reads)) continue;
        std::string key = c.args[0] + std::to_string(write) + n.substr(d.size());
        if (!u.wants("name", key)) continue;
        remove(n.c_str());
        out.set("");
        if (!write) {
          FILE *f = fopen(n.c_str(), "w");
          if (!f) continue;  // no such name here
          fwrite(c.text->data(), 1, c.text->size(), f);
          fclose(f);
        } else {
          FILE *f = fopen(n.c_str(), "w");
          if (!f) continue;
          fclose(f);
          remove(n.c_str());
        }
        go(write ? in.path : n, write ? n : out.path, got);
        remove(n.c_str());
        pb.hard(key);
        if (got != want) {
          u.pin("name", key);
          e = c.args[0] + " with a file named " + (n.size() > 300 ? "by " + std::to_string(n.size()) + " characters" : n) + ": [" + got.substr(0, 200) + "] instead of [" + want.substr(0, 200) + "]";
        }
      }
  }
  rmdir(dir);
  return e;
}
// every value of -time and -restarts means what it says
static std::string option_values(Unit &u, Probe &pb) {
  static MemFile file("case");
  file.set(text(u.f));
  using Args = std::vector<std::string>;
  struct Engine {
    const char *name;
    Lib *lib;
    Args args;
  };
  const std::vector<Engine> engines = {{"nc", SRC, {"-solvenc"}}, {"wl", SRC, {"-solvenc", "-wl"}}, {"ch", SRC, {"-solvech"}}, {"bv", BIT, {"-solvenc"}},
                                       {"nc-lazy", SRC, {"-solvenc", "-lazy"}}, {"nc-vsids", SRC, {"-solvenc", "-vsids"}}, {"wl-lazy", SRC, {"-solvenc", "-wl", "-lazy"}}};
  for (auto &g : engines) {
    auto line = [&](Args more) {
      Args a = g.args;
      a.push_back("-file");
      a.push_back(file.path);
      a.insert(a.end(), more.begin(), more.end());
      return a;
    };
    Env quiet = env0();
    quiet.wall_ms *= 5;
    RunResult base = run(g.lib, line({}), quiet);
    std::string want = report(base);
    std::string e = ended(base);
    pb.evaluations++;
    if (!e.empty()) return std::string(g.name) + ": " + e;
    if (base.polls < 20) continue;
    auto answer = [&](const Args &more, double past) {
      Env env = env0();
      env.wall_ms *= 5;
      if (past > 0) {
        env.jump_at = base.polls / 2;
        env.jump = past;
      }
      pb.evaluations++;
      return run(g.lib, line(more), env);
    };
    auto fail = [&](const std::string &what) {
      u.pin("engine", g.name);
      return std::string(g.name) + ": " + what;
    };
    if (!u.wants("engine", g.name)) continue;
    for (long T : {1L, 2L, 3L, 5L, 9L, 10L, 11L, 30L, 50L, 59L, 60L, 61L, 99L, 100L, 127L, 128L, 200L, 255L, 256L, 257L, 300L, 500L, 600L, 999L, 1000L, 1001L, 1800L, 3599L, 3600L, 3601L, 7200L,
                   9999L, 10000L, 32767L, 32768L, 40000L, 65535L, 65536L, 65537L, 86400L, 100000L, 360000L, 1000000L, 3600000L, 3600001L, 10000000L, 100000000L, 1000000000L, 2000000000L}) {
      if (!u.wants("time", std::to_string(T))) continue;
      for (double d : {-0.9, -0.5, 0.5, 0.9}) {
        RunResult r = answer({"-time", std::to_string(T)}, T + d);
        Out o = parse_out(r.out);
        pb.hard(g.name + std::to_string(T) + (d < 0 ? "-" : "+"));
        pb.outcome(o.verdict);
        std::string bad = ended(r);
        if (bad.empty() && d < 0 && report(r) != want) bad = "reports [" + report(r) + "] instead of [" + want + "]";
        if (bad.empty() && d > 0 && o.verdict != "TIMEOUT") bad = "reports [" + report(r) + "] instead of TIMEOUT";
        if (!bad.empty()) {
          u.pin("time", T);
          return fail("-time " + std::to_string(T) + ", " + std::to_string(T + d) + " s pass: " + bad);
        }
      }
    }
    // without the option a search may take its time
    for (double d : {100.0, 3000.0}) {
      RunResult r = answer({}, d);
      if (report(r) != want) return fail("without -time, " + std::to_string(d) + " s pass: reports [" + report(r) + "] instead of [" + want + "]");
    }
    // the numbers of the problem are those of the file
    for (auto &more : std::vector<Args>{{"-var", "1"}, {"-clause", "1"}, {"-clausesize", "1"}, {"-var", "100", "-clause", "0"}, {"-model"}, {"-clausesize", "40"}}) {
      if (g.lib == BIT || (more[0] == "-model" && !strcmp(g.name, "ch"))) continue;
      RunResult r = answer(more, 0);
      if (report(r) != want) return fail(more[0] + ": reports [" + report(r) + "] instead of [" + want + "]");
    }
    if (!strcmp(g.name, "ch")) continue;
    for (long N : {1L, 2L, 3L, 4L, 5L, 6L, 7L, 8L, 9L, 10L, 11L, 12L, 13L, 15L, 16L, 17L, 19L, 20L, 25L, 31L, 32L, 33L, 50L, 63L, 64L, 65L, 99L, 100L, 101L, 127L, 128L, 129L, 200L, 255L, 256L, 257L, 300L, 500L,
                   512L, 1000L, 1024L, 10000L, 32767L, 32768L, 65535L, 65536L, 65537L, 100000L, 1000000L, 100000000L, 1000000000L, 2147483647L}) {
      if (!u.wants("restarts", std::to_string(N))) continue;
      RunResult r = answer({"-restarts", std::to_string(N)}, 0);
      Out o = parse_out(r.out);
      pb.hard(g.name + std::string("r") + std::to_string(N));
      std::string bad = ended(r);
      long b = o.counters["Backtracks"], s = o.counters["Restarts"];
      pb.outcome(std::to_string(s));
      pb.count["restarts"] += s;
      if (bad.empty() && s != b / N) bad = std::to_string(s) + " restarts after " + std::to_string(b) + " backtracks";
      if (bad.empty() && o.verdict != (is_sat(u) ? "SAT" : "UNSAT")) bad = "reports [" + report(r) + "]";
      if (bad.empty() && b < N && report(r) != want) bad = "reports [" + report(r) + "] instead of [" + want + "], without a restart";
      if (!bad.empty()) {
        u.pin("restarts", N);
        return fail("-restarts " + std::to_string(N) + ": " + bad);
      }
    }
  }
  return "";
}
// options of the generator and the converters: any order, documented defaults
static std::string tool_options(Unit &u, Probe &pb) {
  static MemFile in("in"), out("out");
  using Opt = std::vector<std::string>;
  auto go = [&](const char *cmd, const std::vector<Opt> &o, std::string &line) {
    std::vector<std::string> a{cmd};
    for (auto &x : o) a.insert(a.end(), x.begin(), x.end());
    line.clear();
    for (auto &x : a) line += (x == in.path ? "I" : x == out.path ? "O" : x) + " ";
    out.set("stale\n");
    Env env = env0();
    env.wall_ms *= 5;
    env.rand_horizon = 100000;
    env.rnd = [&](long i) {
      uint64_t x = (uint64_t)(i + 1) * 0x9E3779B97F4A7C15ull;
      x ^= x >> 29;
      x *= 0xBF58476D1CE4E5B9ull;
      x ^= x >> 32;
      return (int)(x & 0x7fffffff);
    };
    RunResult r = run(SRC, a, env);
    pb.evaluations++;
    pb.hard(line);
    std::string e = ended(r);
    if (!e.empty()) return "[" + e + "]";
    return out.get();
  };
  // all orders of up to 5 options; of more, those with one or two options moved
  auto some_orders = [&](std::vector<Opt> o, const std::function<bool(const std::vector<Opt> &)> &fn) {
    std::sort(o.begin(), o.end());
    if (o.size() <= 5) {
      do
        if (!fn(o)) return;
      while (std::next_permutation(o.begin(), o.end()));
      return;
    }
    for (size_t i = 0; i < o.size(); i++)
      for (size_t j = 0; j < o.size(); j++)
        for (int rev = 0; rev < 2; rev++) {
          auto p = o;
          std::swap(p[0], p[i]);
          std::swap(p.back(), p[j]);
          if (rev) std::reverse(p.begin(), p.end());
          if (!fn(p)) return;
        }
  };
  std::string bad, line;
  in.set("c comment\np cnf 3 2\n1 -2 0\n2 3 0\n");
  std::string mv = "p cnf 2 2\nd 1 3\nd 2 2\n1=0 2!=1 0\n1!=2 2=1 0\n";
  for (const char *cmd : {"-b2f", "-linenc", "-quadenc"}) {
    if (!strcmp(cmd, "-linenc")) in.set(mv);
    std::string want = go(cmd, {{"-file", in.path}, {"-model", out.path}}, line);
    std::string got = go(cmd, {{"-model", out.path}, {"-file", in.path}}, line);
    if (want.empty() || want.find("stale") != std::string::npos) return line + ": does not write its file";
    if (want != got) return line + ": writes another file than with the options in the documented order";
  }
  // value of an option, default
  const std::vector<std::pair<std::string, std::pair<std::string, std::string>>> pool = {
      {"-clausesize", {"2", "3"}}, {"-sat", {"0", "1"}}, {"-domain", {"4", "10"}}, {"-drand", {"1", "0"}}};
  for (int b = 0; b < 2; b++)
    for (int s = 0; s < 16; s++)
      for (int alt = 0; alt < 2; alt++) {
        std::vector<Opt> given{{"-var", "5"}, {"-clause", "4"}, {"-file", out.path}, {"-bool", b ? "1" : "0"}}, full = given;
        for (int i = 0; i < 4; i++) {
          bool is = s >> i & 1;
          // every option can be given with its default, too
          std::string v = is && !alt ? pool[i].second.first : pool[i].second.second;
          if (is) given.push_back({pool[i].first, v});
          full.push_back({pool[i].first, v});
        }
        std::string want = go("-genben", full, line);
        if (want.empty() || want.find("stale") != std::string::npos) return line + ": does not write its file";
        std::string first = line;
        some_orders(given, [&](const std::vector<Opt> &o) {
          std::string got = go("-genben", o, line);
          pb.outcome(got);
          if (got == want) return true;
          bad = line + ": not the problem of " + first;
          return false;
        });
        if (!bad.empty()) return bad;
      }
  return "";
}
static Reg c32({"C32", "exploration",
                "every subset of the solver options in every order (the report must not depend on the order, each option must have its effect), input files that cannot be opened, "
                "every short input to the help menu; many values of -time (the clock passes just less or just more than that in the middle of the search) and of -restarts (restarts = "
                "backtracks / value), options the solver takes and need not obey; subsets of the options of the generator and converters in many orders, left-out ones having the documented "
                "defaults; non-trivial: distinct command lines",
                [](const Emit &e, bool th) {
                  auto fn = [&](const char *kind) { return pinned(e, "kind", kind); };
                  fam::pigeons(6, th ? 7 : 6, fn("values"));
                  fam::pigeons(3, 4, fn("order"));
                  fam::csp(3, 3, th ? 4 : 2, true, fn("order"));
                  Cnf f;
                  f.dom = {2};
                  f.cls = {{{1, true, 1}}};
                  fn("missing")("one", f, 1);
                  fn("menu")("one", f, 1);
                  fn("tools")("one", f, 1);
                  fn("names")("one", f, 1);
                  f.dom = {3, 2};
                  f.cls = {{{1, true, 1}, {2, true, 0}}, {{1, false, 1}}, {{2, false, 0}}};
                  fn("names")("three", f, 0);
                },
                [](Unit &u, Probe &pb) -> std::string {
                  static MemFile file("case");
                  std::string kind = u.get("kind");
                  std::string t = text(u.f);
                  if (kind == "order") {
                    file.set(t);
                    using Opt = std::vector<std::string>;
                    for (int lib = 0; lib < 2; lib++)
                      for (std::string cmd : {"-solvenc", "-solvech"}) {
                        if (lib == 1 && cmd == "-solvech") continue;
                        std::vector<Opt> pool = {{"-verbose"}, {"-time", "50"}, {"-wl"}, {"-restarts", "2"}};
                        std::vector<Opt> heur = {{}, {"-lazy"}, {"-vsids"}, {"-vsids_pos"}};
                        if (cmd == "-solvech") {
                          pool = {{"-verbose"}, {"-time", "50"}, {"-unknown"}};
                          heur = {{}, {"-lazy"}};
                        }
                        if (lib == 1) heur = {{}, {"-vsids"}};
                        for (size_t s = 0; s < (size_t(1) << pool.size()); s++)
                          for (auto &h : heur) {
                            std::vector<Opt> o{{"-file", file.path}};
                            for (size_t i = 0; i < pool.size(); i++)
                              if (s >> i & 1) o.push_back(pool[i]);
                            if (!h.empty()) o.push_back(h);
                            std::string want, bad;
                            bool wl = (s & 4) && cmd == "-solvenc";
                            orders(o, [&](const std::vector<std::string> &rest) {
                              if (!bad.empty()) return;
                              std::vector<std::string> a{cmd};
                              a.insert(a.end(), rest.begin(), rest.end());
                              std::string line = lib ? "bitvec" : "src";
                              for (auto &x : a) line += " " + (x == file.path ? "F" : x);
                              if (!u.wants("line", line)) return;
                              RunResult r = run(lib ? BIT : SRC, a, env0());
                              pb.evaluations++;
                              pb.hard(line);
                              std::string rep = report(r);
                              pb.outcome(rep);
                              Out out = parse_out(r.out);
                              if (out.verdict != (is_sat(u) ? "SAT" : "UNSAT")) bad = "reports [" + rep + "]";
                              // the same run, put together from its parts
                              Mode m;
                              m.args = {cmd};
                              if (wl) m.args.push_back("-wl");
                              if (!h.empty()) m.args.push_back(h[0]);
                              if (cmd == "-solvenc" && (s & 8)) m.args.push_back("-restart"), m.args.push_back("2");
                              if (want.empty()) want = report(solve(lib ? BIT : SRC, m, t, env0()));
                              if (bad.empty() && rep != want) bad = "reports [" + rep + "] instead of [" + want + "]";
                              bool logged = r.out.find("Reducing literal") != std::string::npos || r.out.find(" at level ") != std::string::npos;
                              if (bad.empty() && logged && !(s & 1)) bad = "a log without -verbose";
                              if (bad.empty() && !logged && (s & 1) && out.counters["Backtracks"] > 0) bad = "no log with -verbose";
                              bool watched = r.out.find("watched literal") != std::string::npos;
                              if (bad.empty() && !lib && (s & 1) && (watched ? !wl : wl && out.counters["Backtracks"] > 0)) bad = std::string("-wl ") + (wl ? "has no effect" : "is on");
                              if (bad.empty() && (s & 8) == 0 && cmd == "-solvenc" && out.counters["Restarts"] != 0) bad = "restarts without being asked to";
                              if (!bad.empty()) {
                                u.pin("line", line);
                                bad = line + ": " + bad;
                              }
                            });
                            if (!bad.empty()) return bad;
                            // the limit: the clock passes it in the middle of the search
                            if ((s & 2) && (!u.has("line") || u.has("limit"))) {
                              std::vector<std::string> a{cmd};
                              for (auto &x : o) a.insert(a.end(), x.begin(), x.end());
                              Env env = env0();
                              env.jump_at = 4;
                              env.jump = 51;
                              RunResult r = run(lib ? BIT : SRC, a, env);
                              std::string v = parse_out(r.out).verdict;
                              RunResult base = run(lib ? BIT : SRC, a, env0());
                              pb.evaluations += 2;
                              if (base.polls > 12 && v != "TIMEOUT") {
                                u.pin("line", "(limit)");
                                u.pin("limit", 1);
                                return "-time 50 has no effect: after 51 seconds the answer is " + v;
                              }
                            }
                          }
                      }
                    if (pb.units % 10 == 1) pb.sample("pigeons and relation networks, e.g. " + t);
                    return "";
                  }
                  if (kind == "values") return option_values(u, pb);
                  if (kind == "names") return file_names(u, pb);
                  if (kind == "tools") return tool_options(u, pb);
                  if (kind == "missing") {
                    static MemFile outf("out");
                    for (std::string path : {"/nonexistent/file", "", "/proc/self/fd/9999"})
                      for (auto &a : std::vector<std::vector<std::string>>{{"-solvenc", "-file", path},
                                                                           {"-solvenc", "-wl", "-file", path},
                                                                           {"-solvech", "-file", path},
                                                                           {"-solvenc", "-lazy", "-verbose", "-file", path},
                                                                           {"-b2f", "-file", path, "-model", outf.path},
                                                                           {"-linenc", "-file", path, "-model", outf.path},
                                                                           {"-quadenc", "-file", path, "-model", outf.path},
                                                                           {"bv", "-file", path}}) {
                        bool bv = a[0] == "bv";
                        auto b = a;
                        if (bv) b[0] = "-solvenc";
                        RunResult r = run(bv ? BIT : SRC, b, env0());
                        pb.evaluations++;
                        std::string line = a[0] + " " + path;
                        pb.hard(line);
                        Out o = parse_out(r.out);
                        pb.outcome(std::string(status_name(r.status)) + o.verdict);
                        std::string e;
                        if (r.status != EXITED || r.code == 0) e = "ends as if nothing were wrong: " + std::string(status_name(r.status)) + " " + std::to_string(r.code);
                        else if (r.out.find("ERROR") == std::string::npos) e = "no error message";
                        else if (!o.verdict.empty()) e = "a verdict";
                        if (!e.empty()) return line + ": input file that cannot be opened: " + e;
                      }
                    file.set("1 0\n");
                    for (std::string cmd : {"-b2f", "-linenc", "-quadenc"}) {
                      RunResult r = run(SRC, {cmd, "-file", file.path, "-model", "/nonexistent/dir/out"}, env0());
                      pb.evaluations++;
                      if (r.status != EXITED || r.code == 0 || r.out.find("ERROR") == std::string::npos) return cmd + ": output file that cannot be opened is not reported";
                    }
                    Env env = env0();
                    env.rnd = [](long i) { return (int)i; };
                    RunResult r = run(SRC, {"-genben", "-var", "3", "-clause", "2", "-file", "/nonexistent/dir/out"}, env);
                    pb.evaluations++;
                    if (r.out.find("ERROR") == std::string::npos) return "-genben: output file that cannot be opened is not reported";
                    return "";
                  }
                  // every sequence of up to four menu inputs
                  const std::vector<std::string> in = {"1\n", "0\n", "2\n", "3\n", "4\n", "5\n", "6\n", "7\n", "x\n", "\n", "-1\n", "3"};
                  std::string bad;
                  for (int lib = 0; lib < 2; lib++)
                    for (auto &args : std::vector<std::vector<std::string>>{{}, {"-help"}, {"-nothing"}}) {
                      std::function<void(std::string, int)> go = [&](std::string s, int left) {
                        if (!bad.empty()) return;
                        std::string key = std::to_string(lib) + (args.empty() ? "" : args[0]) + ":" + s;
                        if (u.wants("menu", key)) {
                          Env env = env0();
                          env.input = s;
                          RunResult r = run(lib ? BIT : SRC, args, env);
                          pb.evaluations++;
                          pb.hard(key);
                          pb.outcome(std::to_string(std::hash<std::string>()(r.out)));
                          if (r.status != EXITED && r.status != OK) bad = "the menu does not end: " + ended(r);
                          else if (r.out.find("Menu Options") == std::string::npos) bad = "no menu";
                          if (!bad.empty()) u.pin("menu", key);
                        }
                        if (!left) return;
                        for (auto &x : in) go(s + x, left - 1);
                      };
                      go("", 2);
                    }
                  return bad;
                },
                {BUILD}});

// ------------------------------------------------------------------ file faults
static Reg c34({"C34", "fault_enumeration",
                "formulas x engines and converters x {every read fails in turn, once or for good; reads of 1..9 bytes at a time; interrupted reads; every write fails in turn; short "
                "writes}: short and interrupted transfers change nothing, failing ones end in an error message, a non-zero exit and no verdict; non-trivial: distinct failing (command, "
                "text, transfer)",
                [](const Emit &e, bool th) {
                  auto fn = to_units(e);
                  fam::pigeons(3, th ? 5 : 3, fn);
                  fam::csp(3, 3, th ? 3 : 2, true, fn);
                  fam::boolean_subsets(2, th ? 3 : 2, fn);
                  Cnf f;
                  f.dom.assign(40, 3);
                  for (int i = 1; i < 40; i++) f.cls.push_back({{i, false, 2}, {i + 1, true, 2}});
                  fn("chain", f, 1);
                  Cnf g;
                  g.dom = {3, 2};
                  g.cls = {{{1, true, 2}, {2, true, 1}}, {{2, false, 1}}, {{1, false, 2}}};
                  fn("units", g, 0);
                },
                [](Unit &u, Probe &pb) -> std::string {
                  static MemFile in("in"), out("out");
                  std::string t = text(u.f);
                  std::string dimacs = "p cnf " + std::to_string(u.f.nv()) + " " + std::to_string(u.f.cls.size()) + "\n";
                  for (auto &c : u.f.cls) {
                    for (auto &l : c) dimacs += (l.eq ? "" : "-") + std::to_string(l.var) + " ";
                    dimacs += "0\n";
                  }
                  struct Cmd {
                    std::string name;
                    Lib *lib;
                    std::vector<std::string> args;
                    const std::string *input;
                    bool solver, reads, writes;
                  };
                  std::vector<Cmd> cmds = {
                      {"nc", SRC, {"-solvenc", "-file", in.path}, &t, true, true, false},
                      {"wl", SRC, {"-solvenc", "-wl", "-file", in.path}, &t, true, true, false},
                      {"ch", SRC, {"-solvech", "-file", in.path}, &t, true, true, false},
                      {"bv", BIT, {"-solvenc", "-file", in.path}, &t, true, true, false},
                      {"b2f", SRC, {"-b2f", "-file", in.path, "-model", out.path}, &dimacs, false, true, true},
                      {"linenc", SRC, {"-linenc", "-file", in.path, "-model", out.path}, &t, false, true, true},
                      {"quadenc", SRC, {"-quadenc", "-file", in.path, "-model", out.path}, &t, false, true, true},
                      {"genben", SRC, {"-genben", "-var", "4", "-clause", "3", "-clausesize", "2", "-bool", "1", "-file", out.path}, &t, false, false, true},
                      {"genben-bool", SRC, {"-genben", "-var", "4", "-clause", "3", "-clausesize", "2", "-bool", "0", "-file", out.path}, &t, false, false, true},
                  };
                  for (auto &c : cmds) {
                    if (!u.wants("cmd", c.name)) continue;
                    auto go = [&](Env env) {
                      in.set(*c.input);
                      out.set("");
                      env.rnd = [](long i) { return (int)i; };
                      pb.evaluations++;
                      return run(c.lib, c.args, env);
                    };
                    RunResult base = go(env0());
                    std::string want = c.solver ? report(base) : out.get(), e, key;
                    if (base.status != OK) return c.name + ": " + ended(base);
                    auto transparent = [&](const char *k, long n, const Env &env) {
                      if (!e.empty()) return;
                      key = std::string(k) + std::to_string(n);
                      if (!u.wants("fault", key)) return;
                      RunResult r = go(env);
                      std::string got = c.solver ? report(r) : out.get();
                      if (r.status != OK || got != want) e = key + " changes the result";
                      else key = "";
                    };
                    auto failing = [&](const char *k, long chunk, long n, const Env &env) {
                      if (!e.empty()) return;
                      key = std::string(k) + std::to_string(chunk) + "#" + std::to_string(n);
                      if (!u.wants("fault", key)) return;
                      RunResult r = go(env);
                      pb.hard(c.name + t + key);
                      pb.count["faults"]++;
                      Out o = parse_out(r.out);
                      pb.outcome(c.name + status_name(r.status) + o.verdict);
                      if (!o.verdict.empty()) e = key + ": answers " + o.verdict + " for a file that could not be read";
                      else if (r.status == EXITED && r.code != 0 && r.out.find("ERROR") != std::string::npos) key = "";
                      else e = key + " is not reported: " + std::string(status_name(r.status)) + " " + std::to_string(r.code);
                    };
                    if (c.reads) {
                      for (long ch = 1; ch <= 9; ch++) {
                        Env env = env0();
                        env.read_chunk = ch;
                        transparent("read-chunk", ch, env);
                      }
                      for (long ch : {13L, 100L, 0L}) {
                        Env env = env0();
                        env.read_chunk = ch;
                        RunResult r = go(env);
                        long n = r.reads;
                        for (long k = 1; k <= n && e.empty(); k++) {
                          Env f = env;
                          f.read_fail = k;
                          f.fail_errno = 4;  // EINTR: once
                          f.fail_sticky = false;
                          transparent("interrupted", ch * 1000 + k, f);
                          f.fail_errno = 5;
                          failing("read-once", ch, k, f);
                          f.fail_sticky = true;
                          failing("read", ch, k, f);
                        }
                      }
                    }
                    // the file cannot even be opened
                    for (auto *path : {&in.path, &out.path}) {
                      if (path == &out.path && !c.reads) continue;  // the generator: an error message only, see C32
                      for (size_t i = 0; i < c.args.size() && e.empty(); i++) {
                        if (c.args[i] != *path) continue;
                        auto &arg = c.args[i];
                        for (const char *bad : {"/nonexistent/file", "", "/proc/self/nosuch", "/dev/null/x"}) {
                          arg = bad;
                          if (e.empty()) failing("open", path == &out.path, bad[0] ? bad[1] : 0, env0());
                        }
                        arg = *path;
                      }
                    }
                    if (c.writes) {
                      for (long ch : {1L, 3L, 7L}) {
                        Env env = env0();
                        env.write_chunk = ch;
                        transparent("write-chunk", ch, env);
                      }
                      Env env = env0();
                      RunResult r = go(env);
                      long n = r.writes;
                      for (long k = 1; k <= n && e.empty(); k++) {
                        Env f = env;
                        f.write_fail = k;
                        f.fail_errno = 28;  // ENOSPC
                        f.fail_sticky = true;
                        failing("write", 0, k, f);
                        f.fail_sticky = false;
                        failing("write-once", 0, k, f);
                      }
                    }
                    if (!e.empty()) {
                      u.pin("cmd", c.name);
                      u.pin("fault", key);
                      return c.name + ": " + e;
                    }
                  }
                  if (pb.units % 10 == 1) pb.sample(t);
                  return "";
                },
                {BUILD, "files are read and written through read, write and writev"}});

}  // namespace vf
