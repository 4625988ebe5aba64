// Verdicts and models, against the reference, on every formula of the families.
#include "judge.h"
#include <cstring>

namespace vf {

static const char *REF = "the reference semantics (engine/cnf.h, engine/sets.h) and the answers attached to the scaling families are right";
static const char *BUILD = "sources compiled -O1 -DMVL_VERIF and called through main() in-process behave as the shipped executable does";

// with the sizes 16 bits cannot count; deep searches only for a mode that gets there in time
static void gen_large(const Emit &e, bool th, const char *mode) {
  auto fn = to_units(e);
  fam::abyss(th ? 66000 : 33000, pinned(e, "mode", mode));
  fam::huge(th, fn);
  fam::standard(th, fn);
  if (strncmp(mode, "ch", 2)) fam::deep(th, fn);
}

static Reg c01({"C01", "exploration",
                "every formula of the bounded families (all clause sequences over tiny signatures, all clause sets up to a size, all graphs, all relation "
                "networks, growing families with known answers) is solved by -solvenc with each heuristic; verdict compared with exhaustive search; "
                "non-trivial: distinct formulas on which some run backtracked",
                [](const Emit &e, bool th) { gen_large(e, th, "nc-lazy"); },
                [](Unit &u, Probe &pb) {
                  static auto ms = modes("nc nc-vsids nc-vsids_pos nc-lazy");
                  return run_modes(u, pb, ms, false);
                },
                {REF, BUILD}});
static Reg c02({"C02", "exploration", "as C01 for -solvenc -wl with each heuristic; non-trivial: distinct formulas on which some run backtracked", [](const Emit &e, bool th) { gen_large(e, th, "wl-lazy"); },
                [](Unit &u, Probe &pb) {
                  static auto ms = modes("wl wl-vsids_pos wl-lazy");
                  return run_modes(u, pb, ms, false);
                },
                {REF, BUILD}});
static Reg c03({"C03", "exploration", "as C01 for -solvech with both heuristics; non-trivial: distinct formulas on which some run backtracked", [](const Emit &e, bool th) { gen_large(e, th, "ch-lazy"); },
                [](Unit &u, Probe &pb) {
                  static auto ms = modes("ch ch-lazy");
                  return run_modes(u, pb, ms, false);
                },
                {REF, BUILD}});

static void gen_restarts(const Emit &e, bool th) {
  fam::conflicts(th, [&](const char *n, const Cnf &f, int x) {
    Unit u;
    u.fam = n;
    u.f = f;
    u.expect = x;
    if (th) u.pin("thorough", 1);
    e(u);
  });
}
static Reg c04({"C04", "exploration",
                "conflict-rich bounded families x restart thresholds 1..4 (thorough 1..8, 16; on the long runs 40 more, from 5 to 1000000), both spellings of the option; verdict and "
                "model against the reference, reported restarts against backtracks/threshold; non-trivial: distinct formulas on which some run restarted",
                gen_restarts,
                [](Unit &u, Probe &pb) -> std::string {
                  static std::vector<Mode> ms[2] = {
                      modes("nc+r1 nc+r2 nc+r3 nc+r4 nc-vsids+r1 nc-vsids_pos+r2 nc-lazy+r1 nc-lazy+r2 wl+r1 wl+r2 wl+r3 wl+r4 wl-lazy+r1 wl-lazy+r2 wl-vsids_pos+r1 bv+r1 bv+r2 bv-vsids+r1"),
                      modes("nc+r1 nc+r2 nc+r3 nc+r4 nc+r5 nc+r6 nc+r7 nc+r8 nc+r16 nc-vsids+r1 nc-vsids+r2 nc-vsids+r3 nc-vsids_pos+r1 nc-vsids_pos+r2 nc-lazy+r1 nc-lazy+r2 "
                            "nc-lazy+r3 wl+r1 wl+r2 wl+r3 wl+r4 wl+r5 wl+r6 wl+r7 wl+r8 wl+r16 wl-lazy+r1 wl-lazy+r2 wl-lazy+r3 wl-vsids_pos+r1 wl-vsids_pos+r2 bv+r1 bv+r2 bv+r3 bv+r8 "
                            "bv-vsids+r1 bv-vsids+r2")};
                  bool th = u.num("thorough");
                  std::string t = text(u.f);
                  bool bvfits = true;
                  for (int d : u.f.dom)
                    if (d > 64) bvfits = false;
                  // many thresholds on the long runs: around every power of two and beyond 16 bits
                  static auto more = [] {
                    std::string l;
                    for (int n : {5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 10000, 32767, 32768, 65535, 65536, 65537, 100000, 1000000})
                      for (std::string m : {"nc", "wl", "bv"}) l += " " + m + "+r" + std::to_string(n);
                    return modes("nc-vsids+r10 nc-vsids_pos+r100 nc-lazy+r10 nc-lazy+r100 nc-lazy+r300 wl-lazy+r10 wl-lazy+r100 wl-vsids_pos+r10 wl-vsids_pos+r300 bv-vsids+r10 bv-vsids+r300" + l);
                  }();
                  auto all = ms[th];
                  if (u.fam == "long-run" || u.fam == "pigeons") all.insert(all.end(), more.begin(), more.end());
                  for (auto &m : all)
                    for (int spelling = 0; spelling < 2; spelling++) {
                      if (m.alg == BV && !bvfits) continue;
                      if (!u.wants("mode", m.name) || !u.wants("spelling", std::to_string(spelling))) continue;
                      Mode k = m;
                      if (spelling)
                        for (auto &a : k.args)
                          if (a == "-restart") a = "-restarts";
                      Out o;
                      RunResult r = solve(lib_of(k), k, t, env0());
                      pb.evaluations++;
                      std::string e = judge(u, k, r, pb, true, &o);
                      if (e.empty()) {
                        long b = o.counters["Backtracks"], s = o.counters["Restarts"];
                        // an unsatisfiable run of the chronological kind never gets here
                        if (s != b / m.restart)
                          e = k.name + ": " + std::to_string(s) + " restarts after " + std::to_string(b) + " backtracks with threshold " + std::to_string(m.restart);
                        if (s > 0) pb.hard(t);
                        pb.count["restarts"] += s;
                      }
                      if (!e.empty()) {
                        u.pin("mode", m.name);
                        u.pin("spelling", spelling);
                        return e;
                      }
                    }
                  if (pb.units % 500 == 1) pb.sample(t);
                  return "";
                },
                {REF, BUILD}});

static Reg c05({"C05", "exploration",
                "as C01 over all engines and heuristics; every printed model must give each variable exactly one value of its domain (bitvec: a non-empty set of "
                "values, any choice of which works) and satisfy every clause; non-trivial: distinct formulas on which some run backtracked",
                [](const Emit &e, bool th) {
                  auto fn = [&](const char *n, const Cnf &f, int x) {
                    Unit u;
                    u.fam = n;
                    u.f = f;
                    u.expect = x;
                    if (x == 0) return;
                    e(u);
                  };
                  fam::huge(th, fn);
                  fam::standard(th, fn);
                },
                [](Unit &u, Probe &pb) -> std::string {
                  static auto ms = modes("nc nc-vsids nc-vsids_pos nc-lazy wl wl-vsids_pos wl-lazy ch ch-lazy bv bv-vsids");
                  if (!is_sat(u)) return "";
                  std::string t = text(u.f);
                  bool fits = true;
                  for (int d : u.f.dom)
                    if (d > 64) fits = false;
                  for (auto &m : ms) {
                    if (!u.wants("mode", m.name) || (m.alg == BV && !fits)) continue;
                    Env env = env0();
                    if (u.fam.rfind("huge", 0) == 0) env.wall_ms *= 6;
                    RunResult r = solve(lib_of(m), m, t, env);
                    pb.evaluations++;
                    Out o = parse_out(r.out);
                    if (o.verdict != "SAT") continue;  // C01-C03 and C26 judge the verdict
                    std::string e = model_error(u.f, o, m.alg == BV);
                    if (e.empty() && o.check != "CORRECT") e = "the solver's own check says " + (o.check.empty() ? std::string("nothing") : o.check);
                    if (!e.empty()) {
                      u.pin("mode", m.name);
                      return m.name + ": " + e;
                    }
                    if (o.counters["Backtracks"] > 0) pb.hard(t);
                    std::string mm;
                    for (auto &l : o.model_lines) mm += l + ";";
                    pb.outcome(mm);
                  }
                  if (pb.units % 3000 == 1) pb.sample(t);
                  return "";
                },
                {REF, BUILD}});

// every total assignment in place of the one found
static Reg c06({"C06", "fault_enumeration",
                "satisfiable formulas x every total assignment put in place of the one found (fault at the hand-over from search to check); the solver's own check "
                "must say CORRECT exactly for the models; every assignment that leaves variables open with some values left: CORRECT if each clause has a literal that is true for all values left, INCORRECT if some choice of them falsifies a clause; for larger formulas: a model, its neighbours, and assignments that falsify one given clause; non-trivial: distinct (formula, assignment) pairs that are not models",
                [](const Emit &e, bool th) {
                  auto fn = to_units(e);
                  fam::boolean_subsets(3, th ? 4 : 2, fn);
                  fam::subsets({3, 3}, 2, th ? 3 : 2, fn);
                  fam::subsets({2, 3}, 2, th ? 3 : 2, fn);
                  fam::tiny({2}, 3, 2, fn);
                  fam::tiny({3}, 2, 2, fn);
                  fam::tiny({1, 2}, 2, 2, fn);
                  fam::csp(3, 3, th ? 8 : 6, true, fn);
                  for (int n = 3; n <= 4; n++) fam::graphs(n, 3, fn);
                  fam::pigeons(2, 4, fn);
                  // larger ones: assignments near a model
                  auto near = pinned(e, "near", "1");
                  auto sat = [&](const char *n, const Cnf &f, int x) {
                    if (x != 0) near(n, f, x);
                  };
                  fam::scale(th ? 130 : 40, sat);
                  fam::long_lines(th ? 300 : 100, sat);
                  long k = 0;
                  fam::embedded(th ? 2 : 1, !th, false, [&](const char *n, const Cnf &f, int x) {
                    if (th || k++ % 5 == 0) sat(n, f, x);
                  });
                  fam::congruent(1, th ? 8 : 1, 0, 1100, [&](const char *n, const Cnf &f, int x) {
                    if (th || k++ % 7 == 0) sat(n, f, x);
                  });
                },
                [](Unit &u, Probe &pb) -> std::string {
                  static auto ms = modes("nc wl ch bv nc-lazy");
                  if (!is_sat(u)) return "";
                  double n = 1;
                  for (int d : u.f.dom) n *= d;
                  bool near = u.has("near");
                  if (n > 300 && !near) return "";
                  std::string t = text(u.f);
                  std::vector<Model> list;  // near: a model, what differs from it in a variable, and what falsifies one clause
                  if (near) {
                    Out o;
                    Env env = env0();
                    RunResult r = solve(SRC, ms[0], t, env);
                    o = parse_out(r.out);
                    Model a;
                    if (o.verdict != "SAT" || !model_error(u.f, o, false, &a).empty()) return "";  // C05 judges that
                    list.push_back(a);
                    for (int i = 0; i < u.f.nv(); i++)
                      for (int d = 1; d < u.f.dom[i] && d < 4; d++) {
                        Model b = a;
                        b[i] = (b[i] + d) % u.f.dom[i];
                        list.push_back(b);
                      }
                    for (auto &c : u.f.cls) {
                      Model b = a;
                      std::map<int, std::vector<char>> may;
                      for (auto &l : c) {
                        auto &m = may[l.var];
                        if (m.empty()) m.assign(u.f.dom[l.var - 1], 1);
                        for (int v = 0; v < (int)m.size(); v++)
                          if ((v == l.val) == l.eq) m[v] = 0;
                      }
                      for (auto &m : may)
                        for (int v = 0; v < (int)m.second.size(); v++)
                          if (m.second[v]) b[m.first - 1] = v;
                      list.push_back(b);
                    }
                    const size_t most = 120;
                    if (list.size() > most) {  // evenly spread, the first and the last among them
                      std::vector<Model> some;
                      for (size_t i = 0; i < most; i++) some.push_back(list[i * (list.size() - 1) / (most - 1)]);
                      list = some;
                    }
                  }
                  for (auto &m : ms) {
                    if (!u.wants("mode", m.name) || !has_hooks(lib_of(m)) || (m.alg == BV && !fits_bitvec(u.f))) continue;
                    size_t at = 0;
                    Model a(u.f.nv(), 0);
                    while (true) {
                      if (near) {
                        if (at == list.size()) break;
                        a = list[at++];
                      }
                      std::string as;
                      for (int v : a) as += std::to_string(v) + " ";
                      if (u.wants("assign", as)) {
                        Env env = env0();
                        env.assign = [&](int var, int) { return var >= 1 && var <= (int)a.size() ? a[var - 1] : -1; };
                        RunResult r = solve(lib_of(m), m, t, env);
                        pb.evaluations++;
                        Out o = parse_out(r.out);
                        std::string e = ended(r);
                        if (e.empty() && o.verdict == "SAT") {
                          bool good = holds(u.f, a);
                          std::string want = good ? "CORRECT" : "INCORRECT";
                          if (o.check != want) e = "the solver's check calls the assignment " + as + (o.check.empty() ? "(nothing)" : o.check);
                          if (!good) pb.hard(t + as);
                          pb.outcome(m.name + o.check);
                        }
                        if (!e.empty()) {
                          u.pin("mode", m.name);
                          u.pin("assign", as);
                          return m.name + ": " + e;
                        }
                      }
                      if (near) continue;
                      int i = 0;
                      while (i < u.f.nv() && ++a[i] == u.f.dom[i]) a[i++] = 0;
                      if (i == u.f.nv()) break;
                    }
                    // assignments that leave variables open: a bit set of the values left for each variable
                    double states = 1;
                    for (int d : u.f.dom) states *= (1 << std::min(d, 20)) - 1;
                    if (near || states > 2500) continue;
                    std::vector<int> left(u.f.nv(), 1);
                    while (u.f.nv()) {
                      std::string as = "left";
                      for (int b : left) as += " " + std::to_string(b);
                      bool open = false, good = true, sure = true;  // a true literal in each clause; no completion is false
                      for (int b : left) open |= (b & (b - 1)) != 0;
                      for (auto &c : u.f.cls) {
                        bool t = false;
                        for (auto &l : c) t |= l.eq ? left[l.var - 1] == 1 << l.val : !(left[l.var - 1] >> l.val & 1);
                        good &= t;
                        std::map<int, int> make_false;
                        for (auto &l : c) {
                          auto it = make_false.emplace(l.var, left[l.var - 1]).first;
                          it->second &= l.eq ? ~(1 << l.val) : 1 << l.val;
                        }
                        bool can = true;
                        for (auto &m : make_false) can &= m.second != 0;
                        sure &= !can;
                      }
                      if (open && u.wants("assign", as)) {
                        Env env = env0();
                        env.assign = [&](int var, int domain) {
                          if (var < 1 || var > (int)left.size()) return -1;
                          int b = left[var - 1];
                          return b & (b - 1) ? -2 - (((1 << domain) - 1) & ~b) : __builtin_ctz(b);
                        };
                        RunResult r = solve(lib_of(m), m, t, env);
                        pb.evaluations++;
                        Out o = parse_out(r.out);
                        std::string e = ended(r), want = good ? "CORRECT" : "INCORRECT";
                        if (e.empty() && o.verdict == "SAT") {
                          if (good == sure ? o.check != want : o.check != "CORRECT" && o.check != "INCORRECT") e = "with the values of the bit sets " + as + " the solver's check says " + (o.check.empty() ? "nothing" : o.check);
                          if (!good) pb.hard(t + as);
                          pb.outcome(m.name + "open" + o.check);
                        }
                        if (!e.empty()) {
                          u.pin("mode", m.name);
                          u.pin("assign", as);
                          return m.name + ": " + e;
                        }
                      }
                      int i = 0;
                      while (i < u.f.nv() && ++left[i] == 1 << u.f.dom[i]) left[i++] = 1;
                      if (i == u.f.nv()) break;
                    }
                  }
                  if (pb.units % 200 == 1) pb.sample(t);
                  return "";
                },
                {REF, BUILD, "the MVL_VERIF assignment hook only replaces the recorded values"}});

// the same formula written in any order, with any repetition
static Cl rewritten(Cl c, int how) {  // < 0: repetitions and the reversal
  if (c.empty()) return c;
  Cl r = c;
  switch (how) {
    case -1: std::reverse(r.begin(), r.end()); return r;
    case -2: r.push_back(c[0]); return r;
    case -3: r.insert(r.begin(), c.back()); return r;
    case -4: r.insert(r.end(), c.begin(), c.end()); return r;
    case -5:
      r.clear();
      for (auto &l : c) {
        r.push_back(l);
        r.push_back(l);
      }
      return r;
    default: std::rotate(r.begin(), r.begin() + how % r.size(), r.end()); return r;
  }
}
static Reg c17({"C17", "exploration",
                "small formulas x every order of their clauses x (every rotation and the reversal of the literals of each clause, and repetitions of the first, the last and "
                "all of them), and larger conflict-rich ones x seven orders of the clauses (two of which repeat clauses) x the same; engines; verdict and model against the reference; "
                "non-trivial: distinct orderings on which some run backtracked",
                [](const Emit &e, bool th) {
                  auto fn = [&](const char *n, const Cnf &f, int x) {
                    if (f.cls.size() < 2 || f.cls.size() > (th ? 6u : 5u)) return;
                    Unit u;
                    u.fam = n;
                    u.f = f;
                    u.expect = x;
                    e(u);
                  };
                  fam::boolean_subsets(2, 4, fn);
                  fam::subsets({2, 3}, 2, 3, fn);
                  fam::subsets({3, 3}, 2, 2, fn);
                  fam::boolean_subsets(3, 3, fn);
                  fam::csp(3, 2, 4, false, fn);
                  if (th) {
                    fam::boolean_subsets(3, 4, fn);
                    fam::subsets({2, 2, 3}, 2, 3, fn);
                    fam::csp(3, 3, 3, true, fn);
                  }
                  // one variable more than a pigeonhole: the conflict clause comes first, in the middle, last
                  Cnf g;
                  g.dom = {2, 2, 2};
                  for (int v = 0; v < 2; v++) {
                    g.cls.push_back({{1, false, v}, {2, false, v}});
                    g.cls.push_back({{2, false, v}, {3, false, v}});
                  }
                  fn("order", g, -1);
                  g.cls.push_back({{1, false, 0}, {3, false, 1}});
                  fn("order", g, -1);
                  // units, a long clause and its refutation
                  Cnf h;
                  h.dom = {3, 3, 3, 3};
                  h.cls.push_back({{1, true, 0}, {2, true, 1}, {3, false, 2}, {4, true, 1}});
                  h.cls.push_back({{1, false, 0}});
                  h.cls.push_back({{2, false, 1}});
                  h.cls.push_back({{3, true, 2}});
                  fn("order", h, -1);
                  h.cls.push_back({{4, false, 1}});
                  fn("order", h, -1);
                  // larger ones: some orders only
                  auto big = [&](const char *n, const Cnf &f, int x) {
                    if (f.cls.size() < 2) return;
                    Unit u;
                    u.fam = n;
                    u.f = f;
                    u.expect = x;
                    u.pin("some", 1);
                    e(u);
                  };
                  if (th) fam::conflicts(false, big);
                  else {
                    fam::small_conflicts(false, big);
                    fam::congruent(2, 5, 0, 130, big);
                  }
                },
                [](Unit &u, Probe &pb) -> std::string {
                  static auto all = modes("nc wl ch wl-lazy bv bv-vsids nc-lazy ch-lazy nc-vsids");
                  static auto few = modes("nc wl ch wl-lazy bv bv-vsids");
                  std::vector<int> perm(u.f.cls.size());
                  int m = perm.size();
                  for (int i = 0; i < m; i++) perm[i] = i;
                  int widest = 1;
                  for (auto &c : u.f.cls) widest = std::max(widest, (int)c.size());
                  Unit v = u;
                  v.expect = is_sat(u);
                  auto one = [&](const std::vector<int> &order, const std::string &name, const std::vector<Mode> &ms) -> std::string {
                    for (int how = -5; how < std::min(widest, 4); how++) {
                      std::string key = name + "/" + std::to_string(how);
                      if (!u.wants("order", key)) continue;
                      v.f.cls.clear();
                      for (int i : order) v.f.cls.push_back(rewritten(u.f.cls[i], how));
                      std::string e = run_modes(v, pb, ms, true);
                      if (!e.empty()) {
                        u.pin("order", key);
                        return e + " (clause order " + key + ")";
                      }
                    }
                    return "";
                  };
                  std::string e;
                  if (u.num("some")) {
                    std::vector<std::pair<std::string, std::vector<int>>> os(7, {"", {}});
                    const char *names[] = {"as-is", "reversed", "from-the-middle", "odd-even", "by-length", "each-twice", "all-twice"};
                    for (int i = 0; i < 7; i++) os[i].first = names[i];
                    os[0].second = os[4].second = os[6].second = perm;
                    os[1].second.assign(perm.rbegin(), perm.rend());
                    os[2].second = perm;
                    std::rotate(os[2].second.begin(), os[2].second.begin() + m / 2, os[2].second.end());
                    for (int p = 1; p >= 0; p--)
                      for (int i = p; i < m; i += 2) os[3].second.push_back(i);
                    std::stable_sort(os[4].second.begin(), os[4].second.end(), [&](int a, int b) { return u.f.cls[a].size() < u.f.cls[b].size(); });
                    for (int i : perm) os[5].second.insert(os[5].second.end(), {i, i});
                    os[6].second.insert(os[6].second.end(), perm.begin(), perm.end());
                    for (auto &o : os)
                      if (!(e = one(o.second, o.first, all)).empty()) return e;
                    return "";
                  }
                  do {
                    std::string name;
                    for (int i : perm) name += std::to_string(i) + " ";
                    if (!(e = one(perm, name, few)).empty()) return e;
                  } while (std::next_permutation(perm.begin(), perm.end()));
                  return "";
                },
                {REF, BUILD}});

// bitvec
static std::string fits(const Cnf &f) {
  for (int d : f.dom)
    if (d > 64) return "no";
  return "";
}
static Reg c26({"C26", "exploration",
                "as C01 for the bitvec solver, both heuristics, formulas whose domains fit 64 values; verdict and every completion of the printed model; non-trivial: "
                "distinct formulas on which some run backtracked",
                [](const Emit &e, bool th) { gen_large(e, th, "bv"); },
                [](Unit &u, Probe &pb) -> std::string {
                  static auto ms = modes("bv bv-vsids");
                  if (!fits(u.f).empty()) return "";
                  return run_modes(u, pb, ms, true);
                },
                {REF, BUILD}});

static Reg c28({"C28", "exploration",
                "every domain size 1..64 (and beyond, where an error is due) x formulas that single out each value, exclude each value, exclude all values, force two "
                "variables to be equal or to differ, or take two passes over the domain, and conflict-rich formulas whose values are spread over larger domains; verdict, model and error message; non-trivial: distinct formulas with more than 31 values",
                [](const Emit &e, bool th) {
                  auto fn = to_units(e);
                  for (int d = 1; d <= 64; d++) {
                    for (int k = 0; k < d; k++) {
                                            Cnf f;
                      f.dom.assign(1, d);
                      f.cls = {{{1, true, k}}};
                      fn("single", f, 1);
                      f.cls = {{{1, false, k}}};
                      fn("single", f, d > 1);
                      f.cls = {{{1, true, k}}, {{1, false, k}}};
                      fn("single", f, 0);
                      f.cls.clear();
                      for (int v = 0; v < d; v++)
                        if (v != k) f.cls.push_back({{1, false, v}});
                      fn("exclude", f, 1);
                      f.cls.push_back({{1, false, k}});
                      fn("exclude", f, 0);
                      // x = k follows from y, and is contradicted after a decision
                      f.dom = {d, 2, 2};
                      f.cls = {{{2, false, 0}, {1, true, k}}, {{2, false, 1}, {1, true, k}}, {{1, false, k}, {3, true, 1}}};
                      fn("through", f, 1);
                      f.cls.push_back({{1, false, k}, {3, true, 0}});
                      fn("through", f, 0);
                      // a wide clause over one variable and its complement over another
                      Cnf g;
                      g.dom = {d, d};
                      Cl c;
                      for (int v = 0; v < d; v++)
                        if (v != k) c.push_back({1, true, v});
                      if (!c.empty()) g.cls.push_back(c);
                      for (int v = 0; v < d; v++)
                        if (v != k) g.cls.push_back({{1, false, v}, {2, true, k}});
                      fn("wide", g, 1);
                      g.cls.push_back({{2, false, k}});
                      fn("wide", g, d == 1 ? 0 : 0);
                    }
                    Cnf f;
                    f.dom = {d, d};
                    for (int v = 0; v < d; v++) f.cls.push_back({{1, false, v}, {2, true, v}});
                    fn("equal", f, 1);
                    for (int v = 0; v < d; v++) f.cls.push_back({{1, false, v}, {2, false, v}});
                    fn("equal", f, 0);
                    Cnf g;
                    g.dom = {d, d, d};
                    for (int a = 1; a <= 2; a++)
                      for (int v = 0; v < d; v++) {
                        Cl c{{a, false, v}};
                        for (int w = v + 1; w < d; w++) c.push_back({a + 1, true, w});
                        g.cls.push_back(c);
                      }
                    fn("ladder", g, d >= 3);
                  }
                  fam::embedded(1, false, false, [&](const char *n, const Cnf &f, int x) {
                    if (std::string(n) == "at-size-values") fn(n, f, x);
                  });
                  for (int d : {65, 66, 100, 128, 200, 1000}) {
                    Cnf f;
                    f.dom = {d};
                    f.cls = {{{1, true, 0}}};
                    fn("too-large", f, 1);
                    f.dom = {2, d};
                    f.cls = {{{1, true, 0}, {2, false, 1}}};
                    fn("too-large", f, 1);
                  }
                  // after and before others of every kind, as any of several variables, of sizes that look small in few bits
                  for (int d : {65, 66, 67, 95, 96, 97, 100, 127, 128, 129, 130, 191, 192, 200, 255, 256, 257, 258, 300, 512, 513, 514, 1000, 1024, 4096, 4098, 32768, 65535, 65536, 65537, 65538, 131074})
                    for (int o : {1, 2, 3, 31, 32, 33, 63, 64, 65, 130})
                      for (int n : {2, 3, 4, 8, 9, 17, 33})
                        for (int at : {0, 1, 2, n / 2, n - 2, n - 1}) {
                          if (at >= n) continue;
                          Cnf f;
                          f.dom.assign(n, o);
                          f.dom[at] = d;
                          f.cls = {{{1, true, 0}, {n, true, 0}}};
                          fn("too-large", f, 1);
                        }
                },
                [](Unit &u, Probe &pb) -> std::string {
                  static auto ms = modes("bv bv-vsids bv+r1");
                  if (u.fam == "too-large") {
                    std::string t = text(u.f);
                    for (auto &m : ms) {
                      RunResult r = solve(BIT, m, t, env0());
                      pb.evaluations++;
                      Out o = parse_out(r.out);
                      if (r.status != EXITED || r.code == 0) return "a domain of more than 64 values is not refused: " + std::string(status_name(r.status));
                      if (!o.verdict.empty()) return "a verdict for a domain of more than 64 values";
                      if (r.out.find("domain exceeds") == std::string::npos) return "no error message for a domain of more than 64 values";
                      pb.outcome("refused");
                    }
                    return "";
                  }
                  for (int d : u.f.dom)
                    if (d > 31) pb.hard(text(u.f));
                  return run_modes(u, pb, ms, true);
                },
                {REF, BUILD}});

}  // namespace vf
