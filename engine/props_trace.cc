// Whole runs, event by event, against the abstract transition system (monitor.h):
// under the heuristic's own decisions, and under every bounded deviation from them.
#include <string.h>
#include "judge.h"

namespace vf {

static const char *LOG_IS_TRUE = "the -verbose log tells what the search does (checked from outside by C18, C12 and the verdict checks)";
static const char *BUILD = "sources compiled -O1 -DMVL_VERIF and called through main() in-process behave as the shipped executable does";
static const char *HOOK = "the decision hook only replaces the literal the heuristic chose by another undetermined one";

struct Watch {
  int rules;
  bool verdict = true;  // also judge verdict and model
};

static bool fits(const Unit &u, const Mode &m) {
  if (m.alg != BV) return true;
  for (int d : u.f.dom)
    if (d > 64) return false;
  return true;
}

// judge one verbose run. A run that does not end, or whose verdict is wrong, is
// reported too when `verdict` is set; otherwise only rule breaches count.
static std::string watch(Unit &u, const Mode &m, const RunResult &r, bool deviated, int rules, bool verdict, Probe &pb,
                         const std::vector<std::vector<std::pair<int, int>>> *open = nullptr) {
  std::string e;
  if (verdict) {
    e = judge(u, m, r, pb, true);
    if (!e.empty()) return e;
  }
  Trace t = parse_trace(r.out, u.f.dom, m.alg == BV);
  Monitor mon(u.f, m.alg, m.heur, m.restart, rules);
  mon.free_decisions = deviated;
  mon.models = all_models(u);
  mon.states = &pb.states;
  mon.open = open;
  e = mon.run(t);
  Out o = parse_out(r.out);
  if (e.empty() && ended(r).empty() && (rules & RULE_END)) e = mon.finish(o.verdict);
  pb.transitions += mon.transitions;
  pb.traces++;
  if (mon.conflicts > 0) pb.hard(text(u.f));
  if (mon.deep_jumps) pb.count["non_chronological_jumps"] += mon.deep_jumps;
  pb.count["learned_clauses"] += (long)mon.db.size() - (long)mon.inputs;
  if (!e.empty()) return m.name + ": " + e;
  if (!verdict) pb.outcome(o.verdict + " " + std::to_string(mon.decisions) + " " + std::to_string(mon.conflicts) + " " + std::to_string(mon.max_level));
  if (pb.traces % 20000 == 1) {
    std::string s = m.name + " on " + text(u.f) + "...";
    for (size_t i = 0; i < t.ev.size() && i < 12; i++) {
      static const char *N[] = {"decide", "assign", "entail", "conflict", "latest", "resolvent", "learn", "backjump", "count", "flip"};
      s += std::string(i ? "; " : " ") + N[t.ev[i].kind];
      if (t.ev[i].lit.var) s += " " + show(t.ev[i].lit, u.f.dom);
      else if (!t.ev[i].clause.empty()) s += " " + show(t.ev[i].clause, u.f.dom);
    }
    pb.sample(s);
  }
  return "";
}

static std::string run_watch(Unit &u, Probe &pb, const std::vector<Mode> &ms, int rules) {
  std::string t = text(u.f);
  for (auto &m : ms) {
    if (!u.wants("mode", m.name) || !fits(u, m)) continue;
    RunResult r = solve(lib_of(m), m, t, env0(), true);
    pb.evaluations++;
    std::string e = watch(u, m, r, false, rules, false, pb);
    if (!e.empty()) {
      u.pin("mode", m.name);
      return e;
    }
  }
  return "";
}

// orders of decision no heuristic has: each a function of what is open and of the number of the decision
static const char *POLICIES[] = {"first-ne", "last-ne", "last-eq", "turns", "widest-ne", "narrowest-eq", "round-ne", "hop"};
static int policy(int p, int k, const int *vars, int n) {
  if (n <= 0) return -1;
  auto extreme = [&](bool most) {  // the first pair of the variable with the most (fewest) values left
    int best = -1, count = 0;
    for (int i = 0, j; i < n; i = j) {
      for (j = i; j < n && vars[j] == vars[i]; j++) {}
      if (best < 0 || (most ? j - i > count : j - i < count)) best = i, count = j - i;
    }
    return std::make_pair(best, count);
  };
  switch (p) {
    case 0: return 1;
    case 1: return 2 * (n - 1) + 1;
    case 2: return 2 * (n - 1);
    case 3: return 2 * (n / 2) + k % 2;
    case 4: return 2 * (extreme(true).first + k % extreme(true).second) + 1;
    case 5: return 2 * (extreme(false).first + extreme(false).second - 1);
    case 6: {  // v!=d for each variable by turns
      int seen = 0, want = 0;
      for (int i = 0; i < n; i++) seen += !i || vars[i] != vars[i - 1];
      want = k % seen;
      for (int i = 0; i < n; i++)
        if ((!i || vars[i] != vars[i - 1]) && want-- == 0) return 2 * i + 1;
      return 1;
    }
    default: return 2 * ((k * 7 + 3) % n) + (k % 3 != 0);
  }
}
// every policy of a list; rules 0: verdict and model only
static std::string run_policies(Unit &u, Probe &pb, const std::vector<Mode> &ms, const std::vector<int> &ps, int rules, bool record = false) {
  if (u.fam == "vast") return "";  // an order may decide each of thousands
  std::string t = text(u.f);
  double space = 1;
  for (int d : u.f.dom) space *= d;
  for (auto &m : ms) {
    if (!u.wants("mode", m.name) || !fits(u, m) || !has_hooks(lib_of(m))) continue;
    if (space > 5000 && (m.alg == CH || m.restart)) continue;  // without learning an order may cost every branch; and with restarts soon, long too
    for (int p : ps) {
      if (!u.wants("policy", POLICIES[p])) continue;
      int k = 0;
      Env env = env0();
      std::vector<std::vector<std::pair<int, int>>> open;
      env.decide = [&](const int *vars, const int *vals, int n, int, int, int) {
        if (record) {
          open.emplace_back();
          for (int i = 0; i < n; i++) open.back().push_back({vars[i], vals[i]});
        }
        int c = policy(p, k++, vars, n);
        return c > 0 && u.f.dom[vars[c / 2] - 1] == 1 ? c & ~1 : c;  // the only value cannot be excluded
      };
      RunResult r = solve(lib_of(m), m, t, env, rules != 0);
      pb.evaluations++;
      if (space > 5000 && (r.status == HUNG || r.status == HORIZON || r.status == NOMEM)) continue;  // nothing is promised about how long it takes
      std::string e = rules ? watch(u, m, r, true, rules, false, pb, record ? &open : nullptr) : judge(u, m, r, pb, true);
      if (!e.empty()) {
        u.pin("mode", m.name);
        u.pin("policy", POLICIES[p]);
        return e;
      }
    }
  }
  return "";
}

static std::string run_explore(Unit &u, Probe &pb, const std::vector<Mode> &ms, int rules, bool verdict, int bound, int depth) {
  std::string t = text(u.f);
  for (auto &m : ms) {
    if (!u.wants("mode", m.name) || !fits(u, m)) continue;
    std::string e = explore_decisions(u, m, t, bound, depth, rules != 0, pb, [&](const RunResult &r, bool dev) -> std::string {
      if (!rules) return judge(u, m, r, pb, true);
      return watch(u, m, r, dev, rules, verdict, pb);
    });
    if (!e.empty()) {
      u.pin("mode", m.name);
      return e;
    }
  }
  return "";
}

// conflict-rich runs (whole heuristics), plus small formulas with explored decisions
static void gen_trace(const Emit &e, bool th) {
  auto with = [&](const char *kind) {
    return [&e, kind, th](const char *n, const Cnf &f, int x) {
      Unit u;
      u.fam = n;
      u.f = f;
      u.expect = x;
      u.pin("kind", kind);
      if (th) u.pin("thorough", 1);
      e(u);
    };
  };
  fam::vast(th, with("heuristic"));
  fam::conflicts(th, with("heuristic"));
  fam::small_conflicts(th, with("explore"));
}
// and unsatisfiable ones below many decisions (not for chronological backtracking)
static void gen_deep_trace(const Emit &e, bool th) {
  gen_trace(e, th);
  fam::deep(th, [&](const char *n, const Cnf &f, int x) {
    Unit u;
    u.fam = n;
    u.f = f;
    u.expect = x;
    u.pin("kind", "heuristic");
    e(u);
  });
}

static std::vector<Mode> plain_engines(const std::vector<Mode> &ms) {
  std::vector<Mode> r;
  for (auto &m : ms)
    if (m.name == "nc" || m.name == "wl" || m.name == "ch" || m.name == "bv") r.push_back(m);
  return r;
}
struct TraceCheck {
  std::vector<Mode> plain, explored;
  int rules;
  std::string operator()(Unit &u, Probe &pb) const {
    if (u.get("kind") == "explore") {
      bool th = u.num("thorough");
      return run_explore(u, pb, explored, rules, false, th ? 2 : 1, th ? 5 : 4);
    }
    std::string e = run_watch(u, pb, plain, rules);
    if (e.empty()) e = run_policies(u, pb, plain_engines(explored), {0, 6}, rules);
    return e;
  }
};

#define EXPLORED "small conflict-rich formulas x every decision sequence that departs from the heuristic at most once within the first 4 decisions (thorough: twice within 5)"

static Reg c07({"C07", "exploration",
                EXPLORED " x -solvenc, -wl, -solvech; verdict and model of every run against the reference; non-trivial: distinct formulas on which some run backtracked",
                [](const Emit &e, bool th) {
                  fam::small_conflicts(th, [&](const char *n, const Cnf &f, int x) {
                    Unit u;
                    u.fam = n;
                    u.f = f;
                    u.expect = x;
                    if (th) u.pin("thorough", 1);
                    e(u);
                  });
                  auto by_policy = [&](const char *n, const Cnf &f, int x) {
                    Unit u;
                    u.fam = n;
                    u.f = f;
                    u.expect = x;
                    u.pin("kind", "policy");
                    e(u);
                  };
                  fam::conflicts(th, by_policy);
                  fam::congruent(1, th ? 8 : 2, 1100, 5000, by_policy);
                  fam::deep(th, by_policy);
                },
                [](Unit &u, Probe &pb) -> std::string {
                  if (u.get("kind") == "policy") {
                    static auto few = modes("nc wl ch wl+r2 nc+r3 bv bv+r2");
                    return run_policies(u, pb, few, {0, 1, 2, 3, 4, 5, 6, 7}, 0);
                  }
                  static auto ms = modes("nc wl ch nc-lazy wl-lazy ch-lazy nc+r1 wl+r1 nc+r2 wl+r2 nc-vsids");
                  bool th = u.num("thorough");
                  return run_explore(u, pb, ms, 0, true, 2, th ? 5 : 3);
                },
                {"the reference semantics are right", BUILD, HOOK}});

static Reg c08({"C08", "model_checking",
                "every clause learned in every run follows from the input formula: checked against the list of all its models, or (too many) by refuting its negation",
                gen_deep_trace, TraceCheck{modes("nc nc-vsids nc-vsids_pos nc-lazy nc+r2 wl wl-vsids_pos wl-lazy wl+r2"), modes("nc wl wl-lazy nc-lazy"), RULE_LEARN},
                {LOG_IS_TRUE, BUILD, HOOK}});
static Reg c09({"C09", "model_checking",
                "at every learning step of every run the learned clause is falsified with exactly one literal at the current level, and the level jumped to is the highest "
                "level among the others",
                gen_deep_trace, TraceCheck{modes("nc nc-vsids nc-vsids_pos nc-lazy nc+r2 wl wl-vsids_pos wl-lazy wl+r2"), modes("nc wl wl-lazy nc-lazy"), RULE_JUMP},
                {LOG_IS_TRUE, BUILD, HOOK}});
static Reg c10({"C10", "model_checking",
                "every assignment in every run is a decision on an undetermined literal, forced by a clause all of whose other literals are false, or the last value left; "
                "every reported conflict is a falsified clause",
                gen_trace,
                TraceCheck{modes("nc nc-vsids nc-lazy nc+r1 wl wl-vsids_pos wl-lazy wl+r1 ch ch-lazy"), modes("nc wl ch wl-lazy wl+r1 nc+r1"), RULE_PROP_SOUND | RULE_END},
                {LOG_IS_TRUE, BUILD, HOOK}});
static Reg c11({"C11", "model_checking",
                "at every decision of every run no clause (input or learned) is falsified and none has a single undetermined literal left",
                gen_trace, TraceCheck{modes("nc nc-vsids nc-lazy nc+r1 wl wl-vsids_pos wl-lazy wl+r1 ch ch-lazy"), modes("nc wl ch wl-lazy wl+r1 nc+r1"), RULE_PROP_COMPLETE},
                {LOG_IS_TRUE, BUILD, HOOK}});

// the solver's own record of what is open, at every decision, against the trail
static Reg c12({"C12", "model_checking",
                "at every decision of every run the solver's own record of the undetermined (variable, value) pairs equals the one determined by the assignments logged so far "
                "that backtracking has not undone",
                gen_trace,
                [](Unit &u, Probe &pb) -> std::string {
                  static auto plain = modes("nc nc-lazy nc+r1 wl wl-lazy wl+r1 ch ch-lazy bv bv-vsids bv+r1");
                  static auto expl = modes("nc wl ch wl-lazy wl+r1 nc+r1 bv bv+r1");
                  bool ex = u.get("kind") == "explore", th = u.num("thorough");
                  std::string t = text(u.f);
                  for (auto &m : ex ? expl : plain) {
                    if (!u.wants("mode", m.name) || !fits(u, m) || !has_hooks(lib_of(m))) continue;
                    std::vector<std::vector<std::pair<int, int>>> open;
                    std::string e;
                    if (!ex) {
                      Env env = env0();
                      env.decide = [&](const int *vars, const int *vals, int n, int, int, int) {
                        open.emplace_back();
                        for (int i = 0; i < n; i++) open.back().push_back({vars[i], vals[i]});
                        return -1;
                      };
                      RunResult r = solve(lib_of(m), m, t, env, true);
                      pb.evaluations++;
                      e = watch(u, m, r, false, RULE_OPEN, false, pb, &open);
                    } else
                      e = explore_decisions(
                          u, m, t, th ? 2 : 1, th ? 5 : 4, true, pb,
                          [&](const RunResult &r, bool dev) { return watch(u, m, r, dev, RULE_OPEN, false, pb, &open); }, &open);
                    if (!e.empty()) {
                      u.pin("mode", m.name);
                      return e;
                    }
                  }
                  return ex ? "" : run_policies(u, pb, plain_engines(expl), {0, 6}, RULE_OPEN, true);
                },
                {LOG_IS_TRUE, BUILD, HOOK}});

static Reg c13({"C13", "model_checking",
                "every run ends within the horizon, never learns a clause twice, never re-enters a refuted branch, and ends with UNSAT only after a conflict at level 0 (or an "
                "exhausted tree) and with SAT only when every clause is satisfied",
                gen_trace,
                [](Unit &u, Probe &pb) -> std::string {
                  static auto plain = modes("nc nc-vsids nc-vsids_pos nc-lazy nc+r1 nc+r3 wl wl-vsids_pos wl-lazy wl+r1 wl+r3 ch ch-lazy bv bv-vsids bv+r1 bv+r3");
                  static auto expl = modes("nc wl ch wl-lazy wl+r1 nc+r1 bv bv+r1");
                  bool ex = u.get("kind") == "explore", th = u.num("thorough");
                  std::string t = text(u.f);
                  for (auto &m : ex ? expl : plain) {
                    if (!u.wants("mode", m.name) || !fits(u, m)) continue;
                    std::string e;
                    auto one = [&](const RunResult &r, bool dev) -> std::string {
                      std::string x = ended(r);
                      if (!x.empty()) return m.name + ": " + x;
                      return watch(u, m, r, dev, RULE_PROGRESS | RULE_END, false, pb);
                    };
                    if (!ex) {
                      RunResult r = solve(lib_of(m), m, t, env0(), true);
                      pb.evaluations++;
                      e = one(r, false);
                    } else
                      e = explore_decisions(u, m, t, th ? 2 : 1, th ? 5 : 4, true, pb, one);
                    if (!e.empty()) {
                      u.pin("mode", m.name);
                      return e;
                    }
                  }
                  return ex ? "" : run_policies(u, pb, plain_engines(expl), {0, 6}, RULE_PROGRESS | RULE_END);
                },
                {LOG_IS_TRUE, BUILD, HOOK, "2,000,000 clock reads (the horizon) exceed what any explored formula needs"}});

static Reg c15({"C15", "model_checking",
                "in every -solvech run each conflict leads back to the most recent decision whose other branch is untried, which is then taken; no branch is taken twice; UNSAT "
                "comes only with no branch left",
                gen_trace,
                [](Unit &u, Probe &pb) -> std::string {
                  static TraceCheck c{modes("ch ch-lazy"), modes("ch ch-lazy"), RULE_PROGRESS | RULE_PROP_SOUND | RULE_END};
                  return c(u, pb);
                },
                {LOG_IS_TRUE, BUILD, HOOK}});

static Reg c27({"C27", "model_checking",
                "bitvec: " EXPLORED ", with and without restarts; verdict, model, learned clauses, levels, reasons and propagation of every run",
                gen_deep_trace,
                [](Unit &u, Probe &pb) -> std::string {
                  static auto plain = modes("bv bv-vsids bv+r1 bv+r2 bv-vsids+r3");
                  static auto expl = modes("bv bv+r1");
                  int rules = RULE_PROP_SOUND | RULE_PROP_COMPLETE | RULE_LEARN | RULE_JUMP | RULE_PROGRESS | RULE_END;
                  bool th = u.num("thorough");
                  if (u.get("kind") == "explore") return run_explore(u, pb, expl, rules, true, th ? 2 : 1, th ? 5 : 4);
                  std::string t = text(u.f);
                  for (auto &m : plain) {
                    if (!u.wants("mode", m.name) || !fits(u, m)) continue;
                    RunResult r = solve(BIT, m, t, env0(), true);
                    pb.evaluations++;
                    std::string e = watch(u, m, r, false, rules, true, pb);
                    if (!e.empty()) {
                      u.pin("mode", m.name);
                      return e;
                    }
                  }
                  return "";
                },
                {LOG_IS_TRUE, BUILD, HOOK}});

static Reg c30({"C30", "model_checking",
                "every decision of every run is one the documented heuristic allows: a literal of highest score (VSIDS variants, scores recomputed from the input and the learned "
                "clauses), a literal of an unsatisfied clause (lazy)",
                [](const Emit &e, bool th) {
                  fam::vast(th, pinned(e, "kind", "heuristic"));
                  fam::conflicts(th, pinned(e, "kind", "heuristic"));
                },
                TraceCheck{modes("nc nc+r2 ch nc-vsids nc-vsids_pos nc-lazy nc-vsids+r2 wl wl-vsids_pos wl-lazy wl+r2 ch-lazy bv-vsids"), {}, RULE_HEUR},
                {LOG_IS_TRUE, BUILD}});

// the numbers in the report against the log
static Reg c20({"C20", "model_checking",
                "the printed Decisions, Units, Backtracks, Entails, Restarts, Variables and Clauses of every run equal the numbers of such events in its log and formula",
                [](const Emit &e, bool th) {
                  fam::huge(false, pinned(e, "kind", "heuristic"));
                  gen_trace(e, th);
                },
                [](Unit &u, Probe &pb) -> std::string {
                  static auto ms = modes("nc nc-vsids nc-vsids_pos nc-lazy nc+r2 wl wl-vsids_pos wl-lazy wl+r2 ch ch-lazy bv bv-vsids bv+r2");
                  if (u.get("kind") == "explore") return "";
                  std::string t = text(u.f);
                  for (auto &m : ms) {
                    if (!u.wants("mode", m.name) || !fits(u, m)) continue;
                    bool huge = u.fam.rfind("huge", 0) == 0;
                    Env env = env0();
                    if (huge) env.wall_ms *= 6;
                    RunResult r = solve(lib_of(m), m, t, env, true);
                    pb.evaluations++;
                    std::string e;
                    if (huge) {  // beyond the sets of the model: the events are only counted
                      if (!ended(r).empty()) continue;
                      Out o = parse_out(r.out);
                      std::map<std::string, long> n;
                      long assigned = 0;
                      for (auto &l : lines(r.out)) {
                        for (const char *k : {"Decision: ", "Entailment...", "We are backtracking", "Learned a clause", "Conflict: Propagating"})
                          if (l.compare(l.rfind('\t') + 1, strlen(k), k) == 0) n[k]++;  // the first follows the file name
                        if (l.find(" at level ") != std::string::npos && l.find("There is") == std::string::npos) assigned++;
                      }
                      auto want = [&](const char *name, long k) {
                        if (e.empty() && (!o.counters.count(name) || o.counters[name] != k))
                          e = std::string("reports ") + (o.counters.count(name) ? std::to_string(o.counters[name]) : "no") + " " + name + ", the run had " + std::to_string(k);
                      };
                      want("Decisions", n["Decision: "]);
                      if (m.alg != BV) want("Entails", n["Entailment..."]);
                      if (m.alg != CH) want("Backtracks", n["We are backtracking"]);
                      // what is assigned neither by decision nor as last value nor as the other branch
                      want("Units", assigned - n["Decision: "] - n["Entailment..."] - n["Conflict: Propagating"]);
                      want("Variables", u.f.nv());
                      want("Clauses", (long)u.f.cls.size() + n["Learned a clause"]);
                    } else if (ended(r).empty()) {
                      Trace tr = parse_trace(r.out, u.f.dom, m.alg == BV);
                      Monitor mon(u.f, m.alg, m.heur, m.restart, 0);
                      mon.states = &pb.states;
                      e = mon.run(tr);
                      Out o = parse_out(r.out);
                      mon.finish(o.verdict);
                      pb.transitions += mon.transitions;
                      pb.traces++;
                      auto want = [&](const char *name, long n) {
                        if (e.empty() && (!o.counters.count(name) || o.counters[name] != n))
                          e = std::string("reports ") + (o.counters.count(name) ? std::to_string(o.counters[name]) : "no") + " " + name + ", the run had " + std::to_string(n);
                      };
                      want("Decisions", mon.decisions);
                      want("Backtracks", mon.conflicts);
                      want("Units", mon.units);
                      if (m.alg != BV) want("Entails", mon.entails);
                      want("Restarts", mon.restarts);
                      want("Variables", u.f.nv());
                      want("Clauses", (long)mon.db.size());
                      pb.outcome(std::to_string(mon.decisions) + " " + std::to_string(mon.units) + " " + std::to_string(mon.conflicts) + " " + std::to_string(mon.entails));
                      if (pb.traces % 20000 == 1) pb.sample(m.name + " on " + t);
                    }
                    if (!e.empty()) {
                      u.pin("mode", m.name);
                      return m.name + ": " + e;
                    }
                  }
                  return "";
                },
                {LOG_IS_TRUE, BUILD}});

}  // namespace vf
