// Cases, probes and the helpers every check uses.
#pragma once
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include "host.h"
#include "monitor.h"

namespace vf {

// One unit of exploration: a formula (and parameters). A check does all its runs
// on a unit; when one fails it pins what failed into p, so that the unit replays
// just that.
struct Unit {
  std::string fam;
  Cnf f;
  int expect = -1;  // satisfiable? -1: ask the reference
  std::map<std::string, std::string> p;
  bool has(const char *k) const { return p.count(k) > 0; }
  std::string get(const char *k, const std::string &d = "") const {
    auto i = p.find(k);
    return i == p.end() ? d : i->second;
  }
  long num(const char *k, long d = 0) const {
    auto i = p.find(k);
    return i == p.end() ? d : atol(i->second.c_str());
  }
  bool wants(const char *k, const std::string &v) const { return !has(k) || get(k) == v; }
  void pin(const char *k, const std::string &v) { p[k] = v; }
  void pin(const char *k, long v) { p[k] = std::to_string(v); }
};

struct Probe {
  long evaluations = 0;
  long transitions = 0;
  long traces = 0;
  long units = 0;
  long skipped = 0;
  std::unordered_set<uint64_t> distinct;  // distinct non-trivial cases
  std::unordered_set<uint64_t> states;    // distinct abstract states
  std::unordered_set<uint64_t> outcomes;  // distinct observed outcomes
  std::map<std::string, long> count;      // anything else worth reporting
  std::vector<std::string> samples;
  void hard(const std::string &s) { distinct.insert(std::hash<std::string>()(s)); }
  void outcome(const std::string &s) { outcomes.insert(std::hash<std::string>()(s)); }
  void sample(const std::string &s) {
    if (samples.size() < 3) samples.push_back(s);
  }
};

struct Mode {
  std::string name;
  std::vector<std::string> args;
  Alg alg;
  Heur heur;
  int restart = 0;
};
Mode mode(const std::string &name);  // e.g. "nc", "wl-lazy+r2", "bv-vsids"
std::vector<Mode> modes(const std::string &names);  // space separated

// the libraries under test, by role
extern Lib *SRC, *BIT, *SRC_O, *BIT_O;
Lib *lib_of(const Mode &m);

// run the solver on a text; the file name is added to the arguments
RunResult solve(Lib *lib, const Mode &m, const std::string &text, const Env &env, bool verbose = false,
                const std::vector<std::string> &more = {});
Env env0();  // the default environment
std::string ended(const RunResult &r);  // "" if the run ended normally, otherwise how it failed

using Emit = std::function<void(Unit &)>;
struct Prop {
  const char *id;
  const char *level;
  const char *rule;
  std::function<void(const Emit &, bool thorough)> gen;
  std::function<std::string(Unit &, Probe &)> run;
  std::vector<const char *> assumptions;
};
std::vector<Prop> &props();

struct Reg {
  explicit Reg(Prop p) { props().push_back(p); }
};

// satisfiable according to the reference (cached for the formula last asked about)
bool is_sat(Unit &u);
// all models, or nullptr if there are too many assignments to enumerate
std::vector<Model> *all_models(Unit &u);

// does the printed model assign every variable one value of its domain and satisfy the formula?
std::string model_error(const Cnf &f, const Out &o, bool bv, Model *out = nullptr);

// explore decision sequences: every run that deviates from the heuristic in at most
// `bound` of its first `depth` decisions. judge returns "" or what is wrong.
struct Decided {
  std::vector<std::pair<int, int>> script;  // (decision number, code)
};
std::string explore_decisions(Unit &u, const Mode &m, const std::string &text, int bound, int depth, bool verbose, Probe &pb,
                              const std::function<std::string(const RunResult &, bool deviated)> &judge,
                              std::vector<std::vector<std::pair<int, int>>> *open = nullptr);

namespace fam {
using F = std::function<void(const char *fam, const Cnf &f, int expect)>;
void tiny(const std::vector<int> &dom, int maxlen, int maxcl, const F &fn);
void subsets(const std::vector<int> &dom, int width, int maxcl, const F &fn);
void boolean_subsets(int n, int maxcl, const F &fn);
void graphs(int n, int k, const F &fn);
void csp(int n, int d, int nrel, bool support, const F &fn);
void pigeons(int lo, int hi, const F &fn);
void scale(int size, const F &fn);
void long_lines(int size, const F &fn);
void search_heavy(bool thorough, const F &fn);
void long_runs(int size, const F &fn);
void embedded(int size, bool logged, bool levels, const F &fn);
void congruent(int lo_a, int hi_a, double lo, double cap, const F &fn);
void deep(bool thorough, const F &fn);
void huge(bool thorough, const F &fn);
void abyss(int levels, const F &fn);
void vast(bool thorough, const F &fn);
void standard(bool thorough, const F &fn);   // what verdict-like checks explore
void conflicts(bool thorough, const F &fn);  // conflict-rich formulas for monitored runs
void small_conflicts(bool thorough, const F &fn);  // for decision exploration
}  // namespace fam
inline fam::F to_units(const Emit &e) {
  return [e](const char *n, const Cnf &f, int expect) {
    Unit u;
    u.fam = n;
    u.f = f;
    u.expect = expect;
    e(u);
  };
}

}  // namespace vf
