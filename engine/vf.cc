#include "vf.h"
#include <stdlib.h>
#include <unistd.h>

namespace vf {

std::vector<Prop> &props() {
  static auto *p = new std::vector<Prop>;
  return *p;
}
Lib *SRC, *BIT, *SRC_O, *BIT_O;

Mode mode(const std::string &full_name) {
  Mode m;
  m.name = full_name;
  std::string n = full_name;
  size_t plus = n.find("+r");
  if (plus != std::string::npos) {
    m.restart = atoi(n.c_str() + plus + 2);
    n = n.substr(0, plus);
  }
  std::string alg = n, h;
  size_t dash = n.find('-');
  if (dash != std::string::npos) {
    alg = n.substr(0, dash);
    h = n.substr(dash + 1);
  }
  if (alg == "nc") m.alg = NC, m.heur = BK, m.args = {"-solvenc"};
  else if (alg == "wl") m.alg = WL, m.heur = VSIDS, m.args = {"-solvenc", "-wl"};
  else if (alg == "ch") m.alg = CH, m.heur = BK, m.args = {"-solvech"};
  else m.alg = BV, m.heur = LAZY, m.args = {"-solvenc"};
  if (h == "vsids") m.heur = VSIDS;
  if (h == "vsids_pos") m.heur = VSIDS_POS;
  if (h == "lazy") m.heur = LAZY;
  if (!h.empty() && !(m.alg == BV && h == "lazy")) m.args.push_back("-" + h);
  if (m.restart) {
    m.args.push_back("-restart");
    m.args.push_back(std::to_string(m.restart));
  }
  return m;
}
std::vector<Mode> modes(const std::string &names) {
  std::vector<Mode> r;
  size_t i = 0;
  while (i < names.size()) {
    size_t j = names.find(' ', i);
    if (j == std::string::npos) j = names.size();
    if (j > i) r.push_back(mode(names.substr(i, j - i)));
    i = j + 1;
  }
  return r;
}
bool has_hooks(Lib *) { return !getenv("VF_NOHOOKS"); }
Lib *lib_of(const Mode &m) { return m.alg == BV ? BIT : SRC; }

static int wall() {
  const char *w = getenv("VF_WALL_MS");
  return w ? atoi(w) : 10000;
}
Env env0() {
  Env e;
  e.wall_ms = wall();
  e.horizon = 2000000;
  return e;
}

RunResult solve(Lib *lib, const Mode &m, const std::string &text, const Env &env, bool verbose, const std::vector<std::string> &more) {
  static MemFile *file = new MemFile("case");
  static std::string last;
  static bool first = true;
  if (first || text != last) {
    file->set(text);
    last = text;
    first = false;
  }
  static std::vector<std::string> args;
  args = m.args;
  args.push_back("-file");
  args.push_back(file->path);
  if (verbose) args.push_back("-verbose");
  args.insert(args.end(), more.begin(), more.end());
  return run(lib, args, env);
}

std::string ended(const RunResult &r) {
  switch (r.status) {
    case OK:
      if (r.code != 0) return "exit status " + std::to_string(r.code);
      if (r.heap_damage) return "wrote outside a heap block";
      return "";
    case EXITED: return "called exit(" + std::to_string(r.code) + ")";
    case CRASHED: return "crashed with signal " + std::to_string(r.code);
    case HUNG: return "did not end within " + std::to_string(wall()) + " ms";
    case HORIZON: return "did not end within " + std::to_string(r.polls) + " steps of the search";
    case NOMEM: return "ran out of memory";
  }
  return "?";
}

static const Unit *cached_unit;
static std::string cached_text;
static int cached_sat;
static bool cached_models_ok;
static std::vector<Model> cached_models;
static bool cached_models_done;
static void refresh(Unit &u) {
  std::string t = text(u.f);
  if (t == cached_text && cached_unit) return;
  cached_text = t;
  cached_unit = &u;
  cached_sat = -2;
  cached_models_done = false;
}
static double assignments(const Cnf &f) {
  double n = 1;
  for (int d : f.dom) n *= d;
  return n;
}
std::vector<Model> *all_models(Unit &u) {
  refresh(u);
  if (!cached_models_done) {
    cached_models_done = true;
    cached_models_ok = assignments(u.f) <= 4096;
    if (cached_models_ok) {
      Reference r(u.f);
      cached_models = r.models();
    } else
      cached_models.clear();
  }
  return cached_models_ok ? &cached_models : nullptr;
}
bool is_sat(Unit &u) {
  if (u.expect >= 0) return u.expect;
  refresh(u);
  if (cached_sat == -2) {
    if (assignments(u.f) <= 100000) {
      Reference r(u.f);
      cached_sat = r.sat();
    } else
      cached_sat = ref_sat(u.f, 50000000);
    if (cached_sat < 0) {
      fprintf(stderr, "reference gave up on %s\n", u.fam.c_str());
      _exit(4);
    }
  }
  return cached_sat;
}

std::string model_error(const Cnf &f, const Out &o, bool bv, Model *out) {
  if (!o.has_model) return "no model printed";
  if (bv) {
    // i=<64 bits>: the values left for variable i; every combination has to be a model
    std::vector<Bits> d(f.nv());
    std::vector<bool> seen(f.nv(), false);
    for (auto &l : o.model_lines) {
      SL s;
      if (!parse_bits(l, s)) return "unreadable model line: " + l;
      if (s.var == 0) continue;
      if (s.var > f.nv()) return "model line for variable " + std::to_string(s.var);
      if (seen[s.var - 1]) return "two model lines for variable " + std::to_string(s.var);
      seen[s.var - 1] = true;
      d[s.var - 1] = s.set;
    }
    for (int i = 0; i < f.nv(); i++) {
      if (!seen[i]) return "no value for variable " + std::to_string(i + 1);
      if (d[i].none()) return "no value left for variable " + std::to_string(i + 1);
      if ((d[i] & ~full(f.dom[i])).any()) return "value outside the domain of variable " + std::to_string(i + 1);
    }
    for (auto &c : f.cls) {
      // some combination of the values left falsifies the clause iff no literal's set,
      // joined with the other literals of its variable, covers what is left
      bool covered = false;
      for (auto &l : c) {
        Bits u;
        for (auto &k : c)
          if (k.var == l.var) u |= to_sl(k, f.dom).set;
        if ((d[l.var - 1] & ~u).none()) {
          covered = true;
          break;
        }
      }
      if (!covered) return "the model does not satisfy clause " + str(c);
    }
    return "";
  }
  Model m(f.nv(), -1);
  for (auto &l : o.model_lines) {
    L x;
    if (!parse_lit(l.c_str(), x) || !x.eq) return "unreadable model line: " + l;
    if (x.var < 1 || x.var > f.nv()) return "model line for variable " + std::to_string(x.var);
    if (x.val >= f.dom[x.var - 1]) return "value outside the domain: " + l;
    if (m[x.var - 1] >= 0) return "two values for variable " + std::to_string(x.var);
    m[x.var - 1] = x.val;
  }
  for (int i = 0; i < f.nv(); i++)
    if (m[i] < 0) return "no value for variable " + std::to_string(i + 1);
  for (auto &c : f.cls)
    if (!holds(c, m)) return "the model does not satisfy clause " + str(c);
  if (out) *out = m;
  return "";
}

std::string explore_decisions(Unit &u, const Mode &m, const std::string &text, int bound, int depth, bool verbose, Probe &pb,
                              const std::function<std::string(const RunResult &, bool)> &judge,
                              std::vector<std::vector<std::pair<int, int>>> *open) {
  // one run: follow `script` (decision number -> code), note what was on offer
  struct Point {
    std::vector<int> codes;  // all alternatives
    int chosen;
  };
  std::vector<Point> pts;
  auto once = [&](const std::vector<std::pair<int, int>> &script) {
    pts.clear();
    if (open) open->clear();
    Env e = env0();
    e.decide = [&](const int *vars, const int *vals, int n, int var, int eq, int val) -> int {
      int k = (int)pts.size();
      if (open) {
        open->emplace_back();
        for (int i = 0; i < n; i++) open->back().push_back({vars[i], vals[i]});
      }
      Point p;
      p.chosen = -1;
      int pick = -1;
      for (auto &s : script)
        if (s.first == k) pick = s.second;
      if (k < depth)
        for (int i = 0; i < n; i++) {
          if (u.f.dom[vars[i] - 1] < 2) continue;
          bool mine = vars[i] == var && vals[i] == val;
          if (!(mine && eq == 1)) p.codes.push_back(2 * i);
          // leaving out one of two values is the same as choosing the other
          if (m.alg != BV || u.f.dom[vars[i] - 1] > 2)
            if (!(mine && eq == 0)) p.codes.push_back(2 * i + 1);
        }
      if (pick >= 2 * n) pick = -1;
      pts.push_back(p);
      return pick;
    };
    pb.evaluations++;
    return solve(lib_of(m), m, text, e, verbose);
  };
  auto script_str = [](const std::vector<std::pair<int, int>> &s) {
    std::string r = "-";
    for (auto &x : s) r += " " + std::to_string(x.first) + ":" + std::to_string(x.second);
    return r;
  };
  if (u.has("script")) {
    std::vector<std::pair<int, int>> s;
    std::string t = u.get("script");
    const char *p = t.c_str() + 1;
    while (*p) {
      int a = (int)strtol(p, (char **)&p, 10);
      if (*p != ':') break;
      int b = (int)strtol(p + 1, (char **)&p, 10);
      s.push_back({a, b});
    }
    return judge(once(s), !s.empty());
  }
  std::function<std::string(std::vector<std::pair<int, int>>)> go = [&](std::vector<std::pair<int, int>> s) -> std::string {
    RunResult r = once(s);
    auto mine = pts;
    std::string w = judge(r, !s.empty());
    if (!w.empty()) {
      u.pin("script", script_str(s));
      return w;
    }
    if ((int)s.size() >= bound) return "";
    int from = s.empty() ? 0 : s.back().first + 1;
    for (int k = from; k < (int)mine.size() && k < depth; k++)
      for (int c : mine[k].codes) {
        auto t = s;
        t.push_back({k, c});
        w = go(t);
        if (!w.empty()) return w;
      }
    return "";
  };
  return go({});
}

}  // namespace vf
