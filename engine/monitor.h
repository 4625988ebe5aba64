// The abstract transition system a run has to follow: trail, levels, clause
// database. Each logged event must be a legal transition from the current state.
#pragma once
#include <climits>
#include <map>
#include <set>
#include <unordered_set>
#include "trace.h"

namespace vf {

enum Alg { NC, WL, CH, BV };
enum Heur { BK, VSIDS, VSIDS_POS, LAZY };

// Which rules a check is about. A rule that is off is not reported.
enum Rules {
  RULE_PROP_SOUND = 1,    // every assignment is a decision or forced
  RULE_PROP_COMPLETE = 2, // decisions only at a propagation fixpoint, conflicts noticed
  RULE_LEARN = 4,         // learned clauses are implied by the formula
  RULE_JUMP = 8,          // learned clauses assert at the level jumped to
  RULE_PROGRESS = 16,     // no conflict, clause or branch is repeated
  RULE_HEUR = 32,         // decisions follow the heuristic
  RULE_OPEN = 128,        // what the solver thinks is open is what the trail leaves open
  RULE_END = 64,          // how a run ends fits the state it ends in
};

struct Monitor {
  const Cnf &f;
  Alg alg;
  Heur heur;
  int restart;
  int rules;
  bool free_decisions;  // the explorer chose decisions: heuristic not judged
  std::vector<Bits> dom;
  std::vector<std::vector<int>> lev;   // level at which a value was removed, -1 = present
  std::vector<SC> db;                  // input clauses, then learned ones
  std::vector<std::vector<L>> raw;
  std::set<std::string> keys;
  size_t inputs;
  int level = 0;
  bool conflict = false;
  int conflicts = 0, decisions = 0, units = 0, entails = 0, restarts = 0, reduces = 0;
  std::vector<Ev> stack;     // decisions, one per level
  std::vector<Model> *models = nullptr;  // all models, when affordable
  std::unordered_set<uint64_t> *states = nullptr;
  long transitions = 0;
  bool unsat0 = false;
  std::set<std::string> learned_keys;
  std::vector<std::vector<double>> sp, sn;  // VSIDS scores
  long deep_jumps = 0, max_level = 0;
  const std::vector<std::vector<std::pair<int, int>>> *open = nullptr;  // per decision, from the hook

  Monitor(const Cnf &f_, Alg a, Heur h, int r, int ru) : f(f_), alg(a), heur(h), restart(r), rules(ru), free_decisions(false) {
    for (int d : f.dom) {
      dom.push_back(full(d));
      lev.emplace_back(d, -1);
      sp.emplace_back(d, 0);
      sn.emplace_back(d, 0);
    }
    for (auto &c : f.cls) {
      SC s;
      std::vector<L> rc;
      for (auto &l : c) {
        if (f.dom[l.var - 1] == 1 && !l.eq) continue;
        if (alg == WL && std::find(rc.begin(), rc.end(), l) != rc.end()) continue;
        s.push_back(to_sl(l, f.dom));
        rc.push_back(l);
      }
      if (alg == BV) s = merged(s);
      db.push_back(s);
      raw.push_back(rc);
      keys.insert(key(s, alg == BV));
      bump(s, rc);
    }
    inputs = db.size();
  }
  static SC merged(const SC &c) {
    SC m;
    for (auto &s : c) {
      bool fnd = false;
      for (auto &t : m)
        if (t.var == s.var) {
          t.set |= s.set;
          fnd = true;
        }
      if (!fnd) m.push_back(s);
    }
    return m;
  }
  void bump(const SC &c, const std::vector<L> &rc) {
    if (alg == BV) {
      for (auto &s : c)
        for (int v = 0; v < f.dom[s.var - 1]; v++)
          if (s.set[v]) sp[s.var - 1][v]++;
      return;
    }
    for (auto &l : rc) {
      if (heur == VSIDS) {
        if (l.eq) sp[l.var - 1][l.val]++;
        else sn[l.var - 1][l.val]++;
      } else if (heur == VSIDS_POS) {
        if (l.eq) sp[l.var - 1][l.val]++;
        else
          for (int v = 0; v < f.dom[l.var - 1]; v++)
            if (v != l.val) sp[l.var - 1][v]++;
      }
    }
  }
  bool is_true(const SL &s) const { return (dom[s.var - 1] & ~s.set).none(); }
  bool is_false(const SL &s) const { return (dom[s.var - 1] & s.set).none(); }
  int false_level(const SL &s) const {
    int m = -1;
    for (int v = 0; v < f.dom[s.var - 1]; v++)
      if (s.set[v] && lev[s.var - 1][v] > m) m = lev[s.var - 1][v];
    return m;
  }
  bool root_false(const SC &c) const {
    for (auto &s : c)
      if (!is_false(s) || false_level(s) > 0) return false;
    return true;
  }
  bool clause_false(const SC &c) const {
    for (auto &s : c)
      if (!is_false(s)) return false;
    return true;
  }
  bool clause_true(const SC &c) const {
    for (auto &s : c)
      if (is_true(s)) return true;
    return false;
  }
  void undo(int l) {
    for (int i = 0; i < f.nv(); i++)
      for (int v = 0; v < f.dom[i]; v++)
        if (lev[i][v] > l) {
          lev[i][v] = -1;
          dom[i].set(v);
        }
    while ((int)stack.size() > l && l >= 0) stack.pop_back();
    if (l < 0) stack.clear();
    level = l;
  }
  bool implied(const SC &c) {
    if (models) {
      for (auto &m : *models) {
        bool ok = false;
        for (auto &s : c)
          if (s.set[m[s.var - 1]]) {
            ok = true;
            break;
          }
        if (!ok) return false;
      }
      return true;
    }
    // refute the negation: propagation over input and (already accepted) learned clauses first
    std::vector<const SC *> d;
    for (auto &x : db) d.push_back(&x);
    std::vector<Bits> dm;
    for (int i : f.dom) dm.push_back(full(i));
    for (auto &s : c) dm[s.var - 1] &= ~s.set;
    for (auto &b : dm)
      if (b.none()) return true;
    if (!propagate(d, dm)) return true;
    long budget = 200000;
    bool sat = search(d, dm, budget);
    return !sat;
  }
  uint64_t hash() const {
    uint64_t h = 1469598103934665603ULL ^ (uint64_t)level * 31 ^ (uint64_t)db.size() * 1000003 ^ conflict;
    std::hash<Bits> hb;
    for (size_t i = 0; i < dom.size(); i++) h = (h ^ hb(dom[i])) * 1099511628211ULL;
    for (size_t i = 0; i < lev.size(); i++)
      for (int v : lev[i]) h = (h ^ (uint64_t)(v + 2)) * 1099511628211ULL;
    return h;
  }
  std::string state() const {
    std::string s = "level " + std::to_string(level) + ", values left:";
    for (int i = 0; i < f.nv(); i++) {
      if (i == 60) return s + " ...";
      s += " " + std::to_string(i + 1) + "{";
      for (int v = 0; v < f.dom[i]; v++)
        if (dom[i][v]) s += (s.back() == '{' ? "" : ",") + std::to_string(v);
      s += "}";
    }
    return s;
  }
  std::string fixpoint(const char *when) {
    for (size_t i = 0; i < db.size(); i++) {
      auto &c = db[i];
      int open = 0;
      bool sat = false;
      const SL *u = nullptr;
      for (auto &s : c) {
        if (is_true(s)) {
          sat = true;
          break;
        }
        if (!is_false(s)) {
          open++;
          u = &s;
        }
      }
      if (sat) continue;
      if (open == 0) return std::string(when) + " although clause [" + show(c, f.dom) + "] is falsified; " + state();
      if (open == 1)
        return std::string(when) + " although clause [" + show(c, f.dom) + "] forces " + show(*u, f.dom) + "; " + state();
    }
    return "";
  }
  std::string lname(const Ev &e) const { return show(e.lit, f.dom); }

  // returns a description of the rule broken, or ""
  std::string run(const Trace &t) {
    if (!t.error.empty()) return t.error;
    bool announced = false, flip = false;
    Ev ann, fl;
    int entail_var = 0;
    SL entail_lit;
    bool jumped = false;
    int jump_level = 0;
    std::string why;
    for (size_t i = 0; i < t.ev.size(); i++) {
      Ev e = t.ev[i];
      // -solvech never looks at reasons, and logs a stale one for a decision
      if (alg == CH && e.kind == E_REDUCE && announced && ann.lit == e.lit) e.reason = R_DECISION;
      transitions++;
      if (unsat0) return (rules & RULE_END) ? "the search went on after a conflict at level 0" : "";
      switch (e.kind) {
        case E_DECISION: {
          if (rules & RULE_PROP_COMPLETE) {
            if (conflict) return "decision " + lname(e) + " while a conflict is pending";
            why = fixpoint(("decision " + lname(e)).c_str());
            if (!why.empty()) return why;
          }
          if (rules & RULE_PROP_SOUND)
            if (is_true(e.lit) || is_false(e.lit))
              if (f.dom[e.lit.var - 1] > 1) return "decision " + lname(e) + " is already determined; " + state();
          if ((rules & RULE_HEUR) && !free_decisions) {
            why = heuristic(e);
            if (!why.empty()) return why;
          }
          if ((rules & RULE_OPEN) && open && decisions < (int)open->size()) {
            std::set<std::pair<int, int>> mine, theirs;
            for (int v = 0; v < f.nv(); v++)
              if (f.dom[v] > 1 && dom[v].count() > 1)
                for (int x = 0; x < f.dom[v]; x++)
                  if (dom[v][x]) mine.insert({v + 1, x});
            for (auto &o : (*open)[decisions])
              if (f.dom[o.first - 1] > 1) theirs.insert(o);
            for (auto &p : mine)
              if (!theirs.count(p))
                return std::to_string(p.first) + "=" + std::to_string(p.second) + " counts as determined at decision " + lname(e) + ", but nothing in force determines it; " + state();
            for (auto &p : theirs)
              if (!mine.count(p))
                return std::to_string(p.first) + "=" + std::to_string(p.second) + " counts as undetermined at decision " + lname(e) + ", but it is determined; " + state();
          }
          decisions++;
          announced = true;
          ann = e;
          level++;
          if (level > max_level) max_level = level;
          stack.push_back(e);
          break;
        }
        case E_FLIP: {
          // chronological backtracking: the last open decision is refuted
          if (rules & RULE_PROP_SOUND) {
            bool real = false;
            for (auto &c : db)
              if (clause_false(c)) {
                real = true;
                break;
              }
            if (!real) return "backtracked without a conflict before " + lname(e) + "; " + state();
          }
          conflicts++;
          if (stack.empty()) return (rules & (RULE_PROGRESS | RULE_PROP_SOUND)) ? "flipped " + lname(e) + " but no decision is open" : "";
          if ((rules & (RULE_PROGRESS | RULE_PROP_SOUND)) && !(stack.back().lit == e.lit)) {
            Bits comp = full(f.dom[e.lit.var - 1]) & ~e.lit.set;
            if (!(stack.back().lit.var == e.lit.var && stack.back().lit.set == comp))
              return "flipped to " + lname(e) + " but the last open decision is " + lname(stack.back());
          }
          undo(level - 1);
          conflict = false;
          flip = true;
          fl = e;
          break;
        }
        case E_ENTAIL: {
          entails++;
          entail_var = e.lit.var;
          entail_lit = e.lit;
          if (rules & RULE_PROP_SOUND)
            if (!(dom[e.lit.var - 1] == e.lit.set)) return "entailed " + lname(e) + " but other values are left; " + state();
          break;
        }
        case E_REDUCE: {
          reduces++;
          if (rules & RULE_PROP_SOUND) {
            if (e.level != level)
              return "assigned " + lname(e) + " at level " + std::to_string(e.level) + " while the search is at level " + std::to_string(level);
            if (conflict) return "assigned " + lname(e) + " while a conflict is pending";
            if (flip) {
              if (!(fl.lit == e.lit)) return "announced " + show(fl.lit, f.dom) + " but assigned " + lname(e);
            } else if (e.reason == R_DECISION) {
              if (!announced || !(ann.lit == e.lit)) return "assigned " + lname(e) + " as a decision that was not taken";
            } else if (e.reason == R_ENTAIL) {
              if (entail_var != e.lit.var || !(entail_lit == e.lit)) return "assigned " + lname(e) + " as entailed without entailment";
              if (!(dom[e.lit.var - 1] == e.lit.set)) return "entailed " + lname(e) + " but other values are left; " + state();
            } else if (e.reason == R_CLAUSE) {
              if (!keys.count(key(e.clause, alg == BV)))
                return "assigned " + lname(e) + " because of [" + show(e.clause, f.dom) + "], which is no clause of the formula";
              bool in = false;
              for (auto &s : e.clause) {
                if (s == e.lit) {
                  in = true;
                  continue;
                }
                if (!is_false(s))
                  return "assigned " + lname(e) + " because of [" + show(e.clause, f.dom) + "], but " + show(s, f.dom) + " is not false; " + state();
              }
              if (!in) return "assigned " + lname(e) + " because of [" + show(e.clause, f.dom) + "], which does not contain it";
            } else
              return "assigned " + lname(e) + " without a reason";
            if (is_false(e.lit)) return "assigned " + lname(e) + ", which is false; " + state();
          }
          if (e.reason == R_CLAUSE && !flip) units++;
          announced = flip = false;
          entail_var = 0;
          for (int v = 0; v < f.dom[e.lit.var - 1]; v++)
            if (!e.lit.set[v] && dom[e.lit.var - 1][v]) {
              dom[e.lit.var - 1].reset(v);
              lev[e.lit.var - 1][v] = level;
            }
          break;
        }
        case E_CONFLICT: {
          conflict = true;
          if (rules & RULE_PROP_SOUND) {
            if (e.level != level) return "conflict reported at level " + std::to_string(e.level) + " while the search is at level " + std::to_string(level);
            if (!keys.count(key(e.clause, alg == BV))) return "conflict with [" + show(e.clause, f.dom) + "], which is no clause of the formula";
            if (!clause_false(e.clause)) return "conflict reported with [" + show(e.clause, f.dom) + "], which is not falsified; " + state();
          }
          if (level == 0 || root_false(e.clause)) unsat0 = true;
          break;
        }
        case E_LATEST:
          break;
        case E_RESOLVENT:
          if (rules & RULE_LEARN) {
            if (!clause_false(e.clause)) return "resolvent [" + show(e.clause, f.dom) + "] is not falsified; " + state();
          }
          // several literals of one variable can cancel in one step: what is left may be false without any decision
          if (root_false(e.clause)) unsat0 = true;
          break;
        case E_LEARN: {
          if (rules & RULE_LEARN)
            if (!implied(e.clause)) return "learned [" + show(e.clause, f.dom) + "], which does not follow from the formula; " + state();
          if (rules & RULE_JUMP) {
            if (!clause_false(e.clause)) return "learned [" + show(e.clause, f.dom) + "], which is not falsified by the current assignment; " + state();
          }
          // the level of the conflict: the current one, or a lower one if resolution left nothing of the current level
          int top = 0;
          for (auto &s : e.clause) top = std::max(top, false_level(s));
          if (rules & RULE_JUMP) {
            int here = 0;
            for (auto &s : e.clause)
              if (false_level(s) == top) here++;
            if (here != 1) return "learned [" + show(e.clause, f.dom) + "], " + std::to_string(here) + " literals of which were falsified at the level of the conflict; " + state();
          }
          jump_level = 0;
          for (auto &s : e.clause) {
            int l = false_level(s);
            if (l < top && l > jump_level) jump_level = l;
          }
          std::string k = key(e.clause, alg == BV), lk = k;
          if (alg != BV) {
            std::vector<L> rc = e.rawc;
            std::sort(rc.begin(), rc.end(), [](const L &a, const L &b) { return std::tie(a.var, a.eq, a.val) < std::tie(b.var, b.eq, b.val); });
            lk.clear();
            for (auto &l : rc) lk += std::to_string(l.var) + (l.eq ? "=" : "!=") + std::to_string(l.val) + " ";
          }
          if (rules & RULE_PROGRESS) {
            // the clause was there already, unit before the decision: it should have propagated
            if (learned_keys.count(lk)) return "learned [" + show(e.clause, f.dom) + "] twice";
          }
          learned_keys.insert(lk);
          keys.insert(k);
          db.push_back(alg == BV ? merged(e.clause) : e.clause);
          raw.push_back(e.rawc);
          bump(db.back(), e.rawc);
          if (alg == BV || heur == VSIDS || heur == VSIDS_POS)
            for (int a = 0; a < f.nv(); a++)
              for (int b = 0; b < f.dom[a]; b++) {
                sp[a][b] /= 2;
                sn[a][b] /= 2;
              }
          jumped = true;
          break;
        }
        case E_BACKJUMP: {
          conflicts++;
          if (rules & RULE_JUMP) {
            if (!jumped) return "backjump without a learned clause";
            if (e.level != jump_level)
              return "jumped to level " + std::to_string(e.level) + ", but the learned clause [" + show(db.back(), f.dom) + "] asserts from level " + std::to_string(jump_level);
          }
          if (e.level < level - 1) deep_jumps++;
          jumped = false;
          int to = e.level;
          if (to < 0) return (rules & RULE_JUMP) ? "jumped to a negative level" : "";
          if (restart > 0 && conflicts % restart == 0) {
            restarts++;
            to = 0;
          }
          if (to > level) return (rules & RULE_JUMP) ? "jumped forward" : "";
          undo(to);
          conflict = false;
          break;
        }
        case E_COUNT:
          if ((rules & RULE_END) && e.level != conflicts)
            return "reports " + std::to_string(e.level) + " backtracks after " + std::to_string(conflicts);
          break;
      }
      if (states) states->insert(hash());
    }
    return "";
  }

  // the state a run stopped in must justify its answer
  std::string finish(const std::string &verdict) {
    if (verdict == "UNSAT") {
      if (alg == CH) {
        bool real = false;
        for (auto &c : db)
          if (clause_false(c)) real = true;
        if (!real) return "answered UNSAT without a conflict; " + state();
        if (!stack.empty()) return "answered UNSAT with an open decision " + show(stack.back().lit, f.dom) + "; " + state();
        conflicts++;
      } else if (!unsat0)
        return "answered UNSAT without a conflict at level 0; " + state();
    } else if (verdict == "SAT") {
      for (auto &c : db)
        if (!clause_true(c)) {
          bool d1 = false;
          for (auto &s : c)
            if (f.dom[s.var - 1] == 1) d1 = true;
          if (!d1) return "answered SAT but clause [" + show(c, f.dom) + "] is not satisfied; " + state();
        }
    }
    return "";
  }

  std::string heuristic(const Ev &e) {
    if (heur == LAZY) {
      for (size_t i = 0; i < db.size(); i++) {
        if (alg != WL && alg != BV && clause_true(db[i])) continue;
        for (auto &s : db[i])
          if (s == e.lit) return "";
      }
      return "lazy decision " + lname(e) + " is no literal of an open clause; " + state();
    }
    if (heur == VSIDS || heur == VSIDS_POS) {
      double best = -1;
      std::string bl;
      for (int i = 0; i < f.nv(); i++) {
        if (dom[i].count() < 2) continue;
        for (int v = 0; v < f.dom[i]; v++) {
          if (!dom[i][v]) continue;
          if (sp[i][v] > best) best = sp[i][v], bl = std::to_string(i + 1) + "=" + std::to_string(v);
          if (alg != BV && heur == VSIDS && sn[i][v] > best) best = sn[i][v], bl = std::to_string(i + 1) + "!=" + std::to_string(v);
        }
      }
      double mine;
      int var = e.lit.var - 1;
      bool eq = alg == BV ? true : e.raw.eq;
      int val = e.raw.val;
      if (alg == BV)
        for (int v = 0; v < f.dom[var]; v++)
          if (e.lit.set[v]) val = v;
      mine = eq ? sp[var][val] : sn[var][val];
      if (mine < best - 1e-9)
        return "decision " + lname(e) + " has score " + std::to_string(mine) + ", but " + bl + " has " + std::to_string(best) + "; " + state();
      return "";
    }
    if (heur == BK) {
      // occurrences of v=d minus those of v!=d in clauses not yet satisfied
      std::vector<std::vector<int>> n;
      for (int d : f.dom) n.emplace_back(d, 0);
      for (size_t i = 0; i < db.size(); i++) {
        if (clause_true(db[i])) continue;
        for (auto &l : raw[i]) n[l.var - 1][l.val] += l.eq ? 1 : -1;
      }
      int best = INT_MIN;
      std::string bl;
      for (int i = 0; i < f.nv(); i++)
        if (dom[i].count() > 1)
          for (int v = 0; v < f.dom[i]; v++)
            if (dom[i][v] && n[i][v] > best) best = n[i][v], bl = std::to_string(i + 1) + "=" + std::to_string(v);
      int mine = n[e.lit.var - 1][e.raw.val];
      if (!e.raw.eq || mine < best)
        return "decision " + lname(e) + " has balance " + std::to_string(mine) + ", but " + bl + " has " + std::to_string(best) + "; " + state();
      return "";
    }
    return "";
  }
};

}  // namespace vf
