// vf ID --tier quick|thorough ...: explore property ID with several processes,
// confirm what they found in fresh ones, write the evidence.
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include "vf.h"

using namespace vf;

static std::string esc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '\\') r += "\\\\";
    else if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t";
    else if (c == '\r') r += "\\r";
    else r += (char)c;
  }
  return r;
}
static std::string unesc(const std::string &s) {
  std::string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '\\' && i + 1 < s.size()) {
      char c = s[++i];
      r += c == 'n' ? '\n' : c == 't' ? '\t' : c == 'r' ? '\r' : c;
    } else
      r += s[i];
  }
  return r;
}
static std::string save(const char *id, const Unit &u, const std::string &why) {
  std::string s = std::string("property ") + id + "\n";
  for (auto &l : lines(why)) s += "# " + l + "\n";
  s += "family " + u.fam + "\nexpect " + std::to_string(u.expect) + "\n";
  for (auto &p : u.p) s += "p " + p.first + " " + esc(p.second) + "\n";
  s += "formula\n" + text(u.f);
  return s;
}
static bool load_unit(const char *path, std::string &id, Unit &u) {
  std::ifstream in(path);
  if (!in) return false;
  std::string l;
  bool formula = false;
  while (std::getline(in, l)) {
    if (!formula) {
      if (l.compare(0, 9, "property ") == 0) id = l.substr(9);
      else if (l.compare(0, 7, "family ") == 0) u.fam = l.substr(7);
      else if (l.compare(0, 7, "expect ") == 0) u.expect = atoi(l.c_str() + 7);
      else if (l.compare(0, 2, "p ") == 0) {
        size_t b = l.find(' ', 2);
        u.p[l.substr(2, b - 2)] = unesc(b == std::string::npos ? "" : l.substr(b + 1));
      } else if (l == "formula") formula = true;
      continue;
    }
    if (l[0] == 'p') continue;
    if (l[0] == 'd') {
      int v, d;
      if (sscanf(l.c_str(), "d %d %d", &v, &d) == 2) u.f.dom.push_back(d);
      continue;
    }
    Cl c;
    std::istringstream ss(l);
    std::string w;
    while (ss >> w) {
      L x;
      if (w != "0" && parse_lit(w.c_str(), x)) c.push_back(x);
    }
    u.f.cls.push_back(c);
  }
  return true;
}

struct Shared {
  volatile long current;
  volatile int stop;
  long done;
};

static std::string json(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') r += '\\', r += (char)c;
    else if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t";
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += (char)c;
  }
  return r + "\"";
}
static double wall_now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + 1e-9 * ts.tv_nsec;
}
static void spit(const std::string &path, const std::string &s) {
  std::ofstream o(path, std::ios::binary);
  o << s;
}
static std::string slurp(const std::string &path) {
  std::ifstream i(path, std::ios::binary);
  std::stringstream ss;
  ss << i.rdbuf();
  return ss.str();
}

static const Prop *find(const std::string &id) {
  for (auto &p : props())
    if (id == p.id) return &p;
  return nullptr;
}

// the worker's report, as a text file
static void put_set(std::string &s, const std::unordered_set<uint64_t> &x) {
  size_t n = x.size();
  s.append((char *)&n, sizeof n);
  for (uint64_t v : x) s.append((char *)&v, sizeof v);
}
static void get_set(const std::string &s, size_t &o, std::unordered_set<uint64_t> &x) {
  size_t n;
  memcpy(&n, &s[o], sizeof n);
  o += sizeof n;
  for (size_t i = 0; i < n; i++) {
    uint64_t v;
    memcpy(&v, &s[o], sizeof v);
    o += sizeof v;
    x.insert(v);
  }
}
static void put_str(std::string &s, const std::string &x) {
  size_t n = x.size();
  s.append((char *)&n, sizeof n);
  s += x;
}
static std::string get_str(const std::string &s, size_t &o) {
  size_t n;
  memcpy(&n, &s[o], sizeof n);
  o += sizeof n;
  std::string r = s.substr(o, n);
  o += n;
  return r;
}
static void put_num(std::string &s, long n) { s.append((char *)&n, sizeof n); }
static long get_num(const std::string &s, size_t &o) {
  long n;
  memcpy(&n, &s[o], sizeof n);
  o += sizeof n;
  return n;
}
static void put_probe(std::string &s, const Probe &p) {
  for (long n : {p.evaluations, p.transitions, p.traces, p.units, p.skipped}) put_num(s, n);
  put_set(s, p.distinct);
  put_set(s, p.states);
  put_set(s, p.outcomes);
  put_num(s, p.count.size());
  for (auto &c : p.count) {
    put_str(s, c.first);
    put_num(s, c.second);
  }
  put_num(s, p.samples.size());
  for (auto &x : p.samples) put_str(s, x);
}
static void get_probe(const std::string &s, size_t &o, Probe &p) {
  for (long *n : {&p.evaluations, &p.transitions, &p.traces, &p.units, &p.skipped}) *n += get_num(s, o);
  get_set(s, o, p.distinct);
  get_set(s, o, p.states);
  get_set(s, o, p.outcomes);
  long n = get_num(s, o);
  while (n--) {
    std::string k = get_str(s, o);
    p.count[k] += get_num(s, o);
  }
  n = get_num(s, o);
  while (n--) {
    std::string x = get_str(s, o);
    p.sample(x);
  }
}

struct Found {
  std::string file, why;
};

static std::string self;
static std::vector<std::string> lib_args;

// run `vf --replay file` in a fresh process: 1 violated, 0 not, 2 died
static int replay(const std::string &file, std::string &why) {
  int pfd[2];
  if (pipe(pfd)) return 3;
  pid_t pid = fork();
  if (!pid) {
    dup2(pfd[1], 1);
    dup2(pfd[1], 2);
    close(pfd[0]);
    setenv("VF_WALL_MS", "30000", 1);
    std::vector<char *> a{(char *)self.c_str(), (char *)"--replay", (char *)file.c_str()};
    for (auto &l : lib_args) a.push_back((char *)l.c_str());
    a.push_back(nullptr);
    execv(self.c_str(), a.data());
    _exit(3);
  }
  close(pfd[1]);
  std::string o;
  char b[4096];
  ssize_t n;
  while ((n = read(pfd[0], b, sizeof b)) > 0) o.append(b, n);
  close(pfd[0]);
  int st;
  waitpid(pid, &st, 0);
  why = o;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 1) return 1;
  return 2;
}

static bool load_libs() {
  for (size_t i = 0; i + 1 < lib_args.size(); i += 2) {
    Lib *l = load(lib_args[i + 1].c_str());
    if (!l) return false;
    if (lib_args[i] == "--src") SRC = l;
    else if (lib_args[i] == "--bit") BIT = l;
    else if (lib_args[i] == "--src-o") SRC_O = l;
    else if (lib_args[i] == "--bit-o") BIT_O = l;
  }
  return true;
}

int main(int argc, char **argv) {
  char path[4096];
  ssize_t pn = readlink("/proc/self/exe", path, sizeof path - 1);
  self.assign(path, pn > 0 ? pn : 0);
  std::string id, replay_file, evidence, outdir = "/tmp", known;
  bool thorough = false;
  int W = 8;
  long seed = 1, only = -1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--replay") replay_file = next();
    else if (a == "--tier") thorough = next() == "thorough";
    else if (a == "--src" || a == "--bit" || a == "--src-o" || a == "--bit-o") {
      lib_args.push_back(a);
      lib_args.push_back(next());
    } else if (a == "--evidence") evidence = next();
    else if (a == "--out") outdir = next();
    else if (a == "--known") known = next();
    else if (a == "--workers") W = atoi(next().c_str());
    else if (a == "--seed") seed = atol(next().c_str());
    else if (a == "--only") only = atol(next().c_str());
    else id = a;
  }
  if (!replay_file.empty()) {
    Unit u;
    std::string pid;
    if (!load_unit(replay_file.c_str(), pid, u)) return 3;
    const Prop *p = find(pid);
    if (!p || !load_libs()) return 3;
    Probe pb;
    std::string why = p->run(u, pb);
    printf("%s\n", why.empty() ? "holds" : why.c_str());
    fflush(stdout);
    _exit(why.empty() ? 0 : 1);
  }
  const Prop *p = find(id);
  if (!p) {
    fprintf(stderr, "no property %s\n", id.c_str());
    return 2;
  }
  double t0 = wall_now();
  char tmpl[] = "/tmp/vf.XXXXXX";
  std::string tmp = mkdtemp(tmpl);
  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared) * (W + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  const int MAXV = 3;
  std::vector<pid_t> pids(W);
  for (int w = 0; w < W; w++) {
    pids[w] = fork();
    if (pids[w]) continue;
    if (!load_libs()) _exit(4);
    Probe pb;
    long idx = 0;
    int bad = 0, doubtful = 0;
    std::string viol;
    p->gen(
        [&](Unit &u) {
          long me = idx++;
          if (me % W != w || bad >= MAXV || sh[W].stop) return;
          if (only >= 0 && me != only) return;
          sh[w].current = me;
          pb.units++;
          Unit whole = u;
          std::string why = p->run(u, pb);
          sh[w].done++;
          if (!why.empty()) {
            // one case if that fails on its own, else the whole unit
            std::string f = tmp + "/v" + std::to_string(w) + "." + std::to_string(bad), w1;
            spit(f, save(p->id, u, why));
            int r = replay(f, w1);
            if (r == 0 || r == 3) {
              if (++doubtful > 10) return;
              spit(f, save(p->id, whole, why));
              r = replay(f, w1);
              if (r == 0 || r == 3) {
                fprintf(stderr, "not confirmed in a fresh process:\n%s\n", slurp(f).c_str());
                unlink(f.c_str());
                return;
              }
            }
            bad++;
            if (bad >= MAXV) sh[W].stop = 1;
          }
        },
        thorough);
    sh[w].current = -1;
    std::string rep;
    put_num(rep, idx);
    put_probe(rep, pb);
    spit(tmp + "/r" + std::to_string(w), rep);
    _exit(0);
  }
  bool broken = false;
  std::vector<Found> found;
  for (int w = 0; w < W; w++) {
    int st;
    waitpid(pids[w], &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 4 || WEXITSTATUS(st) == 3)) {
      fprintf(stderr, "worker %d: cannot run\n", w);
      broken = true;
      continue;
    }
    // the worker died in the middle of a unit: find that unit again
    long k = sh[w].current, idx = 0;
    std::string f = tmp + "/d" + std::to_string(w);
    bool got = false;
    p->gen(
        [&](Unit &u) {
          if (idx++ == k && !got) {
            spit(f, save(p->id, u, "the process died during this unit"));
            got = true;
          }
        },
        thorough);
    if (!got) broken = true;
  }
  Probe all;
  long total = 0;
  int reports = 0;
  for (int w = 0; w < W; w++) {
    std::string r = slurp(tmp + "/r" + std::to_string(w));
    if (r.empty()) continue;
    size_t o = 0;
    total = std::max(total, get_num(r, o));
    get_probe(r, o, all);
    reports++;
  }
  // confirm
  std::vector<std::string> cands;
  for (int k = 0; k < MAXV; k++)
    for (int w = 0; w < W; w++) {
      std::string f = tmp + "/v" + std::to_string(w) + "." + std::to_string(k);
      struct stat s;
      if (!stat(f.c_str(), &s)) cands.push_back(f);
      if (k == 0) {
        f = tmp + "/d" + std::to_string(w);
        if (!stat(f.c_str(), &s)) cands.push_back(f);
      }
    }
  std::vector<std::string> known_lines;
  if (!known.empty())
    for (auto &l : lines(slurp(known)))
      if (l.compare(0, 6, "known:") == 0) known_lines.push_back(l);
  int confirmed = 0, unconfirmed = 0;
  std::set<std::string> known_hit;
  for (auto &c : cands) {
    if (confirmed >= 3) break;
    std::string why;
    int r = replay(c, why);
    if (r == 0 || r == 3) {
      unconfirmed++;
      fprintf(stderr, "not confirmed in a fresh process: %s\n%s\n", c.c_str(), slurp(c).c_str());
      continue;
    }
    std::string body = slurp(c);
    // a listed finding is identified by a digest of the case
    std::string core;
    for (auto &l : lines(body))
      if (l.empty() || l[0] != '#') core += l + "\n";
    char dg[32];
    snprintf(dg, sizeof dg, "%016lx", (unsigned long)std::hash<std::string>()(core));
    bool is_known = false;
    for (auto &k : known_lines)
      if (k.find("property=" + id + " ") != std::string::npos && k.find(std::string("case=") + dg) != std::string::npos) {
        known_hit.insert(k.substr(6));
        is_known = true;
      }
    if (is_known) continue;
    std::string dst = outdir + "/" + id + "-" + dg + ".case";
    spit(dst, body);
    std::string first = lines(why).empty() ? "died" : lines(why)[0];
    if (first.size() > 1500) first = first.substr(0, 1500) + " ...";
    if (r == 2) first = "the program was stopped by a fault (sanitizer or signal): " + first;
    printf("VIOLATION property=%s replay=%s\n", id.c_str(), dst.c_str());
    printf("  %s\n", first.c_str());
    confirmed++;
  }
  for (auto &k : known_hit) printf("KNOWN-FINDING:%s\n", k.c_str());
  double dt = wall_now() - t0;
  if (!evidence.empty()) {
    std::string e = "{\n \"property\": " + json(id) + ",\n \"tier\": \"" + (thorough ? "thorough" : "quick") + "\",\n \"seed\": " + std::to_string(seed) +
                    ",\n \"level\": " + json(p->level) + ",\n \"coverage\": {\n";
    bool mc = !strcmp(p->level, "model_checking");
    if (mc)
      e += "  \"states\": " + std::to_string(all.states.size()) + ",\n  \"transitions\": " + std::to_string(all.transitions) +
           ",\n  \"traces_validated_against_impl\": " + std::to_string(all.traces) + ",\n  \"executions\": " + std::to_string(all.evaluations) + ",\n";
    else
      e += "  \"evaluations\": " + std::to_string(all.evaluations) + ",\n  \"distinct_nontrivial\": " + std::to_string(all.distinct.size()) + ",\n";
    e += "  \"rule\": " + json(p->rule) + ",\n  \"units\": " + std::to_string(all.units) + ",\n  \"units_generated\": " + std::to_string(total) +
         ",\n  \"distinct_outcomes\": " + std::to_string(all.outcomes.size()) + ",\n";
    for (auto &c : all.count) e += "  " + json(c.first) + ": " + std::to_string(c.second) + ",\n";
    e += std::string("  \"exhaustive\": ") + (reports == W && !confirmed && !sh[W].stop && all.units == total ? "true" : "false") + ",\n  \"samples\": [";
    for (size_t i = 0; i < all.samples.size(); i++) e += (i ? ", " : "") + json(all.samples[i]);
    e += "]\n },\n \"assumptions\": [";
    for (size_t i = 0; i < p->assumptions.size(); i++) e += (i ? ", " : "") + json(p->assumptions[i]);
    char ws[32];
    snprintf(ws, sizeof ws, "%.2f", dt);
    e += std::string("],\n \"wall_s\": ") + ws + ",\n \"violations\": " + std::to_string(confirmed) + "\n}\n";
    spit(evidence, e);
  }
  for (auto &c : cands) unlink(c.c_str());
  for (int w = 0; w < W; w++) unlink((tmp + "/r" + std::to_string(w)).c_str());
  rmdir(tmp.c_str());
  printf("%s %s: %ld units, %ld executions, %ld transitions, %zu states, %zu outcomes, %.1f s%s\n", id.c_str(), confirmed ? "VIOLATED" : "held", all.units,
         all.evaluations, all.transitions, all.states.size(), all.outcomes.size(), dt, unconfirmed ? " (some reports were not confirmed)" : "");
  fflush(stdout);
  if (confirmed) _exit(1);
  if (broken) _exit(2);
  _exit(0);
}
