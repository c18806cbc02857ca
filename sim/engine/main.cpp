// Command line: generate, search, replay and minimise simulated runs.
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <set>
#include <sstream>

#include "engine.h"

namespace {

constexpr size_t kMaxDec = 1 << 20;
constexpr size_t kMaxText = 4 << 20;
struct Shared {
  uint64_t ndec;
  uint64_t done;
  uint64_t len;
  rt::Decision dec[kMaxDec];
  char text[kMaxText];
};
Shared* g_sh;

struct Result {
  bool ran = false;
  std::vector<Violation> viols;
  std::map<std::string, uint64_t> counts;
  std::map<std::string, uint64_t> stats;
  uint64_t hash = 0;
  std::vector<std::string> log;
  std::vector<rt::Decision> dec;
  std::string harness;
};

void clean(std::string& s) {
  for (auto& c : s)
    if (c == '\n' || c == '\t') c = ' ';
}
void writeResult() {
  std::string o;
  for (auto v : W->viols) {
    clean(v.text);
    o += "V " + v.tag + "\t" + v.text + "\n";
  }
  for (auto& c : W->counts) o += "C " + c.first + "\t" + std::to_string(c.second) + "\n";
  auto& s = rt::stats();
  struct { const char* n; uint64_t v; } st[] = {
      {"points", s.points}, {"sync_points", s.syncPoints}, {"switches", s.switches},
      {"stalls", s.stalls}, {"wall_jumps", s.wallJumps}, {"allocs", s.allocs},
      {"alloc_faults", s.allocFaults}, {"clock_reads", s.clockReads},
      {"coarse_reads", s.coarseReads}, {"sim_ns", s.simEnd},
      {"nodes", solverNodes()}};
  for (auto& x : st) o += std::string("S ") + x.n + "\t" + std::to_string(x.v) + "\n";
  o += "H " + std::to_string(rt::threadHash()) + "\n";
  for (auto l : W->log) {
    clean(l);
    o += "L " + l + "\n";
  }
  if (o.size() > kMaxText) o.resize(kMaxText);
  memcpy(g_sh->text, o.data(), o.size());
  g_sh->len = o.size();
  g_sh->done = 1;
}
void onFatal(const char* cls, const std::string& d) {
  static int depth = 0;
  if (depth++) _exit(97);
  violate(cls, d);
  writeResult();
  _exit(0);
}
void onSignal(int sig) {
  const char* cls = sig == SIGXCPU || sig == SIGALRM ? "hang" : "crash";
  std::string d = sig == SIGSEGV ? "segmentation fault" : sig == SIGABRT ? "abort"
                : sig == SIGFPE ? "arithmetic fault" : sig == SIGILL ? "illegal instruction"
                : sig == SIGBUS ? "bus error" : "CPU time limit exceeded";
  onFatal(cls, d);
}
void onDecision(const rt::Decision& d) {
  if (g_sh->ndec < kMaxDec) g_sh->dec[g_sh->ndec++] = d;
}

void childSetup() {
  static char stack[256 << 10];
  stack_t ss{};
  ss.ss_sp = stack;
  ss.ss_size = sizeof stack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = onSignal;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGXCPU}) sigaction(s, &sa, nullptr);
  struct rlimit rl{60, 65};
  setrlimit(RLIMIT_CPU, &rl);
  struct rlimit core{0, 0};
  setrlimit(RLIMIT_CORE, &core);
  std::set_terminate([] { onFatal("terminate", "std::terminate was called"); });
  rt::setFatal(onFatal);
}

Result collect(pid_t pid) {
  Result r;
  int st = 0;
  time_t t0 = time(nullptr);
  int fd = int(syscall(SYS_pidfd_open, pid, 0));
  for (;;) {
    if (fd >= 0) {
      struct pollfd pf{fd, POLLIN, 0};
      poll(&pf, 1, 1000);
    }
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    if (w < 0 && errno != EINTR) break;
    if (time(nullptr) - t0 > 240) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      r.harness = "a run did not end within 240 s of wall time";
      break;
    }
    struct timespec ts{0, 100000};
    if (fd < 0) nanosleep(&ts, nullptr);
  }
  if (fd >= 0) close(fd);
  r.dec.assign(g_sh->dec, g_sh->dec + g_sh->ndec);
  if (!g_sh->done) {
    if (r.harness.empty()) {
      r.harness = "a run ended without a result (status " + std::to_string(st) + ")";
    }
    return r;
  }
  r.ran = true;
  std::istringstream in(std::string(g_sh->text, g_sh->len));
  std::string l;
  while (std::getline(in, l)) {
    if (l.size() < 2) continue;
    std::string v = l.substr(2);
    size_t tab = v.find('\t');
    switch (l[0]) {
      case 'V': r.viols.push_back({v.substr(0, tab), v.substr(tab + 1)}); break;
      case 'C': r.counts[v.substr(0, tab)] += strtoull(v.c_str() + tab + 1, nullptr, 10); break;
      case 'S': r.stats[v.substr(0, tab)] += strtoull(v.c_str() + tab + 1, nullptr, 10); break;
      case 'H': r.hash = strtoull(v.c_str(), nullptr, 10); break;
      case 'L': r.log.push_back(v); break;
    }
  }
  for (auto& v : r.viols)
    if (v.tag == "harness") r.harness = v.text;
  return r;
}

void resetShared() {
  g_sh->ndec = 0;
  g_sh->done = 0;
  g_sh->len = 0;
}

// Baselines of all paths, each learnt in a process of its own.
std::map<std::string, Baseline> g_cache;
std::string pathKey(const PathSpec& p) {
  Plan q;
  q.paths.push_back(p);
  return planText(q);
}
bool baselines(const Plan& plan, std::vector<Baseline>& out, Result& r) {
  out.assign(plan.paths.size(), {});
  for (size_t k = 0; k < plan.paths.size(); ++k) {
    if (plan.paths[k].ops.empty()) continue;
    std::string key = pathKey(plan.paths[k]);
    auto it = g_cache.find(key);
    if (it != g_cache.end()) {
      out[k] = it->second;
      continue;
    }
    resetShared();
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      childSetup();
      World w;
      W = &w;
      w.plan = &plan;
      rt::Config c;
      rt::begin(c, nullptr);
      std::string why;
      Baseline b;
      calibrate(plan, int(k), b, why);
      std::string o;
      blobPut(o, b);
      if (o.size() > kMaxText) _exit(96);
      memcpy(g_sh->text, o.data(), o.size());
      g_sh->len = o.size();
      g_sh->done = 2;
      _exit(0);
    }
    Result cr = collect(pid);
    if (g_sh->done == 2) {
      std::string s(g_sh->text, g_sh->len);
      size_t p = 0;
      if (!blobGet(s, p, out[k])) {
        r.harness = "bad calibration record";
        return false;
      }
      if (!out[k].map.ok) r.viols.push_back({"uncalibrated", out[k].map.why});
    } else {
      for (auto& v : cr.viols)
        r.viols.push_back({v.tag, "path " + std::to_string(k) + " built and run alone: " + v.text});
      if (cr.viols.empty()) r.harness = cr.harness;
      return false;
    }
    if (g_cache.size() > 400) g_cache.clear();
    g_cache[key] = out[k];
  }
  return true;
}

Result runPlan(const Plan& plan, bool keepLog) {
  Result pre;
  std::vector<Baseline> base;
  if (!baselines(plan, base, pre)) {
    pre.ran = pre.harness.empty();
    return pre;
  }
  resetShared();
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    childSetup();
    static World w;
    W = &w;
    w.plan = &plan;
    w.base = base;
    w.keepLog = keepLog;
    w.raceChecks = plan.sched.races;
    rt::Config c = plan.sched;
    c.pointCap = 60000000;
    rt::begin(c, onDecision);
    execute(plan);
    checkHistory();
    writeResult();
    _exit(0);
  }
  Result r = collect(pid);
  r.viols.insert(r.viols.end(), pre.viols.begin(), pre.viols.end());
  return r;
}

// ------------------------------------------------ which finding breaks what
const std::set<std::string> kFatal = {"crash", "uaf", "oob", "badfree", "doublefree", "deadlock",
                                      "hang", "terminate", "mutex", "memory"};
std::set<std::string> tagsOf(const std::string& prop) {
  static const std::map<std::string, std::set<std::string>> t = {
      {"S01", {"cancel-missed", "stop-ignored"}},
      {"S02", {"cancel-spurious"}},
      {"S03", {"outcome", "stop-ignored", "result", "ffi", "excluded", "unsound", "uncalibrated"}},
      {"S04", {"delivery", "silent"}},
      {"S05", {"pacing-fast", "pacing-starved"}},
      {"S06", {"race", "posed", "foreign", "result", "outcome", "delivery", "silent", "ffi", "start"}},
      {"S07", {"posed", "foreign", "result", "outcome", "delivery", "silent", "ffi", "start", "exception"}},
      {"S08", {"posed", "result", "outcome", "delivery", "silent", "pacing-starved", "ffi", "cancel-spurious", "cancel-missed", "stop-ignored"}},
      {"S09", {"builder", "posed", "start", "leak", "exception", "outcome", "fault-report"}},
      {"S10", {"fault-report", "leak", "exception", "posed", "result", "outcome", "delivery", "silent", "ffi"}},
      {"S12", {"ffi", "outcome", "stop-ignored", "delivery", "silent", "excluded", "unsound", "uncalibrated"}},
      {"S13", {"excluded", "unsound", "result"}},
      {"S14", {"excluded", "unsound"}},
      {"S15", {"excluded", "unsound"}},
      {"S16", {"optimal"}},
      {"S17", {"start", "interpolation"}},
      {"S18", {"excluded", "unsound", "start", "interpolation", "uncalibrated", "terminate"}},
      {"S21", {"start", "interpolation"}},
      {"S24", {"nonfinite"}},
      {"S19", {"limited", "imprecise", "diagnostics", "outcome", "cancel-spurious"}},
  };
  std::set<std::string> s = kFatal;
  auto it = t.find(prop);
  if (it != t.end()) s.insert(it->second.begin(), it->second.end());
  return s;
}
const Violation* relevant(const Result& r, const std::set<std::string>& tags) {
  for (auto& v : r.viols)
    if (tags.count(v.tag)) return &v;
  return nullptr;
}

std::string slurp(const char* f) {
  std::ifstream in(f);
  std::stringstream ss;
  ss << in.rdbuf();
  return ss.str();
}
std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o + "\"";
}
double wall() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

int batch(int argc, char** argv) {
  // batch PROP BASE STRIDE SECONDS MAXRUNS MAXVIOL thorough [HASHFILE]
  // one run uses one core at a time: staying on it makes hand-overs cheap
  if (const char* cpu = getenv("SIM_CPU")) {
    cpu_set_t have, one;
    if (sched_getaffinity(0, sizeof have, &have) == 0 && CPU_COUNT(&have) > 0) {
      int want = atoi(cpu) % CPU_COUNT(&have);
      for (int k = 0; k < CPU_SETSIZE; ++k)
        if (CPU_ISSET(k, &have) && want-- == 0) {
          CPU_ZERO(&one);
          CPU_SET(k, &one);
          sched_setaffinity(0, sizeof one, &one);
        }
    }
  }
  FILE* hf = argc > 9 ? fopen(argv[9], "w") : nullptr;
  std::string prop = argv[2];
  uint64_t base = strtoull(argv[3], nullptr, 10), stride = strtoull(argv[4], nullptr, 10);
  double secs = atof(argv[5]);
  uint64_t maxRuns = strtoull(argv[6], nullptr, 10), maxViol = strtoull(argv[7], nullptr, 10);
  bool thorough = argc > 8 && atoi(argv[8]);
  auto tags = tagsOf(prop);
  double t0 = wall(), slowest = 0;
  uint64_t slowSeed = 0, mostNodes = 0, mostSeed = 0, mostPoints = 0;
  std::map<std::string, uint64_t> counts, stats, other;
  std::set<uint64_t> hashes;
  std::set<std::string> seenTags;
  uint64_t runs = 0, multi = 0, viols = 0, seed = base, harness = 0;
  while (runs < maxRuns && wall() - t0 < secs && viols < maxViol) {
    Plan p = planGenerate(prop, seed, thorough);
    if (p.tasks.empty() || p.paths.empty()) { seed += stride; ++runs; continue; }
    double tr = wall();
    Result r = runPlan(p, false);
    if (wall() - tr > slowest) slowest = wall() - tr, slowSeed = seed;
    g_cache.clear();
    ++runs;
    if (!r.harness.empty() && r.harness.size()) {
      ++harness;
      printf("{\"harness\":%s,\"seed\":%llu}\n", jstr(r.harness).c_str(), (unsigned long long)seed);
    }
    if (p.tasks.size() > 2) ++multi;
    for (auto& c : r.counts) counts[c.first] += c.second;
    for (auto& c : r.stats) stats[c.first] += c.second;
    if (r.stats["nodes"] > mostNodes) mostNodes = r.stats["nodes"], mostSeed = seed;
    if (r.stats["points"] > mostPoints) mostPoints = r.stats["points"];
    hashes.insert(r.hash);
    // did this run meet concurrency, a fault, a cancel, an update or a choice
    // of the solver that an oracle judged?
    bool busy = r.stats["switches"] || r.stats["stalls"] || r.stats["alloc_faults"];
    for (auto& c : r.counts)
      busy |= !c.first.compare(0, 6, "fault.") || !c.first.compare(0, 10, "candidate.") ||
              c.first == "cancels" || c.first == "deliveries";
    if (hf) fprintf(hf, "%llu %llu %d\n", (unsigned long long)seed, (unsigned long long)r.hash, busy);
    for (auto& v : r.viols)
      if (!tags.count(v.tag)) ++other[v.tag];
    if (const Violation* v = relevant(r, tags)) {
      ++viols;
      printf("{\"violation\":%s,\"tag\":%s,\"seed\":%llu,\"hash\":%llu}\n", jstr(v->text).c_str(),
             jstr(v->tag).c_str(), (unsigned long long)seed, (unsigned long long)r.hash);
      fflush(stdout);
    }
    seed += stride;
  }
  std::string o = "{\"summary\":{\"runs\":" + std::to_string(runs) + ",\"multi\":" +
                  std::to_string(multi) + ",\"violations\":" + std::to_string(viols) +
                  ",\"harness\":" + std::to_string(harness) +
                  ",\"distinct\":" + std::to_string(hashes.size()) + ",\"wall\":" +
                  std::to_string(wall() - t0) + ",\"slowest\":" + std::to_string(slowest) + ",\"slow_seed\":" +
                  std::to_string(slowSeed) + ",\"most_nodes\":" + std::to_string(mostNodes) + ",\"most_nodes_seed\":" +
                  std::to_string(mostSeed) + ",\"most_points\":" + std::to_string(mostPoints) + ",\"counts\":{";
  auto obj = [&](const std::map<std::string, uint64_t>& m) {
    bool first = true;
    for (auto& c : m) {
      if (!first) o += ",";
      first = false;
      o += jstr(c.first) + ":" + std::to_string(c.second);
    }
  };
  obj(counts);
  o += "},\"stats\":{";
  obj(stats);
  o += "},\"other\":{";
  obj(other);
  o += "}}}";
  printf("%s\n", o.c_str());
  if (hf) fclose(hf);
  return 0;
}

// ------------------------------------------------------------- minimisation
struct Mini {
  std::string tag;
  double deadline;
  uint64_t tried = 0;
  bool fails(Plan& p, int seeds) {
    for (int k = 0; k < seeds && wall() < deadline; ++k) {
      Plan q = p;
      if (k) {
        q.sched.seed = p.sched.seed * 31 + k;
        q.sched.replay = false;
        q.sched.script.clear();
      }
      ++tried;
      Result r = runPlan(q, false);
      for (auto& v : r.viols)
        if (v.tag == tag) {
          p = q;
          return true;
        }
      if (q.tasks.size() <= 2) break;  // one thread: no schedule to vary
    }
    return false;
  }
  bool attempt(Plan& best, Plan cand) {
    if (wall() >= deadline) return false;
    if (!fails(cand, 8)) return false;
    best = cand;
    return true;
  }
};

void dropUnused(Plan& p) {
  std::set<int64_t> used, scr;
  for (auto& t : p.tasks)
    for (auto& o : t.ops) {
      if (o.kind == kTBuild) { used.insert(o.b); used.insert(o.c); }
      if (o.kind == kTReapply) used.insert(o.b);
      if (o.kind == kTRun || o.kind == kTFfi) scr.insert(o.b);
    }
  for (auto& a : p.acts)
    if (a.kind == kActNested) { used.insert(a.a); scr.insert(a.b); }
  for (size_t k = 0; k < p.paths.size(); ++k)
    if (!used.count(int64_t(k))) p.paths[k].ops.clear();
  for (size_t k = 0; k < p.scripts.size(); ++k)
    if (!scr.count(int64_t(k))) p.scripts[k] = Script{};
  std::set<int64_t> tr;
  for (auto& s : p.scripts) tr.insert(s.cands.begin(), s.cands.end());
  for (size_t k = 0; k < p.trajs.size(); ++k)
    if (!tr.count(int64_t(k))) p.trajs[k] = Traj{};
}

Plan minimise(Plan p, const std::string& tag, double secs) {
  Mini m{tag, wall() + secs};
  Plan best = p;
  best.sched.replay = false;
  best.sched.script.clear();
  bool progress = true;
  while (progress && wall() < m.deadline) {
    progress = false;
    // threads
    for (size_t k = best.tasks.size(); k-- > 0;) {
      Plan c = best;
      if (c.tasks[k].ops.empty()) {
        if (k == 0) continue;
        c.tasks.erase(c.tasks.begin() + k);
      } else if (k == 0) {
        c.tasks[0].ops.clear();
      } else {
        c.tasks.erase(c.tasks.begin() + k);
      }
      progress |= m.attempt(best, c);
    }
    // operations, in chunks and one by one
    for (size_t k = 0; k < best.tasks.size(); ++k) {
      for (size_t len = std::max<size_t>(best.tasks[k].ops.size() / 2, 1); len >= 1; len /= 2) {
        for (size_t at = 0; at + len <= best.tasks[k].ops.size();) {
          Plan c = best;
          auto& o = c.tasks[k].ops;
          o.erase(o.begin() + at, o.begin() + at + len);
          if (m.attempt(best, c)) progress = true;
          else at += len;
        }
        if (len == 1) break;
      }
    }
    for (size_t at = 0; at < best.acts.size();) {
      Plan c = best;
      c.acts.erase(c.acts.begin() + at);
      if (m.attempt(best, c)) progress = true;
      else ++at;
    }
    {
      Plan c = best;
      dropUnused(c);
      if (planText(c) != planText(best)) m.attempt(best, c);
    }
    // faults and scheduler noise
    for (size_t k = 0; k < best.tasks.size(); ++k)
      for (size_t q = 0; q < best.tasks[k].ops.size(); ++q) {
        auto& o = best.tasks[k].ops[q];
        if (o.failAt) {
          Plan c = best;
          c.tasks[k].ops[q].failAt = 0;
          progress |= m.attempt(best, c);
        }
        if (best.tasks[k].ops[q].i.size() >= 4)
          for (size_t z = 0; z + 3 < best.tasks[k].ops[q].i.size();) {
            Plan c = best;
            auto& v = c.tasks[k].ops[q].i;
            v.erase(v.begin() + z, v.begin() + z + 4);
            if (m.attempt(best, c)) progress = true;
            else z += 4;
          }
      }
    if (best.sched.pStall > 0) { Plan c = best; c.sched.pStall = 0; progress |= m.attempt(best, c); }
    if (best.sched.clockGrain > 1) { Plan c = best; c.sched.clockGrain = 1; progress |= m.attempt(best, c); }
    if (best.sched.pWallJump > 0) { Plan c = best; c.sched.pWallJump = 0; progress |= m.attempt(best, c); }
    if (best.sched.memMean > 0) { Plan c = best; c.sched.memMean = 0; progress |= m.attempt(best, c); }
    if (best.sched.clockBase > 0) { Plan c = best; c.sched.clockBase = 0; progress |= m.attempt(best, c); }
    // scripts and paths
    for (size_t k = 0; k < best.scripts.size(); ++k)
      for (size_t z = 0; z < best.scripts[k].iterUs.size();) {
        Plan c = best;
        c.scripts[k].iterUs.erase(c.scripts[k].iterUs.begin() + z);
        if (m.attempt(best, c)) progress = true;
        else ++z;
      }
    for (size_t k = 0; k < best.scripts.size(); ++k)
      for (size_t z = 0; best.scripts[k].cands.size() > 1 && z < best.scripts[k].cands.size();) {
        Plan c = best;
        c.scripts[k].cands.erase(c.scripts[k].cands.begin() + z);
        if (m.attempt(best, c)) progress = true;
        else ++z;
      }
    for (size_t k = 0; k < best.paths.size(); ++k) {
      // fault positions and alternatives refer to call numbers
      bool pinned = false;
      for (auto& t : best.tasks)
        for (auto& o : t.ops)
          if (o.kind == kTBuild && (o.b == int64_t(k) || o.c == int64_t(k)) && !o.i.empty()) pinned = true;
      if (pinned) continue;
      for (size_t z = 0; z < best.paths[k].ops.size();) {
        int kd = best.paths[k].ops[z].kind;
        if (kd == kOpDrivetrain || kd == kOpCounts) { ++z; continue; }
        // a path keeps its number of waypoints
        Plan c = best;
        c.paths[k].ops.erase(c.paths[k].ops.begin() + z);
        RefModel a = refModel(best.paths[k]), b = refModel(c.paths[k]);
        if (a.wpts == b.wpts && m.attempt(best, c)) progress = true;
        else ++z;
      }
    }
  }
  // pin down the schedule and thin it out
  Result r = runPlan(best, false);
  bool has = false;
  for (auto& v : r.viols) has |= v.tag == tag;
  if (!has) return p;
  Plan s = best;
  s.sched.replay = true;
  s.sched.script = r.dec;
  Mini m2{tag, wall() + secs / 2};
  if (!m2.fails(s, 1)) return best;  // should not happen: reported by the caller
  for (size_t len = std::max<size_t>(s.sched.script.size() / 2, 1); !s.sched.script.empty() && wall() < m2.deadline; len /= 2) {
    for (size_t at = 0; at < s.sched.script.size() && wall() < m2.deadline;) {
      Plan c = s;
      auto& d = c.sched.script;
      d.erase(d.begin() + at, d.begin() + std::min(at + len, d.size()));
      if (m2.fails(c, 1)) s = c;
      else at += len;
    }
    if (len <= 1) break;
  }
  return s;
}

int replay(int argc, char** argv) {
  bool verbose = argc > 3 && !strcmp(argv[3], "-v");
  Plan p;
  std::string err;
  if (!planParse(slurp(argv[2]), p, err)) {
    fprintf(stderr, "bad replay file: %s\n", err.c_str());
    return 2;
  }
  Result r = runPlan(p, true);
  if (!r.harness.empty()) {
    fprintf(stderr, "harness: %s\n", r.harness.c_str());
    return 2;
  }
  if (verbose)
    for (auto& l : r.log) printf("  %s\n", l.c_str());
  auto tags = tagsOf(p.prop);
  for (auto& v : r.viols)
    printf("%s %s: %s\n", tags.count(v.tag) ? "VIOLATED" : "other", v.tag.c_str(), v.text.c_str());
  if (verbose)
    for (auto& c : r.counts) printf("count %s %llu\n", c.first.c_str(), (unsigned long long)c.second);
  printf("hash %llu\n", (unsigned long long)r.hash);
  return relevant(r, tags) ? 1 : 0;
}
}  // namespace

int main(int argc, char** argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
    personality(ADDR_NO_RANDOMIZE);
    setenv("SIM_NO_REEXEC", "1", 1);
    execv("/proc/self/exe", argv);
  }
  if (argc < 3) {
    fprintf(stderr, "usage: engine gen|batch|replay|minimise ...\n");
    return 2;
  }
  g_sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                   MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  rt::initProcess();
  std::string mode = argv[1];
  if (mode == "gen") {
    printf("%s", planText(planGenerate(argv[2], strtoull(argv[3], nullptr, 10),
                                       argc > 4 && atoi(argv[4]))).c_str());
    return 0;
  }
  if (mode == "batch") return batch(argc, argv);
  if (mode == "replay") return replay(argc, argv);
  if (mode == "minimise") {  // minimise IN OUT TAG SECONDS
    Plan p;
    std::string err;
    if (!planParse(slurp(argv[2]), p, err)) {
      fprintf(stderr, "bad plan: %s\n", err.c_str());
      return 2;
    }
    Plan q = minimise(p, argv[4], atof(argv[5]));
    if (!q.sched.replay) {
      Result r = runPlan(q, false);
      q.sched.replay = true;
      q.sched.script = r.dec;
    }
    Result r = runPlan(q, true);
    Result r2 = runPlan(q, true);
    std::ofstream o(argv[3]);
    o << "# property " << q.prop << "\n";
    for (auto& v : r.viols) o << "# " << v.tag << ": " << v.text << "\n";
    o << planText(q) << "# execution:\n";
    for (auto& l : r.log) o << "#   " << l << "\n";
    bool has = false;
    for (auto& v : r.viols)
      if (v.tag == argv[4] && !has) {
        has = true;
        printf("%s\n", v.text.c_str());
      }
    printf("hash %llu %s\n", (unsigned long long)r.hash, r.hash == r2.hash ? "same" : "DIFFERENT");
    return has && r.hash == r2.hash ? 0 : 3;
  }
  return 2;
}
