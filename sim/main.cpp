// Simulator process.  A pristine "zygote" forks one child per baseline and one
// per simulated execution, so every execution starts from the same state.
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>

#include "exec.h"

using namespace simrt;

namespace {
Shared *RB, *RM;
int g_errfd = -1, g_fdb = -1, g_fdm = -1;
double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

struct Result {
  // violations, in order; `prop` may be ALL (counts for every property)
  std::vector<std::pair<std::string, std::string>> viol;
  bool error = false;  // the simulator itself failed
  std::string err;
  uint64_t hash = 0;
  bool crashed = false, resumed = false;
  bool given_up = false;  // too expensive
};
// More cells than fit in 16 bits. How long that takes is not judged.
bool g_huge = false;

std::string tail_err() {
  const off_t n = lseek(g_errfd, 0, SEEK_END);
  std::string s((size_t)std::min<off_t>(n, 20000), 0);
  if (pread(g_errfd, s.data(), s.size(), 0) < 0) s.clear();
  return s;
}
std::string summarise(const std::string &e) {
  // the line that names the problem and the first library frame
  std::istringstream in(e);
  std::string l, out;
  int frames = 0;
  while (std::getline(in, l)) {
    if (l.find("ERROR: AddressSanitizer") != std::string::npos) {
      auto p = l.find("AddressSanitizer");
      l = l.substr(p);
      const auto q = l.find(" on ");
      out += l.substr(0, q) + "; ";
    } else if (l.find("Assertion") != std::string::npos || l.find("terminate called") != std::string::npos
               || l.find("what():") != std::string::npos || l.find("pure virtual") != std::string::npos)
      out += l.substr(0, 200) + "; ";
    else if (frames < 3 && l.find("/include/CoMMA/") != std::string::npos) {
      const auto p = l.find("/include/CoMMA/");
      out += "at " + l.substr(p + 15) + "; ";
      ++frames;
    }
  }
  return out.empty() ? "no message" : out;
}

// 0 = ended by itself, 1 = simulated death of the process, 2 = violation that
// stopped the run
template<class F>
int in_child(Shared *r, F &&f, Result &res, const char *what) {
  if (ftruncate(g_errfd, 0)) {}
  lseek(g_errfd, 0, SEEK_SET);
  const pid_t pid = fork();
  if (pid < 0) {
    res.error = true, res.err = "fork failed";
    return 2;
  }
  if (!pid) {
    dup2(g_errfd, 2);
    rlimit rl{g_huge ? 60u : 120u, g_huge ? 61u : 121u};
    setrlimit(RLIMIT_CPU, &rl);
    rlimit co{0, 0};
    setrlimit(RLIMIT_CORE, &co);
    R = r;
    f();
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {}
  for (int i = 0; i < r->nviol; ++i) {
    if (g_huge && !strcmp(r->viol[i].prop, "C02")) res.given_up = true;
    else res.viol.push_back({r->viol[i].prop, std::string(what) + r->viol[i].what});
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && r->finished == 1) return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 9 && r->finished == 4) return 1;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3 && r->finished == 2) return 2;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 4) {
    res.error = true;
    res.err = tail_err();
    return 2;
  }
  std::string w = what;
  if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) {
    if (g_huge) {
      res.given_up = true;
      return 2;
    }
    w += "the call does not return";
  }
  else if (WIFSIGNALED(st)) w += "process died with signal " + std::to_string(WTERMSIG(st)) + ": " + summarise(tail_err());
  else w += "process died: " + summarise(tail_err());
  res.viol.push_back({"ALL", w});
  return 2;
}

void reset(Shared *r) { memset((void *)r, 0, offsetof(Shared, sw)); }

// does this result count for the property
const std::pair<std::string, std::string> *hit(const Result &r, const std::string &prop) {
  for (const auto &v : r.viol)
    if (v.first == "ALL" || v.first == prop || v.first == "C02") return &v;
  return nullptr;
}

// Calls at other points in the life of the process need a process of their own
void live(const Scenario &s) {
  const std::string t = s.write();
  const int fd = (int)syscall(SYS_memfd_create, "scenario", 0);
  if (write(fd, t.data(), t.size()) != (ssize_t)t.size()) _exit(4);
  char env[64];
  snprintf(env, sizeof env, "%d %d %d %d", g_fdb, g_fdm, fd, (int)g_trace);
  setenv("SIM_LIFE", env, 1);
  char name[] = "sim";
  char *av[] = {name, nullptr};
  execv("/proc/self/exe", av);
  _exit(4);
}

Result run_scenario(const Scenario &s) {
  Result res;
  g_huge = s.ntasks == 1 && s.zones[0].mesh.kind == 0 && s.zones[0].mesh.nx * s.zones[0].mesh.ny > 20000;
  reset(RB);
  reset(RM);
  for (int t = 0; t < s.ntasks; ++t) {
    RB->finished = 0;
    // trouble with other properties does not prevent from judging this one
    if (in_child(RB, [&] { execute(s, t, nullptr, false); }, res, "(no faults) ") || hit(res, s.prop)) {
      res.hash = mix(RB->evhash, 99);
      return res;
    }
  }
  int k = in_child(RM, [&] { s.life ? live(s) : execute(s, -1, RB, false); }, res, "");
  if (k == 1) {
    res.crashed = true;
    RM->finished = 0;
    k = in_child(RM, [&] { execute(s, -1, RB, true); }, res, "(resumed) ");
    res.resumed = true;
    if (k == 1) res.error = true, res.err = "second crash";
  }
  res.hash = RM->evhash;
  return res;
}


bool nontrivial(const std::string &p, const Scenario &s, const Result &r) {
  int64_t af = 0, sf = 0;
  for (int i = 1; i < AF_N; ++i) af += RM->alloc_faults[i];
  for (int i = 1; i < SF_N; ++i) sf += RM->stream_faults[i];
  if (p == "C01") return RM->switches - RM->blocked > 2 * s.ntasks && RM->levels >= 2;
  if (p == "C02") return RM->stalls > 0 || RM->levels > 0;
  if (p == "C03" || p == "C04") return af + sf > 0 && RM->calls_failed > 0;
  if (p == "C05") return RM->leakprobes > 0;
  if (p == "C06") return RM->levels > 0 && (s.hmode || s.hfill || s.zones[0].dirty || RM->retries);
  if (p == "C10") return RM->corrected > 0;
  if (p == "C11" || p == "C12") return RM->lines > 0;
  if (p == "C15") return RM->rejects > 0;
  if (p == "C16") return sf > 0;
  if (p == "C23") return RM->levels > 0 && RM->max_deep > 0;
  if (p == "C24") return RM->levels >= 3;
  if (p == "C25") return s.host && RM->calls_failed > 0;
  if (p == "C26") return RM->nested > 0;
  if (p == "C28") return RM->ended > 0;
  if (p == "C31") return RM->frozen > 0 && RM->levels > 0;
  if (p == "C30") return RM->trapped > 0 && RM->levels > 0;
  if (p == "C29") return RM->early + RM->late + RM->tlsd > 0 && RM->calls_ok > 0;
  if (p == "C19") return r.resumed && RM->levels > 0;
  return RM->cc_total >= 2;
}

struct Totals {
  std::map<std::string, int64_t> c;
  void add(const char *k, int64_t v) { c[k] += v; }
  void mx(const char *k, int64_t v) { c[k] = std::max(c[k], v); }
};

std::string slurp(const char *f) {
  std::ifstream i(f);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
void spit(const std::string &f, const std::string &t) {
  std::ofstream o(f);
  o << t;
}

Scenario explicit_schedule(Scenario s) {
  // turn the decisions of the last run into an explicit list
  if (s.ntasks < 2 || s.xsched) return s;
  s.xsched = 1;
  s.sw.assign(RM->sw, RM->sw + RM->nsw);
  return s;
}

// ------------------------------------------------------------------ minimise
struct Minimiser {
  Scenario best;
  std::string prop;
  double deadline;
  int tries = 0, kept = 0;
  bool ok(const Scenario &s) {
    if (now() > deadline) return false;
    ++tries;
    const Result r = run_scenario(s);
    return !r.error && hit(r, prop);
  }
  template<class F>
  bool attempt(F &&f) {
    Scenario s = best;
    if (!f(s)) return false;
    if (s.write() == best.write()) return false;
    if (!ok(s)) return false;
    best = s;
    ++kept;
    return true;
  }
  void drop_op(Scenario &s, int t, int o) {
    auto &z = s.zones[t];
    z.ops.erase(z.ops.begin() + o);
    std::vector<Fault> f;
    for (auto x : s.faults) {
      if (x.task == t && x.op == o) continue;
      if (x.task == t && x.op > o) --x.op;
      f.push_back(x);
    }
    s.faults = f;
    if (t == 0 && s.crash_op > o) --s.crash_op;
  }
  void pass() {
    // tasks
    for (int t = best.ntasks - 1; t >= 0 && best.ntasks > 1; --t)
      attempt([&](Scenario &s) {
        if (s.share && t == 0) return false;
        s.zones.erase(s.zones.begin() + t);
        --s.ntasks;
        std::vector<Fault> f;
        for (auto x : s.faults) {
          if (x.task == t) continue;
          if (x.task > t) --x.task;
          f.push_back(x);
        }
        s.faults = f;
        std::vector<Switch> w;
        for (auto x : s.sw) {
          if (x.from == t || x.to == t) continue;
          if (x.from > t) --x.from;
          if (x.to > t) --x.to;
          w.push_back(x);
        }
        s.sw = w;
        if (s.first >= t && s.first) --s.first;
        if (s.stall_task == t) s.stall_task = -1;
        else if (s.stall_task > t) --s.stall_task;
        return true;
      });
    for (int k = (int)best.faults.size() - 1; k >= 0; --k)
      if (k < (int)best.faults.size()) attempt([&](Scenario &s) { s.faults.erase(s.faults.begin() + k); return true; });
    for (int t = 0; t < best.ntasks; ++t)
      for (int o = (int)best.zones[t].ops.size() - 1; o >= 0; --o)
        attempt([&](Scenario &s) {
          if (s.zones[t].ops.size() < 2) return false;
          drop_op(s, t, o);
          return true;
        });
    attempt([&](Scenario &s) { if (s.stall_task < 0) return false; s.stall_task = -1; return true; });
    attempt([&](Scenario &s) { if (s.crash_op < 0) return false; s.crash_op = -1; return true; });
    attempt([&](Scenario &s) { s.share = 0; return true; });
    // switches
    if (best.xsched) {
      for (size_t chunk = std::max<size_t>(1, best.sw.size() / 2); chunk >= 1; chunk /= 2) {
        for (size_t i = 0; i < best.sw.size() && now() < deadline;) {
          if (!attempt([&](Scenario &s) {
                const size_t e = std::min(s.sw.size(), i + chunk);
                s.sw.erase(s.sw.begin() + i, s.sw.begin() + e);
                return true;
              }))
            i += chunk;
        }
        if (chunk == 1) break;
      }
    }
    for (auto f : {&Scenario::hmode, &Scenario::hfill})
      attempt([&](Scenario &s) { s.*f = 0; return true; });
    attempt([&](Scenario &s) { s.salt = 0; return true; });
    attempt([&](Scenario &s) { s.host = 0; return true; });
    attempt([&](Scenario &s) { s.ownexc = 0; return true; });
    for (int b = 1; b <= 4; b *= 2)
      attempt([&](Scenario &s) { if (!(s.traps & b) || s.traps == b) return false; s.traps &= ~b; return true; });
    for (int b = 1; b <= 16; b *= 2)
      attempt([&](Scenario &s) { if (!(s.life & b) || !(s.life & 15 & ~b)) return false; s.life &= ~b; return true; });
    attempt([&](Scenario &s) { s.typ = 0; return true; });
    for (size_t k = 0; k < best.faults.size(); ++k) {
      attempt([&](Scenario &s) { if (s.faults[k].cls) return false; s.faults[k].kind = AF_ONE; return true; });
    }
    for (int t = 0; t < best.ntasks; ++t) {
      attempt([&](Scenario &s) { s.zones[t].dirty = 0; return true; });
      // drop levels without operations at the end
      attempt([&](Scenario &s) {
        int m = 0;
        for (auto &o : s.zones[t].ops) m = std::max(m, o.level);
        if ((int)s.zones[t].levels.size() <= m + 1) return false;
        s.zones[t].levels.resize(m + 1);
        return true;
      });
      for (auto f : {&MeshSpec::holes, &MeshSpec::cut, &MeshSpec::iso, &MeshSpec::order, &MeshSpec::nbord,
                     &MeshSpec::bmode, &MeshSpec::comp, &MeshSpec::pmode})
        attempt([&](Scenario &s) { s.zones[t].mesh.*f = 0; return true; });
      attempt([&](Scenario &s) { s.zones[t].mesh.stretch = 100; return true; });
      for (auto f : {&MeshSpec::nx, &MeshSpec::ny, &MeshSpec::nz}) {
        while (attempt([&](Scenario &s) {
          int &x = s.zones[t].mesh.*f;
          if (x <= 2) return false;
          x = x / 2;
          return true;
        })) {}
        while (attempt([&](Scenario &s) {
          int &x = s.zones[t].mesh.*f;
          if (x <= 1) return false;
          --x;
          return true;
        })) {}
      }
      for (auto f : {&MeshSpec::wmode, &MeshSpec::vmode, &MeshSpec::cmode})
        attempt([&](Scenario &s) { s.zones[t].mesh.*f = 1; return true; });
      for (size_t l = 0; l < best.zones[t].levels.size(); ++l) {
        const CallParams d;
        for (auto f : {&CallParams::corr, &CallParams::sing, &CallParams::ar, &CallParams::seedt, &CallParams::iter,
                       &CallParams::neigh, &CallParams::aniso, &CallParams::build, &CallParams::odd, &CallParams::coup,
                       &CallParams::force, &CallParams::form})
          attempt([&](Scenario &s) { s.zones[t].levels[l].p.*f = d.*f; return true; });
        attempt([&](Scenario &s) { s.zones[t].levels[l].p.maxc = -1; return true; });
        attempt([&](Scenario &s) {
          auto &p = s.zones[t].levels[l].p;
          p.min = p.goal = p.max = 2;
          return true;
        });
      }
    }
  }
  void run() {
    for (int k = 0; k < 4 && now() < deadline; ++k) {
      const int before = kept;
      pass();
      if (kept == before) break;
    }
  }
};

std::string esc(const std::string &s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') o += '\\';
    if (c == '\n') o += "\\n";
    else if ((unsigned char)c >= 32) o += c;
  }
  return o;
}

int cmd_run(int argc, char **argv) {
  // prop seed start stride seconds maxruns prefix
  if (argc < 9) return 4;
  const std::string prop = argv[2];
  const uint64_t seed = strtoull(argv[3], nullptr, 10);
  const int64_t start = atoll(argv[4]), stride = atoll(argv[5]);
  const double secs = atof(argv[6]);
  const int64_t maxruns = atoll(argv[7]);
  const std::string prefix = argv[8];
  const double t0 = now();
  Totals T;
  std::set<uint64_t> hashes;
  std::vector<uint64_t> nth;
  int64_t runs = 0, nontriv = 0, det = 0;
  std::vector<std::pair<uint64_t, std::string>> samples;
  int code = 0;
  std::map<std::string, int64_t> other;
  for (int64_t i = start; runs < maxruns && now() - t0 < secs; i += stride) {
    const uint64_t rs = mix(mix(seed, 0xC0FFEE), (uint64_t)i);
    // the first runs of some properties use a huge mesh
    static const std::string with_huge = "C06 C07 C08 C09 C10 C11 C12 C13 C14 C17 C23";
    const Scenario s = generate(prop, rs, with_huge.find(prop) == std::string::npos ? 0 : i < 3 ? (int)i + 1 : prop != "C23" && (i < 40 || i % 211 == 0) ? 4 : 0);
    const Result r = run_scenario(s);
    ++runs;
    if (r.error) {
      fprintf(stderr, "simulator error, run seed %llu: %s\n", (unsigned long long)rs, r.err.c_str());
      return 4;
    }
    if (const auto *v = hit(r, prop)) {
      const Scenario x = explicit_schedule(s);
      spit(prefix + ".viol", "# run seed " + std::to_string(rs) + "\n# " + v->first + ": " + v->second + "\n" + s.write());
      if (x.xsched && !s.xsched) spit(prefix + ".violx", x.write());
      code = 1;
      break;
    }
    for (auto &v : r.viol) ++other[v.first];
    const bool nt = !r.given_up && nontrivial(prop, s, r);
    nontriv += nt;
    if (nt) nth.push_back(r.hash);
    hashes.insert(r.hash);
    if (nt && samples.size() < 3)
      samples.push_back({rs, std::to_string(s.ntasks) + " caller(s), " + std::to_string(RM->calls) + " calls, "
                               + std::to_string(RM->calls_failed) + " failed, " + std::to_string(RM->switches)
                               + " switches, " + std::to_string(RM->total_steps) + " steps, history "
                               + std::to_string(r.hash)});
    T.add("huge_runs", g_huge), T.add("huge_runs_given_up", r.given_up);
    T.add("sim_steps", RM->total_steps), T.add("baseline_steps", RB->total_steps);
    T.add("switches", RM->switches), T.add("shared_accesses", RM->gevents);
    T.add("switches_at_shared_accesses", RM->gswitches);
    T.add("stalls", RM->stalls), T.add("blocked", RM->blocked);
    T.add("calls", RM->calls), T.add("calls_ok", RM->calls_ok), T.add("calls_failed", RM->calls_failed);
    T.add("rejects", RM->rejects), T.add("retries", RM->retries), T.add("crashes", RM->crashes);
    T.add("resumes", RM->resumes), T.add("levels", RM->levels), T.add("lines", RM->lines);
    T.add("output_writes", RM->warnings), T.add("coarse_cells", RM->cc_total), T.add("aniso_coarse_cells", RM->aniso_ccs);
    T.add("runs_with_correction_effect", RM->corrected > 0), T.add("env_reads", RM->envreads);
    T.add("leak_probes", RM->leakprobes), T.add("sweeps", RM->sweeps), T.add("swept_points", RM->swept), T.add("checkpoints", RM->checkpoints), T.add("resumed_past_level_0", RM->probe[0]);
    static const char *an[] = {"", "alloc_one", "alloc_burst", "alloc_from", "alloc_big", "alloc_quota", "alloc_handler", "alloc_thread_end"};
    static const char *sn[] = {"", "out_silent", "out_throw_mask", "out_throw_device", "out_closed", "out_nested", "out_thread_end"};
    for (int k = 1; k < AF_N; ++k) T.add(an[k], RM->alloc_faults[k]);
    for (int k = 1; k < SF_N; ++k) T.add(sn[k], RM->stream_faults[k]);
    for (int k = 1; k <= 7; ++k)
      T.mx(("max_steps_per_entry_iter_" + std::to_string(k)).c_str(), std::max(RM->probe[k], RB->probe[k]));
    T.mx("max_call_steps", RM->max_call_steps);
    T.mx("max_step_budget_ppm", RM->max_call_ratio), T.mx("max_step_budget_ppm", RB->max_call_ratio);
    T.mx("max_live_bytes", RM->max_live);
    T.mx("max_stack_bytes", RM->max_deep), T.mx("max_bytes_per_entry", RM->max_peak_entry);
    T.add("runs_host_state_changed", s.host != 0);
    T.add("nested_calls", RM->nested);
    T.add("calls_before_main", RM->early), T.add("calls_after_main", RM->late), T.add("calls_at_thread_end", RM->tlsd);
    T.add("calls_with_floating_point_traps", RM->trapped), T.add("protected_inputs", RM->frozen);
    T.add("runs_host_exception", s.ownexc);
    T.add("calls_in_long_histories", RM->soaked);
    T.mx("max_calls_in_one_history", RM->soaked);
    T.add("runs_faulty", !s.faults.empty() || s.crash_op >= 0 || s.stall_task >= 0);
    T.add(("hmode_" + std::to_string(s.hmode)).c_str(), 1), T.add(("fill_" + std::to_string(s.hfill)).c_str(), 1);
    T.add("runs_salted_iteration_order", s.salt != 0), T.add("runs_reused_buffers", s.zones[0].dirty != 0);
    if (runs % 37 == 2) {  // determinism self-check
      const uint64_t a = r.hash;
      const Result r2 = run_scenario(s);
      ++det;
      if (r2.hash != a) {
        fprintf(stderr, "not deterministic, run seed %llu\n", (unsigned long long)rs);
        return 5;
      }
    }
  }
  std::ofstream o(prefix + ".json");
  o << "{\"runs\":" << runs << ",\"nontrivial\":" << nontriv << ",\"determinism_pairs\":" << det << ",\"wall\":" << now() - t0
    << ",\"max_ncov\":" << 0 << ",\"counts\":{";
  bool f = true;
  for (auto &[k, v] : T.c) o << (f ? "" : ",") << '"' << k << "\":" << v, f = false;
  o << "},\"other\":{";
  f = true;
  for (auto &[k, v] : other) o << (f ? "" : ",") << '"' << k << "\":" << v, f = false;
  o << "},\"samples\":[";
  f = true;
  for (auto &[k, v] : samples) o << (f ? "" : ",") << "\"run seed " << k << ": " << esc(v) << '"', f = false;
  o << "]}";
  o.close();
  {
    std::ofstream b(prefix + ".hash", std::ios::binary);
    b.write((const char *)nth.data(), nth.size() * 8);
  }
  {
    std::ofstream b(prefix + ".cov", std::ios::binary);
    for (size_t k = 0; k < sizeof RM->edges; ++k) b.put(RM->edges[k] | RB->edges[k]);
    b.write((const char *)RM->sites, sizeof RM->sites);
  }
  return code;
}

int cmd_replay(int argc, char **argv) {
  Scenario s;
  if (argc < 3 || !s.read(slurp(argv[2]))) {
    fprintf(stderr, "cannot read scenario\n");
    return 4;
  }
  g_trace = argc > 3;
  const Result r = run_scenario(s);
  if (r.error) {
    fprintf(stderr, "simulator error: %s\n", r.err.c_str());
    return 4;
  }
  if (g_trace) {
    fwrite(RM->log, 1, RM->loglen, stdout);
    for (auto &v : r.viol) printf("-- %s: %s\n", v.first.c_str(), v.second.c_str());
  }
  const auto *v = hit(r, s.prop);
  printf("RESULT %s hash=%llu %s\n", v ? v->first.c_str() : "OK", (unsigned long long)r.hash, v ? v->second.c_str() : "");
  if (g_trace && v) fputs(tail_err().c_str(), stdout);
  return v ? 1 : 0;
}

int cmd_min(int argc, char **argv) {
  // in out seconds
  Minimiser m;
  if (argc < 5 || !m.best.read(slurp(argv[2]))) return 4;
  m.prop = m.best.prop;
  m.deadline = now() + atof(argv[4]);
  const std::string orig = m.best.write();
  if (!m.ok(m.best)) return 5;
  m.run();
  const Result r = run_scenario(m.best);
  const auto *v = r.error ? nullptr : hit(r, m.prop);
  std::string out;
  if (v) {
    out = "# " + v->first + ": " + v->second + "\n# minimised in " + std::to_string(m.tries) + " trials, " + std::to_string(m.kept)
      + " reductions\n";
    std::istringstream lg(std::string(RM->log, RM->loglen));
    std::string l;
    while (std::getline(lg, l)) out += "# " + l + "\n";
    out += m.best.write();
  } else
    out = orig;
  spit(argv[3], out);
  return 0;
}

Shared *map_shared(int fd) {
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  return p == MAP_FAILED ? nullptr : (Shared *)p;
}

// A process that runs the same scenario at several points of its life:
// 1 before main, 2 in main, 4 while the objects of a thread are destroyed (16:
// and before that in the same thread), 8 after main.  This object is created
// before, and destroyed after, all static objects of the library: the linker
// keeps the order of the object files.
struct Life {
  Scenario s;
  int at = 0;
  struct Thread {
    Life *l = nullptr;
    ~Thread() { l->round(true, R->tlsd); }
  };
  Life() {
    const char *e = getenv("SIM_LIFE");
    int b, m, f, tr;
    if (!e || sscanf(e, "%d %d %d %d", &b, &m, &f, &tr) != 4) return;
    RB = map_shared(b), RM = map_shared(m);
    if (!RB || !RM) _exit(4);
    R = RM;
    g_trace = tr;
    std::string t((size_t)lseek(f, 0, SEEK_END), 0);
    if (pread(f, t.data(), t.size(), 0) < 0 || !s.read(t)) _exit(4);
    at = s.life;
    heap_init();
    stream_install();
    if (at & 1) round(true, R->early);
  }
  void round(bool outside, int64_t &n) {
    const int64_t c = R->calls;
    ev(outside ? 7001 : 7002);
    R->finished = 0;
    g_outside = outside;
    execute(s, -1, RB, false);
    g_outside = false;
    n += R->calls - c;
  }
  static void *thread(void *p) {
    static thread_local Thread t;
    t.l = (Life *)p;
    int64_t n = 0;
    if (t.l->at & 16) t.l->round(false, n);
    return nullptr;
  }
  void in_main() {
    int64_t n = 0;
    if (at & 2) round(false, n);
    if (at & 4) {
      pthread_t t;
      if (pthread_create(&t, nullptr, thread, this)) _exit(4);
      pthread_join(t, nullptr);
    }
  }
  ~Life() {
    if (!at) return;
    if (at & 8) round(true, R->late);
    R->finished = 1;
    _exit(0);
  }
} g_life;
}  // namespace

int main(int argc, char **argv) {
  if (g_life.at) {
    g_life.in_main();
    return 0;
  }
  if (argc < 2) return 4;
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=1:quarantine_size_mb=4:malloc_context_size=0", 1);
    const int p = personality(0xffffffff);
    if (p >= 0) personality(p | ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  g_fdb = (int)syscall(SYS_memfd_create, "baseline", 0);
  g_fdm = (int)syscall(SYS_memfd_create, "run", 0);
  if (ftruncate(g_fdb, sizeof(Shared)) || ftruncate(g_fdm, sizeof(Shared))) return 4;
  RB = map_shared(g_fdb), RM = map_shared(g_fdm);
  if (!RB || !RM) return 4;
  R = RM;
  g_errfd = (int)syscall(SYS_memfd_create, "err", 0);
  heap_init();
  stream_install();
  const std::string m = argv[1];
  if (m == "run") return cmd_run(argc, argv);
  if (m == "replay") return cmd_replay(argc, argv);
  if (m == "min") return cmd_min(argc, argv);
  if (m == "gen" && argc > 3) {
    fputs(generate(argv[2], strtoull(argv[3], nullptr, 10), argc > 4 ? atoi(argv[4]) : 0).write().c_str(), stdout);
    return 0;
  }
  return 4;
}
