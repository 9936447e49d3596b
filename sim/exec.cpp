#include "exec.h"

#include <fenv.h>
#include <locale.h>
#include <pthread.h>
#include <signal.h>
#include <sys/stat.h>
#include <cxxabi.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <functional>
#include <iostream>
#include <locale>
#include <map>
#include <memory>
#include <queue>
#include <set>

using namespace simrt;

namespace {

// ------------------------------------------------------------------ meshes
struct CMesh {
  int dim = 2;
  std::vector<std::map<int, double>> nb;  // neighbour -> weight
  std::vector<double> vol;
  std::vector<std::array<double, 3>> ctr;
  std::vector<int> bnd;
  int n() const { return (int)vol.size(); }
  int add(double v, double x, double y, double z) {
    nb.emplace_back();
    vol.push_back(v);
    ctr.push_back({x, y, z});
    bnd.push_back(0);
    return n() - 1;
  }
  void edge(int a, int b, double w) {
    if (a == b) return;
    nb[a][b] = w;
    nb[b][a] = w;
  }
};

CMesh build_mesh(const MeshSpec &m) {
  CMesh c;
  Rng r(m.seed);
  c.dim = m.dim();
  const double g = m.stretch / 100.;
  auto spacing = [&](int j) { return std::pow(g, std::min(j, 8)); };
  if (m.kind == 0 || m.kind == 1) {
    const int nz = m.kind == 1 ? m.nz : 1;
    auto id = [&](int i, int j, int k) { return (k * m.ny + j) * m.nx + i; };
    std::vector<double> y0(m.ny + 1, 0.);
    for (int j = 0; j < m.ny; ++j) y0[j + 1] = y0[j] + spacing(j);
    for (int k = 0; k < nz; ++k)
      for (int j = 0; j < m.ny; ++j)
        for (int i = 0; i < m.nx; ++i)
          c.add(spacing(j), i + 0.5, 0.5 * (y0[j] + y0[j + 1]), m.kind == 1 ? k + 0.5 : 0.);
    for (int k = 0; k < nz; ++k)
      for (int j = 0; j < m.ny; ++j)
        for (int i = 0; i < m.nx; ++i) {
          if (i + 1 < m.nx) c.edge(id(i, j, k), id(i + 1, j, k), spacing(j));
          if (j + 1 < m.ny) c.edge(id(i, j, k), id(i, j + 1, k), 1.);
          if (k + 1 < nz) c.edge(id(i, j, k), id(i, j, k + 1), spacing(j));
          int &b = c.bnd[id(i, j, k)];
          b += (i == 0) + (i == m.nx - 1) + (j == 0) + (j == m.ny - 1);
          if (m.kind == 1) b += (k == 0) + (k == nz - 1);
        }
  } else if (m.kind == 2) {
    auto id = [&](int i, int j, int h) { return 2 * (j * m.nx + i) + h; };
    double y = 0.;
    for (int j = 0; j < m.ny; ++j) {
      const double d = spacing(j);
      for (int i = 0; i < m.nx; ++i) {
        c.add(0.5 * d, i + 1. / 3., y + d / 3., 0.);
        c.add(0.5 * d, i + 2. / 3., y + 2. * d / 3., 0.);
      }
      y += d;
    }
    for (int j = 0; j < m.ny; ++j)
      for (int i = 0; i < m.nx; ++i) {
        const double d = spacing(j);
        c.edge(id(i, j, 0), id(i, j, 1), std::sqrt(1. + d * d));
        if (i + 1 < m.nx) c.edge(id(i, j, 1), id(i + 1, j, 0), d);
        else c.bnd[id(i, j, 1)]++;
        if (i == 0) c.bnd[id(i, j, 0)]++;
        if (j + 1 < m.ny) c.edge(id(i, j, 1), id(i, j + 1, 0), 1.);
        else c.bnd[id(i, j, 1)]++;
        if (j == 0) c.bnd[id(i, j, 0)]++;
      }
  } else {
    const int n = std::max(1, m.nx);
    for (int i = 0; i < n; ++i)
      c.add(1., i + r.unit(), r.unit() * 3., m.nz > 1 ? r.unit() * 3. : 0.);
    if (m.kind == 3) {
      for (int i = 1; i < n; ++i) c.edge(i, (int)std::max<int64_t>(0, i - 1 - r.below(4)), 1.);
      for (int k = 0; k < m.ny * n / 4; ++k) {
        const int a = (int)r.below(n), b = (int)r.below(n);
        c.edge(a, b, 1.);
      }
    } else if (m.kind == 4) {
      // spine with pendant cells
      std::vector<int> spine;
      for (int i = 0; i < n; ++i) {
        if (spine.empty() || r.chance(0.6)) {
          if (!spine.empty()) c.edge(spine.back(), i, 1.);
          spine.push_back(i);
        } else
          c.edge(spine[r.below((int64_t)spine.size())], i, 1.);
      }
    } else if (m.kind == 6) {
      // small groups, rows or with all cells touching each other, and cells
      // between them which touch several groups: all their cells or both ends
      std::vector<std::vector<int>> groups;
      const int size = 2 + m.ny % 3;
      auto touch = [&](int i, const std::vector<int> &q) {
        const bool ends = q.size() > 2 && r.chance(0.4);
        for (size_t k = 0; k < q.size(); ++k)
          if (!ends || k == 0 || k + 1 == q.size()) c.edge(q[k], i, 1.);
      };
      for (int i = 0; i < n;) {
        std::vector<int> q;
        const bool row = r.chance(0.5);
        for (int64_t k = r.chance(0.8) ? size : r.range(2, 4); k > 0 && i < n; --k, ++i) {
          for (int o : q)
            if (!row || o == q.back()) c.edge(o, i, 1.);
          q.push_back(i);
          c.ctr[i] = {3. * (double)groups.size() + 0.1 * r.unit(), 0.3 * (double)q.size(), 0.};
        }
        if (!groups.empty() && r.chance(0.2)) {
          c.edge(groups.back()[r.below((int64_t)groups.back().size())], q[0], 1.);
        } else if (!groups.empty()) {
          std::vector<int> joint;
          for (int64_t k = r.chance(0.7) ? 1 : 2; k > 0 && i < n; --k, ++i) {
            for (int o : joint) c.edge(o, i, 1.);
            joint.push_back(i);
            c.ctr[i] = {3. * (double)groups.size() - 1.5, 6. + r.unit(), 0.};
            touch(i, q);
            for (int64_t nb = std::min<int64_t>(r.range(1, 2), (int64_t)groups.size()), b = 0; b < nb; ++b)
              touch(i, groups[groups.size() - 1 - b]);
          }
        }
        groups.push_back(q);
      }
    } else {
      // ring, with or without a hub
      const bool hub = m.ny % 2;
      for (int i = hub; i < n; ++i) {
        if (i + 1 < n) c.edge(i, i + 1, 1.);
        if (hub) c.edge(0, i, 1.);
      }
      if (n - hub > 2) c.edge(hub, n - 1, 1.);
    }
    for (int i = 0; i < n; ++i) c.bnd[i] = (int)std::max<int64_t>(0, 2 * c.dim - (int)c.nb[i].size());
  }
  // remove edges, cells; add isolated cells
  if (m.cut) {
    for (int a = 0; a < c.n(); ++a)
      for (auto it = c.nb[a].begin(); it != c.nb[a].end();) {
        const int b = it->first;
        if (a < b && r.below(100) < m.cut) {
          it = c.nb[a].erase(it);
          c.nb[b].erase(a);
          c.bnd[a]++, c.bnd[b]++;
        } else
          ++it;
      }
  }
  std::vector<int> keep;
  for (int a = 0; a < c.n(); ++a)
    if (!m.holes || r.below(100) >= m.holes) keep.push_back(a);
  if (keep.empty()) keep.push_back(0);
  for (int k = 0; k < m.iso; ++k) {
    const int a = c.add(1., -2. - k, -2., 0.);
    c.bnd[a] = 2 * c.dim;
    keep.push_back(a);
  }
  if (m.order == 1) std::reverse(keep.begin(), keep.end());
  if (m.order == 2)
    for (size_t i = keep.size(); i > 1; --i) std::swap(keep[i - 1], keep[r.below((int64_t)i)]);
  std::vector<int> nw(c.n(), -1);
  for (size_t i = 0; i < keep.size(); ++i) nw[keep[i]] = (int)i;
  CMesh d;
  d.dim = c.dim;
  for (int a : keep) {
    const int i = d.add(c.vol[a], c.ctr[a][0], c.ctr[a][1], c.ctr[a][2]);
    d.bnd[i] = c.bnd[a];
    for (auto &[b, w] : c.nb[a]) {
      if (nw[b] >= 0) d.nb[i][nw[b]] = w;
      else d.bnd[i]++;
    }
  }
  // overrides
  auto wide = [&]() { return std::pow(10., (r.unit() - 0.5) * 4.); };
  for (int a = 0; a < d.n(); ++a) {
    for (auto &[b, w] : d.nb[a])
      if (a < b) {
        if (m.wmode == 1) w = 1.;
        else if (m.wmode == 2) w = wide();
        else if (m.wmode == 3) w = 1. + r.below(2);
        d.nb[b][a] = w;
      }
    if (m.vmode == 1) d.vol[a] = 1.;
    if (m.vmode == 2) d.vol[a] = wide();
    if (m.cmode == 1)
      for (int x = 0; x < d.dim; ++x) d.ctr[a][x] = r.unit() * 10.;
    if (m.bmode == 1) d.bnd[a] = 0;
    if (m.bmode == 2) d.bnd[a] = (int)r.below(7);
  }
  return d;
}

template<class I, class W, class T>
Graph<I, W, T> typed(const MeshSpec &m) {
  const CMesh c = build_mesh(m);
  Rng r(m.seed ^ 0xabcdef);
  Graph<I, W, T> g;
  g.row.push_back(0);
  for (int a = 0; a < c.n(); ++a) {
    std::vector<std::pair<int, double>> v(c.nb[a].begin(), c.nb[a].end());
    if (m.nbord)
      for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below((int64_t)i)]);
    for (auto &[b, w] : v) g.col.push_back((I)b), g.w.push_back((W)w);
    g.row.push_back((I)g.col.size());
    g.vol.push_back((W)c.vol[a]);
    std::vector<W> x;
    for (int k = 0; k < c.dim; ++k) x.push_back((W)c.ctr[a][k]);
    g.ctr.push_back(x);
    double p = 0.;
    switch (m.pmode) {
      case 0: p = c.n() - a; break;
      case 1: p = 1.; break;
      case 2: p = 0.; break;
      case 3: p = -1. - a; break;
      case 4: p = (double)r.below(3); break;
      default: p = (double)r.range(-5, 5); break;
    }
    g.prio.push_back((W)p);
    g.nbnd.push_back((T)c.bnd[a]);
  }
  for (int a = 0; a < c.n(); ++a) {
    bool in = true;
    if (m.comp == 1) in = r.chance(0.5);
    if (m.comp == 2) in = c.bnd[a] > 0;
    if (m.comp == 3) in = false;
    if (m.comp == 4) in = a == 0;
    if (m.comp == 5) in = (int)c.ctr[a][0] % 3 == 1;
    if (in) g.compl_.push_back((I)a);
  }
  return g;
}

template<class V>
uint64_t hash_vec(uint64_t h, const V &v) {
  h = mix(h, v.size());
  for (const auto &x : v) {
    if constexpr (std::is_floating_point_v<std::decay_t<decltype(x)>>) {
      double d = (double)x;
      uint64_t u;
      memcpy(&u, &d, 8);
      h = mix(h, u);
    } else
      h = mix(h, (uint64_t)x);
  }
  return h;
}
template<class G>
uint64_t hash_graph(const G &g) {
  uint64_t h = hash_vec(hash_vec(hash_vec(1, g.row), g.col), g.w);
  h = hash_vec(hash_vec(hash_vec(h, g.vol), g.prio), g.nbnd);
  h = mix(h, g.ctr.size());
  for (auto &c : g.ctr) h = hash_vec(h, c);
  return hash_vec(h, g.compl_);
}

enum Outcome { O_OK = 0, O_NOMEM, O_INVALID, O_STREAM, O_OTHER, O_ENDED };

int64_t step_bound(int64_t n, int64_t nnz, const CallParams &p) {
  // about 40 times the largest cost ever observed: the check is about
  // termination, not about speed
  const int64_t per_entry = (p.iter <= 1 ? 100000 : 6000000) * std::max(1, p.max / 8);
  return std::min<int64_t>(4000000 + (n + nnz) * per_entry, 2500000000);
}

// the other functions look at each entry a few times
int64_t utility_bound(size_t n, size_t nnz) { return 100000 + (int64_t)((n + nnz) * (1000 + 20 * n)); }

// bytes a call may hold besides its arguments, and its stack
int64_t memory_bound(int kind, int64_t entries) {
  return 100000 + (kind == OP_AGGLO ? 1000 : kind == OP_COARSE || kind == OP_PARTS ? 250 : 100) * entries;
}
constexpr int64_t STACK_BOUND = 128 * 1024;

// State of the process that belongs to the host
struct HostState {
  unsigned mxcsr = 0;
  unsigned short x87 = 0;
  std::string clocale;
  std::locale cpplocale;
  std::new_handler nh = nullptr;
  std::terminate_handler th = nullptr;
  uint64_t rest = 0;
  static uint64_t stream(uint64_t h, std::ios &s) {
    h = mix(mix(h, (uint64_t)s.flags()), (uint64_t)s.precision());
    h = mix(mix(h, (uint64_t)s.width()), (uint64_t)s.fill());
    return mix(mix(h, (uint64_t)s.exceptions()), (uint64_t)(uintptr_t)s.rdbuf());
  }
  void take() {
    mxcsr = __builtin_ia32_stmxcsr() & 0xffc0;
    asm volatile("fnstcw %0" : "=m"(x87));
    clocale = setlocale(LC_ALL, nullptr);
    cpplocale = std::locale();
    nh = std::get_new_handler();
    th = std::get_terminate();
    rest = mix(1, (uint64_t)srand_calls());
    for (int s = 1; s < 32; ++s) {
      struct sigaction a {};
      if (!sigaction(s, nullptr, &a)) rest = mix(rest, (uint64_t)(uintptr_t)a.sa_handler);
    }
    sigset_t m;
    sigemptyset(&m);
    pthread_sigmask(SIG_BLOCK, nullptr, &m);
    for (int s = 1; s < 32; ++s) rest = mix(rest, (uint64_t)sigismember(&m, s));
    for (char **e = environ; e && *e; ++e)
      for (char *x = *e; *x; ++x) rest = mix(rest, (uint64_t)*x);
    char d[4096];
    if (getcwd(d, sizeof d))
      for (char *x = d; *x; ++x) rest = mix(rest, (uint64_t)*x);
    const mode_t u = umask(022);
    umask(u);
    rest = mix(rest, u);
    rest = stream(stream(stream(stream(rest, std::cout), std::cerr), std::clog), std::cin);
  }
  const char *differs(const HostState &o) const {
    if (mxcsr != o.mxcsr || x87 != o.x87) return "floating-point control state";
    if (clocale != o.clocale || cpplocale != o.cpplocale) return "locale";
    if (nh != o.nh) return "out-of-memory handler";
    if (th != o.th) return "termination handler";
    if (rest != o.rest) return "signal, environment, random-seed or stream state";
    return nullptr;
  }
};

struct Punct : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  std::string do_grouping() const override { return "\3"; }
};

const Scenario *S = nullptr;
const Shared *Base = nullptr;
bool g_baseline = false;

const char *mismatch_prop() {
  if (S->prop == "C01" || S->prop == "C16" || S->prop == "C19" || S->prop == "C26" || S->prop == "C28" || S->prop == "C29") return S->prop.c_str();
  return "C06";
}

template<class I, class W, class T>
class Zone {
public:
  using L = Lib<I, W, T>;
  using G = Graph<I, W, T>;
  const int task;
  const ZoneSpec &z;
  std::vector<std::unique_ptr<G>> g;  // per level
  const G *shared0 = nullptr;
  std::vector<std::vector<I>> f2c;  // per level
  std::vector<std::pair<std::vector<I>, std::vector<I>>> lines_before;
  std::vector<I> lidx, lines;  // in/out, carried over levels
  int avail = 0;  // deepest level with a graph
  std::vector<int> agg_done;
  bool dead = false;
  int start_op = 0;

  Zone(int t, const ZoneSpec &zs) : task(t), z(zs) {
    g.resize(z.levels.size() + 1);
    f2c.resize(z.levels.size() + 1);
    lines_before.resize(z.levels.size() + 1);
    agg_done.assign(z.levels.size() + 1, 0);
  }
  const G &graph(int l) const { return l == 0 && shared0 ? *shared0 : *g[l]; }

  // ---------------------------------------------------------------- one attempt
  Fault const *find_fault(int op, int att, int cls) const {
    if (g_baseline) return nullptr;
    for (const auto &f : S->faults)
      if (f.task == task && f.op == op && f.attempt == att && f.cls == cls) return &f;
    return nullptr;
  }
  bool more_faults(int op, int att) const {
    if (g_baseline) return false;
    for (const auto &f : S->faults)
      if (f.task == task && f.op == op && f.attempt >= att) return true;
    return false;
  }
  // Two cells with one centre: distances are divided by, so no traps then
  static bool coincident(const G &gr) {
    auto x = gr.ctr;
    std::sort(x.begin(), x.end());
    return std::adjacent_find(x.begin(), x.end()) != x.end();
  }
  bool no_traps = false;
  int64_t entries = 0;  // cells and edges of the call being made, if known
  struct Att {
    Outcome o = O_OK;
    std::string what;
    int64_t failed = 0, allocs = 0, steps = 0, writes = 0;
    bool own = false;  // the host's own exception arrived
    int64_t thrown = 0;
    bool stream = false;  // output trouble actually hit
  };
  // The hardware stops the process on these floating-point exceptions
  struct Traps {
    int set = 0;
    explicit Traps(int t) {
      set = (t & 1 ? FE_DIVBYZERO : 0) | (t & 2 ? FE_INVALID : 0) | (t & 4 ? FE_OVERFLOW : 0);
      if (!set) return;
      feclearexcept(FE_ALL_EXCEPT);
      feenableexcept(set);
      ++R->trapped;
    }
    ~Traps() {
      if (set) fedisableexcept(set);
    }
  };
  // Threads the host ends inside a call are made for that call
  struct Mortal {
    std::function<void()> f;
    bool returned = false;
  };
  static void *mortal_main(void *p) {
    Mortal &m = *(Mortal *)p;
    m.f();
    m.returned = true;
    return nullptr;
  }
  static void run_mortal(std::function<void()> f) {
    Mortal m{std::move(f)};
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 4u << 20);
    pthread_t th;
    if (pthread_create(&th, &at, mortal_main, &m)) {
      fprintf(stderr, "pthread_create failed\n");
      _exit(4);
    }
    pthread_join(th, nullptr);
    pthread_attr_destroy(&at);
  }
  template<class F>
  Att attempt(Ctx &c, int op, int att, int64_t limit, F &&f, const AllocFault *forced = nullptr, bool nosched = false) {
    AllocFault af;
    int sk = SF_NONE;
    int64_t safter = 0;
    const OpRec *b = Base ? &Base->rec[task][op < 0 ? 0 : op] : nullptr;
    if (forced) af = *forced;
    else if (op >= 0) {
      if (const Fault *x = find_fault(op, att, 0)) {
        af.kind = x->kind;
        const int64_t tot = b && b->done ? b->allocs : 40;
        af.at = x->at >= 0 ? x->at : (int64_t)((double)x->frac * 1e-6 * tot);
        if (x->frac == -2) {
          // one of the places of the code that allocate, one of its allocations
          if (const int n = b ? b->nsites : 0) {
            const Site &st = Base->site[task][op][x->at % n];
            af.site = st.key;
            af.occ = x->at / n % std::max<int64_t>(st.count, 1);
            af.at = INT64_MAX / 2;
          } else
            af.at = x->at % std::max<int64_t>(tot, 1);
        }
        af.len = x->len;
        af.size = x->size;
      }
      if (const Fault *x = find_fault(op, att, 1)) {
        sk = x->kind;
        const int64_t tot = b && b->done ? b->writes : 0;
        safter = x->at >= 0 ? x->at : (int64_t)((double)x->frac * 1e-6 * tot);
      }
    }
    int64_t crash = -1;
    if (!g_baseline && op >= 0 && task == 0 && S->crash_op == op && att == 0 && !resumed)
      crash = (int64_t)((double)S->crash_frac * 1e-6 * (b && b->done ? b->steps : 1000));
    const bool own_stream = S->ntasks == 1;
    const int64_t bound = op >= 0 ? memory_bound(S->zones[task].ops[op].kind, entries) : 0;
    if (S->prop == "C23" && !g_baseline && op >= 0 && entries > 0) {
      const int64_t b = bound;
      if (af.kind == AF_NONE) af.kind = AF_QUOTA, af.size = b;
      else if (af.kind == AF_QUOTA) af.size = b * af.size / 1000;
    }
    if (own_stream) stream_config(sk, safter);
    const bool watch = (S->prop == "C25" || S->prop == "C28") && own_stream;
    HostState host0;
    if (watch) host0.take();
    const auto flags0 = std::cout.flags();
    const auto prec0 = std::cout.precision();
    const auto width0 = std::cout.width();
    const auto fill0 = std::cout.fill();
    const auto exc0 = std::cout.exceptions();
    auto *const buf0 = std::cout.rdbuf();
    auto *const tie0 = std::cout.tie();
    Att r;
    c.nosched = nosched;
    c.op = g_baseline && att == 0 && !nosched && !forced ? op : -1;
    const int64_t s0 = c.steps;
    const auto call = [&] {
    const Traps traps(g_baseline || no_traps ? 0 : S->traps);
    if (!g_baseline) dirty_stack(S->hseed + (uint64_t)(op * 7 + att), S->hfill);
    try {
      enter_lib(c, af, limit, crash);
      f();
      r.allocs = c.allocs, r.failed = c.failed, r.writes = c.writes;
      leave_lib(c);
    } catch (const abi::__forced_unwind &) {
      r.allocs = c.allocs, r.failed = c.failed, r.writes = c.writes;
      leave_lib(c);
      r.o = O_ENDED, r.what = "thread ended";
      throw;
    } catch (const HostNoMemory &e) {
      r.own = e.serial == c.last_thrown;
      r.allocs = c.allocs, r.failed = c.failed, r.writes = c.writes;
      leave_lib(c);
      r.o = O_NOMEM, r.what = "the host's bad_alloc";
    } catch (const std::bad_alloc &e) {
      r.allocs = c.allocs, r.failed = c.failed, r.writes = c.writes;
      leave_lib(c);
      r.o = O_NOMEM, r.what = "bad_alloc";
    } catch (const std::invalid_argument &e) {
      r.allocs = c.allocs, r.failed = c.failed, r.writes = c.writes;
      leave_lib(c);
      r.o = O_INVALID, r.what = e.what();
    } catch (const std::ios_base::failure &e) {
      r.allocs = c.allocs, r.failed = c.failed, r.writes = c.writes;
      leave_lib(c);
      r.o = O_STREAM, r.what = "ios_base::failure";
    } catch (const std::exception &e) {
      r.allocs = c.allocs, r.failed = c.failed, r.writes = c.writes;
      leave_lib(c);
      r.o = std::strcmp(e.what(), "simulated device error") ? O_OTHER : O_STREAM;
      r.what = std::string(typeid(e).name()) + ": " + e.what();
    } catch (...) {
      leave_lib(c);
      r.o = O_OTHER, r.what = "unknown exception";
    }
    };
    if (af.kind == AF_EXIT || sk == SF_EXIT) run_mortal(call);
    else call();
    c.nosched = false;
    c.op = -1;
    r.steps = c.steps - s0;
    r.thrown = c.thrown;
    r.stream = own_stream && sk != SF_NONE && stream_fired();
    if (watch) {
      HostState host1;
      host1.take();
      if (const char *d = host1.differs(host0)) {
        report("C25", task, op, "the call changed process-wide state (%s)%s%s", d, r.o == O_OK ? "" : " when it failed: ",
               r.what.c_str());
        dead = true;
      }
    }
    if (op >= 0 && entries > 0) {
      R->max_deep = std::max(R->max_deep, (int64_t)c.deep);
      R->max_peak_entry = std::max(R->max_peak_entry, (c.peak - 20000) / entries);
      if ((int64_t)c.deep > STACK_BOUND)
        report("C23", task, op, "a call on %lld cells and edges used %lld bytes of stack", (long long)entries,
               (long long)c.deep);
      if (af.kind == AF_QUOTA && af.size == bound && r.failed > 0)
        report("C23", task, op, "a call on %lld cells and edges needs more than %lld bytes", (long long)entries,
               (long long)af.size);
    }
    if (own_stream) {
      if (std::cout.flags() != flags0 || std::cout.precision() != prec0 || std::cout.width() != width0
          || std::cout.fill() != fill0) {
        report("C16", task, op, "formatting state of standard output changed by the call");
        std::cout.flags(flags0), std::cout.precision(prec0), std::cout.width(width0), std::cout.fill(fill0);
      }
      if (std::cout.exceptions() != exc0 || std::cout.rdbuf() != buf0 || std::cout.tie() != tie0) {
        report("C16", task, op, "exception mask, buffer or tie of standard output changed by the call");
        std::cout.clear(), std::cout.exceptions(std::ios::goodbit), std::cout.rdbuf(buf0), std::cout.tie(tie0);
      }
      stream_heal();
    }
    if (op >= 0) {
      ++R->calls;
      r.o == O_OK ? ++R->calls_ok : ++R->calls_failed;
      ev(mix((uint64_t)op * 64 + att, (uint64_t)r.o));
      if (limit > 0) {
        R->max_call_steps = std::max(R->max_call_steps, r.steps);
        R->max_call_ratio = std::max(R->max_call_ratio, r.steps * 1000000 / limit);
      }
      if (g_trace)
        logf("task %d op %d attempt %d: outcome %d %s (steps %lld, allocations %lld, failed %lld)\n", task, op, att,
             r.o, r.what.c_str(), (long long)r.steps, (long long)r.allocs, (long long)r.failed);
    }
    return r;
  }
  // The inputs as the call gets them: in write-protected memory if so chosen
  template<class V>
  const V &ro(const V &v) {
    if (g_baseline || !S->readonly) return v;
    freeze_open();
    const V *p = new V(v);
    freeze_close();
    ++R->frozen;
    return *p;
  }
  // Judge a failed attempt; true if it was a legitimate failure
  bool judge_failure(int op, const Att &a) {
    if (a.o == O_NOMEM && a.failed > 0 && a.thrown == a.failed && !a.own) {
      report("C04", task, op, "the exception of the host's out-of-memory handler was replaced by another one");
      dead = true;
      return false;
    }
    if (a.o == O_NOMEM && a.failed > 0) return true;
    if (a.o == O_STREAM && a.stream) return true;
    if (a.o == O_ENDED) return true;
    if (a.failed > 0)
      report("C04", task, op, "allocation failed, but the caller got: %s", a.what.c_str());
    else if (a.stream && S->prop != "C26")
      report("C16", task, op, "standard output failed, but the caller got: %s", a.what.c_str());
    else
      report("ALL", task, op, "valid call failed with: %s", a.what.c_str());
    dead = true;
    return false;
  }
  void compare_base(int op, const Att &a, uint64_t digest, const char *whatof) {
    if (g_baseline || !Base) return;
    const OpRec &b = Base->rec[task][op];
    if (!b.done) return;
    if (b.digest != digest) {
      if (a.failed > 0)
        report("C04", task, op, "%s returned normally after %lld failed allocations with a different result", whatof,
               (long long)a.failed);
      report(mismatch_prop(), task, op, "%s differs from the result of the same call in a quiet, pristine process",
             whatof);
    }
  }
  void record(int op, const Att &a, int atts, uint64_t digest) {
    OpRec &r = R->rec[task][op];
    r.done = 1;
    r.attempts = atts;
    r.digest = digest;
    r.steps = a.steps;
    r.allocs = a.allocs;
    r.writes = a.writes;
    ev(digest);
  }

  // ---------------------------------------------------------------- lines
  void make_lines(int l) {
    const auto &ls = z.levels[l];
    Rng r(ls.lseed);
    const G &gr = graph(l);
    const int n = (int)gr.vol.size();
    lidx.assign(1, 0);
    lines.clear();
    if (n <= 100000 && r.chance(0.12)) {
      // not enough to define lines
      if (r.chance(0.3)) lidx.clear();
      if (r.chance(0.3)) lidx.push_back(0);
      if (lidx.size() < 2)
        for (int k = (int)r.below(4); k > 0; --k) lines.push_back((I)r.below(n));
      return;
    }
    std::vector<char> used(n, 0);
    const bool all = n > 100000 || (n > 20000 && r.chance(0.7));  // every cell of a huge mesh
    const int nl = all ? n : 1 + (int)r.below(std::max(1, n / 3));
    for (int k = 0; k < nl; ++k) {
      int c = all ? k : (int)r.below(n);
      if (used[c]) continue;
      const int len = all ? 2 * (int)r.range(1, std::max(1, ls.linelen / 2)) : (int)r.range(1, ls.linelen);
      for (int q = 0; q < len; ++q) {
        used[c] = 1;
        lines.push_back((I)c);
        std::vector<int> cand;
        for (I e = gr.row[c]; e < gr.row[c + 1]; ++e)
          if (!used[(int)gr.col[e]]) cand.push_back((int)gr.col[e]);
        if (cand.empty()) break;
        c = cand[r.below((int64_t)cand.size())];
      }
      lidx.push_back((I)lines.size());
      if (r.chance(0.05)) lidx.push_back((I)lines.size());
    }
  }

  // ---------------------------------------------------------------- oracles
  static std::vector<std::vector<int>> groups_of(const std::vector<I> &f, int ncc) {
    std::vector<std::vector<int>> v(ncc);
    for (size_t i = 0; i < f.size(); ++i) v[(int)f[i]].push_back((int)i);
    return v;
  }
  int check_partition(int op, const G &gr, const std::vector<I> &f) {
    const int64_t n = (int64_t)gr.vol.size();
    if ((int64_t)f.size() != n) {
      report("C07", task, op, "%zu fine cells assigned, mesh has %lld", f.size(), (long long)n);
      return -1;
    }
    int64_t mx = -1;
    for (auto x : f) {
      const int64_t v = (int64_t)x;
      if (v < 0 || v >= n) {
        report("C07", task, op, "coarse cell number %lld out of range for %lld fine cells", (long long)v, (long long)n);
        return -1;
      }
      mx = std::max(mx, v);
    }
    std::vector<char> seen(mx + 1, 0);
    for (auto x : f) seen[(int)x] = 1;
    for (int64_t k = 0; k <= mx; ++k)
      if (!seen[k]) {
        report("C07", task, op, "coarse cell number %lld is used by no fine cell although %lld is", (long long)k,
               (long long)mx);
        return -1;
      }
    return (int)(mx + 1);
  }
  void check_connected(int op, const G &gr, const std::vector<std::vector<int>> &grp, const std::vector<I> &f) {
    std::vector<char> vis(f.size(), 0);
    for (size_t c = 0; c < grp.size(); ++c) {
      std::vector<int> st{grp[c][0]};
      vis[grp[c][0]] = 1;
      size_t k = 0;
      while (!st.empty()) {
        const int a = st.back();
        st.pop_back();
        ++k;
        for (I e = gr.row[a]; e < gr.row[a + 1]; ++e) {
          const int b = (int)gr.col[e];
          if (!vis[b] && f[b] == (I)c) vis[b] = 1, st.push_back(b);
        }
      }
      if (k != grp[c].size()) {
        report("C08", task, op, "coarse cell %zu of %zu fine cells is not connected (component of %zu)", c,
               grp[c].size(), k);
        return;
      }
    }
  }
  static std::vector<std::set<int>> cc_adj(const G &gr, const std::vector<I> &f, int ncc) {
    std::vector<std::set<int>> a(ncc);
    for (size_t i = 0; i < f.size(); ++i)
      for (I e = gr.row[i]; e < gr.row[i + 1]; ++e) {
        const int x = (int)f[i], y = (int)f[(size_t)gr.col[e]];
        if (x != y) a[x].insert(y);
      }
    return a;
  }
  // expected pairing of a given line
  std::vector<std::vector<int>> pair_line(std::vector<int> ln, const G &gr, const CallParams &p) {
    auto bnd = [&](int c) { return std::min<int64_t>((int64_t)gr.nbnd[c], p.dim); };
    const int a = ln.front(), b = ln.back();
    bool fwd;
    if (bnd(a) != bnd(b)) fwd = bnd(a) > bnd(b);
    else if (gr.prio[a] != gr.prio[b]) fwd = gr.prio[a] > gr.prio[b];
    else fwd = a < b;
    if (!fwd) std::reverse(ln.begin(), ln.end());
    std::vector<std::vector<int>> out;
    size_t i = 0;
    const size_t lim = p.maxc >= 0 ? (size_t)p.maxc : (size_t)-1;
    while (ln.size() - i >= 2 && i + 2 <= lim) {
      std::vector<int> q{ln[i], ln[i + 1]};
      i += 2;
      const size_t left = ln.size() - i;
      // the last coarse cell takes a third one when that is where the line, or
      // the allowed part of it, ends
      if (left >= 1 && p.odd && i + 1 <= lim && (left == 1 || i + 1 == lim)) q.push_back(ln[i++]);
      out.push_back(q);
      if (left == 1) break;
    }
    return out;
  }
  bool eff_lines(const CallParams &p, const std::vector<I> &li, const std::vector<I> &lv) const {
    return p.aniso && (p.build || !(li.size() < 2 || lv.empty()));
  }
  bool lines_shape(const char *prop, int op, const std::vector<I> &li, const std::vector<I> &lv, int ncc) {
    if (li.empty()) {
      if (!lv.empty()) {
        report(prop, task, op, "no line index but %zu line cells", lv.size());
        return false;
      }
      return true;
    }
    if (li.front() != 0 || (size_t)li.back() != lv.size()) {
      report(prop, task, op, "line index does not start at 0 and end at the number of line cells");
      return false;
    }
    for (size_t k = 1; k < li.size(); ++k)
      if (li[k] < li[k - 1]) {
        report(prop, task, op, "line index decreases");
        return false;
      }
    std::set<int64_t> seen;
    for (auto x : lv) {
      if ((int64_t)x < 0 || (int64_t)x >= ncc) {
        report(prop, task, op, "line refers to coarse cell %lld, there are %d", (long long)x, ncc);
        return false;
      }
      if (!seen.insert((int64_t)x).second) {
        report(prop, task, op, "coarse cell %lld appears twice in the lines", (long long)x);
        return false;
      }
    }
    return true;
  }

  // all checks on a completed agglomeration
  bool judge_agglo(Ctx &c, int op, int l, const CallParams &p, const std::vector<I> &li0, const std::vector<I> &lv0) {
    const G &gr = graph(l);
    const auto &f = f2c[l];
    const int ncc = check_partition(op, gr, f);
    if (ncc < 0) return false;
    const auto grp = groups_of(f, ncc);
    R->cc_total += ncc;
    if ((size_t)ncc == f.size() && !gr.col.empty())
      report("C24", task, op, "no cells were merged on a mesh of %d cells with %zu connections", ncc, gr.col.size() / 2);
    const bool eff = eff_lines(p, li0, lv0);
    bool ok = true;
    std::vector<char> is_an(ncc, 0);
    if (p.aniso && !eff) {
      if (lidx != li0 || lines != lv0)
        report("C11", task, op, "anisotropy was switched off, but the line vectors changed");
    } else if (!p.aniso) {
      if (lidx != li0 || lines != lv0)
        report("C11", task, op, "isotropic call changed the line vectors");
    } else {
      ok = lines_shape("C11", op, lidx, lines, ncc);
      if (!ok) return false;
      for (auto x : lines) is_an[(int)x] = 1, ++R->aniso_ccs;
      R->lines += lidx.empty() ? 0 : (int64_t)lidx.size() - 1;
      const auto adj = cc_adj(gr, f, ncc);
      for (size_t k = 0; k + 1 < lidx.size(); ++k)
        for (I e = lidx[k]; e + 1 < lidx[k + 1]; ++e)
          if (!adj[(int)lines[(size_t)e]].count((int)lines[(size_t)e + 1]))
            report("C11", task, op, "consecutive coarse cells %lld and %lld of line %zu are not adjacent",
                   (long long)lines[(size_t)e], (long long)lines[(size_t)e + 1], k);
      check_line_cells(op, gr, p, grp, li0, lv0);
    }
    check_connected(op, gr, grp, f);
    // cardinalities
    const int sing = p.sing >= p.min ? p.min - 1 : p.sing;
    const auto adj = cc_adj(gr, f, ncc);
    for (int a = 0; a < ncc; ++a) {
      if (is_an[a]) continue;
      const int ca = (int)grp[a].size();
      if (!p.corr && ca > p.max)
        report("C09", task, op, "isotropic coarse cell of %d fine cells, maximum is %d", ca, p.max);
      if (ca < p.min)
        for (int b : adj[a])
          if (!is_an[b] && (int)grp[b].size() < p.min)
            report("C09", task, op, "adjacent isotropic coarse cells of %d and %zu fine cells, minimum is %d", ca,
                   grp[b].size(), p.min);
      if (p.corr && ca <= sing)
        for (int b : adj[a])
          if (!is_an[b]) {
            report("C10", task, op,
                   "coarse cell of %d fine cells (threshold %d) was left although it touches an isotropic coarse cell of %zu",
                   ca, sing, grp[b].size());
            break;
          }
    }
    if (p.corr && !g_baseline && (S->prop == "C09" || S->prop == "C10")) check_against_uncorrected(c, op, l, p, f, ncc, li0, lv0, sing);
    return true;
  }
  void check_line_cells(int op, const G &gr, const CallParams &p, const std::vector<std::vector<int>> &grp,
                        const std::vector<I> &li0, const std::vector<I> &lv0) {
    if (!p.build) {
      // exact model
      std::vector<std::vector<std::vector<int>>> exp;
      for (size_t k = 1; k < li0.size(); ++k) {
        std::vector<int> ln;
        for (I e = li0[k - 1]; e < li0[k]; ++e) ln.push_back((int)lv0[(size_t)e]);
        if (ln.size() > 1) exp.push_back(pair_line(ln, gr, p));
      }
      const size_t nl = lidx.empty() ? 0 : lidx.size() - 1;
      if (nl != exp.size()) {
        report(S->prop == "C11" ? "C11" : "C12", task, op, "%zu lines of more than one cell given, %zu lines returned",
               exp.size(), nl);
        return;
      }
      for (size_t k = 0; k < nl; ++k) {
        const size_t len = (size_t)(lidx[k + 1] - lidx[k]);
        if (len != exp[k].size()) {
          report("C12", task, op, "line %zu: %zu coarse cells expected from pairing, %zu returned", k, exp[k].size(),
                 len);
          return;
        }
        for (size_t q = 0; q < len; ++q) {
          auto e = exp[k][q];
          std::sort(e.begin(), e.end());
          if (grp[(int)lines[(size_t)lidx[k] + q]] != e) {
            report("C12", task, op, "line %zu: coarse cell %zu is not made of the expected %zu consecutive cells", k,
                   q, e.size());
            return;
          }
        }
      }
    } else {
      std::set<int64_t> comp(gr.compl_.begin(), gr.compl_.end());
      for (size_t k = 0; k + 1 < lidx.size(); ++k) {
        size_t cells = 0;
        for (I e = lidx[k]; e < lidx[k + 1]; ++e) {
          const auto &q = grp[(int)lines[(size_t)e]];
          cells += q.size();
          const bool last = e + 1 == lidx[k + 1];
          if (q.size() != 2 && !(q.size() == 3 && last && p.odd))
            report("C12", task, op, "coarse cell of %zu fine cells at position %lld of line %zu (odd lengths %s)",
                   q.size(), (long long)(e - lidx[k]), k, p.odd ? "allowed" : "not allowed");
          for (int x : q)
            if (!comp.count(x)) report("C12", task, op, "cell %d in a built line is not compliant", x);
        }
        if (p.maxc > 0 && cells > (size_t)p.maxc)
          report("C12", task, op, "line %zu uses %zu fine cells, limit is %lld", k, cells, (long long)p.maxc);
      }
    }
  }
  void check_against_uncorrected(Ctx &c, int op, int l, CallParams p, const std::vector<I> &f, int ncc,
                                 const std::vector<I> &li0, const std::vector<I> &lv0, int sing) {
    p.corr = 0;
    p.form = 0;
    std::vector<I> f0, li = li0, lv = lv0;
    AllocFault none;
    const Att a = attempt(c, -1, 0, 0, [&] { L::agglomerate(graph(l), p, f0, li, lv); }, &none, true);
    if (a.o != O_OK) {
      report("ALL", task, op, "valid call (correction off) failed with: %s", a.what.c_str());
      return;
    }
    if (f0.size() != f.size()) return;
    int n0 = 0;
    for (auto x : f0) n0 = std::max(n0, (int)x + 1);
    if (n0 != ncc) ++R->corrected;
    const auto g0 = groups_of(f0, n0);
    const auto g1 = groups_of(f, ncc);
    std::vector<char> an(n0, 0);
    if (eff_lines(p, li0, lv0))
      for (auto x : lv)
        if ((int64_t)x >= 0 && (int64_t)x < n0) an[(int)x] = 1;
    if (li != lidx || lv != lines) report("C10", task, op, "correction changes the returned lines");
    std::vector<int> kept(ncc, -1);  // the large coarse cell each one stems from
    for (int k = 0; k < n0; ++k) {
      if (g0[k].empty()) continue;
      if (an[k]) {
        if (g1[(int)f[g0[k][0]]] != g0[k])
          report("C10", task, op, "correction changed an anisotropic coarse cell (%zu fine cells)", g0[k].size());
      } else if ((int)g0[k].size() > sing) {
        for (int x : g0[k])
          if (f[x] != f[g0[k][0]])
            report("C09", task, op, "correction split a coarse cell of %zu fine cells (threshold %d)", g0[k].size(),
                   sing);
        int &q = kept[(int)f[g0[k][0]]];
        if (q >= 0)
          report("C09", task, op, "correction merged coarse cells of %zu and %zu fine cells (threshold %d)", g0[q].size(),
                 g0[k].size(), sing);
        q = k;
      }
    }
  }

  // ---------------------------------------------------------------- operations
  template<class V>
  void scribble(V &v, int op, int salt, size_t n) {
    if (g_baseline || !z.dirty) return;
    Rng r((uint64_t)z.dirty * 1000 + (uint64_t)op * 17 + salt);
    const int m = (int)r.below(4);
    v.clear();
    if (m == 0) return;
    const size_t k = m == 1 ? n : m == 2 ? (size_t)r.below((int64_t)n + 1) : n + (size_t)r.below(20);
    if (r.chance(0.3)) v.reserve(2 * k + 5);
    for (size_t i = 0; i < k; ++i) v.push_back((typename V::value_type)r.below(1000));
  }

  void op_agglo(Ctx &c, int op, int l) {
    CallParams p = z.levels[l].p;
    if (g_baseline) p.form = 0;
    const G &gr = graph(l);
    if (p.aniso && !p.build && z.levels[l].linemode == 1) make_lines(l);
    if (p.aniso && p.build) {
      // lines are pure output here; leave something in them
      scribble(lidx, op, 1, 4);
      scribble(lines, op, 2, 6);
      if (g_baseline || !z.dirty) lidx.clear(), lines.clear();
    }
    if (!p.aniso) {
      // not to be used
      scribble(lidx, op, 1, 4);
      scribble(lines, op, 2, 6);
    }
    lines_before[l] = {lidx, lines};
    const auto li0 = lidx, lv0 = lines;
    auto &f = f2c[l];
    f.clear();
    scribble(f, op, 3, gr.vol.size());
    const auto f0 = f;
    const uint64_t hin = hash_graph(gr);
    const int64_t lim = step_bound((int64_t)gr.vol.size(), (int64_t)gr.col.size(), p);
    entries = (int64_t)(gr.vol.size() + gr.col.size());
    const G &in = ro(gr);
    Att a;
    int att = 0;
    for (;; ++att) {
      a = attempt(c, op, att, lim, [&] { L::agglomerate(in, p, f, lidx, lines); });
      if (hash_graph(gr) != hin) {
        report(a.o == O_OK ? mismatch_prop() : "C03", task, op, "an input of the call was modified");
        dead = true;
        return;
      }
      if (a.o == O_OK) break;
      if (!judge_failure(op, a)) return;
      const char *pr = a.o == O_STREAM && S->prop == "C16" ? "C16" : "C03";
      if (f != f0)
        report(pr, task, op, "call failed (%s), but the output vector changed (size %zu, was %zu)", a.what.c_str(),
               f.size(), f0.size());
      if (lidx != li0 || lines != lv0)
        report(pr, task, op, "call failed (%s), but the line vectors changed (%zu/%zu entries, were %zu/%zu)",
               a.what.c_str(), lidx.size(), lines.size(), li0.size(), lv0.size());
      ++R->retries;
      if (att > 6) { dead = true; return; }
    }
    uint64_t d = hash_vec(5, f);
    if (p.aniso && eff_lines(p, li0, lv0)) d = hash_vec(hash_vec(d, lidx), lines);
    compare_base(op, a, d, "agglomeration");
    record(op, a, att + 1, d);
    agg_done[l] = 1;
    const int64_t rel = a.steps / (int64_t)(gr.vol.size() + gr.col.size());
    R->probe[p.iter] = std::max(R->probe[p.iter], rel);
    if (!judge_agglo(c, op, l, p, li0, lv0)) {
      dead = true;
      return;
    }
    ++R->levels;
    if (!p.aniso || !eff_lines(p, li0, lv0)) lidx.clear(), lines.clear();
  }

  bool coarse_call(Ctx &c, int op, const G &fg, const std::vector<I> &f, int ncc, G &cg) {
    scribble(cg.row, op, 11, 5);
    scribble(cg.col, op, 12, 5);
    scribble(cg.w, op, 13, 5);
    scribble(cg.vol, op, 14, 5);
    scribble(cg.prio, op, 15, 5);
    scribble(cg.nbnd, op, 16, 5);
    if (!g_baseline && z.dirty % 3 == 1) cg.ctr.assign(7, std::vector<W>(3, W(9)));
    const uint64_t hin = mix(hash_graph(fg), hash_vec(3, f));
    entries = (int64_t)(fg.vol.size() + fg.col.size());
    const G &in = ro(fg);
    const auto &f_in = ro(f);
    Att a;
    int att = 0;
    for (;; ++att) {
      a = attempt(c, op, att, utility_bound(fg.vol.size(), fg.col.size()),
                  [&] { L::coarse(in, f_in, cg); });
      if (mix(hash_graph(fg), hash_vec(3, f)) != hin) {
        report("C13", task, op, "building the coarse graph modified an input");
        dead = true;
        return false;
      }
      if (a.o == O_OK) break;
      if (!judge_failure(op, a)) return false;
      ++R->retries;
      if (att > 6) { dead = true; return false; }
    }
    const uint64_t d = hash_graph(cg);
    R->probe[7] = std::max(R->probe[7], a.steps / (int64_t)(fg.vol.size() + fg.col.size() + 16));
    compare_base(op, a, d, "coarse graph");
    record(op, a, att + 1, d);
    if (!judge_coarse(op, fg, f, ncc, cg)) {
      dead = true;
      return false;
    }
    return true;
  }
  // Coarse graph of a partition into connected parts of at most so many cells, which the library
  // need not produce: the cells themselves, pairs, one part for each connected piece
  void op_parts(Ctx &c, int op, int l, const Op &o) {
    const G &fg = graph(l);
    const int n = (int)fg.vol.size();
    Rng r((uint64_t)o.a);
    const int caps[5] = {1, 2, 3, 8, n};
    const int cap = caps[o.b >= 0 ? o.b % 5 : 0];
    const bool rnd = r.chance(0.5);
    std::vector<int> part(n, -1), st;
    int ncc = 0;
    for (int k = 0; k < n; ++k) {
      const int s0 = rnd ? (int)r.below(n) : k;
      for (const int b : {s0, k}) {
        if (part[b] >= 0) continue;
        int size = 1;
        part[b] = ncc;
        st.assign(1, b);
        for (size_t q = 0; q < st.size() && size < cap; ++q)
          for (I e = fg.row[st[q]]; e < fg.row[st[q] + 1] && size < cap; ++e) {
            const int y = (int)fg.col[(size_t)e];
            if (part[y] < 0) part[y] = ncc, st.push_back(y), ++size;
          }
        ++ncc;
      }
    }
    std::vector<I> f(n);
    for (int k = 0; k < n; ++k) f[k] = (I)part[k];
    G cg;
    coarse_call(c, op, fg, f, ncc, cg);
  }
  void op_coarse(Ctx &c, int op, int l) {
    if (!agg_done[l]) return;
    const G &fg = graph(l);
    const auto &f = f2c[l];
    int64_t ncc = 0;
    for (auto x : f) ncc = std::max<int64_t>(ncc, (int64_t)x + 1);
    auto cg = std::make_unique<G>();
    if (!coarse_call(c, op, fg, f, (int)ncc, *cg)) return;
    for (int64_t k = 0; k < ncc; ++k) cg->compl_.push_back((I)k);
    g[l + 1] = std::move(cg);
    avail = l + 1;
    if (l + 1 >= (int)z.levels.size()) return;
    checkpoint(op + 1);
  }
  bool judge_coarse(int op, const G &fg, const std::vector<I> &f, int ncc, const G &cg) {
    const double tol = sizeof(W) == 4 ? 2e-4 : 1e-9;
    auto close = [&](double a, double b, double scale) { return std::fabs(a - b) <= tol * (scale + 1e-300); };
    const size_t n = (size_t)ncc;
    if (cg.row.size() != n + 1 || cg.vol.size() != n || cg.prio.size() != n || cg.nbnd.size() != n
        || cg.ctr.size() != n || cg.row.front() != 0 || (size_t)cg.row.back() != cg.col.size()
        || cg.col.size() != cg.w.size()) {
      report("C13", task, op, "sizes of the coarse graph do not match %d coarse cells", ncc);
      return false;
    }
    std::vector<std::map<int, std::pair<double, double>>> e(n);
    std::vector<double> vol(n, 0.), pr(n, 0.);
    std::vector<int64_t> nb(n, 0);
    std::vector<char> first(n, 1);
    const size_t dim = fg.ctr[0].size();
    std::vector<std::vector<double>> ctr(n, std::vector<double>(dim, 0.)), ctra = ctr;
    for (size_t i = 0; i < f.size(); ++i) {
      const int k = (int)f[i];
      vol[k] += (double)fg.vol[i];
      for (size_t x = 0; x < dim; ++x)
        ctr[k][x] += (double)fg.vol[i] * (double)fg.ctr[i][x], ctra[k][x] += std::fabs((double)fg.vol[i] * (double)fg.ctr[i][x]);
      if (first[k] || (double)fg.prio[i] > pr[k]) pr[k] = (double)fg.prio[i];
      if (first[k] || (int64_t)fg.nbnd[i] > nb[k]) nb[k] = (int64_t)fg.nbnd[i];
      first[k] = 0;
      for (I q = fg.row[i]; q < fg.row[i + 1]; ++q) {
        const int m = (int)f[(size_t)fg.col[(size_t)q]];
        if (m != k) e[k][m].first += (double)fg.w[(size_t)q], e[k][m].second += std::fabs((double)fg.w[(size_t)q]);
      }
    }
    for (size_t k = 0; k < n; ++k) {
      if (cg.row[k + 1] < cg.row[k]) {
        report("C13", task, op, "row index of the coarse graph decreases");
        return false;
      }
      std::set<int> seen;
      for (I q = cg.row[k]; q < cg.row[k + 1]; ++q) {
        const int m = (int)cg.col[(size_t)q];
        const auto it = e[k].find(m);
        if (it == e[k].end() || !seen.insert(m).second) {
          report("C13", task, op, "coarse edge %zu-%d does not correspond to fine edges, or appears twice", k, m);
          return false;
        }
        if (!close((double)cg.w[(size_t)q], it->second.first, it->second.second))
          report("C13", task, op, "weight of coarse edge %zu-%d is %.9g, fine edges sum to %.9g", k, m,
                 (double)cg.w[(size_t)q], it->second.first);
      }
      if (seen.size() != e[k].size()) {
        report("C13", task, op, "coarse cell %zu has %zu neighbours, expected %zu", k, seen.size(), e[k].size());
        return false;
      }
      if (!close((double)cg.vol[k], vol[k], vol[k]))
        report("C13", task, op, "measure of coarse cell %zu is %.9g, expected %.9g", k, (double)cg.vol[k], vol[k]);
      if (cg.ctr[k].size() != dim) {
        report("C13", task, op, "centre of coarse cell %zu has %zu coordinates", k, cg.ctr[k].size());
        return false;
      }
      for (size_t x = 0; x < dim; ++x)
        if (!close((double)cg.ctr[k][x], ctr[k][x] / vol[k], ctra[k][x] / vol[k]))
          report("C13", task, op, "centre of coarse cell %zu is %.9g, measure-weighted average is %.9g", k,
                 (double)cg.ctr[k][x], ctr[k][x] / vol[k]);
      if ((double)cg.prio[k] != pr[k])
        report("C13", task, op, "priority of coarse cell %zu is %.9g, maximum is %.9g", k, (double)cg.prio[k], pr[k]);
      if ((int64_t)cg.nbnd[k] != nb[k])
        report("C13", task, op, "boundary faces of coarse cell %zu: %lld, maximum is %lld", k, (long long)cg.nbnd[k],
               (long long)nb[k]);
    }
    return true;
  }

  void op_wall(Ctx &c, int op, int l, const Op &o) {
    const G &gr = graph(l);
    const int n = (int)gr.vol.size();
    Rng r((uint64_t)o.a);
    std::vector<I> wall;
    const int m = (int)r.below(5);
    if (m == 1) wall.push_back((I)r.below(n));
    if (n > 20000 && o.b % 2) {
      // from one end only, for the largest distances
      int end = 0;
      for (int k = 1; k < n; ++k)
        if (gr.row[k + 1] - gr.row[k] < gr.row[end + 1] - gr.row[end]) end = k;
      wall.assign(1, (I)end);
    } else if (m >= 2)
      for (int k = (int)r.range(1, 1 + n / 3); k > 0; --k) wall.push_back((I)r.below(n));
    if (m == 4)
      for (int k = 0; k < n; ++k)
        if (gr.nbnd[k] > 0) wall.push_back((I)k);
    std::vector<T> dist;
    scribble(dist, op, 21, n);
    const G &in = ro(gr);
    const auto &wall_in = ro(wall);
    const uint64_t hin = mix(hash_graph(gr), hash_vec(3, wall));
    entries = (int64_t)(gr.vol.size() + gr.col.size());
    Att a;
    int att = 0;
    for (;; ++att) {
      a = attempt(c, op, att, utility_bound((size_t)n, gr.col.size()), [&] { L::wall(in, wall_in, dist); });
      if (mix(hash_graph(gr), hash_vec(3, wall)) != hin) report("C14", task, op, "wall distance modified an input");
      if (a.o == O_OK) break;
      if (!judge_failure(op, a)) return;
      ++R->retries;
      if (att > 6) { dead = true; return; }
    }
    const uint64_t d = hash_vec(9, dist);
    R->probe[5] = std::max(R->probe[5], a.steps / (int64_t)(n + gr.col.size() + 16));
    compare_base(op, a, d, "wall distance");
    record(op, a, att + 1, d);
    std::vector<int64_t> ref(n, -1);
    std::queue<int> q;
    for (auto w : wall)
      if (ref[(int)w] < 0) ref[(int)w] = 0, q.push((int)w);
    while (!q.empty()) {
      const int x = q.front();
      q.pop();
      for (I e = gr.row[x]; e < gr.row[x + 1]; ++e) {
        const int y = (int)gr.col[(size_t)e];
        if (ref[y] < 0) ref[y] = ref[x] + 1, q.push(y);
      }
    }
    if ((int)dist.size() != n) {
      report("C14", task, op, "%zu distances for %d cells", dist.size(), n);
      return;
    }
    for (int k = 0; k < n; ++k)
      if (ref[k] < 0 ? (int64_t)dist[k] >= 0 : (int64_t)dist[k] != ref[k])
        report("C14", task, op, "distance of cell %d is %lld, expected %lld", k, (long long)dist[k], (long long)ref[k]);
  }

  void op_filter(Ctx &c, int op, int l, const Op &o) {
    const G &gr = graph(l);
    const int n = (int)gr.vol.size();
    Rng r((uint64_t)o.a);
    std::vector<T> allowed;
    for (int k = (int)r.below(5); k > 0; --k) {
      int64_t x = r.range(0, 7);
      if (r.chance(0.4)) {
        // the number of edges of some cell, or one that differs by a power of two
        const int64_t y = r.below(n);
        x = (int64_t)(gr.row[y + 1] - gr.row[y]) + (int64_t)gr.nbnd[y];
        static const int far[] = {0, 0, 32, 64, 128, 256, 65536};
        const int64_t d = far[r.below(7)];
        x += r.chance(0.5) ? d : -d;
      }
      allowed.push_back((T)x);
    }
    if (!allowed.empty() && r.chance(0.2)) allowed.push_back(allowed[0]);
    if (r.chance(0.2)) allowed.push_back((T)r.range(-4, -1));
    std::vector<I> out;
    scribble(out, op, 31, n);
    const G &in = ro(gr);
    const uint64_t hin = mix(hash_graph(gr), hash_vec(3, allowed));
    entries = (int64_t)(gr.vol.size() + gr.col.size());
    Att a;
    int att = 0;
    for (;; ++att) {
      a = attempt(c, op, att, utility_bound((size_t)n, 0), [&] { L::filter(in, allowed, out); });
      if (mix(hash_graph(gr), hash_vec(3, allowed)) != hin) report("C14", task, op, "filter modified an input");
      if (a.o == O_OK) break;
      if (!judge_failure(op, a)) return;
      ++R->retries;
      if (att > 6) { dead = true; return; }
    }
    auto sorted = out;
    std::sort(sorted.begin(), sorted.end());
    const uint64_t d = hash_vec(9, sorted);
    R->probe[6] = std::max(R->probe[6], a.steps / (int64_t)(n + 16));
    compare_base(op, a, d, "filter");
    record(op, a, att + 1, d);
    std::vector<I> ref;
    for (int k = 0; k < n; ++k) {
      const int64_t ne = (int64_t)(gr.row[k + 1] - gr.row[k]) + (int64_t)gr.nbnd[k];
      bool in = false;
      for (auto x : allowed) in |= x > 0 && (int64_t)x == ne;
      if (in) ref.push_back((I)k);
    }
    if (sorted != ref)
      report("C14", task, op, "filter returned %zu cells, expected %zu (or different ones)", out.size(), ref.size());
  }

  void op_reject(Ctx &c, int op, int l, const Op &o) {
    if (g_baseline) return;
    if (l >= (int)z.levels.size()) l = (int)z.levels.size() - 1;
    CallParams p = z.levels[l].p;
    G gr = graph(l);
    std::vector<I> f, li{0, 2, 3}, lv{0, 1, 2}, li0, lv0;
    Rng r((uint64_t)o.b);
    p.form = (int)r.below(4);
    if (gr.vol.size() < 3) {
      li.clear(), lv.clear();
      p.aniso = 0;
    } else if (!p.build)
      make_path(gr, li, lv, r);
    switch (o.a) {
      case 0: p.dim = 1; break;
      case 1: p.dim = 4; break;
      case 2: p.dim = 0; break;
      case 3: p.dim = -2; break;
      case 4: p.min = 1; break;
      case 5: p.min = 1, p.goal = 1; break;
      case 6: p.min = p.goal = p.max = 1; break;
      case 7: p.min = p.goal + 1, p.max = std::max(p.max, p.min); break;
      case 8: p.max = p.goal - 1; break;
      case 9: p.iter = 0; break;
      case 10: p.iter = -1; break;
      case 11: p.iter = 5; break;
      case 12: p.iter = 100; break;
      case 13: gr.row.clear(); break;
      case 14: gr.col.push_back(0); break;
      case 15: gr.w.push_back(W(1)); break;
      case 16: gr.row.back() += 1; break;
      case 17: p.sing = 0; break;
      case 18: p.sing = -3; break;
      case 19: p.seedt = 2; break;
      case 20: p.seedt = 99; break;
      case 21: p.ar = 10; break;
      case 22: p.ar = -1; break;
      case 23: p.min = p.goal = p.max = 0; break;
      case 24: p.min = -3; break;
      case 25: p.goal = -4, p.min = -5, p.max = -3; break;
      case 26: p.seedt = -1; break;
      case 27: p.max = p.min - 1, p.goal = p.min; break;
      case 28: p.seedt = 12; break;
      default:
        // inconsistent line description
        p.aniso = 1, p.build = 0;
        li.assign({0, 2, 5}), lv.assign({0, 1, 2});
        if (r.chance(0.5)) li.back() = 2;
        break;
    }
    if (gr.col.empty() && o.a == 16) gr.row.back() = 1;
    scribble(f, op, 41, gr.vol.size());
    const auto f0 = f;
    li0 = li, lv0 = lv;
    const uint64_t hin = hash_graph(gr);
    Att a = attempt(c, op, 0, step_bound((int64_t)gr.vol.size(), (int64_t)gr.col.size(), p),
                    [&] { L::agglomerate(gr, p, f, li, lv); });
    ++R->rejects;
    if (a.o == O_OK)
      report("C15", task, op, "invalid request (kind %lld) was accepted", (long long)o.a);
    else if (a.o != O_INVALID && !((a.o == O_NOMEM && a.failed) || (a.o == O_STREAM && a.stream) || a.o == O_ENDED))
      report("C15", task, op, "invalid request (kind %lld) was answered with: %s", (long long)o.a, a.what.c_str());
    if (a.o != O_OK) {
      const char *pr = S->prop == "C15" ? "C15" : "C03";
      if (f != f0) report(pr, task, op, "refused request (kind %lld) changed the output vector", (long long)o.a);
      if (li != li0 || lv != lv0)
        report(pr, task, op, "refused request (kind %lld) changed the line vectors", (long long)o.a);
      if (hash_graph(gr) != hin) report(pr, task, op, "refused request changed an input");
    }
  }
  static void make_path(const G &gr, std::vector<I> &li, std::vector<I> &lv, Rng &r) {
    const int n = (int)gr.vol.size();
    std::vector<char> used(n, 0);
    li.assign(1, 0);
    lv.clear();
    for (int k = 0; k < 3; ++k) {
      int x = (int)r.below(n);
      if (used[x]) continue;
      for (int q = 0; q < 4; ++q) {
        used[x] = 1;
        lv.push_back((I)x);
        int nx = -1;
        for (I e = gr.row[x]; e < gr.row[x + 1]; ++e)
          if (!used[(int)gr.col[(size_t)e]]) nx = (int)gr.col[(size_t)e];
        if (nx < 0) break;
        x = nx;
      }
      li.push_back((I)lv.size());
    }
  }

  // Calls of other kinds or on other data, most of them failing and not repeated
  void op_pollute(Ctx &c, int op, int l, const Op &o) {
    if (g_baseline) return;
    Rng r((uint64_t)o.a);
    const int kind = (int)r.below(8);
    MeshSpec m = random_mesh(r, 30, false);
    LevelSpec ls = random_level(r, m, 0);
    if (S->traps) m.stretch = 100;
    if (S->traps && ls.p.thr == 0.) ls.p.thr = 0.5;
    const bool own = kind == 4 || r.chance(0.4);
    G gr = own ? graph(l) : typed<I, W, T>(m);
    no_traps = S->traps && coincident(gr);
    if (own && r.chance(0.6)) {
      gr.compl_.clear();
      for (size_t k = 0; k < gr.vol.size(); ++k)
        if (r.chance(0.7)) gr.compl_.push_back((I)k);
    }
    const int n = (int)gr.vol.size();
    std::vector<I> f, li, lv, wall;
    std::vector<T> dist, allowed{(T)4, (T)5};
    CallParams p = ls.p;
    if (own) p.iter = 1, p.dim = z.levels[0].p.dim;
    if (p.aniso && !p.build) {
      if (n < 3) p.aniso = 0;
      else make_path(gr, li, lv, r);
    }
    const int groups = (int)r.range(1, n);
    for (int k = 0; k < n; ++k) f.push_back((I)(k < groups ? k : r.below(groups)));
    for (int k = 0; k < 3; ++k) wall.push_back((I)r.below(n));
    const auto part = f;
    const auto call = [&] {
      if (kind < 5) L::agglomerate(gr, p, f, li, lv);
      else if (kind == 5) {
        G out;
        L::coarse(gr, part, out);
      } else if (kind == 6)
        L::wall(gr, wall, dist);
      else
        L::filter(gr, allowed, f);
    };
    const int64_t lim = step_bound(n, (int64_t)gr.col.size(), p);
    int64_t tot = 60;
    if (r.chance(0.7)) {
      const auto li0 = li, lv0 = lv;
      const Att a = attempt(c, -1, 0, lim, call, nullptr, true);
      if (a.o != O_OK) {
        judge_failure(op, a);
        return;
      }
      tot = a.allocs;
      li = li0, lv = lv0;
    }
    for (int att = 0; att < 3; ++att) {
      AllocFault af;
      if (r.chance(0.8)) {
        af.kind = r.chance(0.7) ? AF_ONE : AF_FROM;
        af.at = r.below(tot);
      }
      const Att a = attempt(c, op, att, lim, call, &af);
      if (a.o == O_OK) break;
      if (!judge_failure(op, a)) return;
      if (r.chance(0.7)) break;
    }
  }

  // A long history: the same few calls again and again
  void op_soak(Ctx &c, int op, const Op &o) {
    if (g_baseline) return;
    Rng r((uint64_t)o.a);
    struct Case {
      G gr;
      CallParams p;
      std::vector<I> li, lv, wall;
      uint64_t d = 0;
    };
    std::vector<Case> cs((size_t)r.range(1, 3));
    for (auto &k : cs) {
      const MeshSpec m = random_mesh(r, r.chance(0.5) ? 8 : 25, false);
      k.p = random_level(r, m, 0).p;
      k.p.iter = std::min(k.p.iter, 2);
      k.gr = typed<I, W, T>(m);
      if (k.p.aniso && !k.p.build) {
        if (k.gr.vol.size() < 3) k.p.aniso = 0;
        else make_path(k.gr, k.li, k.lv, r);
      }
      k.wall.push_back((I)r.below((int64_t)k.gr.vol.size()));
    }
    AllocFault none;
    const bool utils = r.chance(0.3);
    const int64_t calls = 1ll << std::min<int64_t>(o.b, 16), s0 = c.steps;
    for (int64_t i = 0; i < calls && c.steps - s0 < 150000000; ++i) {
      Case &k = cs[(size_t)(i % (int64_t)cs.size())];
      std::vector<I> f, li = k.li, lv = k.lv;
      std::vector<T> dist;
      G out;
      const Att a = attempt(c, -1, 0, step_bound((int64_t)k.gr.vol.size(), (int64_t)k.gr.col.size(), k.p), [&] {
        if (utils) L::wall(k.gr, k.wall, dist);
        L::agglomerate(k.gr, k.p, f, li, lv);
        if (utils) L::coarse(k.gr, f, out);
      }, &none);
      if (a.o != O_OK) {
        judge_failure(op, a);
        return;
      }
      const uint64_t d = mix(hash_vec(hash_vec(hash_vec(1, f), li), lv), mix(hash_graph(out), hash_vec(2, dist)));
      if (!k.d) k.d = d;
      if (d != k.d) {
        report("C06", task, op, "the same call gives another result after %lld calls", (long long)i);
        return;
      }
      ++R->soaked;
    }
  }

  void op_repeat(Ctx &c, int op, int l) {
    if (g_baseline || !agg_done[l]) return;
    CallParams p = z.levels[l].p;
    p.form ^= 1;
    for (int att = 0; att < 3; ++att) {
      std::vector<I> f, li = lines_before[l].first, lv = lines_before[l].second;
      const G &gr = graph(l);
      const Att a = attempt(c, op, att, step_bound((int64_t)gr.vol.size(), (int64_t)gr.col.size(), p),
                            [&] { L::agglomerate(gr, p, f, li, lv); });
      if (a.o == O_OK) {
        if (f != f2c[l]) report("C06", task, op, "repeating the call on level %d gives a different partition", l);
        break;
      }
      if (!judge_failure(op, a)) return;
    }
  }

  void op_leak(Ctx &c, int op, int l, const Op &o) {
    if (g_baseline || !agg_done[l]) return;
    Rng r((uint64_t)o.b);
    const int which = (int)r.below(6);
    const CallParams &p = z.levels[l].p;
    const G &gr = graph(l);
    int64_t tot = 60;
    for (size_t k = 0; k < z.ops.size(); ++k)
      if (z.ops[k].level == l && z.ops[k].kind == (which == 4 ? OP_COARSE : OP_AGGLO) && Base && Base->rec[task][k].done)
        tot = Base->rec[task][k].allocs;
    if (which == 5) tot = 6;
    AllocFault af;
    static const int kinds[] = {AF_NONE, AF_ONE, AF_ONE, AF_ONE, AF_BURST, AF_FROM, AF_BIG};
    af.kind = kinds[r.below(7)];
    if (S->prop == "C28") af.kind = AF_EXIT;
    af.at = r.chance(0.2) ? r.below(40) : r.below(tot + 1);
    af.len = r.range(2, 6);
    af.size = 1ll << r.range(5, 10);
    CallParams q = p;
    const bool reject = which == 3 && r.chance(0.6);
    if (reject) {
      const int k = (int)r.below(4);
      if (k == 0) q.ar = 10;
      if (k == 1) q.seedt = 5;
      if (k == 2) q.iter = 7;
      if (k == 3) q.sing = 0;
      af.kind = AF_NONE;
    }
    ++R->leakprobes;
    int64_t mb[5], my[5];
    Outcome oc[5];
    for (int k = 0; k < 5; ++k) {
      {
        std::vector<I> f, li = lines_before[l].first, lv = lines_before[l].second;
        G out;
        std::vector<T> dist;
        std::vector<I> wall{0};
        std::vector<T> allowed{1, 2, 3, 4};
        const Att a = attempt(c, k == 0 ? op : -1, 0, which <= 3 ? step_bound((int64_t)gr.vol.size(), (int64_t)gr.col.size(), q) : 0, [&] {
          if (which <= 3) L::agglomerate(gr, q, f, li, lv);
          else if (which == 4) L::coarse(gr, f2c[l], out);
          else {
            L::wall(gr, wall, dist);
            L::filter(gr, allowed, f);
          }
        }, &af, k > 0);
        oc[k] = a.o;
        if (a.o != O_OK && !(a.o == O_INVALID && reject) && !judge_failure(op, a)) return;
      }
      mb[k] = heap_live_blocks();
      my[k] = heap_live_bytes();
    }
    for (int k = 2; k < 5; ++k)
      if (oc[k] == oc[1] && (mb[k] != mb[k - 1] || my[k] != my[k - 1])) {
        report("C05", task, op,
               "repeating the same %s call leaves %lld more blocks (%lld bytes) allocated each time",
               oc[k] == O_OK ? "successful" : "failing", (long long)(mb[k] - mb[k - 1]), (long long)(my[k] - my[k - 1]));
        return;
      }
  }

  // One small call, disturbed at every single allocation it makes, one after the other
  void op_sweep(Ctx &c, int op, const Op &o) {
    if (g_baseline) return;
    Rng r((uint64_t)o.a);
    const MeshSpec m = random_mesh(r, r.chance(0.5) ? 8 : 20, false);
    const LevelSpec ls = random_level(r, m, 0);
    CallParams p = ls.p;
    p.iter = std::min(p.iter, 2);
    const G gr = typed<I, W, T>(m);
    const int n = (int)gr.vol.size();
    std::vector<I> li0, lv0, f0, part, wall{(I)r.below(n)};
    const std::vector<T> allowed{(T)r.range(1, 4), (T)r.range(3, 6)};
    if (p.aniso && !p.build) {
      if (n < 3) p.aniso = 0;
      else make_path(gr, li0, lv0, r);
    }
    if (r.chance(0.5)) f0.assign((size_t)r.range(1, n + 3), (I)7);
    const int groups = (int)r.range(1, n);
    for (int k = 0; k < n; ++k) part.push_back((I)(k < groups ? k : r.below(groups)));
    const int which = (int)r.below(8);  // mostly agglomerations
    AllocFault af;
    af.kind = S->prop == "C28" ? AF_EXIT : S->prop == "C26" ? AF_HANDLER : r.chance(0.7) ? AF_ONE : AF_FROM;
    const int64_t lim = which < 5 ? step_bound(n, (int64_t)gr.col.size(), p) : utility_bound((size_t)n, gr.col.size());
    const uint64_t hin = hash_graph(gr);
    uint64_t ref = 0;
    const int64_t s0 = c.steps;
    int again = 0;
    int64_t blocks = 0, bytes = 0;
    Outcome last = O_OK;
    for (int64_t at = -1; c.steps - s0 < 40000000;) {
      Att a;
      uint64_t d = 0;
      bool same;
      {
        auto f = f0, li = li0, lv = lv0;
        G out;
        std::vector<T> dist;
        AllocFault x;
        if (at >= 0) x = af, x.at = at;
        a = attempt(c, op, (int)at + 1, lim, [&] {
          if (which < 5) L::agglomerate(gr, p, f, li, lv);
          else if (which == 5) L::coarse(gr, part, out);
          else if (which == 6) L::wall(gr, wall, dist);
          else L::filter(gr, allowed, f);
        }, &x);
        same = f == f0 && li == li0 && lv == lv0;
        if (which < 5) {
          d = hash_vec(5, f);
          if (p.aniso && eff_lines(p, li0, lv0)) d = hash_vec(hash_vec(d, li), lv);
        } else
          d = which == 5 ? hash_graph(out) : which == 6 ? hash_vec(5, dist) : hash_vec(5, f);
      }
      if (hash_graph(gr) != hin) {
        report(a.o == O_OK ? mismatch_prop() : "C03", task, op, "an input of the call was modified");
        dead = true;
        return;
      }
      if (a.o != O_OK) {
        if (!judge_failure(op, a)) return;
        if (which < 5 && !same) {
          report("C03", task, op, "call failed (%s) at allocation %lld, but an argument changed", a.what.c_str(),
                 (long long)at);
          dead = true;
          return;
        }
      } else if (at < 0)
        ref = d;
      else if (d != ref) {
        if (a.failed > 0)
          report("C04", task, op, "returned normally after a failed allocation with a different result");
        report(mismatch_prop(), task, op, "the result differs from that of the same call without trouble");
        dead = true;
        return;
      }
      const int64_t b1 = heap_live_blocks(), y1 = heap_live_bytes();
      if (at >= 0 && last == a.o && (b1 > blocks || y1 > bytes) && S->prop != "C26") {
        // the same again: a leak stays one
        if (++again > 4) {
          report("C05", task, op, "a %s call leaves %lld more blocks (%lld bytes) allocated each time",
                 a.o == O_OK ? "successful" : "failing", (long long)(b1 - blocks), (long long)(y1 - bytes));
          return;
        }
      } else
        again = 0;
      blocks = b1, bytes = y1, last = a.o;
      if (again) continue;
      if (at >= 0) {
        ++R->swept;
        if (af.kind == AF_HANDLER ? at >= a.allocs : a.o == O_OK && a.failed == 0) {
          ++R->sweeps;
          break;
        }
      }
      ++at;
    }
  }

  // ---------------------------------------------------------------- nested calls
  // Calls the host makes from its handlers; the digest of their results
  uint64_t nest_body(Ctx &c) {
    Rng r(S->nest);
    MeshSpec m = random_mesh(r, 20, false);
    const int cells = z.mesh.nx * z.mesh.ny * z.mesh.nz * (z.mesh.kind == 2 ? 2 : 1);
    if (cells <= 50 && r.chance(0.4)) {
      // almost the same mesh
      m = z.mesh;
      m.nx = std::max(1, m.nx - (int)r.below(2));
    }
    LevelSpec ls = random_level(r, m, 0);
    if (r.chance(0.6)) {
      // the same parameters, hence the same parts of the code
      const int dim = ls.p.dim;
      ls.p = z.levels[0].p;
      ls.p.dim = dim;
    }
    ls.p.iter = std::min(ls.p.iter, 2);
    const G gr = typed<I, W, T>(m);
    const int n = (int)gr.vol.size();
    std::vector<I> f, li, lv, wall{(I)r.below(n)};
    CallParams p = ls.p;
    if (p.aniso && !p.build) {
      if (n < 3) p.aniso = 0;
      else make_path(gr, li, lv, r);
    }
    std::vector<T> dist, allowed{(T)r.range(1, 4), (T)r.range(3, 6)};
    const int64_t lim = step_bound(n, (int64_t)gr.col.size(), p);
    uint64_t d = 1;
    if (r.chance(0.3)) {
      AllocFault one;
      one.kind = AF_ONE;
      one.at = r.below(200);
      auto f1 = f, li1 = li, lv1 = lv;
      const Att a = attempt(c, -1, 0, lim, [&] { L::agglomerate(gr, p, f1, li1, lv1); }, &one);
      if (a.o != O_OK && !(a.o == O_NOMEM && a.failed)) return 0;
    }
    AllocFault none;
    for (int k = 0; k < 4; ++k) {
      G out;
      std::vector<I> sel;
      const Att a = attempt(c, -1, 0, lim, [&] {
        if (k == 0) L::agglomerate(gr, p, f, li, lv);
        else if (k == 1) L::coarse(gr, f, out);
        else if (k == 2) L::wall(gr, wall, dist);
        else L::filter(gr, allowed, sel);
      }, &none);
      if (a.o != O_OK) return 0;
      d = mix(hash_vec(hash_vec(hash_vec(d, f), li), lv), mix(hash_graph(out), hash_vec(hash_vec(2, dist), sel)));
    }
    return d;
  }

  // ---------------------------------------------------------------- checkpoints
  bool resumed = false;
  template<class V>
  static void put(std::string &s, const V &v) {
    uint64_t n = v.size();
    s.append((const char *)&n, 8);
    s.append((const char *)v.data(), n * sizeof(typename V::value_type));
  }
  template<class V>
  static void get(const unsigned char *&p, V &v) {
    uint64_t n;
    memcpy(&n, p, 8);
    p += 8;
    v.resize(n);
    if (n) memcpy(v.data(), p, n * sizeof(typename V::value_type));
    p += n * sizeof(typename V::value_type);
  }
  void checkpoint(int next_op) {
    if (S->prop != "C19" || task != 0 || g_baseline) return;
    std::string s;
    const G &x = *g[avail];
    put(s, x.row), put(s, x.col), put(s, x.w), put(s, x.vol), put(s, x.prio), put(s, x.nbnd), put(s, x.compl_);
    for (size_t i = 0; i < x.vol.size(); ++i) put(s, x.ctr[i]);
    put(s, lidx), put(s, lines);
    if (s.size() + 16 > sizeof(R->ckpt)) return;
    memcpy(R->ckpt, s.data(), s.size());
    ++R->checkpoints;
    R->ckpt_len = next_op;
    R->ckpt_level = avail;
  }
  void resume_from(const Shared *b) {
    resumed = true;
    ++R->resumes;
    if (b->ckpt_level <= 0) return;
    const unsigned char *p = b->ckpt;
    auto x = std::make_unique<G>();
    get(p, x->row), get(p, x->col), get(p, x->w), get(p, x->vol), get(p, x->prio), get(p, x->nbnd), get(p, x->compl_);
    x->ctr.resize(x->vol.size());
    for (auto &ct : x->ctr) get(p, ct);
    get(p, lidx), get(p, lines);
    avail = b->ckpt_level;
    g[avail] = std::move(x);
    start_op = (int)b->ckpt_len;
    ++R->probe[0];
  }

  void run(Ctx &c) {
    std::function<void()> nest;
    if (S->nest && !g_baseline && S->ntasks == 1) {
      const uint64_t ref = nest_body(c);
      if (!ref) {
        report("ALL", task, -1, "a valid call failed");
        return;
      }
      nest = [this, &c, ref] {
        if (nest_body(c) != ref) {
          report("C26", task, -1, "a call made in the middle of another one fails, or its result differs");
          dead = true;
        }
      };
      g_nest = &nest;
    }
    for (int op = start_op; op < (int)z.ops.size() && op < MAXOPS && !dead; ++op) {
      const Op &o = z.ops[op];
      int l = o.level;
      entries = 0;
      if (o.kind == OP_AGGLO || o.kind == OP_COARSE) {
        if (l > avail || l >= (int)z.levels.size()) continue;
        if (l > 0 && !g[l]) continue;
      } else {
        l = std::min(l, avail);
        if (l > 0 && !g[l]) continue;
        if (l < avail && start_op > 0 && !g[l]) continue;
        if (l == 0 && start_op > 0) { /* level 0 graph is an input, always there */ }
      }
      if (S->readonly) freeze_drop();
      no_traps = S->traps && coincident(graph(l));
      switch (o.kind) {
        case OP_AGGLO:
          if (l < avail) continue;
          op_agglo(c, op, l);
          break;
        case OP_COARSE: op_coarse(c, op, l); break;
        case OP_WALL: op_wall(c, op, l, o); break;
        case OP_FILTER: op_filter(c, op, l, o); break;
        case OP_REJECT: op_reject(c, op, l, o); break;
        case OP_POLLUTE: op_pollute(c, op, l, o); break;
        case OP_PARTS: op_parts(c, op, l, o); break;
        case OP_SOAK: op_soak(c, op, o); break;
        case OP_SWEEP: op_sweep(c, op, o); break;
        case OP_REPEAT: op_repeat(c, op, std::min(l, (int)z.levels.size() - 1)); break;
        case OP_LEAK: op_leak(c, op, std::min(l, (int)z.levels.size() - 1), o); break;
        default: break;
      }
    }
    g_nest = nullptr;
  }
};

template<class I, class W, class T>
void exec_typed(const Scenario &s, int bt, const Shared *B, bool resume) {
  std::vector<std::unique_ptr<Zone<I, W, T>>> zs;
  const int nt = bt >= 0 ? 1 : s.ntasks;
  std::unique_ptr<Graph<I, W, T>> sh;
  if (s.share) sh = std::make_unique<Graph<I, W, T>>(typed<I, W, T>(s.zones[0].mesh));
  for (int k = 0; k < nt; ++k) {
    const int t = bt >= 0 ? bt : k;
    zs.push_back(std::make_unique<Zone<I, W, T>>(t, s.zones[t]));
    if (sh) zs.back()->shared0 = sh.get();
    else zs.back()->g[0] = std::make_unique<Graph<I, W, T>>(typed<I, W, T>(s.zones[t].mesh));
    if (resume) zs.back()->resume_from(R);
  }
  SchedPlan p;
  p.ntasks = nt;
  if (nt > 1) {
    p.explicit_ = s.xsched != 0;
    p.seed = s.sseed;
    p.quantum = s.quantum;
    p.gprob = s.gprob / 1000.;
    p.first = s.first;
    p.list = s.sw;
    p.stall_task = s.stall_task;
    if (s.stall_task >= 0 && B) {
      int64_t tot = 0;
      for (int k = 0; k < MAXOPS; ++k) tot += B->rec[s.stall_task][k].steps;
      p.stall_at = (int64_t)((double)s.stall_frac * 1e-6 * (double)tot);
    }
  }
  run_tasks(p, [&](Ctx &c) { zs[c.id]->run(c); });
}

}  // namespace

void execute(const Scenario &s, int bt, const Shared *B, bool resume) {
  S = &s;
  g_unwind_prop = s.prop == "C28" ? "C28" : nullptr;
  Base = B;
  g_baseline = bt >= 0;
  g_hash_salt = s.salt;
  sim_clock_config(bt >= 0 ? 0 : s.hseed);
  if (bt >= 0) heap_config(HM_UP, FM_ZERO, 1);
  else heap_config(s.hmode, s.hfill, s.hseed);
  stream_heal();
  g_ownexc = s.ownexc && !g_baseline;
  // the host's choices are the same in the baseline
  if (s.host) {
    static const int rm[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
    fesetround(rm[s.host & 3]);
    if (s.host & 4) __builtin_ia32_ldmxcsr(__builtin_ia32_stmxcsr() | 0x8040);
    if (s.host & 8) std::cout.setf(std::ios::hex, std::ios::basefield), std::cout.setf(std::ios::showbase | std::ios::boolalpha);
    if (s.host & 16) std::cout.precision(3), std::cout.fill('*');
    if (s.host & 32) std::locale::global(std::locale(std::locale::classic(), new Punct));
    if (s.host & 64) std::set_new_handler([] { throw std::bad_alloc(); });
    if (s.host & 128) std::set_terminate([] { abort(); });
  }
  switch (s.typ) {
    case 1: exec_typed<unsigned int, float, int>(s, bt, B, resume); break;
    case 2: exec_typed<long, double, long>(s, bt, B, resume); break;
    default: exec_typed<unsigned long, double, int>(s, bt, B, resume); break;
  }
  R->finished = 1;
}
