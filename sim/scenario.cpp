#include "scenario.h"

#include <sstream>

using simrt::Rng;

namespace {
template<class V>
void visit(V &v, MeshSpec &m) {
  v("kind", m.kind), v("nx", m.nx), v("ny", m.ny), v("nz", m.nz), v("seed", m.seed);
  v("order", m.order), v("nbord", m.nbord), v("wmode", m.wmode), v("vmode", m.vmode);
  v("cmode", m.cmode), v("pmode", m.pmode), v("bmode", m.bmode), v("holes", m.holes);
  v("cut", m.cut), v("iso", m.iso), v("comp", m.comp), v("stretch", m.stretch);
}
template<class V>
void visit(V &v, LevelSpec &l) {
  CallParams &p = l.p;
  v("dim", p.dim), v("goal", p.goal), v("min", p.min), v("max", p.max), v("corr", p.corr);
  v("sing", p.sing), v("ar", p.ar), v("seedt", p.seedt), v("iter", p.iter), v("neigh", p.neigh);
  v("aniso", p.aniso), v("build", p.build), v("odd", p.odd), v("thr", p.thr), v("maxc", p.maxc);
  v("coup", p.coup), v("force", p.force), v("form", p.form), v("linemode", l.linemode);
  v("linelen", l.linelen), v("lseed", l.lseed);
}
template<class V>
void visit(V &v, Op &o) {
  v("kind", o.kind), v("level", o.level), v("a", o.a), v("b", o.b);
}
template<class V>
void visit(V &v, Fault &f) {
  v("task", f.task), v("op", f.op), v("attempt", f.attempt), v("cls", f.cls), v("kind", f.kind);
  v("at", f.at), v("frac", f.frac), v("len", f.len), v("size", f.size);
}
template<class V>
void visit(V &v, simrt::Switch &s) {
  v("from", s.from), v("to", s.to), v("kind", s.kind), v("step", s.step);
}
template<class V>
void visit(V &v, Scenario &s) {
  v("prop", s.prop), v("seed", s.seed), v("typ", s.typ), v("salt", s.salt), v("hmode", s.hmode);
  v("hfill", s.hfill), v("hseed", s.hseed), v("ntasks", s.ntasks), v("share", s.share);
  v("xsched", s.xsched), v("sseed", s.sseed), v("quantum", s.quantum), v("gprob", s.gprob);
  v("first", s.first), v("stall_task", s.stall_task), v("stall_frac", s.stall_frac);
  v("crash_op", s.crash_op), v("crash_frac", s.crash_frac), v("host", s.host), v("nest", s.nest);
  v("life", s.life), v("traps", s.traps);
  v("readonly", s.readonly), v("ownexc", s.ownexc);
}
struct Writer {
  std::ostringstream o;
  template<class T>
  void operator()(const char *k, T &x) { o << ' ' << k << '=' << x; }
  void operator()(const char *k, int8_t &x) { o << ' ' << k << '=' << (int)x; }
};
struct Reader {
  std::istringstream &in;
  bool ok = true;
  template<class T>
  void get(T &x, const std::string &s) {
    std::istringstream i(s);
    i >> x;
    ok &= !i.fail();
  }
  void get(int8_t &x, const std::string &s) { x = (int8_t)std::stoi(s); }
  void get(std::string &x, const std::string &s) { x = s; }
  template<class T>
  void operator()(const char *k, T &x) {
    std::string tok;
    if (!(in >> tok)) { ok = false; return; }
    const auto p = tok.find('=');
    if (p == std::string::npos || tok.substr(0, p) != k) { ok = false; return; }
    get(x, tok.substr(p + 1));
  }
};
template<class T>
void line(std::string &out, const char *tag, const T &x) {
  Writer w;
  w.o.precision(17);
  visit(w, const_cast<T &>(x));
  out += tag + w.o.str() + "\n";
}
}  // namespace

std::string Scenario::write() const {
  std::string out;
  line(out, "scenario", *this);
  for (const auto &z : zones) {
    Writer w;
    out += "zone dirty=" + std::to_string(z.dirty) + "\n";
    line(out, "mesh", z.mesh);
    for (const auto &l : z.levels) line(out, "level", l);
    for (const auto &o : z.ops) line(out, "op", o);
  }
  for (const auto &f : faults) line(out, "fault", f);
  for (const auto &s : sw) line(out, "sw", s);
  return out;
}

bool Scenario::read(const std::string &text) {
  *this = Scenario{};
  std::istringstream all(text);
  std::string l;
  bool seen = false;
  while (std::getline(all, l)) {
    if (l.empty() || l[0] == '#') continue;
    std::istringstream in(l);
    std::string tag;
    in >> tag;
    Reader r{in};
    if (tag == "scenario") { visit(r, *this); seen = true; }
    else if (tag == "zone") { zones.emplace_back(); r("dirty", zones.back().dirty); }
    else if (tag == "mesh") { if (zones.empty()) return false; visit(r, zones.back().mesh); }
    else if (tag == "level") { if (zones.empty()) return false; zones.back().levels.emplace_back(); visit(r, zones.back().levels.back()); }
    else if (tag == "op") { if (zones.empty()) return false; zones.back().ops.emplace_back(); visit(r, zones.back().ops.back()); }
    else if (tag == "fault") { faults.emplace_back(); visit(r, faults.back()); }
    else if (tag == "sw") { sw.emplace_back(); visit(r, sw.back()); }
    else return false;
    if (!r.ok) return false;
  }
  return seen && (int)zones.size() >= ntasks && ntasks >= 1 && ntasks <= simrt::MAXTASK;
}

// ------------------------------------------------------------------ generation
MeshSpec random_mesh(Rng &r, int maxcells, bool plain) {
  MeshSpec m;
  static const int kinds[] = {0, 0, 0, 1, 2, 3, 3, 4, 5, 6};
  m.kind = kinds[r.below(10)];
  m.seed = r.next() >> 16;
  for (;;) {
    if (m.kind == 1) {
      m.nx = r.range(1, 5), m.ny = r.range(1, 6), m.nz = r.range(1, 5);
      if (m.nx * m.ny * m.nz <= maxcells) break;
    } else if (m.kind == 0) {
      m.nx = r.range(1, 9), m.ny = r.range(1, 14), m.nz = 1;
      if (m.nx * m.ny <= maxcells) break;
    } else if (m.kind == 2) {
      m.nx = r.range(1, 6), m.ny = r.range(1, 7), m.nz = 1;
      if (2 * m.nx * m.ny <= maxcells) break;
    } else {
      m.nx = r.range(1, maxcells), m.ny = r.range(0, 4), m.nz = r.range(1, 2);
      if (r.chance(0.6)) m.nx = 1 + m.nx / 3;
      break;
    }
  }
  m.order = r.below(3);
  m.nbord = r.below(2);
  const bool geo = m.kind <= 2;
  m.wmode = geo && r.chance(0.5) ? 0 : r.range(1, 3);
  m.vmode = geo && r.chance(0.5) ? 0 : r.range(1, 2);
  m.cmode = (geo || m.kind == 6) && r.chance(0.85) ? 0 : 1;
  m.pmode = r.below(6);
  m.bmode = r.chance(0.6) ? 0 : r.range(1, 2);
  m.stretch = r.chance(0.5) ? 100 : r.range(10, 400);
  m.comp = r.chance(0.6) ? 0 : r.range(1, 5);
  if (!plain) {
    if (r.chance(0.3)) m.holes = r.range(3, 40);
    if (r.chance(0.2)) m.cut = r.range(3, 40);
    if (r.chance(0.15)) m.iso = r.range(1, 3);
  }
  return m;
}

// The cost grows exponentially with the iterations, by design: the bound on the
// steps of a call assumes these limits.
static void cap_iterations(const MeshSpec &m, CallParams &p) {
  const int cells = m.kind == 1 ? m.nx * m.ny * m.nz : m.kind == 0 ? m.nx * m.ny : m.kind == 2 ? 2 * m.nx * m.ny : m.nx;
  const bool hub = m.kind == 5 && m.ny % 2;
  if (p.iter == 4 && cells > (hub ? 8 : 16)) p.iter = 3;
  if (p.iter == 3 && cells > (hub ? 12 : 36)) p.iter = 2;
  if (p.iter > 2 && p.max > 11) p.iter = 2;
  if (cells > 75) p.iter = 1;
}

LevelSpec random_level(Rng &r, const MeshSpec &m, int level) {
  LevelSpec l;
  CallParams &p = l.p;
  p.dim = m.dim();
  if (r.chance(0.1)) p.dim = 5 - p.dim;
  p.min = r.range(2, 5);
  p.goal = p.min + (int)r.below(4);
  p.max = p.goal + (int)r.below(4);
  if (r.chance(0.1)) p.min = r.range(2, 12), p.goal = p.min + (int)r.below(12), p.max = p.goal + (int)r.below(12);
  if (r.chance(0.03)) p.min = r.range(2, 40), p.goal = p.min + (int)r.below(50), p.max = p.goal + (int)r.below(50);
  if (m.kind == 6 && r.chance(0.6)) p.min = p.goal = p.max = 2 + m.ny % 3;
  p.corr = r.chance(0.6);
  p.sing = r.chance(0.4) ? 1 : (int)r.range(1, p.min + 1);
  p.ar = r.chance(0.3) ? 0 : (int)r.below(10);
  static const int st[] = {0, 1, 10, 11};
  p.seedt = st[r.below(4)];
  p.iter = r.chance(0.65) ? 1 : (int)r.range(2, 4);
  cap_iterations(m, p);
  p.neigh = r.below(2);
  p.aniso = r.chance(0.5);
  p.build = level == 0 ? r.chance(0.75) : r.chance(0.15);
  p.odd = r.below(2);
  static const double th[] = {-1., -1., 0., 0.25, 1., 1.5, 2., 4., 10.};
  p.thr = th[r.below(9)];
  p.maxc = r.chance(0.5) ? -1 : (int)r.range(1, 9);
  if (p.build && r.chance(0.03)) p.maxc = 0;
  p.coup = r.chance(0.6) ? 0 : 1;
  if (r.chance(0.03)) p.coup = 7;
  p.force = r.below(2);
  p.form = r.below(4);
  if (p.form >= 2 && r.chance(0.6)) {
    // default values, left out of the call
    int k = (int)r.below(8);
    const auto at = [&k] { return --k < 0; };
    if (p.form == 2) {
      if (at()) p.ar = 0;
      if (at()) p.sing = 1;
      if (at()) p.maxc = -1;
      if (at()) p.coup = 0;
      if (at()) p.force = 1;
      if (at()) p.iter = 1;
      if (at()) p.neigh = 0;
    } else {
      if (at()) p.ar = 0;
      if (at()) p.sing = 1;
      if (at()) p.iter = 1;
      if (at()) p.neigh = 0;
      k = (int)r.below(7);
      if (at() && level == 0) p.build = 1;
      if (at()) p.odd = 1;
      if (at()) p.thr = 4.;
      if (at()) p.maxc = -1;
      if (at()) p.coup = 0;
      if (at()) p.force = 1;
    }
  }
  l.linemode = level == 0 ? 1 : r.chance(0.2);
  l.linelen = r.range(1, 9);
  l.lseed = r.next() >> 16;
  return l;
}

namespace {
int random_reject(Rng &r) { return (int)r.below(30); }

ZoneSpec random_zone(Rng &r, int maxcells, int maxlevels, double p_aniso) {
  ZoneSpec z;
  z.mesh = random_mesh(r, maxcells, false);
  const int nl = (int)r.range(1, maxlevels);
  const bool keep_aniso = r.chance(0.75);
  for (int l = 0; l < nl; ++l) {
    z.levels.push_back(random_level(r, z.mesh, l));
    auto &p = z.levels.back().p;
    p.aniso = r.chance(p_aniso);
    if (l > 0) {
      p.dim = z.levels[0].p.dim;
      if (keep_aniso && z.levels[l - 1].p.aniso) p.aniso = 1, p.build = 0;
    }
  }
  for (int l = 0; l < nl; ++l) {
    z.ops.push_back({OP_AGGLO, l, 0, 0});
    z.ops.push_back({OP_COARSE, l, 0, 0});
  }
  return z;
}
void add_op(Rng &r, ZoneSpec &z, int kind, double p) {
  // somewhere in the program; the level must exist at that point
  if (!r.chance(p)) return;
  if ((int)z.ops.size() > simrt::MAXOPS - 4) return;
  const size_t pos = r.below((int64_t)z.ops.size() + 1);
  int agg = -1, coarse = 0;
  for (size_t i = 0; i < pos; ++i) {
    if (z.ops[i].kind == OP_AGGLO) agg = z.ops[i].level;
    if (z.ops[i].kind == OP_COARSE) coarse = z.ops[i].level + 1;
  }
  Op o;
  o.kind = kind;
  o.level = coarse;
  o.a = (int64_t)(r.next() >> 16);
  o.b = (int64_t)(r.next() >> 16);
  if (kind == OP_REPEAT || kind == OP_LEAK) {
    if (agg < 0) return;
    o.level = agg;
  }
  if (kind == OP_REJECT) o.a = random_reject(r);
  z.ops.insert(z.ops.begin() + pos, o);
}
void add_alloc_fault(Rng &r, Scenario &s, int task, int op, int attempt) {
  Fault f;
  f.task = task, f.op = op, f.attempt = attempt, f.cls = 0;
  static const int kinds[] = {
    simrt::AF_ONE, simrt::AF_ONE, simrt::AF_ONE, simrt::AF_BURST, simrt::AF_FROM, simrt::AF_BIG};
  f.kind = kinds[r.below(6)];
  // at any place of the code that allocates, uniformly over the call, or near
  // its beginning or its end
  const int where = (int)r.below(10);
  if (where >= 5)
    f.at = r.below(1 << 30), f.frac = -2;
  else if (where == 0)
    f.at = r.below(60), f.frac = -1;
  else if (where == 1)
    f.frac = 1000000 - (int)r.below(30000);
  else
    f.frac = (int)r.below(1000000);
  f.len = r.range(2, 8);
  f.size = 1ll << r.range(5, 11);
  s.faults.push_back(f);
}
void add_stream_fault(Rng &r, Scenario &s, int task, int op, int attempt) {
  Fault f;
  f.task = task, f.op = op, f.attempt = attempt, f.cls = 1;
  f.kind = (int)r.range(1, simrt::SF_CLOSED);
  f.frac = r.chance(0.4) ? 0 : (int)r.below(1000000);
  s.faults.push_back(f);
}
void faults_on_ops(Rng &r, Scenario &s, double density, int maxatt) {
  for (int t = 0; t < s.ntasks; ++t)
    for (size_t o = 0; o < s.zones[t].ops.size(); ++o) {
      if (s.zones[t].ops[o].kind == OP_LEAK || s.zones[t].ops[o].kind == OP_SWEEP) continue;
      for (int a = 0; a < maxatt; ++a) {
        if (!r.chance(density)) break;
        add_alloc_fault(r, s, t, (int)o, a);
      }
    }
}
}  // namespace

Scenario generate(const std::string &prop, uint64_t seed, int huge) {
  Scenario s;
  s.prop = prop;
  s.seed = seed;
  uint64_t h = 0;
  for (char c : prop) h = simrt::mix(h, (uint64_t)c);
  Rng r(simrt::mix(seed, h));
  // swarm: each run draws its own feature mix
  static const int sizes[] = {6, 12, 24, 40, 40, 70};
  int maxcells = sizes[r.below(6)];
  const int t = (int)r.below(10);
  s.typ = t < 6 ? 0 : t < 8 ? 1 : 2;
  s.salt = r.chance(0.5) ? 0 : (r.next() >> 16) | 1;
  s.hseed = r.next() >> 16;
  s.hmode = (int)r.below(simrt::HM_N);
  s.hfill = (int)r.below(simrt::FM_N);
  const bool faulty = r.chance(0.5);
  double pa = 0.5;
  int maxlev = 3;
  const bool crowd = prop == "C28" && r.chance(0.4);
  if (prop == "C01" || prop == "C02" || crowd) {
    const bool multi = prop == "C01" || crowd || (!huge && r.chance(0.5));
    s.ntasks = multi ? (int)r.range(2, r.chance(0.3) ? 4 : 2) : 1;
    if (s.ntasks > 1) maxcells = std::min(maxcells, 30);
    s.share = r.chance(0.3);
    s.sseed = r.next() >> 16;
    static const int64_t q[] = {30, 200, 1000, 5000, 20000, 80000};
    s.quantum = q[r.below(6)];
    static const int gp[] = {0, 20, 100, 300, 700};
    s.gprob = gp[r.below(5)];
    s.first = (int)r.below(s.ntasks);
    maxlev = 2;
    if (prop == "C02" && multi) {
      s.stall_task = (int)r.below(s.ntasks);
      s.stall_frac = (int)r.below(1000000);
    }
    if (prop == "C02" && !multi) maxcells = 70, maxlev = 3;
  }
  if (prop == "C23") maxlev = 1, maxcells = 70;
  if (prop == "C24") maxlev = 18, maxcells = std::min(maxcells, 40);
  if (prop == "C29") {
    static const int at[] = {1, 4, 8, 8, 12, 9};
    s.life = at[r.below(6)];
    if (s.life != 1 ? r.chance(0.7) : r.chance(0.3)) s.life |= 2;
    if ((s.life & 4) && r.chance(0.7)) s.life |= 16;
    maxcells = std::min(maxcells, 40), maxlev = 2;
  }
  if (prop == "C30") s.traps = r.chance(0.7) ? 7 : 1 + (int)r.below(7);
  if (prop == "C31") s.readonly = 1;
  if (prop == "C03" || prop == "C04") s.ownexc = seed % 3 == 0;
  if (prop == "C25") s.host = (int)r.below(256);
  if (prop == "C26") s.nest = 1 + r.below(1ll << 40), maxcells = std::min(maxcells, 40);
  if (prop == "C11" || prop == "C12") pa = 0.95;
  if (prop == "C19") maxlev = 4, maxcells = std::max(maxcells, 24);
  if (prop == "C09" || prop == "C10") pa = 0.3;
  for (int k = 0; k < s.ntasks; ++k) {
    s.zones.push_back(random_zone(r, maxcells, maxlev, pa));
    auto &z = s.zones.back();
    if (prop == "C01" || prop == "C26") {
      if (k > 0 && r.chance(0.5))
        // the same parameters, hence the same parts of the code
        for (size_t l = 0; l < z.levels.size(); ++l) {
          const int dim = z.levels[l].p.dim;
          z.levels[l].p = s.zones[0].levels[std::min(l, s.zones[0].levels.size() - 1)].p;
          z.levels[l].p.dim = dim;
          cap_iterations(z.mesh, z.levels[l].p);
        }
      else if (r.chance(prop == "C26" ? 0.35 : 0.2))
        // many small coarse cells to correct
        for (auto &l : z.levels) {
          l.p.min = (int)r.range(3, 7), l.p.goal = l.p.min, l.p.max = l.p.min + (int)r.below(2);
          l.p.corr = 1, l.p.sing = l.p.min - 1;
          if (r.chance(0.5)) l.p.aniso = 0;
        }
    }
    if (s.share && k > 0) {
      z.mesh = s.zones[0].mesh;
      for (auto &l : z.levels) {
        l.p.dim = s.zones[0].levels[0].p.dim;
        cap_iterations(z.mesh, l.p);
      }
    }
    if (s.ntasks == 1 && r.chance(0.06)) {
      // containers that outgrow one block: a cell with very many neighbours, a
      // very long row of cells, a long line between isotropic cells
      const int shape = (int)r.below(3);
      z.mesh.kind = shape == 0 ? 5 : 0;
      z.mesh.nx = shape == 0 ? (int)r.range(70, 200) : shape == 1 ? (int)r.range(1, 2) : 3;
      z.mesh.ny = shape == 0 ? 1 : shape == 1 ? (int)r.range(70, 150) : (int)r.range(60, 110);
      if (shape == 2) {
        z.mesh.comp = 5, z.mesh.cmode = 0;
        z.levels[0].p.aniso = z.levels[0].p.build = 1;
        if (r.chance(0.7)) z.levels[0].p.maxc = -1;
      }
      z.mesh.nz = 1;
      z.mesh.holes = z.mesh.cut = 0;
      for (auto &l : z.levels) {
        l.p.dim = 2;
        l.p.iter = 1;
        if (r.chance(0.5)) l.p.thr = -1;
      }
    }
    // the utilities alone are cheap enough for a larger mesh every time
    const bool only_utils = s.ntasks == 1 && (prop == "C02" || prop == "C14") && r.chance(0.12);
    if (only_utils || (s.ntasks == 1 && r.chance(0.003))) {
      // more cells and coarse cells than fit in a byte
      const bool cube = r.chance(0.5);
      z.mesh.kind = cube ? 1 : 0;
      z.mesh.nx = cube ? (int)r.range(7, 9) : (int)r.range(12, 24);
      z.mesh.ny = cube ? (int)r.range(7, 9) : (int)r.range(20, 30);
      z.mesh.nz = cube ? (int)r.range(7, 9) : 1;
      while (z.levels.size() > 2) z.levels.pop_back();
      z.ops.resize(2 * z.levels.size());
      for (auto &l : z.levels) l.p.dim = z.mesh.dim(), l.p.iter = 1;
      if (only_utils) {
        z.ops.clear();
        add_op(r, z, OP_WALL, 1.), add_op(r, z, OP_FILTER, 0.5);
      }
    }
    if (huge == 4) {
      // more of everything than fits in a byte: levels, singular cells, lines
      auto &m = z.mesh;
      m.kind = (int)r.below(6);
      if (m.kind == 5) m.kind = 4;
      m.ny = m.nz = 1;
      switch (m.kind) {
        case 0: m.nx = (int)r.range(40, 90), m.ny = (int)r.range(50, 110); break;
        case 1: m.nx = (int)r.range(10, 20), m.ny = (int)r.range(10, 20), m.nz = (int)r.range(10, 20); break;
        case 2: m.nx = (int)r.range(30, 65), m.ny = (int)r.range(30, 65); break;
        default: m.nx = (int)r.range(2000, 8000), m.ny = m.kind == 3 ? (int)r.below(3) : 0; break;
      }
      // or coarse cells of some hundred cells
      const bool large = r.chance(prop == "C09" || prop == "C10" ? 0.5 : 0.25);
      if (large) {
        if (m.kind < 3) m.nx = m.kind == 1 ? 6 : 20, m.ny = m.kind == 1 ? (int)r.range(10, 12) : (int)r.range(25, 40);
        else m.nx = (int)r.range(500, 900);
      }
      if (m.kind < 3) m.holes = (int)r.below(large ? 10 : 35), m.cut = (int)r.below(large ? 10 : 25);
      else m.holes = m.cut = 0;
      if (z.levels.size() > 3) z.levels.resize(3);
      z.ops.resize(2 * z.levels.size());
      for (auto &l : z.levels) {
        auto &p = l.p;
        p.dim = m.dim(), p.iter = 1;
        if (p.max > 9) p.min = 3, p.goal = 4, p.max = 6;
        if (large) {
          p.min = (int)(r.chance(0.4) ? r.range(2, 300) : r.range(257, 290));
          p.goal = p.min + (int)r.below(r.chance(0.5) ? 4 : 60), p.max = p.goal + (int)r.below(r.chance(0.5) ? 4 : 60);
        }
        if (r.chance(0.8)) p.corr = 1, p.sing = (int)r.range(1, p.min - 1);
        if (p.maxc > 0 && r.chance(0.5)) p.maxc *= 40;
        l.linelen = (int)(r.chance(0.8) ? r.range(2, 20) : r.range(2, 700));
      }
      if (prop == "C11" || prop == "C12" ? r.chance(0.5) : r.chance(0.1)) {
        // long lines, with and without a limit
        m.kind = 0, m.nx = (int)r.range(1, 3), m.ny = (int)r.range(300, 1500), m.nz = 1;
        if (r.chance(0.7)) m.holes = m.cut = 0;
        for (auto &l : z.levels) {
          l.p.dim = 2, l.p.aniso = 1;
          if (r.chance(0.7)) l.p.thr = -1;
          l.p.maxc = r.chance(0.3) ? -1 : (int)r.range(100, 900);
          l.linelen = (int)r.range(100, 1500);
        }
      }
    } else if (huge) {
      auto &m = z.mesh;
      m.kind = 0, m.nz = 1;
      m.holes = m.cut = 0;
      const int shape = prop == "C14" ? 1 : (int)r.below(3);
      m.nx = shape == 0 ? (int)r.range(250, 300) : shape;
      m.ny = shape == 0 ? (int)r.range(265, 300) : shape == 1 ? (int)r.range(67000, 75000) : (int)r.range(34000, 37000);
      if (r.chance(0.5)) m.order = 0;
      z.levels.resize(1);
      z.ops.resize(2);
      auto &p = z.levels[0].p;
      p.dim = 2, p.iter = 1;
      p.max = std::min(p.max, 6), p.goal = std::min(p.goal, p.max), p.min = std::min(p.min, p.goal);
      if (r.chance(0.5)) p.min = p.goal = p.max = 2;
      if (shape == 2) m.comp = 0;
      if (p.aniso && r.chance(0.5)) p.maxc = r.chance(0.5) ? -1 : (int)r.range(200, 70000), p.thr = -1;
      z.levels[0].linelen = (int)(r.chance(0.5) ? r.range(2, 8) : r.range(2, 40000));
      if (prop == "C13" || prop == "C14") {
        z.ops.clear();
        for (int i = 0; i < 2; ++i) {
          Op o;
          o.kind = prop == "C13" ? OP_PARTS : OP_WALL;
          o.a = (int64_t)(r.next() >> 16);
          o.b = prop == "C13" ? (i == 0 ? 0 : r.below(5)) : 1 - i;
          z.ops.push_back(o);
        }
      } else if (huge == 3) {
        m.nx = 2, m.ny = (int)r.range(66500, 72000);
        m.comp = 0;
        p.min = p.goal = p.max = 2;
        if (prop == "C11" || prop == "C12" || (p.aniso && r.chance(0.5))) {
          p.aniso = 1, p.build = 0, p.thr = -1, p.maxc = -1;
          z.levels[0].linemode = 1;
          z.levels[0].linelen = (int)r.range(2, 8);
          m.nx = 1, m.ny *= 2, m.order = 0;
        }
      }
    }
    if (prop == "C23" && !huge && r.chance(0.2)) {
      // large enough to tell linear from quadratic
      auto &m = z.mesh;
      m.kind = (int)r.below(6);
      m.ny = m.nz = 1;
      m.holes = m.cut = 0;
      const bool hub = m.kind == 5 && r.chance(0.5);
      switch (m.kind) {
        case 0: r.chance(0.5) ? (m.nx = (int)r.range(1, 2), m.ny = (int)r.range(700, 3000)) : (m.nx = (int)r.range(15, 40), m.ny = (int)r.range(20, 60)); break;
        case 1: m.nx = (int)r.range(6, 12), m.ny = (int)r.range(6, 12), m.nz = (int)r.range(6, 12); break;
        case 2: m.nx = (int)r.range(15, 30), m.ny = (int)r.range(15, 40); break;
        default: m.nx = hub ? (int)r.range(200, 500) : (int)r.range(500, 2500), m.ny = hub; break;
      }
      for (auto &l : z.levels) l.p.dim = m.dim(), l.p.iter = 1, l.linelen = (int)r.range(2, 400);
    }
    z.dirty = r.chance(0.5) ? 0 : (int)r.range(1, 1000000);
    if (prop == "C10")
      for (auto &l : z.levels) l.p.corr = 1;
    if (prop == "C30") {
      for (auto &l : z.levels)
        if (l.p.thr == 0.) l.p.thr = 0.5;  // its inverse is asked for
      // the cube of the square of a volume times a length is computed
      if (z.mesh.stretch < 60 || z.mesh.stretch > 160 || z.mesh.ny > 15) s.typ = 0;
    }
    if (prop == "C16" || prop == "C04" || prop == "C03" || prop == "C25" || prop == "C26" || prop == "C28" || prop == "C29")
      for (auto &l : z.levels) {
        // parametrisations that print
        if (r.chance(0.5)) l.p.sing = l.p.min + (int)r.below(2);
        if (r.chance(0.4)) l.p.aniso = 1;
        if (r.chance(0.2)) l.p.coup = 7;
      }
    // side operations
    add_op(r, z, OP_WALL, prop == "C14" ? 1. : s.ntasks > 1 || prop == "C02" || prop == "C23" ? 0.4 : 0.15);
    add_op(r, z, OP_FILTER, prop == "C14" ? 1. : s.ntasks > 1 || prop == "C02" ? 0.4 : 0.15);
    if (prop == "C14") {
      add_op(r, z, OP_WALL, 0.8), add_op(r, z, OP_WALL, 0.5);
      add_op(r, z, OP_FILTER, 0.8), add_op(r, z, OP_FILTER, 0.5);
    }
    add_op(r, z, OP_REJECT, prop == "C15" ? 1. : 0.2);
    if (prop == "C15")
      for (int i = 0; i < 5; ++i) add_op(r, z, OP_REJECT, 0.9);
    add_op(r, z, OP_POLLUTE, prop == "C06" ? 0.8 : prop == "C13" || prop == "C14" || prop == "C15" ? 0.5 : 0.2);
    if (prop == "C06") add_op(r, z, OP_POLLUTE, 0.5), add_op(r, z, OP_POLLUTE, 0.5);
    if (!huge) add_op(r, z, OP_PARTS, prop == "C13" ? 0.6 : 0.05);
    add_op(r, z, OP_REPEAT, prop == "C06" ? 0.8 : 0.1);
    if (s.ntasks == 1 && prop == "C06" && r.chance(0.01)) {
      Op o;
      o.kind = OP_SOAK;
      o.a = (int64_t)(r.next() >> 16);
      o.b = r.range(6, 13);
      z.ops.insert(z.ops.begin(), o);
    }
    if (s.ntasks == 1 && (prop == "C03" || prop == "C04" || prop == "C05" || prop == "C17" || prop == "C25" || prop == "C26" || prop == "C28"))
      add_op(r, z, OP_SWEEP, prop == "C25" || prop == "C26" ? 0.01 : 0.04);
    if (prop == "C05")
      for (int i = 0; i < 4; ++i) add_op(r, z, OP_LEAK, 0.9);
    if (prop == "C28" && !crowd) add_op(r, z, OP_LEAK, 0.7), add_op(r, z, OP_LEAK, 0.4);
  }
  // faults
  if (prop == "C23") {
    // most calls have the memory they are entitled to, some have less
    for (size_t o = 0; o < s.zones[0].ops.size(); ++o)
      if (r.chance(0.15)) {
        Fault f;
        f.op = (int)o, f.cls = 0, f.kind = simrt::AF_QUOTA;
        f.at = 0, f.size = r.range(1, 300);
        s.faults.push_back(f);
      }
  } else if (prop == "C26") {
    for (size_t o = 0; o < s.zones[0].ops.size(); ++o) {
      Fault f;
      f.op = (int)o;
      if (r.chance(0.5)) {
        f.cls = 0, f.kind = simrt::AF_HANDLER;
        if (r.chance(0.7)) f.frac = -2, f.at = r.below(1ll << 40);
        else f.frac = (int)r.below(1000000);
        f.len = r.chance(0.6) ? 1 : r.range(2, 16);
        f.size = r.chance(0.5) ? 1 : r.range(1, 40);  // every how many allocations
        s.faults.push_back(f);
      }
      if (r.chance(0.5)) {
        f.cls = 1, f.kind = simrt::SF_NESTED, f.len = 1;
        f.at = -1, f.frac = (int)r.below(1000000);
        s.faults.push_back(f);
      }
    }
  } else if (prop == "C28") {
    for (int t = 0; t < s.ntasks; ++t)
      for (size_t o = 0; o < s.zones[t].ops.size(); ++o)
        for (int a = 0; a < 2; ++a) {
          Fault f;
          f.task = t, f.op = (int)o, f.attempt = a;
          if (!r.chance(s.ntasks > 1 ? 0.5 : 0.7)) break;
          if (s.ntasks == 1 && r.chance(0.35)) {
            f.cls = 1, f.kind = simrt::SF_EXIT;
            f.at = -1, f.frac = (int)r.below(1000000);
            s.faults.push_back(f);
            continue;
          }
          f.cls = 0, f.kind = simrt::AF_EXIT;
          if (r.chance(0.7)) f.frac = -2, f.at = r.below(1ll << 40);
          else f.frac = (int)r.below(1000000);
          s.faults.push_back(f);
        }
  } else if (prop == "C25") {
    faults_on_ops(r, s, 0.5, 2);
    for (size_t o = 0; o < s.zones[0].ops.size(); ++o)
      if (r.chance(0.2)) add_stream_fault(r, s, 0, (int)o, 0);
  } else if (prop == "C03" || prop == "C04")
    faults_on_ops(r, s, 0.8, 4);
  else if (prop == "C16") {
    for (size_t o = 0; o < s.zones[0].ops.size(); ++o)
      for (int a = 0; a < 3; ++a)
        if (r.chance(0.7))
          add_stream_fault(r, s, 0, (int)o, a);
        else
          break;
  } else if (prop == "C19") {
    s.crash_op = (int)r.below((int64_t)s.zones[0].ops.size());
    s.crash_frac = (int)r.below(1000000);
    if (faulty) faults_on_ops(r, s, 0.15, 2);
  } else if (prop == "C06")
    faults_on_ops(r, s, faulty ? 0.4 : 0., 2);
  else if (faulty)
    faults_on_ops(r, s, 0.25, 2);
  if (prop == "C03" && r.chance(0.4))
    for (size_t o = 0; o < s.zones[0].ops.size(); ++o)
      if (r.chance(0.4)) {
        bool has = false;
        for (auto &f : s.faults) has |= f.op == (int)o && f.attempt == 0;
        if (!has) add_stream_fault(r, s, 0, (int)o, 0);
      }
  return s;
}
