// What the C++ functions compute, reached without the Python module.
#include <cstring>
#include <exception>
#include <new>
#include <optional>
#include <stdexcept>
#include <type_traits>
#include <unordered_set>
#include <vector>

#include "CoMMA/CoMMA.h"
#include "CoMMA/CoMMAConfig.h"
#include "CoMMA/Util.h"

using namespace comma;  // NOLINT
using I = CoMMAIndexT;
using W = CoMMAWeightT;
using T = CoMMAIntT;
using S = std::make_signed<I>::type;

namespace {
// answer of the last call: integers and reals, one row per returned container
std::vector<std::vector<long long>> ri;
std::vector<std::vector<double>> rd;
template<class V>
void out(const V &v) { ri.emplace_back(v.begin(), v.end()); }
std::vector<std::vector<W>> split(const double *c, long n, long dim) {
  std::vector<std::vector<W>> r;
  for (long i = 0; i < n; ++i) r.emplace_back(c + i * dim, c + (i + 1) * dim);
  return r;
}
template<class F>
int guard(F &&f) {
  ri.clear(), rd.clear();
  try {
    f();
    return 0;
  } catch (const std::invalid_argument &) {
    return 1;
  } catch (const std::bad_alloc &) {
    return 2;
  } catch (...) {
    return 3;
  }
}
template<class V>
std::vector<V> vec(const V *p, long n) { return std::vector<V>(p, p + n); }
}  // namespace

extern "C" {
long ref_ni() { return (long)ri.size(); }
long ref_nd() { return (long)rd.size(); }
long ref_leni(long k) { return (long)ri[k].size(); }
long ref_lend(long k) { return (long)rd[k].size(); }
void ref_geti(long k, long long *o) { if (!ri[k].empty()) memcpy(o, ri[k].data(), ri[k].size() * sizeof(*o)); }
void ref_getd(long k, double *o) { if (!rd[k].empty()) memcpy(o, rd[k].data(), rd[k].size() * sizeof(*o)); }

int ref_agglo(
  const I *row, long nrow, const I *col, long ncol, const W *w, long nw, const W *vol, long nvol, const double *ctr,
  long nctr, long cdim, const W *prio, long nprio, const I *comp, long ncomp, const T *bnd, long nbnd, const I *li,
  long nli, const I *l, long nl, const int *p, double thr
) {
  return guard([&] {
    std::vector<I> f2c, lidx = vec(li, nli), lines = vec(l, nl);
    const std::optional<I> maxc = p[11] < 0 ? std::optional<I>{} : std::optional<I>{(I)p[11]};
    comma::agglomerate_one_level<I, W, T>(
      vec(row, nrow), vec(col, ncol), vec(w, nw), vec(vol, nvol), split(ctr, nctr, cdim), vec(prio, nprio),
      vec(comp, ncomp), vec(bnd, nbnd), p[0] != 0, p[1] != 0, p[2] != 0, thr, (CoMMASeedsPoolT)p[3], f2c, lidx, lines,
      p[4] != 0, p[5], p[6], p[7], p[8], (CoMMAAspectRatioT)p[9], p[10], maxc, (CoMMACellCouplingT)p[12], p[13] != 0,
      p[14], (CoMMANeighbourhoodT)p[15]
    );
    out(f2c), out(lidx), out(lines);
  });
}
int ref_wall(const I *row, long nrow, const I *col, long ncol, const I *wall, long nwall) {
  return guard([&] {
    std::vector<S> d;
    comma::compute_neighbourhood_based_wall_distance<I, S>(vec(row, nrow), vec(col, ncol), vec(wall, nwall), d);
    out(d);
  });
}
int ref_filter(const I *row, long nrow, const T *bnd, long nbnd, const T *al, long nal) {
  return guard([&] {
    std::vector<I> f;
    comma::filter_cells_by_n_edges<I, T>(vec(row, nrow), vec(bnd, nbnd), std::unordered_set<T>(al, al + nal), f);
    out(f);
  });
}
int ref_coarse(
  const I *f2c, long nf, const I *row, long nrow, const I *col, long ncol, const W *w, long nw, const W *vol, long nvol,
  const double *ctr, long nctr, long cdim, const W *prio, long nprio, const T *bnd, long nbnd
) {
  return guard([&] {
    std::vector<I> crow, ccol;
    std::vector<W> cw, cvol, cprio;
    std::vector<std::vector<W>> cctr;
    std::vector<T> cbnd;
    comma::build_coarse_graph<I, W, T>(
      vec(f2c, nf), vec(row, nrow), vec(col, ncol), vec(w, nw), vec(vol, nvol), split(ctr, nctr, cdim),
      vec(prio, nprio), vec(bnd, nbnd), crow, ccol, cw, cvol, cctr, cprio, cbnd
    );
    out(crow), out(ccol), out(cbnd);
    rd.push_back(cw), rd.push_back(cvol), rd.push_back(cprio);
    std::vector<double> flat;
    for (auto &c : cctr) flat.insert(flat.end(), c.begin(), c.end());
    rd.push_back(flat);
  });
}
}
