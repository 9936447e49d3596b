#pragma once
#include "CoMMA/CoMMA.h"
#include "CoMMA/Util.h"
#include "lib.h"

template<class I, class W, class T>
void Lib<I, W, T>::agglomerate(
  const G &g, const CallParams &p, std::vector<I> &f2c, std::vector<I> &lidx, std::vector<I> &lines
) {
  using namespace comma;
  const std::optional<I> maxc =
    p.maxc < 0 ? std::optional<I>{} : std::optional<I>{static_cast<I>(p.maxc)};
  const auto seedt = static_cast<CoMMASeedsPoolT>(p.seedt);
  const auto ar = static_cast<CoMMAAspectRatioT>(p.ar);
  const auto coup = static_cast<CoMMACellCouplingT>(p.coup);
  const auto neigh = static_cast<CoMMANeighbourhoodT>(p.neigh);
  const auto goal = static_cast<T>(p.goal), min = static_cast<T>(p.min), max = static_cast<T>(p.max);
  const auto sing = static_cast<T>(p.sing), iter = static_cast<T>(p.iter), dim = static_cast<T>(p.dim);
  const auto thr = static_cast<W>(p.thr);
  const bool corr = p.corr != 0, aniso = p.aniso != 0, build = p.build != 0, odd = p.odd != 0, force = p.force != 0;
  // The last arguments are left out if they have the documented default values
  const auto given = [&](std::initializer_list<bool> is_default) {
    int n = (int)is_default.size();
    for (auto d = is_default.end(); n > 0 && *--d;) --n;
    return p.form >= 2 ? n : (int)is_default.size();
  };
  if (p.form % 2 == 1) {
    const GraphArgs<I, W, T> ga(g.row, g.col, g.w, g.vol, g.ctr, g.prio, g.nbnd, dim);
    using AA = AgglomerationArgs<I, W, T>;
    using AN = AnisotropicArgs<I, W, T>;
    const AA aa = [&] {
      switch (given({p.ar == 0, p.sing == 1, p.iter == 1, p.neigh == 0})) {
        case 0: return AA(goal, min, max, corr, seedt);
        case 1: return AA(goal, min, max, corr, seedt, ar);
        case 2: return AA(goal, min, max, corr, seedt, ar, sing);
        case 3: return AA(goal, min, max, corr, seedt, ar, sing, iter);
        default: return AA(goal, min, max, corr, seedt, ar, sing, iter, neigh);
      }
    }();
    const AN an = [&] {
      switch (given({build, odd, p.thr == 4., p.maxc < 0, p.coup == 0, force})) {
        case 0: return AN(aniso, g.compl_);
        case 1: return AN(aniso, g.compl_, build);
        case 2: return AN(aniso, g.compl_, build, odd);
        case 3: return AN(aniso, g.compl_, build, odd, thr);
        case 4: return AN(aniso, g.compl_, build, odd, thr, maxc);
        case 5: return AN(aniso, g.compl_, build, odd, thr, maxc, coup);
        default: return AN(aniso, g.compl_, build, odd, thr, maxc, coup, force);
      }
    }();
    agglomerate_one_level<I, W, T>(ga, aa, an, f2c, lidx, lines);
    return;
  }
  const auto call = [&](auto... last) {
    agglomerate_one_level<I, W, T>(
      g.row, g.col, g.w, g.vol, g.ctr, g.prio, g.compl_, g.nbnd, build, aniso, odd, thr, seedt, f2c, lidx, lines, corr,
      dim, goal, min, max, last...
    );
  };
  switch (given({p.ar == 0, p.sing == 1, p.maxc < 0, p.coup == 0, force, p.iter == 1, p.neigh == 0})) {
    case 0: call(); break;
    case 1: call(ar); break;
    case 2: call(ar, sing); break;
    case 3: call(ar, sing, maxc); break;
    case 4: call(ar, sing, maxc, coup); break;
    case 5: call(ar, sing, maxc, coup, force); break;
    case 6: call(ar, sing, maxc, coup, force, iter); break;
    default: call(ar, sing, maxc, coup, force, iter, neigh);
  }
}

template<class I, class W, class T>
void Lib<I, W, T>::coarse(const G &f, const std::vector<I> &f2c, G &c) {
  comma::build_coarse_graph<I, W, T>(
    f2c, f.row, f.col, f.w, f.vol, f.ctr, f.prio, f.nbnd, c.row, c.col, c.w, c.vol, c.ctr, c.prio, c.nbnd
  );
}

template<class I, class W, class T>
void Lib<I, W, T>::wall(const G &g, const std::vector<I> &wall, std::vector<T> &dist) {
  comma::compute_neighbourhood_based_wall_distance<I, T>(g.row, g.col, wall, dist);
}

template<class I, class W, class T>
void Lib<I, W, T>::filter(const G &g, const std::vector<T> &allowed, std::vector<I> &out) {
  const std::unordered_set<T> s(allowed.begin(), allowed.end());
  comma::filter_cells_by_n_edges<I, T>(g.row, g.nbnd, s, out);
}
