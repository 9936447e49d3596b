// Typed doors to the library under test.  The definitions (lib_*.cpp) are the
// only translation units that include the library, and the only instrumented
// ones.
#pragma once
#include <cstdint>
#include <vector>

template<class I, class W, class T>
struct Graph {
  std::vector<I> row, col;
  std::vector<W> w, vol;
  std::vector<std::vector<W>> ctr;
  std::vector<W> prio;
  std::vector<T> nbnd;
  std::vector<I> compl_;
};

struct CallParams {
  int dim = 2, goal = 4, min = 3, max = 5;
  int corr = 0, sing = 1, ar = 0, seedt = 0, iter = 1, neigh = 0;
  int aniso = 0, build = 1, odd = 1;
  double thr = 4.;
  int64_t maxc = -1;  // -1: not given
  int coup = 0, force = 1;
  int form = 0;  // 0 positional, 1 argument structures; 2, 3 the same, default values left out
};

template<class I, class W, class T>
struct Lib {
  using G = Graph<I, W, T>;
  static void agglomerate(
    const G &g, const CallParams &p, std::vector<I> &f2c, std::vector<I> &lidx, std::vector<I> &lines
  );
  static void coarse(const G &f, const std::vector<I> &f2c, G &c);
  static void wall(const G &g, const std::vector<I> &wall, std::vector<T> &dist);
  static void filter(const G &g, const std::vector<T> &allowed, std::vector<I> &out);
};
