// A scenario is the complete, explicit description of one simulated execution:
// zones (meshes and programs), environment, fault plan and schedule.  Running a
// scenario involves no other source of choice.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

#include "lib.h"
#include "runtime.h"

struct MeshSpec {
  int kind = 0, nx = 3, ny = 3, nz = 1;
  uint64_t seed = 1;
  int order = 0;  // numbering of the cells: natural, reversed, shuffled
  int nbord = 0;  // order of the neighbours: sorted, shuffled
  int wmode = 0;  // edge weights: geometric, ones, random wide, ties
  int vmode = 0;  // measures: geometric, ones, random wide
  int cmode = 0;  // centres: geometric, random
  int pmode = 0;  // priorities: n-i, ones, zeros, negative, ties, mixed
  int bmode = 0;  // boundary faces: geometric, zeros, random
  int holes = 0;  // percentage of cells removed
  int cut = 0;  // percentage of edges removed
  int iso = 0;  // isolated cells added
  int comp = 0;  // compliant cells: all, random, first layer, none, one
  int stretch = 100;  // percentage, growth of the spacing along y
  int dim() const { return kind == 1 ? 3 : (kind >= 3 && nz > 1) ? 3 : 2; }
};

struct LevelSpec {
  CallParams p;
  int linemode = 0;  // lines given: 0 those of the previous level, 1 generated paths
  int linelen = 5;
  uint64_t lseed = 1;
};

enum OpKind {
  OP_AGGLO = 0,
  OP_COARSE,
  OP_WALL,
  OP_FILTER,
  OP_REJECT,
  OP_POLLUTE,
  OP_REPEAT,
  OP_LEAK,
  OP_SOAK,
  OP_PARTS,
  OP_SWEEP,
  OP_N
};
struct Op {
  int kind = 0, level = 0;
  int64_t a = 0, b = 0;
};

struct ZoneSpec {
  MeshSpec mesh;
  std::vector<LevelSpec> levels;
  std::vector<Op> ops;
  int dirty = 0;  // reused output buffers: 0 fresh, else seed of their content
};

struct Fault {
  int task = 0, op = 0, attempt = 0;
  int cls = 0;  // 0 heap, 1 standard output
  int kind = 0;
  int64_t at = -1;  // absolute position, or
  int frac = 0;  // millionths of the fault-free call; -2: `at` selects the place in the code
  int64_t len = 1, size = 0;
};

struct Scenario {
  std::string prop = "C07";
  uint64_t seed = 0;
  int typ = 0;
  uint64_t salt = 0;
  int hmode = 0, hfill = 0;
  uint64_t hseed = 1;
  int ntasks = 1;
  int share = 0;  // zones share the input graph of zone 0
  std::vector<ZoneSpec> zones;
  std::vector<Fault> faults;
  // schedule
  int xsched = 0;  // explicit list
  uint64_t sseed = 1;
  int64_t quantum = 1000;
  int gprob = 0;  // per mille
  int first = 0;
  int stall_task = -1, stall_frac = 0;
  std::vector<simrt::Switch> sw;
  // crash of the process (zone 0)
  int crash_op = -1, crash_frac = 0;
  int host = 0;  // state of the process the host chose, see execute()
  // points in the life of the process at which the programs run, see Life
  int life = 0;
  int traps = 0;  // floating-point exceptions that stop the process during a call
  int readonly = 0;  // inputs lie in write-protected memory during a call
  int ownexc = 0;  // the out-of-memory handler throws an exception of the host
  uint64_t nest = 0;  // calls the host makes in the middle of others

  std::string write() const;
  bool read(const std::string &text);
};

// huge: more cells than fit in 16 bits; 3: also more coarse cells
Scenario generate(const std::string &prop, uint64_t seed, int huge = 0);
MeshSpec random_mesh(simrt::Rng &r, int maxcells, bool plain);
LevelSpec random_level(simrt::Rng &r, const MeshSpec &m, int level);
