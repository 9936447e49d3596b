#!/usr/bin/env python3
"""Seeded executions of programs that use the Python module, with allocation
failures inside the module, a failing standard output, and sequences that raise
or call the module themselves while they are being read.

  pysim.py run DIR PROP SEED START STRIDE SECONDS PREFIX [MAXRUNS]
  pysim.py replay DIR FILE
  pysim.py min DIR FILE OUT SECONDS
DIR holds the module, the seam and the reference. The interpreter must have been
started with the seam preloaded."""
import array, copy, ctypes, gc, hashlib, json, os, pickle, random, resource, signal, struct, sys, threading, time

SEEDT = {0: "BOUNDARY", 1: "NEIGHBOURHOOD", 10: "BOUNDARY_POINT_INIT", 11: "NEIGHBOURHOOD_POINT_INIT"}
AR = ["DIAMETER_OVER_RADIUS", "DIAMETER_OVER_MIN_EDGE", "DIAMETER", "ONE_OVER_MEASURE", "ONE_OVER_INTERNAL_WEIGHTS",
      "PERIMETER_OVER_RADIUS", "EXTERNAL_WEIGHTS", "MAX_BARY_DIST_OVER_RADIUS", "MAX_OVER_MIN_BARY_DIST",
      "ALGEBRAIC_PERIMETER_OVER_MEASURE"]
KINDS = {1: "alloc_one", 2: "alloc_burst", 3: "alloc_from", 4: "alloc_big", 5: "argument_raises", 6: "argument_calls",
         7: "wrong_element"}
# what a call may raise because of the fault; the number that raises is taken for one that cannot be converted
FAILS = {5: ("HostError", "TypeError"), 6: (), 7: ("TypeError",)}
mod = shim = ref = None
ARG_NAMES = ["adjMatrix_row_ptr", "adjMatrix_col_ind", "adjMatrix_areaValues", "volumes", "centers", "priority_weights",
             "anisotropicCompliantCells", "n_bnd_faces", "build_anisotropic_lines", "is_anisotropic", "odd_line_length",
             "threshold_anisotropy", "seed_ordering_type", "agglomerationLines_Idx", "agglomerationLines", "correction",
             "dimension", "goal_card", "min_card", "max_card", "aspect_ratio", "singular_card_thresh",
             "max_cells_in_line", "aniso_cell_coupling", "force_line_direction", "fc_choice_iter",
             "type_of_isotropic_agglomeration"]


def load(d):
    global mod, shim, ref
    shim = ctypes.CDLL(os.path.join(d, "shim.so"))
    shim.shim_arm.argtypes = [ctypes.c_int] + [ctypes.c_int64] * 3
    shim.shim_disarm.restype = ctypes.c_int64
    shim.shim_fired.restype = ctypes.c_int64
    shim.shim_live.restype = ctypes.c_int64
    ref = ctypes.CDLL(os.path.join(d, "ref.so"))
    sys.path.insert(0, d)
    import CoMMA
    mod = CoMMA


# ---------------------------------------------------------------- generation
def mesh(r):
    kind = r.choice(["2d", "2d", "3d", "graph"])
    m = {"kind": kind, "seed": r.getrandbits(32), "nx": r.randint(1, 7), "ny": r.randint(1, 7), "nz": 1,
         "stretch": r.choice([1.0, 0.1, 4.0, 10.0]), "prio": r.randint(0, 3), "drop": r.choice([0, 0, 0, 5, 20]),
         "wmode": r.randint(0, 1), "bnd": r.randint(0, 1)}
    if kind == "3d":
        m["nx"], m["ny"], m["nz"] = r.randint(1, 3), r.randint(1, 4), r.randint(1, 4)
    return m


def make_mesh(m):
    r = random.Random(m["seed"])
    nx, ny, nz = m["nx"], m["ny"], m["nz"]
    n = nx * ny * nz
    dim = 3 if m["kind"] == "3d" else 2
    h = [1.0, m["stretch"], 1.0]
    adj = [dict() for _ in range(n)]
    bnd = [0] * n

    def join(a, b, w):
        if m["wmode"]:
            w *= r.choice([0.5, 1.0, 1.5, 2.25])
        if a != b and not r.random() * 100 < m["drop"]:
            adj[a][b] = adj[b][a] = w

    if m["kind"] == "graph":
        for a in range(1, n):
            join(a, r.randrange(a), 1.0)
        for _ in range(n):
            join(r.randrange(n), r.randrange(n), 1.0)
        bnd = [r.randint(0, 3) for _ in range(n)]
        ctr = [[r.random() * 4, r.random() * 4] for _ in range(n)]
        vol = [0.5 + r.random() for _ in range(n)]
    else:
        ctr, vol = [], []
        for k in range(nz):
            for j in range(ny):
                for i in range(nx):
                    c = i + nx * (j + ny * k)
                    ctr.append([(i + .5) * h[0], (j + .5) * h[1], (k + .5) * h[2]][:dim])
                    vol.append(h[0] * h[1] * (h[2] if dim == 3 else 1))
                    if i + 1 < nx: join(c, c + 1, h[1] * h[2])
                    if j + 1 < ny: join(c, c + nx, h[0] * h[2])
                    if k + 1 < nz: join(c, c + nx * ny, h[0] * h[1])
                    bnd[c] = (i == 0) + (i == nx - 1) + (j == 0) + (j == ny - 1)
                    if dim == 3: bnd[c] += (k == 0) + (k == nz - 1)
        if m["bnd"]: bnd = [min(b, dim) for b in bnd]
    row, col, w = [0], [], []
    for a in range(n):
        nb = sorted(adj[a])
        if m["wmode"]: r.shuffle(nb)
        col += nb
        w += [adj[a][b] for b in nb]
        row.append(len(col))
    prio = [[1.0] * n, [float(n - i) for i in range(n)], [r.choice([1.0, 2.0, 3.0]) for _ in range(n)], [0.0] * n][m["prio"]]
    return {"row": row, "col": col, "w": w, "vol": vol, "ctr": ctr, "prio": prio, "bnd": bnd}


def params(r, m):
    mn = r.randint(2, 4)
    goal = mn + r.randint(0, 3)
    p = {"build": int(r.random() < .7), "aniso": int(r.random() < .6), "odd": r.randint(0, 1),
         "seedt": r.choice([0, 1, 10, 11]), "corr": r.randint(0, 1), "dim": 3 if m["kind"] == "3d" else 2,
         "goal": goal, "min": mn, "max": goal + r.randint(0, 3), "ar": r.randint(0, 9),
         "sing": r.choice([1, 1, 2, 3]), "maxc": r.choice([-1, -1, 2, 3, 4, 5, 8]), "coup": r.randint(0, 1),
         "force": r.randint(0, 1), "iter": r.choice([1, 1, 1, 2]), "neigh": r.randint(0, 1),
         "thr": r.choice([-1.0, 0.0, 1.5, 4.0]), "lseed": r.getrandbits(30), "comp": r.randint(0, 2),
         "form": r.randint(0, 3)}
    if r.random() < .3:
        # the values of the defaults, left out of the call
        p.update(ar=0, sing=1, maxc=-1, coup=0, force=1, iter=1, neigh=0, form=4)
    return p


REJECTS = ["dim", "goal", "min", "max", "order", "iter0", "iter5", "sing", "seed", "ar", "row", "w", "vol_short", "lidx"]


def generate(prop, seed):
    r = random.Random(seed * 1000003 + int(prop[1:]))
    m = mesh(r)
    ops, level = [], 0
    for _ in range(r.randint(1, 7)):
        k = r.choice(["agglo", "agglo", "coarse", "wall", "filter", "reject"])
        o = {"op": k, "seed": r.getrandbits(32), "out": r.choice(["ok", "ok", "ok", "full", "closed"])}
        if k in ("agglo", "coarse", "reject"):
            o["p"] = params(r, m)
        if k == "reject":
            o["what"] = r.choice(REJECTS)
        o["faults"] = []
        if r.random() < .8:
            for _ in range(r.randint(1, 4)):
                where = r.randint(0, 3)
                o["faults"].append({"kind": r.choice([1, 1, 1, 2, 3, 4]), "at": r.randrange(40) if where == 0 else -1,
                                    "frac": 1 - r.random() * .04 if where == 1 else r.random(), "len": r.randint(2, 8),
                                    "size": 1 << r.randint(5, 10)})
        if r.random() < .4:
            for _ in range(r.randint(1, 2)):
                o["faults"].insert(r.randint(0, len(o["faults"])), {"kind": r.choice([5, 6, 6, 7]), "arg": r.randrange(12),
                                                                    "at": -1, "frac": r.random(), "seed": r.getrandbits(32),
                                                                    "item": r.randint(0, 1), "thread": int(r.random() < .3)})
        o["seqs"] = [r.choice([0, 0, 0, 1, 2, 3, 4]) for _ in range(5)] if r.random() < .6 else []
        o["first"] = r.randint(0, 1)
        ops.append(o)
    return {"prop": prop, "seed": seed, "mesh": m, "ops": ops}


# ----------------------------------------------------------------- reference
def arr(t, v):
    return (t * max(1, len(v)))(*v), ctypes.c_long(len(v))


def ref_call(name, args):
    """In a process of its own, so that it starts from the same state every time."""
    U, D, N = ctypes.c_ulong, ctypes.c_double, ctypes.c_int
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            a = []
            if name == "agglo":
                g, comp, li, l, p = args
                a += [*arr(U, g["row"]), *arr(U, g["col"]), *arr(D, g["w"]), *arr(D, g["vol"])]
                a += centers(g) + [*arr(D, g["prio"]), *arr(U, comp), *arr(N, g["bnd"]), *arr(U, li), *arr(U, l)]
                a += [(N * 16)(*[p[k] for k in ("build", "aniso", "odd", "seedt", "corr", "dim", "goal", "min", "max",
                                               "ar", "sing", "maxc", "coup", "force", "iter", "neigh")]), D(p["thr"])]
            elif name == "wall":
                g, wall = args
                a += [*arr(U, g["row"]), *arr(U, g["col"]), *arr(U, wall)]
            elif name == "filter":
                g, al = args
                a += [*arr(U, g["row"]), *arr(N, g["bnd"]), *arr(N, sorted(al))]
            else:
                g, f2c = args
                a += [*arr(U, f2c), *arr(U, g["row"]), *arr(U, g["col"]), *arr(D, g["w"]), *arr(D, g["vol"])]
                a += centers(g) + [*arr(D, g["prio"]), *arr(N, g["bnd"])]
            null = os.open("/dev/null", os.O_WRONLY)
            os.dup2(null, 1)
            rc = getattr(ref, "ref_" + name)(*a)
            ints, dbls = [], []
            for k in range(ref.ref_ni()):
                b = (ctypes.c_longlong * max(1, ref.ref_leni(k)))()
                ref.ref_geti(k, b)
                ints.append(list(b)[:ref.ref_leni(k)])
            for k in range(ref.ref_nd()):
                b = (ctypes.c_double * max(1, ref.ref_lend(k)))()
                ref.ref_getd(k, b)
                dbls.append(list(b)[:ref.ref_lend(k)])
            with os.fdopen(wr, "wb") as f:
                pickle.dump((rc, ints, dbls), f)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def centers(g):
    dim = len(g["ctr"][0]) if g["ctr"] else 2
    flat = [x for c in g["ctr"] for x in c]
    return [arr(ctypes.c_double, flat)[0], ctypes.c_long(len(g["ctr"])), ctypes.c_long(dim)]


# ----------------------------------------------------------------- execution
class Violation(Exception):
    def __init__(self, what, prop="C18"):
        super().__init__(what)
        self.prop = prop


class HostError(Exception):
    pass


class Seq:
    """A sequence of the host; reading item `at` may run code of the host."""
    def __init__(self, data, at=-1, event=None):
        self.data, self.at, self.event = data, at, event

    def __len__(self):
        return len(self.data)

    def __getitem__(self, k):
        if k == self.at and self.event:
            self.event()
        return self.data[k]


class Num:
    """A number of the host; converting it may run code of the host."""
    def __init__(self, v, event=None):
        self.v, self.event = v, event

    def __index__(self):
        if self.event: self.event()
        return self.v.__index__()

    def __float__(self):
        if self.event: self.event()
        return float(self.v)


class Alien:
    pass


def as_form(v, form):
    """The same values in another kind of sequence."""
    if not isinstance(v, list) or not v or form == 0: return v
    if form == 1: return tuple(v)
    if form == 2 and not isinstance(v[0], list): return array.array("d" if isinstance(v[0], float) else "q", v)
    if form == 4 and not isinstance(v[0], list): return [Num(x) for x in v]
    return Seq(v)


def lines_of(g, p):
    """Lines given by the caller: walks along the graph."""
    r = random.Random(p["lseed"])
    n = len(g["row"]) - 1
    used, li, l = set(), [0], []
    for _ in range(r.randint(1, 4)):
        free = [c for c in range(n) if c not in used]
        if not free: break
        c, line = r.choice(free), []
        want = r.randint(2, 7)
        while c is not None and len(line) < want:
            line.append(c)
            used.add(c)
            nxt = [d for d in g["col"][g["row"][c]:g["row"][c + 1]] if d not in used]
            c = r.choice(nxt) if nxt else None
        l += line
        li.append(len(l))
    return li, l


def agglo_args(g, p, lines):
    r = random.Random(p["lseed"] + 1)
    n = len(g["row"]) - 1
    comp = list(range(n)) if p["comp"] == 0 else [c for c in range(n) if r.random() < .6] if p["comp"] == 1 else []
    if lines is not None:
        li, l = list(lines[0]), list(lines[1])
    elif p["aniso"] and not p["build"]:
        li, l = lines_of(g, p)
    else:
        li, l = [], []
    return comp, li, l


def py_agglo(g, comp, li, l, p):
    seedt, ar, coup, neigh = p["seedt"], p["ar"], p["coup"], p["neigh"]
    if p["form"] & 1:
        # enumerators instead of numbers, as the examples do; these (and the defaults, which are enumerators) are never
        # used together with failing allocations: the binding layer itself mishandles a failure while converting them
        if seedt in SEEDT: seedt = getattr(mod.SeedsPool, SEEDT[seedt])
        if 0 <= ar < 10: ar = getattr(mod.AR, AR[ar])
        coup = [mod.CellCoupling.MAX_WEIGHT, mod.CellCoupling.MIN_DISTANCE][coup]
        neigh = [mod.Neighbourhood.EXTENDED, mod.Neighbourhood.PURE_FRONT][neigh]
    a = [g["row"], g["col"], g["w"], g["vol"], g["ctr"], g["prio"], comp, g["bnd"], bool(p["build"]), bool(p["aniso"]),
         bool(p["odd"]), p["thr"], seedt, li, l, bool(p["corr"]), p["dim"], p["goal"], p["min"], p["max"]]
    b = [ar, p["sing"], None if p["maxc"] < 0 else p["maxc"], coup, bool(p["force"]), p["iter"], neigh]
    if p["form"] == 4:
        b = []
    if p["form"] in (2, 3):
        return mod.agglomerate_one_level, (), dict(zip(ARG_NAMES, a + b))
    return mod.agglomerate_one_level, tuple(a + b), {}


class Device:
    def __init__(self, mode):
        self.mode = mode

    def __enter__(self):
        self.save = os.dup(1)
        if self.mode == "closed":
            os.close(1)
        else:
            fd = os.open("/dev/full" if self.mode == "full" else "/dev/null", os.O_WRONLY)
            os.dup2(fd, 1)
            os.close(fd)

    def __exit__(self, *a):
        os.dup2(self.save, 1)
        os.close(self.save)


def with_event(args, kw, f):
    """The call with one sequence replaced by one that raises, calls the module or is wrong at one of its items."""
    names = list(kw)
    pos = [i for i, x in enumerate(args) if isinstance(x, (list, tuple)) and x]
    pos += [k for k in names if isinstance(kw[k], (list, tuple)) and kw[k]]
    if not pos: return args, kw, [], None
    k = pos[f["arg"] % len(pos)]
    data = list(kw[k] if isinstance(k, str) else args[k])
    at = int(f["frac"] * len(data))
    seen = []

    def event():
        if seen: return
        seen.append(None)
        if f["kind"] == 5: raise HostError()
        if f["thread"]:
            # another thread of the host, which has to come to an end before this one goes on
            res = []
            t = threading.Thread(target=lambda: res.append(nested(f["seed"])), daemon=True)
            t.start()
            t.join(20)
            if t.is_alive(): os._exit(77)
            if not res: raise HostError()
            seen[0] = res[0]
        else:
            seen[0] = nested(f["seed"])
    if f["kind"] == 7:
        data[at] = [Alien(), Alien(), "x", None][f["seed"] % 4]
        s = Seq(data) if f["item"] else data
        seen.append(None)
    elif f["item"] and isinstance(data[at], (int, float)):
        data[at] = Num(data[at], event)
        s = data
    else:
        s = Seq(data, at, event)
    if isinstance(k, str): return args, dict(kw, **{k: s}), seen, s
    return args[:k] + (s,) + args[k + 1:], kw, seen, s


def nested_args(seed):
    r = random.Random(seed)
    g = make_mesh({"kind": "2d", "seed": 1, "nx": r.randint(1, 4), "ny": r.randint(1, 5), "nz": 1, "stretch": 1.0, "prio": 0,
                   "drop": 0, "wmode": 0, "bnd": 1})
    p = dict(params(r, {"kind": "2d"}), form=0, maxc=-1, iter=1)
    if not p["build"]: p["aniso"] = 0
    comp, li, l = agglo_args(g, p, None)
    f2c = [c // 2 for c in range(len(g["row"]) - 1)]
    which = r.sample(range(4), r.randint(1, 4))
    return g, comp, li, l, p, f2c, which


def nested(seed):
    g, comp, li, l, p, f2c, which = nested_args(seed)
    out = []
    for w in which:
        if w == 0:
            fn, a, kw = py_agglo(g, comp, li, l, p)
            out.append(plain(fn(*a, **kw)))
        elif w == 1:
            out.append(mod.compute_neighbourhood_based_wall_distance(g["row"], g["col"], [0]))
        elif w == 2:
            out.append(mod.filter_cells_by_n_edges(g["row"], g["bnd"], {0, 1}))
        else:
            out.append(plain(mod.build_coarse_graph(f2c, g["row"], g["col"], g["w"], g["vol"], g["ctr"], g["prio"], g["bnd"])))
    return out


def nested_want(seed):
    g, comp, li, l, p, f2c, which = nested_args(seed)
    calls = [("agglo", (g, comp, li, l, p)), ("wall", (g, [0])), ("filter", (g, {0, 1})), ("coarse", (g, f2c))]
    return [expected(calls[w][0], *ref_call(*calls[w]), g)[1] for w in which]


def attempt(fn, args, kw, f, dev):
    """-> (outcome, value, allocations, faults fired)"""
    seen = None
    if f is not None and f["kind"] >= 5:
        args, kw, seen, _ = with_event(args, kw, f)
    before = pickle.dumps((args_plain(args), args_plain(kw.values())))
    k = (0, 0, 0, 0) if f is None or seen is not None else (f["kind"], f["at"], f["len"], f["size"])
    out = val = None
    arm, disarm = shim.shim_arm, shim.shim_disarm
    with Device(dev):
        try:
            arm(*k)
            val = fn(*args, **kw)
            out = "ok"
        except BaseException as e:  # noqa
            n = disarm()
            out = type(e).__name__
            val = None
            fired = shim.shim_fired()
        else:
            n = disarm()
            fired = shim.shim_fired()
    if pickle.dumps((args_plain(args), args_plain(kw.values()))) != before:
        raise Violation("a list passed to the call was modified")
    if seen is not None:
        fired = len(seen)
        if fired and f["kind"] == 6 and seen[0] is not None:
            if not same(seen[0], nested_want(f["seed"])): raise Violation("a call made while another one reads its arguments gives another result")
    return out, val, n, fired


def args_plain(a):
    if isinstance(a, (int, float, str)) or a is None: return a
    if isinstance(a, Seq): return args_plain(a.data)
    if isinstance(a, Num): return a.v
    if isinstance(a, set): return sorted(a)
    if isinstance(a, array.array): return a.tolist()
    if isinstance(a, (list, tuple)) and a and isinstance(a[0], (int, float)) and set(map(type, a)) <= {int, float}:
        return list(a)
    if isinstance(a, (list, tuple, type({}.values()))): return [args_plain(x) for x in a]
    return type(a).__name__


def objects(args, kw):
    out = []
    for x in list(args) + list(kw.values()):
        if isinstance(x, (list, tuple, set, array.array, Seq)):
            out.append(x)
            if isinstance(x, Seq): x = x.data
            if isinstance(x, (list, tuple)): out += [y for y in x if isinstance(y, (list, Num, Alien))]
    return out


def leak_probe(fn, args, kw, f, dev):
    """The same call with the same fault again and again: nothing may stay behind."""
    seen = []
    k = (0, 0, 0, 0)
    if f is not None and f["kind"] >= 5:
        args, kw, seen, _ = with_event(args, kw, f)
    elif f is not None:
        k = (f["kind"], f["at"], f["len"], f["size"])
    held = objects(args, kw)
    refs = [sys.getrefcount(x) for x in held]
    live, blocks, out = array.array("q", [0] * 5), array.array("q", [0] * 5), None
    arm, disarm = shim.shim_arm, shim.shim_disarm

    def again(first):
        nonlocal out
        with Device(dev):
            for i in range(-first, 5):
                seen.clear()
                try:
                    arm(*k)
                    fn(*args, **kw)
                    disarm()
                    out = "ok"
                except BaseException as e:  # noqa
                    disarm()
                    out = type(e).__name__
                if i < 0: continue
                gc.collect()  # also empties the interpreter's lists of free objects
                live[i] = shim.shim_live()
                blocks[i] = sys.getallocatedblocks()
        # the binding layer itself loses one object per exception it passes on
        own = 1 if out == "HostError" else 0
        return (all(a < b for a, b in zip(live, live[1:])), all(a + own < b for a, b in zip(blocks, blocks[1:])))
    grows = again(1)
    if any(grows): grows = again(100)  # not just caches that fill up
    if grows[1]:  # nor the interpreter's own housekeeping: one object more for every single call
        own, before = 1 if out == "HostError" else 0, blocks[4]
        again(395)
        grows = (grows[0], blocks[4] - before > 400 * (own + 0.9))
    fired = len(seen) if f is not None and f["kind"] >= 5 else shim.shim_fired()
    now = [sys.getrefcount(x) for x in held]
    how = f"{fn.__name__}, {out}" + (f", {KINDS[f['kind']]}" if f else "")
    if any(a < b for a, b in zip(refs, now)): raise Violation(f"{how}: references to an argument stay behind", "C27")
    if any(a > b for a, b in zip(refs, now)): raise Violation(f"{how}: references to an argument are released twice", "C27")
    if grows[0]: raise Violation(f"{how}: C++ memory stays behind", "C27")
    if grows[1]: raise Violation(f"{how}: Python objects stay behind", "C27")
    return out, fired


def plain(v):
    """As lists, so that the kind of sequence returned does not matter."""
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def same(a, b):
    return repr(a) == repr(b)


def expected(kind, rc, ints, dbls, g):
    if rc == 1: return "ValueError", None
    if rc != 0: return "other", None
    if kind == "agglo": return "ok", ints
    if kind == "coarse":
        dim = len(g["ctr"][0]) if g["ctr"] else 2
        c = [dbls[3][i:i + dim] for i in range(0, len(dbls[3]), dim)]
        return "ok", [ints[0], ints[1], dbls[0], dbls[1], c, dbls[2], ints[2]]
    return "ok", ints[0]


def break_request(g, p, what, li, l):
    if what == "dim": p["dim"] = [1, 4, 0, -1][p["lseed"] % 4]
    elif what == "goal": p["goal"] = 1
    elif what == "min": p["min"] = [1, 0, -3][p["lseed"] % 3]
    elif what == "max": p["max"] = 1
    elif what == "order": p["min"], p["goal"], p["max"] = p["goal"] + 1, p["goal"], p["goal"] + 4
    elif what == "iter0": p["iter"] = [0, -1][p["lseed"] % 2]
    elif what == "iter5": p["iter"] = [5, 100][p["lseed"] % 2]
    elif what == "sing": p["sing"] = [0, -1][p["lseed"] % 2]
    elif what == "seed": p["seedt"] = [2, 9, 12, -1][p["lseed"] % 4]
    elif what == "ar": p["ar"] = [10, 55, -1][p["lseed"] % 3]
    elif what == "row": g["row"] = g["row"][:-1] + [g["row"][-1] + 1]
    elif what == "w": g["w"] = g["w"] + [1.0]
    elif what == "vol_short": g["col"] = g["col"] + [0]
    elif what == "lidx":
        p["aniso"], p["build"] = 1, 0
        li[:], l[:] = [0, 3], [0]


def execute(sc, emit):
    """emit(event) for every step; raises Violation."""
    g = make_mesh(sc["mesh"])
    f2c, lines = None, None
    for i, o in enumerate(sc["ops"]):
        kind = o["op"]
        r = random.Random(o["seed"])
        n = len(g["row"]) - 1
        if n == 0:
            break
        if kind in ("agglo", "reject"):
            p = dict(o["p"])
            gg = dict(g)
            comp, li, l = agglo_args(gg, p, lines if p["aniso"] and not p["build"] else None)
            if p["aniso"] and not p["build"] and len(li) < 2:
                p["aniso"] = 0
            if kind == "reject":
                break_request(gg, p, o["what"], li, l)
                if p["form"] == 4: p["form"] = 0
            if o["faults"]: p["form"] &= 2
            fn, a, kw = py_agglo(gg, comp, li, l, p)
            rargs = ("agglo", (gg, comp, li, l, p))
        elif kind == "coarse":
            if f2c is None or len(f2c) != n:
                # any complete partition will do
                k = r.randint(1, n)
                f2c = [c % k for c in range(n)]
            fn, a, kw = mod.build_coarse_graph, (f2c, g["row"], g["col"], g["w"], g["vol"], g["ctr"], g["prio"], g["bnd"]), {}
            rargs = ("coarse", (g, f2c))
        elif kind == "wall":
            wall = [r.randrange(n) for _ in range(r.randint(0, 4))]
            fn, a, kw = mod.compute_neighbourhood_based_wall_distance, (g["row"], g["col"], wall), {}
            rargs = ("wall", (g, wall))
        else:
            al = {r.randint(1, 6) for _ in range(r.randint(1, 3))}
            fn, a, kw = mod.filter_cells_by_n_edges, (g["row"], g["bnd"], al), {}
            rargs = ("filter", (g, al))
        if o["seqs"]:
            q = o["seqs"]
            a = tuple(as_form(x, q[j % len(q)]) for j, x in enumerate(a))
            kw = {k: as_form(x, q[j % len(q)]) for j, (k, x) in enumerate(kw.items())}
        emit({"call": kind, "op": i, "phase": "begin"})
        seen, total = [], None
        todo = [None] + list(o["faults"]) + [None] if o["first"] else list(o["faults"]) + [None]
        for f in todo:
            if f is not None:
                f = dict(f)
                if f["at"] < 0 and f["kind"] < 5:
                    f["at"] = int(f["frac"] * total) if total else int(f["frac"] * 200)
            out, val, cnt, fired = attempt(fn, a, kw, f, o["out"])
            if f is None: total = cnt
            emit({"call": kind, "op": i, "fault": f and [KINDS[f["kind"]], f["at"]], "fired": fired, "out": out,
                  "allocs": cnt, "dev": o["out"]})
            seen.append((out, plain(val), fired, f))
            if sc["prop"] == "C27":
                out, fired = leak_probe(fn, a, kw, f, o["out"])
                emit({"call": kind, "op": i, "probe": f and [KINDS[f["kind"]], f["at"]], "out": out, "fired": fired})
        rr = ref_call(*rargs)
        if rr is None:
            raise Violation("the C++ function itself does not survive this call")
        want, value = expected(rargs[0], *rr, g)
        if kind == "reject":
            if want != "ValueError": raise Violation(f"{o['what']}: the C++ function accepts the invalid request")
        for out, val, fired, f in seen:
            if out == want and (want != "ok" or same(val, value)):
                continue
            if fired and out in FAILS.get(f["kind"], ("MemoryError",)):
                continue
            if out == "ok" and want == "ok":
                raise Violation(f"{kind}: result differs from the C++ function"
                                + (" after a failed allocation" if fired else ""))
            raise Violation(f"{kind}: {out} where the C++ function gives {want}"
                            + (" (an allocation failed)" if fired else ""))
        emit({"call": kind, "op": i, "result": hashlib.sha256(repr((want, value)).encode()).hexdigest()[:16]})
        if want == "ok" and kind == "agglo":
            f2c = value[0]
            if p["aniso"]:
                lines = (value[1], value[2])
        elif want == "ok" and kind == "coarse":
            g = dict(zip(("row", "col", "w", "vol", "ctr", "prio", "bnd"), value))
            f2c = None
            if lines is not None and (not lines[1] or max(lines[1]) >= len(g["row"]) - 1):
                lines = None
    gc.collect()


def run_child(sc):
    """One execution in a process of its own -> (verdict, what, hash, events)"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            resource.setrlimit(resource.RLIMIT_CPU, (40, 45))
            signal.alarm(120)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            null = os.open("/dev/null", os.O_WRONLY)
            os.dup2(null, 2)
            w = os.fdopen(wr, "w", buffering=1)

            def emit(e):
                w.write(json.dumps(e, sort_keys=True) + "\n")
            try:
                execute(sc, emit)
                emit({"end": "OK"})
            except Violation as v:
                emit({"end": "VIOL", "what": str(v), "prop": v.prop})
            except BaseException as e:  # noqa
                shim.shim_disarm()
                emit({"end": "ERR", "what": repr(e)})
            w.close()
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd) as f:
        text = f.read()
    _, st = os.waitpid(pid, 0)
    ev = [json.loads(l) for l in text.splitlines() if l.endswith("}")]
    h = hashlib.sha256(text.encode()).hexdigest()[:16]
    if ev and "end" in ev[-1]:
        e = ev[-1]
        if e["end"] == "VIOL" and e["prop"] != sc["prop"]:
            # another property's business
            return "OK", "", h, ev
        return e["end"], e.get("what", ""), h, ev
    last = ev[-1] if ev else {}
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        if s in (signal.SIGKILL,):
            return "ERR", "killed", h, ev
        what = "does not return" if s in (signal.SIGXCPU, signal.SIGALRM) else f"the interpreter died ({signal.Signals(s).name})"
        return "VIOL", f"{last.get('call', '?')}: {what}", h, ev
    what = "a call made by another thread while the arguments are read never returns" if os.WEXITSTATUS(st) == 77 else "the interpreter exited"
    return "VIOL", f"{last.get('call', '?')}: {what}", h, ev


def minimise(sc, what, secs):
    t0 = time.time()
    best = sc

    def bad(c):
        if time.time() - t0 > secs: return False
        v, w, _, _ = run_child(c)
        return v == "VIOL" and w.split(":")[0] == what.split(":")[0]
    changed = True
    while changed and time.time() - t0 < secs:
        changed = False
        i = len(best["ops"]) - 1
        while i >= 0:
            c = copy.deepcopy(best)
            del c["ops"][i]
            if c["ops"] and bad(c): best, changed = c, True
            i -= 1
        for i in range(len(best["ops"])):
            j = len(best["ops"][i]["faults"]) - 1
            while j >= 0:
                c = copy.deepcopy(best)
                del c["ops"][i]["faults"][j]
                if bad(c): best, changed = c, True
                j -= 1
            for j in range(len(best["ops"][i]["faults"])):
                c = copy.deepcopy(best)
                if 1 < c["ops"][i]["faults"][j]["kind"] < 5:
                    c["ops"][i]["faults"][j]["kind"] = 1
                    if bad(c): best, changed = c, True
            for k, v in (("out", "ok"), ("first", 0), ("seqs", [])):
                if best["ops"][i][k] != v:
                    c = copy.deepcopy(best)
                    c["ops"][i][k] = v
                    if bad(c): best, changed = c, True
            for k, v in (("corr", 0), ("aniso", 0), ("iter", 1), ("maxc", -1), ("form", 0), ("ar", 0), ("seedt", 0)):
                if "p" in best["ops"][i] and best["ops"][i]["p"][k] != v:
                    c = copy.deepcopy(best)
                    c["ops"][i]["p"][k] = v
                    if bad(c): best, changed = c, True
        for k in ("nx", "ny", "nz"):
            while best["mesh"][k] > 1:
                c = copy.deepcopy(best)
                c["mesh"][k] -= 1
                if not bad(c): break
                best, changed = c, True
        for k, v in (("drop", 0), ("wmode", 0), ("prio", 0), ("stretch", 1.0)):
            if best["mesh"][k] != v:
                c = copy.deepcopy(best)
                c["mesh"][k] = v
                if bad(c): best, changed = c, True
    return best


def main():
    cmd, d = sys.argv[1], sys.argv[2]
    load(d)
    # fault positions depend on one-time initialisation inside the binding layer: get it over with
    mod.compute_neighbourhood_based_wall_distance([0, 1, 2], [1, 0], [0])
    try:
        mod.compute_neighbourhood_based_wall_distance()
    except TypeError:
        pass
    gc.collect()
    gc.disable()
    if cmd == "replay":
        sc = json.load(open(sys.argv[3]))["scenario"]
        v, what, h, ev = run_child(sc)
        if "-v" in sys.argv:
            for e in ev: print(json.dumps(e))
        if v == "ERR":
            print("ERR", what)
            sys.exit(4)
        print(f"RESULT {'OK' if v == 'OK' else sc['prop']} hash={h} {what}")
        sys.exit(1 if v == "VIOL" else 0)
    if cmd == "min":
        sc = json.load(open(sys.argv[3]))["scenario"]
        v, what, h, ev = run_child(sc)
        best = minimise(sc, what, float(sys.argv[5])) if v == "VIOL" else sc
        v, what, h, ev = run_child(best)
        json.dump({"what": what, "scenario": best, "trace": ev}, open(sys.argv[4], "w"), indent=1)
        sys.exit(0)
    prop, seed, start, stride, secs, prefix = sys.argv[3], *map(int, sys.argv[4:7]), float(sys.argv[7]), sys.argv[8]
    maxruns = int(sys.argv[9]) if len(sys.argv) > 9 else 1 << 60
    t0 = time.time()
    i, runs, nontriv, det = start, 0, 0, 0
    counts, hashes, samples, code = {}, set(), [], 0

    def add(k, v=1):
        counts[k] = counts.get(k, 0) + v
    while time.time() - t0 < secs and runs < maxruns:
        sc = generate(prop, seed * 10_000_019 + i)
        v, what, h, ev = run_child(sc)
        runs += 1
        if v == "ERR":
            print(f"run {sc['seed']}: {what}", file=sys.stderr)
            code = 4
            break
        fired = failed = probes = 0
        for e in ev:
            if e.get("prop", prop) != prop: add("findings_of_other_properties")
            if "probe" in e:
                probes += 1
                add("leak_probes")
                add("leak_probes_" + e["out"])
            if "allocs" in e:
                add("calls")
                add("allocations", e["allocs"])
                add("call_" + e["call"])
                add("out_" + e["out"])
                if e["fired"]:
                    fired += 1
                    add("fault_" + e["fault"][0])
                    if e["out"] in ("MemoryError", "HostError", "TypeError"): failed += 1
                if e["dev"] != "ok": add("stdout_" + e["dev"])
                if e["out"] == "ValueError": failed += 1
        if fired and failed and (prop != "C27" or probes):
            nontriv += 1
            hashes.add(int(h, 16))
        if len(samples) < 2 and fired and len(ev) > 6: samples.append({"seed": sc["seed"], "events": ev[:12]})
        if runs % 37 == 1:
            v2, what2, h2, _ = run_child(sc)
            det += 1
            if (v2, what2, h2) != (v, what, h):
                print(f"run {sc['seed']}: two executions differ: {what!r} {h} / {what2!r} {h2}", file=sys.stderr)
                code = 5
                break
        if v == "VIOL":
            json.dump({"what": what, "scenario": sc}, open(prefix + ".viol", "w"))
            code = 1
            break
        i += stride
    json.dump({"runs": runs, "nontrivial": nontriv, "determinism_pairs": det, "wall": time.time() - t0, "counts": counts,
               "samples": samples}, open(prefix + ".json", "w"))
    with open(prefix + ".hash", "wb") as f:
        for h in hashes: f.write(struct.pack("<Q", h))
    sys.exit(code)


if __name__ == "__main__":
    main()
