"""C25: invalid requests are refused and leave the system usable."""
import itertools
import os

import numpy as np

import core
import desc
import space

INFO = {
    "rule": "pairs: all (refused request, valid calculation) pairs, and twice: all ordered pairs of refused requests, on systems with and without neighbors: the request raises an error, the structure, the current neighbors and all attributes of the atoms are as before, and the following valid calculation gives exactly what it gives without the request; limit: for every search method, an atom with 298 to 320 neighbors, of which 300 are the most that are stored; grid: every argument takes all values of a grid around its documented range, and is refused exactly outside of it; atoms: requests on single atoms, new systems, created crystals, trajectories and files",
    "bounds": {"quick": "75 refused requests x up to 39 valid calculations on 4 systems (rotating), 5625 pairs of refused requests; all grids", "thorough": "all pairs on 8 systems x 4 earlier searches"},
    "assumptions": ["a neighbor search that is refused may discard the earlier neighbors", "calculations that need neighbors are not required to refuse their absence, except finding solids and short range order (they give NaN)"],
}
BASE = [
    dict(lat="bcc", rep=[2, 2, 2], disp=0.05, types="alt", off=2), dict(lat="fcc", rep=[4, 4, 4], disp=0.05, types="alt", cell="tri", off=4),
    dict(lat="tri3", rep=[1, 1, 1], disp=0.02, types="alt", cell="tri2", off=2), dict(lat="rand", n=205, disp=0.1, types="alt", off=4),
    dict(lat="bcc", rep=[5, 5, 5], disp=0.05, types="alt", off=2), dict(lat="fcc", rep=[2, 1, 1], disp=0.05, types="alt", cell="rot", off=4),
    dict(lat="hcp", rep=[2, 2, 1], disp=0.05, types="three"), dict(lat="sc", rep=[6, 6, 6], disp=0.05, types="alt", cell="left"),
]
SETUP = [["c", 1.35], ["v", 1], ["n", 9], None]


def cases(tier):
    bad = desc.bad_names()
    for b in range(4 if tier == "quick" else len(BASE)):
        for f in range(len(SETUP)):
            for lo in range(0, len(bad), 8):
                yield {"part": "pairs", "b": b, "f": f, "lo": lo, "hi": lo + 8, "all": tier != "quick"}
    for b in range(1 if tier == "quick" else 4):
        for lo in range(0, len(bad), 6):
            yield {"part": "twice", "b": b, "lo": lo, "hi": lo + 6, "all": tier != "quick"}
    for k in range(len(GRIDS)):
        for b in (0, 1, 2) if tier == "quick" else range(6):
            yield {"part": "grid", "k": k, "b": b}
    for k in range(6):
        yield {"part": "objects", "k": k}
    for m in LIMIT:
        yield {"part": "limit", "m": m}


def run(case, ctx):
    os.makedirs("target", exist_ok=True)
    globals()[case["part"]](case, ctx)


def state(sy):
    """all that a user can see of the atoms"""
    out = []
    for a in sy.atoms:
        out.append((a.id, a.type, a.loc, tuple(a.pos), tuple(a.neighbors), tuple(a.neighbor_distance), tuple(a.neighbor_weights), a.cutoff,
                    tuple(a.allq), tuple(a.allaq), a.solid, a.cluster, a.largest_cluster, a.structure, a.disorder, a.avg_disorder, a.volume, a.avg_volume,
                    a.entropy, a.avg_entropy, a.angular, a.centrosymmetry, tuple(a.chiparams), tuple(map(float, a.sro)), a.bonds, a.avg_sij))
    return [repr(x) for x in out]


def refuse(ctx, sy, s, name, what):
    """one refused request; returns whether the neighbors may be gone"""
    fn, need, drop = desc.bad_requests(sy, s)[name]
    ctx.op()
    ctx.step()
    try:
        r = fn()
    except Exception:
        ctx.comparisons += 1
        return drop
    ctx.fail("%s: the request '%s' is not refused, it returns %s" % (what, name, str(r)[:100]))


def follow(nb):
    C = desc.PLAIN + desc.NONEED + desc.SELFSEARCH + desc.SEARCHES
    return [op for op in C if desc.applicable(op, nb)]


def pairs(case, ctx):
    s = space.make(BASE[case["b"]])
    f = SETUP[case["f"]]
    nb = ["find", f] if f else None
    names = desc.bad_names()
    C = follow(nb)
    refs = {}

    def fresh():
        sy = core.new_system(s)
        at = sy.atoms
        for i, a in enumerate(at):
            a.custom = {"mark": i * 0.5}
        sy.atoms = at
        if f:
            core.search(sy, s, f)
        return sy

    sy = fresh()
    want = desc.snapshot(sy)
    for x in range(case["lo"], min(case["hi"], len(names))):
        for y in range(len(C)):
            # each pair on one of the systems, the reference is calculated once
            if not case["all"] and (x + y) % 16 != case["b"] * 4 + case["f"]:
                continue
            if y not in refs:
                z = fresh()
                refs[y] = desc.perform(z, s, C[y])
            what = "%s with %s" % (names[x], f)
            before = state(sy)
            drop = refuse(ctx, sy, s, names[x], what)
            desc.same_snapshot(ctx, desc.snapshot(sy), want, what)
            if not drop:
                after = state(sy)
                if before != after:
                    i = next(i for i in range(len(before)) if before[i] != after[i])
                    ctx.fail("%s: atom %d changed from %s to %s" % (what, i, before[i][:400], after[i][:400]))
                ctx.comparisons += len(before)
            elif f:
                core.search(sy, s, f, ctx)
            ctx.op()
            ctx.step()
            try:
                got = desc.perform(sy, s, C[y])
            except Exception as e:
                ctx.fail("%s after %s: %s" % (C[y], what, repr(e)[:200]))
            desc.exact(ctx, got, refs[y], "%s after %s" % (C[y], what))
            ctx.visit(case["b"], case["f"], x, y)
            if C[y][0] in ("find", "diafind", "cna", "diamond", "csm"):
                if f:
                    core.search(sy, s, f, ctx)
                else:
                    sy = fresh()


def twice(case, ctx):
    s = space.make(BASE[case["b"]])
    names = desc.bad_names()
    sy = core.new_system(s)
    f = ["c", 1.35]
    core.search(sy, s, f)
    want = desc.snapshot(sy)
    C = follow(["find", f])
    C = [op for op in C if op in desc.PLAIN]
    refs = {}
    for x in range(case["lo"], min(case["hi"], len(names))):
        for y in range(len(names)):
            what = "%s, then %s" % (names[x], names[y])
            d = refuse(ctx, sy, s, names[x], what)
            nd = desc.bad_requests(sy, s)[names[y]]
            if d and nd[1]:
                core.search(sy, s, f)
                d = 0
            d = refuse(ctx, sy, s, names[y], what) or d
            if d:
                core.search(sy, s, f)
            ctx.step()
            ctx.visit("twice", case["b"], x, y)
            if (x + y) % 3 and not case.get("all"):
                continue
            k = (x * 7 + y) % len(C)
            if k not in refs:
                z = core.new_system(s)
                core.search(z, s, f)
                refs[k] = desc.perform(z, s, C[k])
            desc.exact(ctx, desc.perform(sy, s, C[k]), refs[k], "%s after %s" % (C[k], what))
            ctx.op(2)
        desc.same_snapshot(ctx, desc.snapshot(sy), want, names[x])


# ------------------------------------------------------------ grids of argument values
def _q(sy, s, v):
    sy.calculate_q(v)


def g_q(sy, s):
    R = list(range(-3, 17)) + [100, 10 ** 6]
    inside = lambda v: 2 <= v <= 12
    for nm, fn in (("calculate_q", lambda v: sy.calculate_q(v)), ("calculate_q averaged", lambda v: sy.calculate_q(v, averaged=True)), ("calculate_q list", lambda v: sy.calculate_q([6, v])),
                   ("get_qvals", lambda v: sy.get_qvals(v)), ("get_qvals averaged", lambda v: sy.get_qvals(v, averaged=True)), ("get_qvals list", lambda v: sy.get_qvals([v, 4])),
                   ("find_solids", lambda v: sy.find_solids(q=v, cluster=False)), ("disorder", lambda v: sy.calculate_disorder(q=v)), ("disorder averaged", lambda v: sy.calculate_disorder(q=v, averaged=True)),
                   ("atom q", lambda v: sy.get_atom(0).get_q(v)), ("atom q list", lambda v: sy.get_atom(0).get_q([v, 6], averaged=True)), ("atom qlm", lambda v: sy.get_atom(0).get_qlm(v)),
                   ("atom qlm averaged", lambda v: sy.get_atom(0).get_qlm(v, averaged=True)), ("atom set q", lambda v: sy.get_atom(0).set_q(v, 0.5)), ("atom set q list", lambda v: sy.get_atom(0).set_q([v, 6], [0.1, 0.2], averaged=True))):
        yield nm, fn, [(v, inside(v)) for v in R]


def g_unit(sy, s):
    V = [-1e6, -1, -1e-9, 0, 0.0, 1e-9, 0.3, 0.5, 0.99, 1, 1.0, 1 + 1e-9, 1.5, 2, 50, float("nan"), float("inf")]
    inside = lambda v: 0 <= v <= 1
    yield "threshold", lambda v: sy.find_solids(threshold=v), [(v, inside(v)) for v in V]
    yield "avgthreshold", lambda v: sy.find_solids(avgthreshold=v), [(v, inside(v)) for v in V]
    yield "bonds as a fraction", lambda v: sy.find_solids(bonds=v, cluster=False), [(v, inside(v)) for v in V if isinstance(v, float)]
    yield "bonds", lambda v: sy.find_solids(bonds=v), [(v, isinstance(v, int)) for v in (0, 1, 6, 12, 40, "6", None, [6], (1, 2), 1j)]
    yield "threshold type", lambda v: sy.find_solids(threshold=v), [(v, False) for v in ("0.5", None, [0.5], {})]
    yield "avgthreshold type", lambda v: sy.find_solids(avgthreshold=v), [(v, False) for v in ("0.5", None, [0.5], {})]
    yield "q type", lambda v: sy.find_solids(q=v), [(v, False) for v in ("6", None, [6], 6.0)]


def g_search(sy, s):
    V = [-5, 0, 0.5, 0.9, 0.999999, 1, 1.0, 1.5, 2, 3]
    a = desc.a0(s)
    for nm, kw in (("sann", dict(cutoff="sann")), ("adaptive", dict(cutoff="adaptive")), ("zero", dict(cutoff=0))):
        yield "threshold of " + nm, lambda v, kw=kw: sy.find_neighbors(method="cutoff", threshold=v, **kw), [(v, _least(v)) for v in V]
    yield "threshold of number", lambda v: sy.find_neighbors(method="number", nmax=4, threshold=v), [(v, _least(v)) for v in V]
    yield "method", lambda v: sy.find_neighbors(method=v, cutoff=a), [("cutoff", True), ("number", True), ("voronoi", True)] + [(v, False) for v in ("Cutoff", "cut", "", "voro", "num", "all", None, 3, "cutoff ", "numbers", "adaptive", "sann")]
    yield "filter", lambda v: sy.find_neighbors(method="cutoff", cutoff=1.3 * a, filter=v), [(None, True), ("type", True), ("type_r", True)] + [(v, False) for v in ("types", "", "Type", 1, 0, True, "type_rr", "id")]
    yield "cutoff", lambda v: sy.find_neighbors(method="cutoff", cutoff=v), [(a, True), (float(1.3 * a), True), (np.float64(a), True), ("sann", None), ("adaptive", True)] + [(v, False) for v in ("SANN", "voronoi", "", None, [a], "3", {})]


def _least(v):
    """at least 1; between 1 and 2 there may be too few neighbors, which is another error"""
    return v >= 1 if v < 1 or v >= 2 else "enough"


def g_numbers(sy, s):
    n = s.n
    yield "csm nmax", lambda v: sy.calculate_centrosymmetry(nmax=v), [(v, v > 0 and v % 2 == 0) for v in range(-4, 15)]
    yield "csm nmax too large", lambda v: sy.calculate_centrosymmetry(nmax=v), [(v, False) for v in (10 ** 5, 10 ** 9)]
    yield "get_atom", sy.get_atom, [(v, 0 <= v < sy.ntotal) for v in list(range(-3, 3)) + list(range(n - 2, n)) + list(range(sy.ntotal - 2, sy.ntotal + 3)) + [2 ** 31 - 1, -2 ** 31]]
    yield "set_atom", lambda v: sy.set_atom(_at(sy, v)), [(v, 0 <= v < n) for v in list(range(-3, 3)) + list(range(n - 2, n + 3)) + [sy.ntotal - 1 if sy.ntotal > n else n, sy.ntotal, 2 ** 31 - 1, -2 ** 31]]
    yield "rdf bins", lambda v: sy.calculate_rdf(histobins=v), [(v, v > 0) for v in range(-3, 5)]
    types = sorted(set(int(t) for t in s.types))
    yield "set neighbors", lambda v: sy.set_atom(_nb(sy, v)), [([], True), ([1], True), ([sy.ntotal - 1, 0], True), ([sy.ntotal], False), ([0, -1], False), ([2 ** 31 - 1], False)]


def g_sro(sy, s):
    core.search(sy, s, ["c", 1.7])
    have = sorted(set(int(t) for t in s.types))
    two = len(have) == 2
    yield "sro reference", lambda v: sy.calculate_sro(reference_type=v), [(v, two and v in (1, 2) and v in have) for v in range(-2, 6)]
    yield "pmsro reference", lambda v: sy.calculate_pmsro(reference_type=v, compare_type=have[0]), [(v, v in have) for v in range(-2, 9)]
    yield "pmsro compare", lambda v: sy.calculate_pmsro(reference_type=have[0], compare_type=v), [(v, v in have) for v in range(-2, 9)]


def g_box(sy, s):
    b = np.array(s.box)
    z = b.copy()
    z[1] = 0
    d = b.copy()
    d[2] = d[0] * 2 if abs(b[0][1]) + abs(b[0][2]) > 0 else d[0]
    nan, inf = b.copy(), b.copy()
    nan[0][0] = np.nan
    inf[2][1] = np.inf
    good = [b.tolist(), b, (1.5 * b).tolist(), b[::-1].tolist() if abs(np.linalg.det(b)) > 1e-9 else b]
    bad = [z.tolist(), nan, inf, b[:2], b[:, :2], [b[0]], [], None, 5.0, [[1, 2, 3], [4, 5, 6], [7, 8, "x"]], [b[0], b[1], [1.0]], [[], [], []], d.tolist()]

    def put(v):
        old = sy.box
        try:
            sy.box = v
        finally:
            if np.shape(sy.box) != (3, 3):
                raise AssertionError("the box has no shape")
        sy.box = old
        sy.box = s.box.tolist()

    yield "box", put, [(v, True) for v in good] + [(v, False) for v in bad]


def g_format(sy, s):
    sp = ["Cu", "Al", "Ni"][:len(set(s.types))]
    yield "format to write", lambda v: sy.to_file("target/out", format=v, species=sp), [(v, True) for v in ("lammps-dump", "lammps-data", "poscar")] + [(v, False) for v in ("dump", "lammps", "nosuch", 3)]
    yield "format to read", lambda v: _read(sy, s, v), [("lammps-dump", True)] + [(v, False) for v in ("dump", "poscar", "mdtraj", "nosuch", 3, "lammps-data")]
    yield "custom key", lambda v: sy.to_file("target/out", customkeys=v), [("type", True), (["id"], True), (["mark"], False), ("mark", False), (["id", "nokey"], False), (["q1"], False), (["q13"], False), (["aq"], False)]
    yield "custom values", lambda v: sy.to_file("target/out", customkeys=["v"], customvals=v), [([1.0] * s.n, True), ([[1.0]] * s.n, True), ([1.0] * (s.n + 1), False), ([[1.0, 2.0]] * s.n, False), ([1.0] * max(0, s.n - 1), False)]


def _read(sy, s, v):
    sy.to_file("target/in.dump")
    sy.read_inputfile("target/in.dump", format=v)
    sy.box = [[float(x) for x in r] for r in s.box]
    sy.atoms = core.new_atoms(s)


def _at(sy, k):
    a = sy.get_atom(max(0, min(k, sy.natoms - 1)))
    a.loc = k
    return a


def _nb(sy, v):
    a = sy.get_atom(0)
    a.neighbors = v
    return a


GRIDS = ["g_q", "g_unit", "g_search", "g_numbers", "g_sro", "g_box", "g_format"]


def grid(case, ctx):
    s = space.make(BASE[case["b"]])
    sy = core.new_system(s)
    f = ["c", 1.35]
    core.search(sy, s, f)
    want = desc.snapshot(sy)
    follow = [["q", [4, 6], True], ["solids", [6, 0.3, 0.2, 4, True, False]], ["csm", 8], ["rdf", 30, 1.2]]
    ref = {}
    for nm, fn, values in globals()[GRIDS[case["k"]]](sy, s):
        for v, ok in values:
            what = "%s = %s" % (nm, str(v)[:80])
            ctx.op()
            ctx.step()
            ctx.visit(case["b"], nm, str(v)[:60])
            try:
                fn(v)
                got = True
            except Exception as e:
                got, err = False, e
            if ok is None:
                pass
            elif ok == "enough":
                ctx.check(got or isinstance(err, RuntimeError), "%s is refused (%s)", what, "" if got else repr(err)[:200])
            elif ok:
                ctx.check(got, "%s is refused (%s)", what, "" if got else repr(err)[:200])
            else:
                ctx.check(not got, "%s is not refused", what)
            if not nm.startswith("set neighbors"):
                w = desc.snapshot(sy)
                if nm in ("box", "format to read"):
                    for k in ("custom", "id"):
                        w[k] = want[k]
                desc.same_snapshot(ctx, w, want, what)
        # usable
        core.search(sy, s, f)
        for op in follow:
            if op[0] == "csm":
                core.search(sy, s, f)
            if str(op) not in ref:
                z = core.new_system(s)
                core.search(z, s, f)
                ref[str(op)] = desc.perform(z, s, op)
            desc.exact(ctx, desc.perform(sy, s, op), ref[str(op)], "%s after requests of %s" % (op, nm))
        core.search(sy, s, ["c", 1.7] if case["k"] == 4 else f)


# ------------------------------------------------------------ single atoms, new systems, crystals, trajectories
def refused(ctx, fn, what):
    ctx.op()
    ctx.step()
    ctx.visit(what)
    try:
        r = fn()
    except Exception:
        ctx.comparisons += 1
        return
    ctx.fail("%s is not refused, it returns %s" % (what, str(r)[:100]))


# searches that see exactly n neighbors of the first atom of `crowd(n)`
LIMIT = {
    "cutoff": lambda sy, n: sy.find_neighbors(method="cutoff", cutoff=1.3), "cells": lambda sy, n: sy.find_neighbors(method="cutoff", cutoff=1.3),
    "adaptive": lambda sy, n: sy.find_neighbors(method="cutoff", cutoff="adaptive", nlimit=6, padding=1.3, threshold=1.5),
    "sann": lambda sy, n: sy.find_neighbors(method="cutoff", cutoff="sann", threshold=1.5), "number": lambda sy, n: sy.find_neighbors(method="number", nmax=n, threshold=3),
    "voronoi": lambda sy, n: sy.find_neighbors(method="voronoi"),
}


def crowd(n, cells):
    """an atom in the middle of a sphere of n atoms, far from all others"""
    L = 60.0
    k = np.arange(n) + 0.5
    z, f = 1 - 2 * k / n, k * np.pi * (1 + 5 ** 0.5)
    r = np.sqrt(1 - z * z)
    ball = np.array([r * np.cos(f), r * np.sin(f), z]).T * (1 + 1e-6 * space.hashed(n, 1, 5)[:, :1])
    near = np.array(list(itertools.product((-3.0, 3.1), repeat=3)))
    far = np.array(list(itertools.product(range(13 if cells else 7), repeat=3))) * 1.5 + space.hashed(13 ** 3 if cells else 7 ** 3, 3, 7) * 0.1
    pos = np.vstack([[[40.0, 40, 40]], 40 + ball, 40 + near, far])
    return pos, L


def limit(case, ctx):
    """up to 300 neighbors of an atom are stored, a search that finds more is refused"""
    m = case["m"]
    for n in (298, 299, 300, 301, 302, 320):
        pos, L = crowd(n, m == "cells")
        from pyscal.core import Atom, System
        at = [Atom(pos=[float(x) for x in p], id=i + 1, type=1) for i, p in enumerate(pos)]
        sy = System()
        sy.box = [[L, 0.0, 0.0], [0.0, L, 0.0], [0.0, 0.0, L]]
        sy.atoms = at
        ctx.op()
        ctx.step()
        ctx.visit("limit", m, n)
        ctx.check((len(at) > 2300) == (m == "cells"), "harness: %d atoms" % len(at))
        if n <= 300:
            LIMIT[m](sy, n)
            got = sorted(sy.get_atom(0).neighbors)
            if m == "sann":     # which atoms it lists is the business of C04
                got = list(range(1, len(got) + 1))
            ctx.equal(got, list(range(1, n + 1)), "neighbors of an atom in the middle of %d, %s" % (n, m))
        else:
            refused(ctx, lambda: LIMIT[m](sy, n), "%d neighbors, %s" % (n, m))
        got = sy.atoms
        ctx.equal([tuple(a.pos) for a in got], [tuple(map(float, p)) for p in pos], "positions after a search for %d neighbors, %s" % (n, m))
        ctx.equal([(a.id, a.type, a.loc) for a in got], [(i + 1, 1, i) for i in range(len(at))], "atoms after a search for %d neighbors, %s" % (n, m))
        sy.find_neighbors(method="cutoff", cutoff=0.9 if m == "cells" else 0.25)
        d = np.linalg.norm(pos[1:n + 1, None] - pos[None, 1:n + 1], axis=2)
        ctx.equal([a.coordination for a in sy.atoms], [0] + ((d < (0.9 if m == "cells" else 0.25)).sum(1) - 1).tolist() + [0] * (len(at) - n - 1), "coordination by a later search, after %d neighbors, %s" % (n, m))


def objects(case, ctx):
    [o_atom, o_new, o_crystal, o_trajectory, o_split, o_nosearch][case["k"]](ctx)


def o_atom(ctx):
    from pyscal.core import Atom
    nan, inf = float("nan"), float("inf")
    a = Atom(pos=[1.0, 2.0, 3.0], id=5, type=2)
    a.custom = {"k": 1}
    a.neighbors = [1, 2, 3]
    a.neighbor_weights = [0.1, 0.2, 0.3]
    a.allq = [0.1 * k for k in range(11)]

    def see():
        return (a.pos, a.id, a.type, a.custom, a.neighbors, a.neighbor_weights, a.allq, a.coordination)

    want = see()
    P = [[], [1.0], [1.0, 2.0], [1.0, 2.0, 3.0, 4.0], [nan, 0, 0], [0, inf, 0], [0, 0, -inf], "abc", None, 3.0, [[1.0, 2.0, 3.0]], ["a", "b", "c"]]
    for v in P:
        refused(ctx, lambda: setattr(a, "pos", v), "position %s" % (v,))
        ctx.equal(see(), want, "atom after position %s" % (v,))
        refused(ctx, lambda: Atom(pos=v, id=1, type=1), "new atom at %s" % (v,))
    for k in range(0, 30):
        if k != 11:
            refused(ctx, lambda: setattr(a, "allq", [0.5] * k), "%d values of q" % k)
            refused(ctx, lambda: setattr(a, "allaq", [0.5] * k), "%d values of averaged q" % k)
    for q, v in (([4], []), ([4, 6], [0.1]), ([4], [0.1, 0.2]), ([], [0.1]), ([4, 13], [0.1, 0.2]), ([1], [0.5])):
        for av in (False, True):
            refused(ctx, lambda: a.set_q(q, v, averaged=av), "set_q(%s, %s)" % (q, v))
            ctx.equal(see(), want, "atom after set_q(%s, %s)" % (q, v)) if q and len(q) != len(v) else None
    a.allq = want[6]
    b = Atom(pos=[1.0, 2.0, 3.0], id=7, type=2)
    for k in (299, 300):
        b.neighbors = list(range(k))
        for nm, v in (("neighbor_weights", 0.5), ("face_vertices", 4), ("face_perimeters", 1.5)):
            setattr(b, nm, [v] * k)
            ctx.equal(getattr(b, nm), [v] * k, "%s of %d neighbors" % (nm, k))
        ctx.equal(b.neighbors, list(range(k)), "%d neighbors" % k)
    for k in (301, 302, 400, 10 ** 4, 10 ** 6):
        for nm, v in (("neighbors", 0), ("neighbor_weights", 0.5), ("face_vertices", 4), ("face_perimeters", 1.5)):
            refused(ctx, lambda: setattr(a, nm, [v] * k), "%s for %d neighbors" % (nm, k))
            refused(ctx, lambda: setattr(b, nm, [v] * k), "%s for %d neighbors" % (nm, k))
    ctx.equal((b.pos, b.id, b.type, b.neighbors, b.neighbor_weights, b.face_vertices, b.face_perimeters), ([1.0, 2.0, 3.0], 7, 2, list(range(300)), [0.5] * 300, [4] * 300, [1.5] * 300), "atom after too long lists")
    for k in (0, 1, 2, 3, 5, 40):
        refused(ctx, lambda: setattr(b, "vorovector", [1] * k), "Voronoi vector of %d numbers" % k)
    for nm, v in (("id", "x"), ("id", None), ("id", 1.5), ("type", "Cu"), ("type", None), ("type", 1.5), ("neighbors", 5), ("neighbors", ["a"]), ("custom", 5), ("loc", "x"), ("solid", "yes")):
        refused(ctx, lambda: setattr(a, nm, v), "%s = %s" % (nm, v))
    ctx.equal(see(), want, "atom after refused requests")


def o_new(ctx):
    import pyscal.core as pc
    for n in (1, 2, 5, 199, 200, 250):
        at = []
        for i in range(n):
            a = pc.Atom(pos=[0.5 * i, 0.1, 0.2], id=i + 1, type=1)
            at.append(a)
        sy = pc.System()
        if n < 200:
            refused(ctx, lambda: setattr(sy, "atoms", at), "%d atoms without a box" % n)
        ctx.equal([sy.natoms, sy.ntotal], [0, 0] if n < 200 else [0, 0], "atoms after they were refused")
        sy.box = [[0.5 * n + 1.0, 0, 0], [0, 3.0, 0], [0, 0, 3.0]]
        for bad in ([], None, 5, [1, 2], [at[0], 5], "atoms", [None]):
            refused(ctx, lambda: setattr(sy, "atoms", bad), "atoms = %s" % str(bad)[:30])
            ctx.equal([sy.natoms, sy.ntotal], [0, 0], "atoms after %s" % str(bad)[:30])
        for k in (0, 1, -1):
            refused(ctx, lambda: sy.get_atom(k), "get_atom(%d) of no atoms" % k)
            refused(ctx, lambda: sy.set_atom(at[0]), "set_atom of no atoms")
        sy.atoms = at
        for bad in ([], None, 5, [1, 2], [at[0], 5], "atoms", [None]):
            refused(ctx, lambda: setattr(sy, "atoms", bad), "atoms = %s" % str(bad)[:30])
            ctx.equal([x.id for x in sy.atoms], list(range(1, n + 1)), "atoms after %s" % str(bad)[:30])
        sy.find_neighbors(method="cutoff", cutoff=0.9)
        ctx.equal([x.coordination for x in sy.atoms], [1 if i in (0, n - 1) else 2 for i in range(n)] if n > 1 else [0], "neighbors of a chain of %d" % n)


def o_crystal(ctx):
    import pyscal.crystal_structures as pcs
    for v in ("", "BCC", "bccc", "fc", "xyz", None, 3, "bcc "):
        refused(ctx, lambda: pcs.make_crystal(v), "crystal %s" % v)
    for v in ([1, 1], [1], [], 2.5, "abc", [1.5, 1, 1]):
        refused(ctx, lambda: pcs.make_crystal("bcc", repetitions=v), "repetitions %s" % (v,))
    for v in ("a", [1]):
        refused(ctx, lambda: pcs.make_crystal("bcc", lattice_constant=v), "lattice constant %s" % (v,))
    at, box = pcs.make_crystal("bcc", repetitions=[2, 2, 2])
    ctx.equal(len(at), 16, "atoms of a crystal afterwards")


def o_trajectory(ctx):
    from pyscal.trajectory import Trajectory
    from c22 import dump_text
    refused(ctx, lambda: Trajectory("missing.dump"), "missing trajectory")
    open("empty.dump", "w").close()
    refused(ctx, lambda: Trajectory("empty.dump"), "empty trajectory")
    open("noise.dump", "w").write("a\nb\nc\nd\ne\n")
    refused(ctx, lambda: Trajectory("noise.dump"), "noise as a trajectory")
    open("ok.dump", "w").write("".join(dump_text([0, 0, 0], [3, 3, 3], None, space.hashed(3, 3, k), [1, 2, 1], [1, 2, 3], ["id", "type", "x", "y", "z"], 0, {})[0] for k in range(3)))
    tr = Trajectory("ok.dump")
    want = [x["atoms"]["x"].tolist() for x in tr[:].to_dict()]
    for v in (3, 4, 100, -4, -100, 10 ** 12):
        for nm in ("get_block", "load", "__getitem__"):
            refused(ctx, lambda: getattr(tr, nm)(v), "%s %s of 3 frames" % (nm, v))
    for v in ("a", None, 1.5, [0]):
        refused(ctx, lambda: tr[v].to_dict(), "frame %s" % (v,))
    for v in ("up", "", None, 3):
        refused(ctx, lambda: list(tr.iter(method=v)), "iteration %s" % (v,))
    refused(ctx, lambda: tr[0:2].to_system(customkeys=["nokey"]), "missing column")
    refused(ctx, lambda: tr[0:2].to_file("missing/folder/x.dump"), "missing folder")
    refused(ctx, lambda: tr[0] + 5, "frame + 5")
    ctx.equal([x["atoms"]["x"].tolist() for x in tr[:].to_dict()], want, "frames after refused requests")
    ctx.equal(list(tr.loadlist), [False] * 3, "loaded frames")


def o_split(ctx):
    import pyscal.traj_process as ptp
    refused(ctx, lambda: ptp.split_trajectory("missing.dump"), "splitting a missing file")
    open("x.dump", "w").write("a\nb\nc\nd\n")
    refused(ctx, lambda: ptp.split_trajectory("x.dump"), "splitting noise")
    for v in ("dump", "nosuch", None, 3, ""):
        refused(ctx, lambda: ptp.split_trajectory("x.dump", format=v), "splitting format %s" % v)
        refused(ctx, lambda: ptp.read_file("x.dump", format=v), "reading format %s" % v)
    refused(ctx, lambda: ptp.read_file("missing.dump"), "reading a missing file")


def o_nosearch(ctx):
    """solids and short range order need neighbors"""
    for b in range(4):
        s = space.make(BASE[b])
        sy = core.new_system(s)
        want = desc.snapshot(sy)
        L = [("find_solids", lambda: sy.find_solids()), ("calculate_sro", lambda: sy.calculate_sro()), ("calculate_pmsro", lambda: sy.calculate_pmsro(reference_type=int(s.types[0]), compare_type=int(s.types[0])))]

        def none(when):
            for nm, f in L:
                refused(ctx, f, "%s %s" % (nm, when))

        none("without neighbors")
        sy.calculate_csm() if hasattr(sy, "calculate_csm") else None
        for bad in ("method", "filter", "threshold sann", "threshold number", "too many"):
            try:
                desc.bad_requests(sy, s)[bad][0]()
            except Exception:
                pass
            none("after the refused search '%s'" % bad)
        desc.same_snapshot(ctx, desc.snapshot(sy), want, "structure after refused requests")
        core.search(sy, s, ["c", 1.35])
        for nm, f in L:
            f()
            ctx.op()
        # neighbors of atoms which were kept can be used, those of replaced atoms can not
        o = space.make(BASE[(b + 1) % 4])
        sy.to_file("same.dump")
        ways = (("atoms were set", lambda: setattr(sy, "atoms", sy.atoms), True), ("neighbors were reset", lambda: sy.reset_neighbors(), False),
                ("atoms were replaced", lambda: setattr(sy, "atoms", core.new_atoms(s)), False),
                ("box and atoms were set", lambda: (setattr(sy, "box", sy.box), setattr(sy, "atoms", core.new_atoms(s))), False),
                ("a file was read", lambda: sy.read_inputfile("same.dump"), False),
                ("atoms of another system were set", lambda: (setattr(sy, "box", o.box.tolist()), setattr(sy, "atoms", core.new_atoms(o))), False),
                ("and back", lambda: (setattr(sy, "box", s.box.tolist()), setattr(sy, "atoms", core.new_atoms(s))), False))
        for nm, way, valid in ways:
            if nm != "and back":
                core.search(sy, s, ["c", 1.35])
            way()
            ctx.op()
            if valid:
                for _, f in L:
                    f()
            else:
                none("after " + nm)
        for bad in ("threshold sann", "threshold number", "too many"):
            core.search(sy, s, ["c", 1.35])
            try:
                desc.bad_requests(sy, s)[bad][0]()
            except Exception:
                pass
            # either the earlier neighbors are still there, or there are none
            if sum(a.coordination for a in sy.atoms) == 0:
                none("after the refused search '%s' discarded the neighbors" % bad)
