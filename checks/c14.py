"""C14: angular criterion, chi parameters, Voronoi face vector."""
import itertools

import numpy as np

import core
import ref
import space

INFO = {
    "rule": "a case is one structure and a sequence of neighbor searches; after each of them the angular criterion, the chi parameters and (after Voronoi) the face vector for a grid of edge and area cutoffs are calculated and compared for every atom with the definition applied to the atom's neighbors (faces: to cells from an independent qhull tessellation)",
    "bounds": {"quick": "all regimes x 3 searches (rotating from 6) + Voronoi with 16 pairs of cutoffs; one structure of more than 4000 atoms", "thorough": "all regimes x 3 seeds x 6 searches in 2 orders + Voronoi with 42 pairs of cutoffs; one structure of more than 4000 atoms"},
    "assumptions": ["no cosine within 1e-9 of a bin edge, no edge or face within 1e-6 of its cutoff", "angular: the four closest neighbors are unique"],
}
BINS = [-1.0, -0.945, -0.915, -0.755, -0.705, -0.195, 0.195, 0.245, 0.795, 1.0]
FIND = [["c", 1.35], ["n", 4], ["a", 6, 1.4], ["n", 9], ["c", 1.1], ["s"], ["n", 14], ["c", 1.6]]
EC = [0.0, 0.02, 0.05, 0.11, 0.16, 0.26]
AC = [0.0, 0.005, 0.01, 0.03, 0.06, 0.09, 0.2]


def cases(tier):
    k = 0
    # undistorted crystals: opposite neighbors, in every orientation
    for lat in ("bcc", "fcc", "sc", "dia"):
        for cell in ("ortho", "orot", "rot"):
            for a in (1.0, 2.87, 3.6):
                yield {"s": dict(lat=lat, rep=[2, 2, 2], a=a, cell=cell, disp=0, off=1), "f": [["c", 1.33], ["c", 1.7], ["c", 1.0]], "cut": []}
    yield {"s": dict(lat="bcc", rep=[13, 13, 12], disp=.08), "f": FIND[:1] + [["v", 1]], "cut": [(0.05, 0.01)]}
    for sd in ((0,) if tier == "quick" else (0, 1, 2)):
        for spec in space.regimes(disp=0.08):
            fs = FIND[k % 8:] + FIND[:k % 8]
            sp = dict(spec, seed=sd + spec.get("seed", 0))
            if tier == "quick":
                yield {"s": sp, "f": fs[:3] + [["v", 1]], "cut": list(itertools.product(EC[k % 2::2] + [0.05], AC[(k + 1) % 2::2] + [0.01]))}
            else:
                yield {"s": sp, "f": fs + [["v", 1]], "cut": list(itertools.product(EC, AC))}
                yield {"s": sp, "f": [["v", 1]] + fs[::-1], "cut": []}
            k += 1


def run(case, ctx):
    s = space.make(case["s"])
    sy = core.new_system(s)
    ridx = core.real_index(sy, s)
    for f in case["f"]:
        if f[0] == "n" and ref.number_tie(s, f[1]) or f[0] == "s" and ref.sann(s)[2]:
            ctx.count("tie")
            continue
        core.search(sy, s, f, ctx)
        nb = core.mapped(sy, s, ridx)
        if any(len(x[0]) and x[2].max() > 0.999 * s.maxcut() for x in nb):
            ctx.count("out_of_domain")
            continue
        ctx.step()
        sy.calculate_angularcriteria()
        ctx.op()
        at = sy.atoms
        for i, x in enumerate(nb):
            o = np.argsort(x[2])
            if len(o) > 4 and x[2][o[4]] - x[2][o[3]] < 1e-9:
                continue
            u = x[1][o[:4]] / x[2][o[:4], None]
            w = sum((u[a] @ u[b] + 1 / 3.) ** 2 for a, b in itertools.combinations(range(len(u)), 2))
            ctx.close(at[i].angular, w, "angular criterion of atom %d after %s" % (i, f), rtol=1e-7, atol=1e-9)
        r = sy.calculate_chiparams()
        ctx.op()
        at = sy.atoms
        for i, x in enumerate(nb):
            u = x[1] / x[2][:, None]
            c = (u @ u.T)[np.triu_indices(len(u), 1)]
            if len(c) and np.abs(c[:, None] - np.array(BINS[1:-1])[None]).min() < 1e-9:
                ctx.count("chi_tie")
                continue
            raw = c
            c = np.clip(c, -1, 1)
            w = [int(((c >= lo) & ((c < hi) | ((hi == 1.0) & (c <= hi)))).sum()) for lo, hi in zip(BINS, BINS[1:])]
            got = [int(v) for v in at[i].chiparams]
            if got != w and got[1:8] == w[1:8] and 0 <= w[0] - got[0] <= (np.abs(raw + 1) < 1e-12).sum() and 0 <= w[8] - got[8] <= (np.abs(raw - 1) < 1e-12).sum():
                ctx.known("chi-opposite-neighbors", "%s after %s: atom %d: %s instead of %s" % (space.name(case["s"]), f, i, got, w))
                ctx.count("known")
                continue
            ctx.equal(got, w, "chi parameters of atom %d after %s" % (i, f))
        ctx.visit(space.name(case["s"]), str(f))
        if f[0] == "v" and case["cut"]:
            faces(case, ctx, s, sy)


def faces(case, ctx, s, sy):
    cells = ref.voronoi(s)
    tot = [c.area.sum() for c in cells]
    rel = []
    for c in cells:
        e = [np.linalg.norm(np.roll(p, -1, axis=0) - p, axis=1) for p in c.poly]
        rel.append([x / x.sum() for x in e])
    for ec, ac in case["cut"]:
        ctx.op()
        ctx.step()
        sy.calculate_vorovector(edge_cutoff=ec, area_cutoff=ac)
        at = sy.atoms
        for i, c in enumerate(cells):
            fa = c.area / tot[i]
            # a vanishing face or edge may exist on one side only
            if ac > 0:
                amb = np.abs(fa - ac).min() < 1e-6
            else:
                amb = fa.min() < 1e-6
            big = fa > ac
            ee = np.concatenate([x for x, b in zip(rel[i], big) if b] or [np.zeros(0)])
            if len(ee):
                amb = amb or (np.abs(ee - ec).min() < 1e-6 if ec > 0 else ee.min() < 1e-6)
            if amb:
                ctx.count("face_tie")
                continue
            n = [int((x > ec).sum()) for x, b in zip(rel[i], big) if b]
            want = [n.count(k) for k in (3, 4, 5, 6)]
            ctx.equal([int(v) for v in at[i].vorovector], want, "face vector of atom %d, edge cutoff %s, area cutoff %s" % (i, ec, ac))
        ctx.visit(space.name(case["s"]), "faces", ec, ac)
