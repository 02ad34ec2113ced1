"""C05: Voronoi cells are those of the periodic tessellation."""
import numpy as np

import core
import ref
import space

INFO = {
    "rule": "a case is one structure and one history of Voronoi searches (weight exponents, other methods in between, repeated, atoms moved); after every Voronoi search volumes, averaged volumes, neighbors with vectors, face weights, perimeters, vertex counts, vertex positions and the reciprocity of faces are compared with an independent tessellation (qhull over replicated points)",
    "bounds": {"quick": "all regimes without cell lists and 3 perfect degenerate crystals x 2 histories of 3 searches; two structures of more than 4000 atoms",
               "thorough": "3 displacement seeds x 4 histories of up to 5 searches; systems up to 1024 atoms; two structures of more than 4000 atoms"},
    "assumptions": ["faces smaller than 1e-7 of the surface (degenerate vertices of perfect crystals) are not compared",
                    "an atom shares at most one face with each other atom of the (replicated) cell"],
}
HIST = [[["v", 1], ["v", 2], ["m", 0.12], ["v", 1]],
        [["c"], ["v", 3], ["a"], ["v", 1]],
        [["v", 0], ["n"], ["v", 4], ["v", 1], ["v", 1]],
        [["f"], ["v", 2], ["v", 1]]]
PERFECT = [dict(lat=l, rep=r, cell=c) for l, r in (("bcc", [2, 2, 2]), ("bcc", [5, 5, 5]), ("fcc", [2, 2, 2]), ("fcc", [4, 4, 4]), ("sc", [2, 2, 2]), ("hcp", [4, 4, 4]), ("dia", [3, 3, 3]), ("bcc_p", [1, 1, 1]), ("fcc_p", [3, 3, 3])) for c in ("ortho",)]
EXTRA = [dict(lat="bcc", rep=[1, 1, 8], disp=.05), dict(lat="bcc", rep=[5, 5, 5], cell="skew", disp=.07, off=4), dict(lat="fcc", rep=[1, 1, 1], cell="rot", disp=.08),
         dict(lat="a15", rep=[2, 2, 2], disp=.02, cell="tri2", off=2), dict(lat="a15", rep=[3, 3, 3], disp=.02), dict(lat="rand", n=64, lens=[1, 2, 0.5]),
         dict(lat="dim", rep=[6, 6, 6], disp=.03, cell="left"), dict(lat="hdia", rep=[3, 2, 2], disp=.03, cell="tri"), dict(lat="tri3", rep=[2, 2, 2], cell="tri2", off=4)]


def cases(tier):
    for sd in ([0] if tier == "quick" else [0, 1, 2, 3]):
        for spec in space.regimes(disp=0.05) + EXTRA:
            spec = dict(spec, seed=sd + spec.get("seed", 0))
            for h in (HIST[:2] if tier == "quick" else HIST):
                yield {"s": spec, "h": h}
    for spec in PERFECT:
        yield {"s": spec, "h": [["v", 1], ["v", 2]], "deg": 1}
    for spec in (dict(lat="bcc", rep=[13, 13, 12], disp=.05, cell="tri2"), dict(lat="fcc", rep=[12, 8, 11], disp=.04, off=2)):
        yield {"s": spec, "h": [["v", 2]]}
    if tier == "thorough":
        for cell in ("ortho", "tri", "tri2", "rot", "left"):
            yield {"s": dict(lat="bcc", rep=[8, 8, 8], disp=.06, cell=cell), "h": HIST[0]}


def run(case, ctx):
    s = space.make(case["s"])
    cells = ref.voronoi(s)
    deg = case.get("deg")
    sy = core.new_system(s)
    rmap = core.real_index(sy, s)
    rho = (s.volume / s.n) ** (1 / 3.)
    for h in case["h"]:
        ctx.step()
        ctx.op()
        if h[0] == "m":
            # the same atoms, somewhere else
            s = space.Struct(s.box, s.pos + h[1] * rho * (2 * space.hashed(s.n, 3, 77) - 1), s.types, s.spec)
            cells = ref.voronoi(s)
            at = sy.atoms
            for a, x in zip(at, s.pos):
                a.pos = [float(y) for y in x]
            sy.atoms = at
            rmap = core.real_index(sy, s)
            continue
        if h[0] == "c":
            sy.find_neighbors(method="cutoff", cutoff=min(1.3 * rho, .95 * s.maxcut()))
            continue
        if h[0] == "a":
            sy.find_neighbors(method="cutoff", cutoff="adaptive")
            continue
        if h[0] == "n":
            sy.find_neighbors(method="number", nmax=6)
            continue
        if h[0] == "f":
            sy.find_neighbors(method="voronoi", filter="type")
            continue
        sy.find_neighbors(method="voronoi", voroexp=h[1])
        at = sy.atoms
        ctx.check(len(at) == s.n, "number of atoms changed to %d", len(at))
        vol = np.array([a.volume for a in at])
        want = np.array([c.volume for c in cells])
        ctx.close(vol, want, "cell volumes", rtol=1e-9)
        ctx.close(vol.sum(), s.volume, "sum of the cell volumes", rtol=1e-9)
        ctx.close([a.cutoff for a in at], np.cbrt(3 * want / (4 * np.pi)), "radius of the equivalent sphere")
        big = []
        for i, c in enumerate(cells):
            k = c.area > (1e-7 if not deg else 1e-6) * c.area.sum()
            o = np.argsort(c.dist[k], kind="stable")
            big.append((c.j[k][o], c.vec[k][o], c.dist[k][o], c.area[k][o] ** h[1] / (c.area[k] ** h[1]).sum(), c.perim[k][o], c.nvert[k][o]))
        got = []
        for i, a in enumerate(at):
            w = np.array(a.neighbor_weights)
            nb = a.neighbors
            d, v = np.array(a.neighbor_distance), np.array(a.neighbor_vector).reshape(-1, 3)
            per, fv = np.array(a.face_perimeters), np.array(a.face_vertices)
            ctx.check(len({len(nb), len(w), len(d), len(v), len(per), len(fv), a.coordination}) == 1, "atom %d: neighbor data of different lengths", i)
            if h[1]:
                ctx.close(w.sum(), 1.0, "sum of the weights of atom %d" % i)
            c = cells[i]
            if deg:
                # drop faces of (numerically) no area
                keep = per > 1e-5
            else:
                keep = np.ones(len(w), bool)
            got.append((np.array([rmap[j] for j in nb], int)[keep], v[keep], d[keep], w[keep], per[keep], fv[keep]))
        if not deg and any(len(b[0]) != len(c.j) for b, c in zip(big, cells)):
            ctx.count("skipped_small_faces")
            continue
        core.same_neighbors(ctx, got, big, "voronoi")
        sharp = [len(c.verts) for c in cells]
        for i, (g, w) in enumerate(zip(got, big)):
            go, wo = core._order(g), core._order(w)
            if deg and h[1] == 0:
                continue
            ctx.close(g[3][go], w[3][wo], "weights of atom %d" % i, rtol=1e-7 if not deg else 1e-5)
            ctx.close(g[4][go], w[4][wo], "face perimeters of atom %d" % i, rtol=1e-7 if not deg else 1e-5)
            if not deg:
                ctx.check(list(g[5][go]) == list(w[5][wo]), "number of vertices per face of atom %d: %s, expected %s", i, list(g[5][go]), list(w[5][wo]))
        # vertices
        for i, a in enumerate(at):
            vv = np.array(a.vertex_vectors).reshape(-1, 3)
            vp = np.array(a.vertex_positions).reshape(-1, 3)
            ctx.close(vp - np.array(a.pos), vv, "vertex positions of atom %d" % i)
            c = cells[i]
            if not deg:
                ctx.check(len(vv) == len(c.verts), "atom %d has %d vertices, expected %d", i, len(vv), len(c.verts))
            dd = np.linalg.norm(vv[:, None] - c.verts[None], axis=2)
            ctx.check(dd.min(1).max() < 1e-6 and dd.min(0).max() < 1e-6, "vertices of atom %d are not those of its cell", i)
            # faces listed by vertex index
            p, k = 0, 0
            vn = a.vertex_numbers
            while p < len(vn):
                n = vn[p]
                ctx.check(n == a.face_vertices[k], "vertex list of atom %d does not match face %d", i, k)
                poly = vv[vn[p + 1:p + 1 + n]]
                ctx.check(len(poly) == n, "vertex list of atom %d is cut", i)
                # every vertex of the face is equidistant from the atom and the neighbor
                if not (deg and a.face_perimeters[k] < 1e-5):
                    r = np.array(a.neighbor_vector[k])
                    ctx.check(np.abs(np.linalg.norm(poly, axis=1) - np.linalg.norm(poly - r, axis=1)).max() < 1e-6, "face %d of atom %d is not between the atom and its neighbor", k, i)
                p += n + 1
                k += 1
            ctx.check(k == len(a.face_vertices), "atom %d lists %d faces of %d", i, k, len(a.face_vertices))
        # mean over the atom and its neighbors (their volumes are those of the atoms they are images of)
        if not deg:
            av = np.array([(vol[i] + sum(vol[j] for j in g[0])) / (len(g[0]) + 1) for i, g in enumerate(got)])
            ctx.close([a.avg_volume for a in at], av, "averaged volumes")
            ctx.count("faces", sum(len(g[0]) for g in got))
            # reciprocal faces have the same area
            if h[1] == 1:
                area = {}
                for i, (g, c) in enumerate(zip(got, cells)):
                    for j, v, w in zip(g[0], g[1], g[3]):
                        area[(i, int(j)) + tuple(np.round(v, 4) + 0.0)] = w * c.area.sum()
                for (i, j, x, y, z), ar in area.items():
                    k = (j, i, -x + 0.0, -y + 0.0, -z + 0.0)
                    if k in area:
                        ctx.close(area[k], ar, "area of the face between %d and %d" % (i, j), rtol=1e-6)
                        ctx.count("reciprocal")
        ctx.visit(space.name(case["s"]), tuple(h))
