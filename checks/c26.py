"""C26: reports of Voronoi environments and of tetrahedral sites."""
import contextlib
import io
import re
import warnings

import numpy as np

import core
import ref
import space

INFO = {
    "rule": "a case is one structure (lattice with foreign atoms on tetrahedral, octahedral and general sites; size; box shape; displacement), written to a file and passed to compare_atomic_env and find_tetrahedral_voids with every atom type, several precisions, both output forms and both kinds of coordinates; volumes, faces and distances are compared with an independent qhull tessellation",
    "bounds": {"quick": "4 lattices x 2 sizes x 6 boxes x 2 displacements (rotating file formats), 5 precisions (3 for large structures), 3 types", "thorough": "3 displacements with 3 seeds, all file formats"},
    "assumptions": ["no volume within 1e-6 (1e-8 for 4 or more digits) of a rounding boundary, no edge, face or distance within 1e-6 of its cutoff"],
}
# tetrahedral, octahedral and general sites in units of the lattice vectors
SITES = {
    "bcc": [[0.25, 0.5, 0.0], [0.5, 0.5, 0.0], [0.2, 0.31, 0.12]],
    "fcc": [[0.25, 0.25, 0.25], [0.5, 0.5, 0.5], [0.2, 0.31, 0.12]],
    "sc": [[0.5, 0.5, 0.5], [0.5, 0.0, 0.0], [0.2, 0.31, 0.12]],
    "dia": [[0.5, 0.5, 0.5], [0.625, 0.625, 0.625], [0.2, 0.31, 0.42]],
}
SIZE = {"bcc": ([2, 2, 2], [5, 5, 5]), "fcc": ([2, 2, 2], [4, 4, 4]), "sc": ([3, 3, 3], [6, 6, 6]), "dia": ([1, 2, 2], [3, 3, 3])}
CELLS = ["ortho", "tet", "tri", "tri2", "orot", "skew"]
FORMATS = ["poscar", "dump", "extxyz"]
SP = ["Al", "Cu", "H"]


def cases(tier):
    k = 0
    for lat in SITES:
        for big in (0, 1):
            for cell in CELLS:
                for disp in ((0, 0.03) if tier == "quick" else (0, 0.02, 0.05)):
                    for sd in (range(3) if tier == "thorough" and disp else (0,)):
                        fm = FORMATS if cell in ("ortho", "tet", "skew") else FORMATS[::2]
                        for fmt in fm if tier == "thorough" else (fm[(k + k // 6) % len(fm)],):
                            yield {"lat": lat, "big": big, "cell": cell, "disp": disp, "seed": sd, "fmt": fmt, "few": int(tier == "quick" and big)}
                        k += 1


def structure(case):
    a = 3.2
    rep = SIZE[case["lat"]][case["big"]]
    s = space.make(dict(lat=case["lat"], rep=rep, cell=case["cell"], a=a, types="alt"))
    # the third type: one atom per kind of site, in different cells
    sites = np.array([np.array(x) + [k % rep[0], (k + 1) % rep[1], k % rep[2]] for k, x in enumerate(SITES[case["lat"]])])
    cube = dict(space.make(dict(lat=case["lat"], rep=rep, a=a)).__dict__)["box"]
    pos = np.vstack([s.pos, sites * a if case["cell"] == "skew" else sites * a @ np.linalg.inv(cube) @ s.box])
    s = space.Struct(s.box, pos, list(s.types) + [3] * len(sites))
    if case["disp"]:
        s.pos = s.pos + case["disp"] * a * (2 * space.hashed(s.n, 3, case["seed"]) - 1)
    s.pos = (s.pos @ np.linalg.inv(s.box) % 1.0) @ s.box
    return s


def run(case, ctx):
    import pyscal.misc as pm
    s = structure(case)
    fmt = case["fmt"]
    what = "%s%s in %s, displaced by %s" % (case["lat"], "" if case["big"] else " (small)", case["cell"], case["disp"])
    sy = core.new_system(s)
    tol = 1e-6
    if fmt == "dump":
        sy.to_file("m.dump")
        arg = dict(infile="m.dump", format="lammps-dump")
    else:
        sy.to_file("m." + fmt, format=fmt, species=SP)
        arg = dict(infile="m." + fmt, format=fmt)
    # the structure as the file has it (rounded; poscar groups atoms by type, a dump turns the box)
    t = pm.pc.System()
    t.read_inputfile(arg["infile"], format=arg["format"])
    f = s.pos @ np.linalg.inv(s.box)
    s2 = space.Struct(np.array(t.box), np.array([x.pos for x in t.atoms]), [x.type for x in t.atoms])
    d = (s2.pos @ np.linalg.inv(s2.box))[:, None] - f[None]
    d -= np.round(d)
    near = np.linalg.norm(d @ s2.box, axis=2) < 1e-4
    same = s2.n == s.n and (near.sum(axis=1) == 1).all() and (near.sum(axis=0) == 1).all() and (s.types[near.argmax(axis=1)] == s2.types).all()
    ctx.check(same and abs(s2.volume / s.volume - 1) < 1e-5, "%s: read from %s as a different structure", what, fmt)
    s = s2
    ctx.op()
    cells = ref.voronoi(s)
    vol = np.array([c.volume for c in cells])
    fp, edges_ok = [], []
    for c in cells:
        fa = c.area / c.area.sum()
        keep = fa > 0.01
        ok = np.abs(fa - 0.01).min() > tol
        n = []
        for p, b in zip(c.poly, keep):
            e = np.linalg.norm(np.roll(p, -1, axis=0) - p, axis=1)
            e = e / e.sum()
            ok = ok and (not b or np.abs(e - 0.05).min() > tol)
            if b:
                n.append(int((e > 0.05).sum()))
        fp.append(tuple(n.count(k) for k in (3, 4, 5, 6)))
        edges_ok.append(ok)
    edges_ok = np.array(edges_ok)
    environments(case, ctx, pm, s, arg, what, vol, fp, edges_ok, tol)
    voids(case, ctx, pm, s, arg, what, vol, fp, edges_ok, cells, tol)


def captured(f):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = f()
    return r, out.getvalue(), [str(x.message) for x in w]


def environments(case, ctx, pm, s, arg, what, vol, fp, ok, tol):
    few = case.get("few")
    for typ in (1, 2, 3):
        me = np.where(s.types == typ)[0]
        # (rounded coordinates of a perfect lattice: voro++ is right to 1e-5 only)
        for prec in ((1, 2) if few else (0, 1, 2, 3)) + ((4 if few else 5,) if case["disp"] else ()):
            u = vol[me] * 10 ** prec
            if np.abs(u - np.floor(u) - 0.5).min() < (10 * tol if prec < 4 else 1e-8) * 10 ** prec or not ok[me].all():
                ctx.count("tie")
                continue
            key = np.rint(u).astype(int)
            want = {}
            for k, i in zip(key, me):
                want.setdefault(k, []).append(fp[i])
            mixed = any(len(set(v)) > 1 for v in want.values())
            w = "%s: environments of type %d with %d digits" % (what, typ, prec)
            r, out, warn = captured(lambda: pm.compare_atomic_env(atomtype=typ, precision=prec, print_results=False, **arg))
            ctx.op()
            ctx.step()
            ctx.visit(str(case), typ, prec)
            vvx, vrx, vvc = r
            got = [int(round(float(v) * 10 ** prec)) for v in vvx]
            ctx.equal(got, sorted(want), w + ": distinct volumes")
            ctx.equal([int(x) for x in vvc], [len(want[k]) for k in sorted(want)], w + ": number of atoms")
            vrx = [tuple(int(x) for x in str(v).split()) for v in vrx]
            if mixed:
                ctx.equal(sorted(vrx), sorted(set(fp[i] for i in me)), w + ": fingerprints")
            else:
                ctx.equal(vrx, [want[k][0] for k in sorted(want)], w + ": fingerprints that belong to the volumes")
            ctx.equal(any("Different voronoi" in x for x in warn), mixed, w + ": warning about several fingerprints for a volume")
            r, out, warn = captured(lambda: pm.compare_atomic_env(atomtype=typ, precision=prec, print_results=True, **arg))
            ctx.op()
            ctx.equal(out.split("\n")[0], "%d clusters found" % len(want), w + ": printed number")
            rows = re.findall(r"<(.*?)>, vol = (\S+), counts = (\d+)", out)
            ctx.equal([int(n) for _, _, n in rows], [len(want[k]) for k in sorted(want)], w + ": printed counts")
            # to the number of digits which are printed
            off = [abs(float(v) - k / 10 ** prec) * 10 ** len(v.partition(".")[2]) for k, (_, v, _) in zip(sorted(want), rows)]
            ctx.check(max(off) < 0.501 and all(len(v.partition(".")[2]) >= min(prec, 3) or float(v) * 10 ** prec == k for k, (_, v, _) in zip(sorted(want), rows)), "%s: printed volumes %s", w, rows)
            ctx.equal([f for f, _, _ in rows], ["x x x x" if mixed else " ".join(map(str, want[k][0])) for k in sorted(want)], w + ": printed fingerprints")
        if typ == 1:
            (r, t), out, warn = captured(lambda: pm.compare_atomic_env(atomtype=typ, print_results=False, return_system=True, **arg))
            ctx.op()
            ctx.equal(len(t.atoms), s.n, what + ": returned system")
            ctx.close([a.volume for a in t.atoms], vol, what + ": volumes in the returned system", 0, 100 * tol)


def voids(case, ctx, pm, s, arg, what, vol, fp, ok, cells, tol):
    inv = np.linalg.inv(s.box)
    few = case.get("few")
    for prec in (0.1, 0.05) if few else (0.1, 0.05, 0.01, 0.3):
        want, amb = [], False
        for i, c in enumerate(cells):
            # with and without the faces which vanish
            sure = c.area > 1e-6 * c.area.sum()
            shells = []
            for r in (c.dist, c.dist[sure]):
                d = np.abs(r / r.min() - 1)
                shells.append((int((d <= prec).sum()) == 4, np.abs(d - prec).min() > 10 * tol))
            if (not ok[i] or fp[i][1] == 4) and not (ok[i] and all(x[1] for x in shells) and len(set(x[0] for x in shells)) == 1):
                amb = True
            if fp[i][1] == 4 and shells[0][0]:
                want.append(i)
        if amb:
            ctx.count("tie")
            continue
        for direct in (True, False):
            w = "%s: tetrahedral sites, precision %s, %s" % (what, prec, "direct" if direct else "Cartesian")
            r, out, _ = captured(lambda: pm.find_tetrahedral_voids(print_results=not direct or prec == 0.05, direct_coordinates=direct, return_system=True, precision=prec, **arg))
            ctx.op()
            ctx.step()
            ctx.visit(str(case), prec, direct)
            types, vols, pos, t = r
            ctx.count("voids", len(want))
            ctx.equal([int(x) for x in types], [int(s.types[i]) for i in want], w + ": types")
            ctx.close(vols, vol[want], w + ": volumes", 0, 100 * tol)
            # the box may have been rotated by the format
            p = np.array(pos, dtype=float).reshape(-1, 3)
            f = p if direct else p @ np.linalg.inv(np.array(t.box))
            d = f - s.pos[want] @ inv
            d -= np.round(d)
            ctx.check(len(want) == 0 or np.abs(d).max() < 1e-5, "%s: positions %s", w, p)
            if out:
                ctx.equal(out.split("\n")[0], "%d atoms found in tetrahedral position" % len(want) if want else "no atoms found in tetrahedral position", w + ": printed number")
                rows = re.findall(r"volume (\S+) type (\d+) at (\S+), (\S+), (\S+)", out)
                ctx.equal([int(x[1]) for x in rows], [int(x) for x in types], w + ": printed types")
                if rows:
                    ctx.close([[float(y) for y in x[2:]] for x in rows], p, w + ": printed positions", 0, 1e-5)
                    ctx.close([float(x[0]) for x in rows], vols, w + ": printed volumes", 0, 1e-5)
