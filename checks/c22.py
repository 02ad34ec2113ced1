"""C22: writing and reading a structure returns the same structure."""
import gzip
import io
import itertools

import numpy as np

import core
import space

INFO = {
    "rule": "round trips of all structures of the space through every format (dump, compressed dump, POSCAR, LAMMPS data, ASE objects and ASE file formats), twice in a row; trajectories of mdtraj; dump files of all column orders, scaled or not, box origins, tilts and extra columns written by the harness; custom columns from attributes, custom values, order parameters and given values; all ordered pairs of files read into the same System",
    "bounds": {"quick": "67 structures x 13 formats; 120 column orders x 2 coordinates x 11 boxes (tilted, origins); files of 1200 and 4300 atoms; 3 custom modes x 6 structures; 36 pairs of files; every 4th structure through mdtraj", "thorough": "also 7 column layouts with 4 extra columns (all 5040 orders of 7 columns)"},
    "assumptions": ["LAMMPS data files hold no species, only the grouping into types", "boxes with a left handed set of vectors cannot be dumps (refused)"],
}
SPECIES = ["Cu", "Al", "Ni", "Zr", "Fe", "Ti", "W", "Mo", "Pt", "Ag", "Au", "Pb", "C"]
FORMATS = ["dump", "dump.gz", "dump compressed", "poscar", "poscar gz", "poscar compressed", "lammps-data", "ase", "extxyz", "cif", "json", "xsf", "traj"]


def structures():
    out = space.regimes(disp=0.05, types="alt")
    out += [dict(lat="bcc", rep=[3, 3, 3], disp=0.05, types="one", cell=c, off=o) for c in ("ortho", "rot") for o in (0, 4)]
    out += [dict(lat="bcc", rep=[3, 2, 2], disp=0.05, types="three", cell=c, off=k % 3) for k, c in enumerate(("negx", "negy", "negz", "tiny", "zero"))]
    out += [dict(lat="bcc", rep=[3, 3, 3], disp=0.05, types="many", cell="tri"), dict(lat="fcc", rep=[4, 4, 4], disp=0.05, types="many", off=1)]
    out += [dict(lat="bcc", rep=[9, 9, 9], disp=0.05, types="alt", cell="negy", off=2)]
    out += [dict(lat="hcp", rep=[2, 2, 2], disp=0.05, types="three", cell="tri2", off=2), dict(lat="fcc", rep=[2, 2, 2], disp=0.05, types="alt", a=31.7, off=2), dict(lat="dim", rep=[1, 1, 1], types="alt", a=3.0)]
    return out


def cases(tier):
    n = len(structures())
    for i in range(n):
        yield {"part": "trip", "i": i}
    for b in range(len(BOXES)):
        for scaled in (0, 1):
            yield {"part": "columns", "b": b, "scaled": scaled, "extra": 2 if tier == "thorough" else 0}
    for n0 in (1200, 4300):
        yield {"part": "many", "n": n0}
    for i in range(0, n, 9):
        yield {"part": "custom", "i": i}
    yield {"part": "pairs"}
    yield {"part": "legacy"}
    for i in range(0, n, 4 if tier == "quick" else 1):
        yield {"part": "mdtraj", "i": i}


def run(case, ctx):
    globals()[case["part"]](case, ctx)


def grouping(t):
    first = {}
    return [first.setdefault(x, len(first)) for x in t]


def same_structure(ctx, sy, s, what, tol=1e-9, wrap=False, types=True, ids=True, species=None):
    at = sy.atoms
    ctx.equal(len(at), s.n, what + ": number of atoms")
    b = np.array(sy.box, dtype=float)
    L = np.linalg.norm(s.box, axis=1).max()
    ctx.close(b @ b.T, s.box @ s.box.T, what + ": box (lengths and angles)", 0, 4 * tol * L + 1e-9)
    f = np.array([a.pos for a in at]) @ np.linalg.inv(b)
    g = s.pos @ np.linalg.inv(s.box)
    d = f - g
    if wrap:
        d -= np.round(d)
    d = np.abs(d) @ np.linalg.norm(s.box, axis=1)[:, None]
    k = d[:, 0].argmax()
    ctx.comparisons += s.n
    ctx.check(d.max() < tol * 20 * (1 + np.abs(g).max()), "%s: atom %d is %.3g away from where it was", what, k, d.max())
    t = [a.type for a in at]
    ctx.equal(t if types else grouping(t), list(s.types) if types else grouping(list(s.types)), what + ": types")
    if ids:
        ctx.equal([a.id for a in at], list(range(1, s.n + 1)), what + ": ids")
    ctx.equal([a.loc for a in at], list(range(s.n)), what + ": locations")
    if species is not None:
        ctx.equal([str(a.custom["species"]) for a in at], species, what + ": species")


def write_read(sy, fmt, sp):
    import pyscal.core as pc
    t = pc.System()
    if fmt == "dump":
        sy.to_file("s.dump")
        t.read_inputfile("s.dump")
    elif fmt == "dump.gz":
        sy.to_file("s.dump.gz", compressed=True)
        gzip.open("s.dump.gz").read()
        t.read_inputfile("s.dump.gz")
    elif fmt == "dump compressed":
        sy.to_file("s2dump", compressed=True, timestep=2 ** 31 + 17)
        gzip.open("s2dump").read()
        t.read_inputfile("s2dump", compressed=True)
    elif fmt == "poscar":
        sy.to_file("s.poscar", format="poscar", species=sp)
        t.read_inputfile("s.poscar", format="poscar")
    elif fmt == "poscar gz":
        sy.to_file("p.poscar", format="poscar", species=sp)
        with gzip.open("p.poscar.gz", "wb") as f:
            f.write(open("p.poscar", "rb").read())
        t.read_inputfile("p.poscar.gz", format="poscar")
    elif fmt == "poscar compressed":
        sy.to_file("cposcar", format="poscar", species=sp, compressed=True)
        gzip.open("cposcar").read()
        t.read_inputfile("cposcar", format="poscar", compressed=True)
    elif fmt == "ase":
        t.read_inputfile(sy.to_ase(species=sp), format="ase")
    else:
        sy.to_file("s." + fmt, format=fmt, species=sp)
        t.read_inputfile("s." + fmt, format=fmt)
    return t


def trip(case, ctx):
    spec = structures()[case["i"]]
    s = space.make(spec)
    k = len(set(s.types.tolist()))
    sp = SPECIES[:k]
    want_species = [sp[t - 1] for t in s.types]
    left = np.linalg.det(s.box) < 0
    for fmt in FORMATS:
        sy = core.new_system(s)
        ctx.op(2)
        ctx.step()
        ctx.visit(case["i"], fmt)
        what = "%s through %s" % (space.name(spec), fmt)
        if fmt.startswith("dump") and left:
            ctx.raises(lambda: write_read(sy, fmt, sp), ValueError, what)
            continue
        t = write_read(sy, fmt, sp)
        dump, data = fmt.startswith("dump"), fmt == "lammps-data"
        tol = 1.1e-6 if dump else 1e-7 if fmt == "extxyz" else 1e-9
        wrap = fmt in ("lammps-data", "cif")
        same_structure(ctx, t, s, what, tol, wrap, dump, True, None if dump or data else want_species)
        if fmt == "dump compressed":
            ctx.equal(gzip.open("s2dump", "rt").read().split("\n")[1], str(2 ** 31 + 17), what + ": timestep")
        # and once more: reading what was written from what was read
        if not data:
            u = write_read(t, fmt, sp)
            same_structure(ctx, u, s, what + " twice", 2 * tol, wrap, dump, True, None if dump else want_species)
            if dump:
                ctx.close([a.pos for a in u.atoms], [a.pos for a in t.atoms], what + " twice: positions", 0, 1.2e-6)


# ------------------------------------------------------------ foreign dump files
BOXES = [([0, 0, 0], [3.0, 4.0, 5.0], None), ([-1.5, 2.0, -7.25], [3.0, 4.0, 5.0], None), ([0, 0, 0], [3.0, 4.0, 5.0], [0.7, -0.4, 0.9]), ([-2.0, 1.0, 3.5], [3.0, 4.0, 5.0], [-0.7, -0.4, 0.9]),
         ([1.0, 1.0, 1.0], [3.0, 4.0, 5.0], [0.7, 0.4, -1.9]), ([-1.0, 0, 2.0], [3.0, 4.0, 5.0], [0, 0, 0]), ([5.0, -5.0, 0.5], [3.0, 4.0, 5.0], [1.4, 0, 0]), ([5.0, -5.0, 0.5], [3.0, 4.0, 5.0], [0, -1.2, 0]),
         ([1.0, 2.0, -3.0], [3.0, 4.0, 5.0], [0, 0, -0.6]), ([0.25, 0, 0], [3.0, 4.0, 5.0], [4e-4, -3e-4, 6e-4]), ([-3.0, 0.5, 0], [3.0, 4.0, 5.0], [0.5, 0, -0.5])]


def dump_text(lo, L, tilt, frac, types, ids, order, scaled, extra, step=0, boundary=True, eol="\n", pad=""):
    """order: the columns by name; extra: name -> strings"""
    xy, xz, yz = tilt or (0, 0, 0)
    box = np.array([[L[0], 0, 0], [xy, L[1], 0], [xz, yz, L[2]]])
    pos = np.array(lo) + frac @ box
    t = ["ITEM: TIMESTEP", str(step), "ITEM: NUMBER OF ATOMS", str(len(frac))]
    b = " pp pp pp" if boundary else ""
    if tilt is None:
        t.append("ITEM: BOX BOUNDS" + b)
        t += ["%.10f %.10f" % (lo[k], lo[k] + L[k]) for k in range(3)]
    else:
        t.append("ITEM: BOX BOUNDS xy xz yz" + b)
        t.append("%.10f %.10f %.10f" % (lo[0] + min(0, xy, xz, xy + xz), lo[0] + L[0] + max(0, xy, xz, xy + xz), xy))
        t.append("%.10f %.10f %.10f" % (lo[1] + min(0, yz), lo[1] + L[1] + max(0, yz), xz))
        t.append("%.10f %.10f %.10f" % (lo[2], lo[2] + L[2], yz))
    name = {"x": "xs", "y": "ys", "z": "zs"} if scaled else {}
    t.append("ITEM: ATOMS " + " ".join(name.get(c, c) for c in order))
    for i in range(len(frac)):
        v = {"id": str(ids[i]), "type": str(types[i])}
        for k, c in enumerate("xyz"):
            v[c] = "%.10f" % (frac[i][k] if scaled else pos[i][k])
        for c in extra:
            v[c] = extra[c][i]
        t.append(pad + " ".join(v[c] for c in order) + pad)
    return eol.join(t) + eol, box


def columns(case, ctx):
    import pyscal.core as pc
    lo, L, tilt = BOXES[case["b"]]
    scaled = case["scaled"]
    n = 5
    frac = space.hashed(n, 3, 3)
    frac[0] = [0.0, 0.25, 0.5]
    frac[1] = [-0.25, 0.5, 1.75]         # outside of the box
    types, ids = [1, 3, 2, 3, 1], [12, 3, 2 ** 31 - 3, 1, 5]
    extra = {"c_pe": ["-3.25", "0.5", "1e-05", "7", "nan"], "element": ["Cu", "Al", "Cu", "Zr", "X9"], "vx": ["0.1", "0.2", "-0.3", "4e10", "0"], "fy": ["1", "2", "3", "4", "5"]}
    names = list(extra)[:case["extra"]]
    base = ["id", "type", "x", "y", "z"]
    orders = [list(o) for o in itertools.permutations(base + names)]
    if case["extra"] == 0:
        for p in range(6):         # extra columns at every place
            for k, order in enumerate(itertools.permutations(base)):
                if k % 10 == p:
                    o = list(order)
                    o[p:p] = ["c_pe", "element"]
                    orders.append(o)
        orders.append(["vx"] + base + ["element", "fy", "c_pe"])
    for k, order in enumerate(orders):
        used = {c: extra[c] for c in order if c in extra}
        text, box = dump_text(lo, L, tilt, frac, types, ids, order, scaled, used, step=k, boundary=k % 2 == 0, pad=" " if k % 3 == 0 else "", eol="\r\n" if k % 7 == 3 else "\n")
        if k % 4 == 1:
            with gzip.open("f.dump.gz", "wt", newline="") as f:
                f.write(text)
            fn = "f.dump.gz"
        else:
            with open("f.dump", "w", newline="") as f:
                f.write(text)
            fn = "f.dump"
        want = sorted(used)[: k % 3] if k % 3 else sorted(used)
        plain = [["id"], ["type", "id"], ["type"], []][k % 4]     # the standard columns as custom values too
        sy = pc.System()
        sy.read_inputfile(fn, customkeys=plain + want or None)
        ctx.op()
        ctx.step()
        ctx.visit(case["b"], scaled, order)
        what = "columns %s%s, box %s" % (" ".join(order), " scaled" if scaled else "", BOXES[case["b"]])
        at = sy.atoms
        ctx.close(sy.box, box, what + ": box", 0, 1e-8)
        ctx.equal([(a.id, a.type) for a in at], list(zip(ids, types)), what + ": ids and types")
        f = np.array([a.pos for a in at]) @ np.linalg.inv(box)
        d = f - frac
        d -= d[0]                         # the origin of the box may be moved to zero
        ctx.check(np.abs(d).max() < 1e-7, "%s: relative positions differ by %.3g box vectors", what, np.abs(d).max())
        ctx.comparisons += n
        for i, a in enumerate(at):
            ctx.equal({c: a.custom[c] for c in a.custom if c not in plain}, {c: used[c][i] for c in want}, what + ": custom values")
            ctx.equal([int(a.custom[c]) for c in plain], [{"id": ids, "type": types}[c][i] for c in plain], what + ": standard columns as custom values")
        if k % 11 == 0 and used:
            ctx.raises(lambda: pc.System().read_inputfile(fn, customkeys=["nokey"] + want), KeyError, what + ": missing custom column")


def many(case, ctx):
    """large files, in which the atoms are in no order"""
    import pyscal.core as pc
    n = case["n"]
    frac = space.hashed(n, 3, 5) * 1.2 - 0.1
    ids = [int(x) for x in np.argsort(space.hashed(n, 1, 6)[:, 0]) * 7 + 2]
    types = [1 + i % 3 for i in range(n)]
    for k, ((lo, L, tilt), scaled) in enumerate(itertools.product((BOXES[1], BOXES[3], BOXES[8]), (0, 1))):
        text, box = dump_text(lo, [30 * x for x in L], tilt and [10 * x for x in tilt], frac, types, ids, ["type", "id", "z", "x", "y"] if k % 2 else ["id", "type", "x", "y", "z"], scaled, {}, step=k)
        with open("f.dump", "w") as f:
            f.write(text)
        sy = pc.System()
        sy.read_inputfile("f.dump")
        ctx.op()
        ctx.step()
        ctx.visit(n, k)
        what = "%d atoms%s, box %s" % (n, " scaled" if scaled else "", (lo, L, tilt))
        ctx.close(sy.box, box, what, 0, 1e-7)
        at = sy.atoms
        ctx.equal([(a.id, a.type) for a in at], list(zip(ids, types)), what + ": ids and types")
        d = np.array([a.pos for a in at]) @ np.linalg.inv(box) - frac
        ctx.check(np.abs(d - d[0]).max() < 1e-7, "%s: relative positions differ by %.3g box vectors", what, np.abs(d - d[0]).max())
        ctx.comparisons += n


def custom(case, ctx):
    import pyscal.core as pc
    spec = structures()[case["i"]]
    s = space.make(spec)
    if np.linalg.det(s.box) < 0:
        return
    sy = core.new_system(s)
    at = sy.atoms
    for i, a in enumerate(at):
        a.id = (i * 17) % s.n + 3 if s.n % 17 else s.n - i      # in no order
        a.custom = {"mark": i * 0.125, "label": "L%d" % (i % 5), "volume": 99.0 + i}       # custom values win over attributes
    sy.atoms = at
    ids = [a.id for a in at]
    sy.find_neighbors(method="cutoff", cutoff=1.3 * (s.volume / s.n) ** (1 / 3.))
    sy.calculate_q([4, 6, 11], averaged=True)
    sy.find_solids(cluster=False)
    at = sy.atoms
    src = {"mark": [i * 0.125 for i in range(s.n)], "label": ["L%d" % (i % 5) for i in range(s.n)], "volume": [99.0 + i for i in range(s.n)], "coordination": [a.coordination for a in at],
           "avg_sij": [a.avg_sij for a in at], "solid": [float(a.solid) for a in at], "q6": [a.get_q(6) for a in at], "q11": [a.get_q(11) for a in at], "aq4": [a.get_q(4, averaged=True) for a in at]}
    combos = [["mark"], ["q6"], ["aq4", "mark"], ["label"], ["q11", "coordination", "avg_sij"], ["volume"], ["label", "mark"], ["solid", "aq4", "q6"], ["coordination"]]
    for keys in combos:
        for gz in (False, True):
            sy.to_file("c.dump", customkeys=keys, compressed=gz, timestep=5)
            ctx.op()
            ctx.step()
            ctx.visit(case["i"], keys, gz)
            read_back(ctx, s, "c.dump", keys, {k: src[k] for k in keys}, gz, ids)
    for gz in (False, True):
        for vals in ([[i * 0.1 - 3, 1e-7 * i] for i in range(s.n)], np.array([[1.0 / (i + 1), -i] for i in range(s.n)]), [(i, i ** 2) for i in range(s.n)]):
            sy.to_file("c.dump", customkeys=["ext", "two"], customvals=vals, compressed=gz)
            ctx.op()
            ctx.step()
            read_back(ctx, s, "c.dump", ["ext", "two"], {"ext": [v[0] for v in vals], "two": [v[1] for v in vals]}, gz, ids)
        # one column may be given as a name with one value per atom
        sy.to_file("c.dump", customkeys=["ext"], customvals=[0.5 * i for i in range(s.n)], compressed=gz)
        read_back(ctx, s, "c.dump", ["ext"], {"ext": [0.5 * i for i in range(s.n)]}, gz, ids)
        sy.to_file("c.dump", customkeys="q6", compressed=gz)
        read_back(ctx, s, "c.dump", ["q6"], {"q6": src["q6"]}, gz, ids)
        ctx.op(2)
        ctx.step(2)
    for bad in ([[0.0]] * (s.n - 1), [[0.0]] * (s.n + 1), [[0.0, 1.0]] * s.n, [0.0] * (s.n + 1), []):
        ctx.raises(lambda: sy.to_file("c.dump", customkeys=["ext"], customvals=bad), ValueError, "custom values of a wrong shape")
    # to an open file, several frames in a row
    with open("h.dump", "w") as f:
        for k in range(3):
            sy.to_file(f, timestep=k, customkeys=["mark"])
    body = open("h.dump").read()
    ctx.equal(body.count("ITEM: TIMESTEP"), 3, "frames in a file written in turns")
    one = body[: len(body) // 3]
    open("h1.dump", "w").write(one)
    read_back(ctx, s, "h1.dump", ["mark"], {"mark": src["mark"]}, False, ids)
    ctx.equal(body.replace("TIMESTEP\n1\n", "TIMESTEP\n0\n").replace("TIMESTEP\n2\n", "TIMESTEP\n0\n"), one * 3, "frames in a file written in turns")


def read_back(ctx, s, fn, keys, want, gz, ids):
    import pyscal.core as pc
    t = pc.System()
    t.read_inputfile(fn, compressed=gz, customkeys=keys)
    same_structure(ctx, t, s, "dump with %s" % keys, 1.1e-6, ids=False)
    ctx.equal([a.id for a in t.atoms], ids, "dump with %s: ids" % keys)
    for i, a in enumerate(t.atoms):
        ctx.equal(sorted(a.custom), sorted(keys), "custom columns")
        for k in keys:
            w = want[k][i]
            if isinstance(w, str):
                ctx.equal(a.custom[k], w, "custom column %s of atom %d" % (k, i))
            else:
                ctx.close(float({"True": 1, "False": 0}.get(a.custom[k], a.custom[k])), float(w), "custom column %s of atom %d" % (k, i), 1e-12, 1e-12)


def pairs(case, ctx):
    """reading a file into a System gives that file, whatever was in the System before"""
    import pyscal.core as pc
    specs = [dict(lat="bcc", rep=[2, 2, 2], disp=0.05, types="alt", cell="tri"), dict(lat="bcc", rep=[2, 2, 2], disp=0.05, types="alt"), dict(lat="bcc", rep=[5, 5, 5], disp=0.05), dict(lat="fcc", rep=[4, 4, 4], disp=0.05, cell="trix"),
             dict(lat="dim", rep=[1, 1, 1], types="alt"), dict(lat="rand", n=205, disp=0.05, types="three")]
    S = []
    for k, spec in enumerate(specs):
        s = space.make(spec)
        core.new_system(s).to_file("p%d.dump" % k)
        core.new_system(s).to_file("p%d.poscar" % k, format="poscar", species=SPECIES[:len(set(s.types.tolist()))])
        S.append(s)
    for i, j in itertools.product(range(len(S)), repeat=2):
        for f1, f2 in (("dump", "dump"), ("dump", "poscar"), ("poscar", "dump")):
            sy = pc.System()
            fm = {"dump": "lammps-dump", "poscar": "poscar"}
            sy.read_inputfile("p%d.%s" % (i, f1), format=fm[f1])
            if (i + j) % 2:
                sy.find_neighbors(method="cutoff", cutoff=0.9)
            sy.read_inputfile("p%d.%s" % (j, f2), format=fm[f2])
            ctx.op(2)
            ctx.step()
            ctx.visit(i, j, f1, f2)
            same_structure(ctx, sy, S[j], "file %d after file %d" % (j, i), 1.1e-6, types=f2 == "dump")
            a0 = (S[j].volume / S[j].n) ** (1 / 3.)
            # and later calculations are those of a System which only read the second file
            one = pc.System()
            one.read_inputfile("p%d.%s" % (j, f2), format=fm[f2])
            for x in (sy, one):
                x.find_neighbors(method="cutoff", cutoff=1.3 * a0)
            ctx.equal([sorted(np.round(a.neighbor_distance, 6)) for a in sy.atoms], [sorted(np.round(a.neighbor_distance, 6)) for a in one.atoms], "neighbors in file %d read after file %d" % (j, i))


def legacy(case, ctx):
    """POSCAR without species: positions grouped by type"""
    for k, spec in enumerate(structures()[::3]):
        s = space.make(spec)
        if k % 2:        # types need not be numbered without gaps
            s.types = 3 * np.array(s.types) - 1
        sy = core.new_system(s)
        sy.to_file("l.poscar", format="poscar")
        ctx.op()
        ctx.step()
        ctx.visit(space.name(spec))
        L = open("l.poscar").read().split("\n")
        scale = float(L[1])
        box = np.array([[float(x) for x in l.split()] for l in L[2:5]]) * scale
        ctx.close(box, s.box, "box of the POSCAR", 0, 1e-12)
        kinds = sorted(set(s.types.tolist()))
        counts = [int(x) for x in L[5].split()]
        ctx.equal(counts, [int((s.types == k).sum()) for k in kinds], "numbers of atoms")
        ctx.equal(L[6].strip()[0] in "cC", True, "Cartesian coordinates")
        pos = np.array([[float(x) for x in l.split()] for l in L[7:7 + s.n]])
        ctx.close(pos, np.vstack([s.pos[s.types == k] for k in kinds]), "positions", 0, 1e-10)


def mdtraj(case, ctx):
    """A trajectory held by mdtraj (single precision, box turned into lower triangular form)."""
    import mdtraj as md
    import pyscal.core as pc
    s = space.make(structures()[case["i"]])
    if np.linalg.det(s.box) < 0:
        ctx.count("left handed")
        return
    # names in an order which differs from the order of the first atoms
    for names, k in itertools.product((["Cu", "Al", "Ni", "Zr"], ["Al", "Ni", "Cu", "Zr"]), (0, 1)):
        top = md.Topology()
        res = top.add_residue("X", top.add_chain())
        for t in s.types:
            top.add_atom(names[t - 1], md.element.copper, res)
        f = s.pos @ np.linalg.inv(s.box)
        tr = md.Trajectory(np.zeros((2, s.n, 3), dtype="float32"), top)
        tr.unitcell_vectors = np.array([s.box, 1.1 * s.box]).astype("float32")
        tr.xyz = np.array([f @ tr.unitcell_vectors[0].astype(float), (f + 0.01) @ tr.unitcell_vectors[1].astype(float)]).astype("float32")
        t = pc.System()
        what = "%s from mdtraj, species %s" % (space.name(s.spec), names)
        sp = [names[x - 1] for x in s.types]
        rank = {x: q + 1 for q, x in enumerate(sorted(set(sp)))}
        one = tr[0] if k else tr
        t.read_inputfile(one, format="mdtraj")
        ctx.op()
        ctx.step()
        ctx.visit(case["i"], names[0], k)
        s2 = space.Struct(s.box, s.pos, [rank[x] for x in sp])
        same_structure(ctx, t, s2, what, tol=1e-5, species=sp)
