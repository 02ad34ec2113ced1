"""C20: box operations preserve the crystal."""
import itertools

import numpy as np

import core
import ref
import space

INFO = {
    "rule": "parts: dist enumerates pairs of atoms x images of both in boxes of every shape and size against the minimum over all lattice vectors; remap enumerates boxes x images (with positions on, and within rounding of, the faces) x options; repeat enumerates repetitions x boxes; cubic enumerates lattices given by primitive, skewed, permuted and shifted cells; embed compares the orthogonal box around a tilted one, for all signs of the tilts, with the extent of its corners; seq explores all sequences of box operations up to the depth, comparing the periodic crystal (density and fingerprints of all atoms) by the reference after each",
    "bounds": {"quick": "18 boxes (up to 1458 atoms); 30 pairs x 27 images; 27 repetitions x 5 boxes; 15 lattices x 3 shifts x 2 orders; 27 tilts x 3 orientations; sequences of 3 of 8 operations on 4 systems", "thorough": "all pairs of up to 60 atoms; sequences of 4 on 6 systems"},
    "assumptions": ["in strongly tilted boxes only distances below half the height are required to be minimal, others to be the distance of some image"],
}

S3 = np.sqrt(3.0)
FP = np.array([[.5, 0, .5], [.5, .5, 0], [0, .5, .5]])
# name: (box, scaled positions, types)
CRYSTALS = {
    "fcc_p": (FP, [[0, 0, 0]], [1], 4), "bcc_p": (space.LAT["bcc_p"][0], [[0, 0, 0]], [1], 2), "dia_p": (FP, [[0, 0, 0], [.25, .25, .25]], [1, 1], 8),
    "zns_p": (FP, [[0, 0, 0], [.25, .25, .25]], [1, 2], 8), "nacl_p": (FP, [[0, 0, 0], [.5, .5, .5]], [1, 2], 8),
    "caf2_p": (FP, [[0, 0, 0], [.25, .25, .25], [.75, .75, .75]], [2, 1, 1], 12),
    "heusler_p": (FP, [[0, 0, 0], [.25, .25, .25], [.5, .5, .5], [.75, .75, .75]], [1, 2, 3, 2], 16),
    "cscl": (np.array([[1.0, 0, 0], [1, 1, 0], [0, 0, 1]]), [[0, 0, 0], [.5, 0, .5]], [1, 2], 2),
    "l12": (np.array([[1.0, 0, 0], [1, 1, 0], [0, 1, 1]]), None, [1, 2, 2, 2], 4),
    "hcp_p": (space.LAT["hcp_p"][0], space.LAT["hcp_p"][1], [1, 1], 4),
    "a15": (np.array([[1.0, 0, 0], [1, 1, 0], [0, 0, 1]]), None, [1, 1, 2, 2, 2, 2, 2, 2], 8),
    "a15_one": (np.array([[1.0, 0, 0], [1, 1, 0], [0, 0, 1]]), None, [1] * 8, 8),
    "hdia_p": (np.array([[1, 0, 0], [-.5, S3 / 2, 0], [0, 0, np.sqrt(8 / 3.)]]), [[0, 0, 0], [1 / 3., 2 / 3., .5], [0, 0, .375], [1 / 3., 2 / 3., .875]], [1] * 4, 8),
    "sc": (np.diag([1.0, 1.2, 0.9]), [[0, 0, 0]], [1], 1), "dist": (np.diag([1.0, 1.1, 1.3]), [[.1, .2, .3], [.6, .55, .71], [.32, .83, .07]], [1, 2, 1], 3),
}
BOXES = [dict(lat="bcc", rep=[2, 2, 2], disp=0.1, cell=c, off=o, types="three") for c in ("ortho", "tri", "tri2", "rot", "left", "skew", "orot") for o in (2,)] + [
    dict(lat="bcc", rep=[5, 5, 5], disp=0.1, cell=c, off=o, types="alt") for c in ("ortho", "tri", "tri2", "rot", "left", "trix") for o in (4,)] + [
    dict(lat="dim", rep=[1, 1, 1], disp=0.0), dict(lat="rand", n=205, lens=[3.0, 1.0, 0.5], disp=0.1), dict(lat="fcc_p", rep=[2, 2, 2], disp=0.05),
    dict(lat="bcc", rep=[9, 9, 9], disp=0.1, cell="tri", off=4, types="three"), dict(lat="fcc", rep=[10, 6, 5], disp=0.1, cell="ortho", off=2, types="alt")]
SEQ = ["remap", "remap images", "wrap out", "repeat", "cubic", "search", "rebox", "distance"]
SEQBASE = [("fcc_p", 1), ("zns_p", 1), ("hcp_p", 0), ("l12", 2), ("cscl", 1), ("dist", 2)]


def cases(tier):
    for b in range(len(BOXES)):
        yield {"part": "dist", "b": b, "m": 60 if tier == "thorough" else 11}
        yield {"part": "remap", "b": b}
        yield {"part": "repeat", "b": b}
    for c in CRYSTALS:
        for off in range(3):
            for perm in range(2):
                yield {"part": "cubic", "c": c, "off": off, "perm": perm}
    yield {"part": "nocubic"}
    for b in range(len(EMBED)):
        for turn in range(len(TURN)):
            yield {"part": "embed", "b": b, "turn": turn}
    for k in range(4 if tier == "quick" else len(SEQBASE)):
        for i in range(len(SEQ)):
            yield {"part": "seq", "base": k, "first": i, "depth": 3 if tier == "quick" else 4}


def run(case, ctx):
    globals()[case["part"]](case, ctx)


def minimum(box, v):
    """the shortest of all images of v"""
    f = v @ np.linalg.inv(box)
    f = f - np.round(f)
    T = np.array(list(itertools.product(range(-2, 3), repeat=3)), dtype=float)
    w = (f + T) @ box
    d = np.sqrt((w * w).sum(1))
    k = d.argmin()
    return d[k], w[k]


def dist(case, ctx):
    from pyscal.core import Atom
    s = space.make(BOXES[case["b"]])
    sy = core.new_system(s)
    h = s.heights().min()
    idx = sorted(set(list(range(0, s.n, max(1, s.n // case["m"]))) + [s.n - 1]))
    inv = np.linalg.inv(s.box)
    base = {}
    for i, j in itertools.product(idx, idx):
        for t in itertools.product((-1, 0, 2), repeat=3):
            a, b = Atom(pos=s.pos[i]), Atom(pos=s.pos[j] + np.dot(t, s.box))
            d, v = sy.get_distance(a, b, vector=True)
            d2 = sy.get_distance(b, a)
            ctx.op(2)
            ctx.step()
            want, w = minimum(s.box, s.pos[i] - s.pos[j])
            what = "distance of atoms %d and %d in image %s" % (i, j, t)
            ctx.close(d, d2, what + ": in the other order", 1e-9, 1e-9)
            ctx.close(np.linalg.norm(v), d, what + ": length of the vector", 1e-9, 1e-9)
            ctx.check(d > want - 1e-7, "%s: %.9g is below the minimum %.9g", what, d, want)
            # the vector points from the second atom to the first, modulo the lattice
            f = (np.array(v) - (s.pos[i] - s.pos[j])) @ inv
            ctx.check(np.abs(f - np.round(f)).max() < 1e-7, "%s: the vector %s does not connect images of the atoms", what, v)
            if want < 0.5 * h - 1e-7 or space_orthogonal(s.box):
                ctx.close(d, want, what, 1e-9, 1e-7)
            ctx.visit(case["b"], i, j)
    if len(idx):
        # the atoms of the system themselves
        for i in idx:
            d = sy.get_distance(sy.get_atom(i), sy.get_atom(idx[0]))
            want, w = minimum(s.box, s.pos[i] - s.pos[idx[0]])
            if want < 0.5 * h:
                ctx.close(d, want, "distance of atoms %d and %d" % (i, idx[0]), 1e-9, 1e-7)


def space_orthogonal(box):
    g = box @ box.T
    return np.abs(g - np.diag(np.diag(g))).max() < 1e-12


def remap(case, ctx):
    from pyscal.core import Atom
    import pyscal.core as pc
    s = space.make(BOXES[case["b"]])
    inv = np.linalg.inv(s.box)
    edge = [0.0, 1.0, -1.0, 2.0, -1e-17, -1e-13, 1 - 1e-16, 1 + 1e-15, 0.5, -1e-9]
    extra = [np.array(e) @ s.box for e in itertools.product(edge, [0.0, -1e-17, 0.3], [0.7, -3.0])]
    for variant in range(3):
        # 0: as given, 1: each atom in other images, 2: positions on and near the faces
        pos = s.pos.copy()
        if variant == 1:
            k = np.arange(s.n)
            pos = pos + np.array([k % 5 - 2, k % 3 - 4, 7 * (k % 2)]).T @ s.box
        if variant == 2:
            pos = np.vstack([pos, extra]) if s.n >= 200 else np.array(extra)
        n = len(pos)
        types = [1 + i % 3 for i in range(n)]
        for assign, images, drop in itertools.product((False, True), (False, True), (False, True)):
            if images and (n > 60 or variant == 2):
                continue         # quadratic; images on purpose below
            sy = pc.System()
            sy.box = [list(v) for v in s.box]
            at = []
            for i in range(n):
                a = Atom(pos=pos[i], id=1000 - i, type=types[i])
                a.custom = {"i": i}
                at.append(a)
            sy.atoms = at
            r = sy.remap_atoms(remove_images=images, assign=assign, remove_atoms=drop, dtol=0.01)
            ctx.op()
            ctx.step()
            ctx.visit(case["b"], variant, assign, images, drop)
            what = "remap(assign=%s, images=%s, remove=%s), positions %d" % (assign, images, drop, variant)
            ctx.check((r is None) == assign, "%s returned %s", what, type(r))
            if assign:
                r = sy.atoms
            else:
                ctx.close([a.pos for a in sy.atoms], pos, what + ": positions of the system", 0, 0)
            ctx.equal([sy.box and [list(map(float, v)) for v in sy.box]], [[list(map(float, v)) for v in s.box]], what + ": box")
            ctx.equal([(a.id, a.type, a.custom) for a in r], [(1000 - i, types[i], {"i": i}) for i in range(n)], what + ": atoms")
            p = np.array([a.pos for a in r])
            f = p @ inv
            ctx.check(f.min() > -1e-9 and f.max() < 1 + 1e-9, "%s: atom %d is outside of the box: %s", what, int(np.abs(f - 0.5).max(axis=1).argmax()), f[np.abs(f - 0.5).max(axis=1).argmax()])
            m = (p - pos) @ inv
            ctx.check(np.abs(m - np.round(m)).max() < 1e-6, "%s: atom %d was moved by %s box vectors", what, int(np.abs(m - np.round(m)).max(axis=1).argmax()), m[np.abs(m - np.round(m)).max(axis=1).argmax()])
    # images of atoms are removed, one of each kept
    if s.n <= 60:
        for k in (1, 2, 3):
            dup = [i for i in range(s.n) if i % k == 0][:6]
            sy = pc.System()
            sy.box = [list(v) for v in s.box]
            at = []
            for i in range(s.n):
                at.append(Atom(pos=s.pos[i], id=i + 1, type=1))
            for q, i in enumerate(dup):
                at.append(Atom(pos=s.pos[i] + np.array([1, -2, q % 3]) @ s.box + 1e-6, id=i + 1, type=1))
            for order in (at, at[::-1]):
                sy.atoms = order
                sy.remap_atoms(remove_images=True, dtol=0.001)
                ctx.op()
                ctx.step()
                ctx.equal(sorted(a.id for a in sy.atoms), list(range(1, s.n + 1)), "atoms left after removing %d images" % len(dup))
            # atoms a little closer than the tolerance are images, those a little further apart are not
            for dtol, far in itertools.product((1e-4, 0.03), (False, True)):
                at = [Atom(pos=s.pos[i], id=i + 1, type=1) for i in range(s.n)]
                for q, i in enumerate(dup):
                    u = np.array([[1, 2, 2], [2, -2, 1], [0, 0, -3]][q % 3]) / 3.0
                    at.append(Atom(pos=s.pos[i] + np.array([q % 2, -2, q % 3]) @ s.box + u * dtol * (1.1 if far else 0.9), id=i + 1, type=1))
                sy.atoms = at
                sy.remap_atoms(remove_images=True, dtol=dtol)
                ctx.op()
                ctx.step()
                ctx.equal(sorted(a.id for a in sy.atoms), sorted([i + 1 for i in range(s.n)] + ([i + 1 for i in dup] if far else [])),
                          "atoms left, %d atoms are %s the tolerance %g from another" % (len(dup), "beyond" if far else "within", dtol))


def repeat(case, ctx):
    s = space.make(BOXES[case["b"]])
    reps = list(itertools.product((0, 1, 2), repeat=3)) if s.n < 20 else [(0, 0, 1), (1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 0, 0)] if s.n < 60 else [(0, 1, 0), (0, 0, 0)]
    for reps_ in reps:
        for scale in (False, True):
            sy = core.new_system(s)
            r = sy.repeat(list(reps_) if scale else reps_, scale_box=scale)
            ctx.op()
            ctx.step()
            ctx.visit(case["b"], reps_, scale)
            what = "repeat %s" % (reps_,)
            m = np.array([2 * x + 1 for x in reps_])
            ctx.equal(len(r), s.n * int(m.prod()), what + ": number of atoms")
            ctx.close([a.pos for a in r[:s.n]], s.pos, what + ": the original atoms come first", 0, 0)
            want = np.vstack([s.pos + np.array(t, dtype=float) @ s.box for t in itertools.product(*[range(-x, x + 1) for x in reps_])])
            got = np.array([a.pos for a in r])
            d, k = ref.cKDTree(got).query(want)
            ctx.check(d.max() < 1e-9 and len(set(k.tolist())) == len(k), "%s: no atom at image %s", what, want[d.argmax()])
            ctx.equal([r[i].type for i in k], list(s.types) * int(m.prod()), what + ": types")
            ctx.equal(len(set(a.id for a in r)), len(r), what + ": distinct ids")
            ctx.equal([a.ghost for a in r], [0] * len(r), what + ": the new atoms are atoms of their own")
            ctx.close(sy.box, s.box * m[:, None] if scale else s.box, what + ": box", 1e-12, 1e-12)
            if scale:
                sy.atoms = r
                ctx.equal(sy.natoms, len(r), what + ": atoms after assigning them")
                fp = fingerprint(np.array(sy.box), np.array([a.pos for a in sy.atoms]), [a.type for a in sy.atoms], 1.2 * (s.volume / s.n) ** (1 / 3.))
                same_crystal(ctx, fp, fingerprint(s.box, s.pos, s.types, 1.2 * (s.volume / s.n) ** (1 / 3.)), what)


def fingerprint(box, pos, types, R):
    """density by types, and for each atom its type and the sorted distances and types around it"""
    t = space.Struct(box, pos, types)
    p = ref.pairs(t, R)
    fp = {}
    for i in range(t.n):
        key = (int(types[i]), tuple(sorted((round(float(d), 5), int(types[j])) for j, d in zip(p[i][0], p[i][2]))))
        fp[key] = fp.get(key, 0) + 1
    return t.volume, fp


def same_crystal(ctx, got, want, what):
    """per volume, the same atoms with the same surroundings (distances are compared with a tolerance)"""
    gv, g = got
    wv, w = want
    ctx.close(sum(g.values()) / gv, sum(w.values()) / wv, what + ": density", 1e-7, 0)
    left = {k: v / wv for k, v in w.items()}
    for k, v in g.items():
        need = v / gv
        for k2 in list(left):
            if k2[0] == k[0] and len(k2[1]) == len(k[1]) and [x[1] for x in k2[1]] == [x[1] for x in k[1]] and np.allclose([x[0] for x in k2[1]], [x[0] for x in k[1]], atol=3e-5):
                take = min(need, left[k2])
                need -= take
                left[k2] -= take
                if need < 1e-9:
                    break
        ctx.check(need < 1e-6 * v / gv, "%s: an atom of type %d with %d atoms around it, closest at %s, is not in the crystal that often", what, k[0], len(k[1]), [x[0] for x in k[1][:3]])


SHIFT = [np.zeros(3), np.array([0.137, 0.411, 0.773]), np.array([-0.31, 1.27, 0.05])]


def crystal(c, off=0, perm=0, rep=1):
    box, frac, types, n = CRYSTALS[c]
    if frac is None:        # the cubic positions, in the skewed box
        cart = np.array(space.LAT["a15" if c.startswith("a15") else "fcc"][1], dtype=float)
        frac = cart @ np.linalg.inv(box)
    frac = np.array(frac, dtype=float)
    pos = frac @ box
    pos = pos + SHIFT[off]
    types = np.array(types)
    a = 3.1 if perm else 1.0
    if perm:
        pos, types = pos[::-1], types[::-1]
    return space.Struct(box * a, pos * a, types), n


def cubic(case, ctx):
    s, n = crystal(case["c"], case["off"], case["perm"])
    R = 1.7 * (s.volume / s.n) ** (1 / 3.)
    want = fingerprint(s.box, s.pos, s.types, R)
    for rep in ((1, 1, 1), (2, 2, 2), (3, 3, 3)):
        sy = core.new_system(s)
        before = [list(a.pos) for a in sy.atoms]
        try:
            box, atoms = sy.extract_cubic_box(repeat=rep)
        except ValueError:        # few repetitions may not fill a cubic cell
            ctx.check(rep != (3, 3, 3), "no cubic box of %s found", case["c"])
            continue
        ctx.op()
        ctx.step()
        ctx.visit(case["c"], case["off"], case["perm"], rep)
        what = "cubic box of %s" % case["c"]
        b = np.array(box, dtype=float)
        ctx.check(np.abs(b - np.diag(np.diag(b))).max() == 0 and np.diag(b).min() > 0, "%s: the box is %s", what, box)
        ctx.close(len(atoms) / np.linalg.det(b), s.n / s.volume, what + ": density", 1e-6, 0)
        ctx.equal(len(atoms), n, what + ": number of atoms")
        p = np.array([a.pos for a in atoms])
        ctx.check(p.min() > -1e-4 and (p < np.diag(b) + 1e-4).all(), "%s: atoms outside of the box", what)
        same_crystal(ctx, fingerprint(b, p, [a.type for a in atoms], R), want, what)
        ctx.equal([list(a.pos) for a in sy.atoms], before, what + ": atoms of the system")
        # usable as a system
        import pyscal.core as pc
        t = pc.System()
        t.box = box
        t.atoms = atoms
        ctx.equal(t.natoms, n, what + ": atoms of a system made from it")


EMBED = [np.array([[1.3, 0, 0], [x, 1.1, 0], [y, z, 0.9]]) for x, y, z in itertools.product((-.4, 0.0, .5), (-.6, 0.0, .3), (-.2, 0.0, .45))]
TURN = [np.eye(3), np.array([[0.0, 1, 0], [0, 0, 1], [1, 0, 0]]), np.array([[2.0, 1, 2], [-2, 2, 1], [-1, -2, 2]]) / 3]


def embed(case, ctx):
    """the orthogonal box around a tilted one: as large as the cell (turned so that a is along x and b in
    the plane of x and y), and neighbors are still those of the crystal"""
    box = EMBED[case["b"]]
    want = np.array(list(itertools.product((0, 1), repeat=3))) @ box
    want = want.max(axis=0) - want.min(axis=0)
    turn = TURN[case["turn"]]

    ctx.check(np.abs(turn @ turn.T - np.eye(3)).max() < 1e-9, "not a rotation")
    f = np.array([[.1, .2, .3], [.6, .55, .71], [.32, .83, .07]])
    for m in (1, 2, 5):
        g = np.vstack([(f + t) / m for t in itertools.product(range(m), repeat=3)])
        B = box @ turn * m
        s = space.Struct(B, g @ B, 1 + np.arange(len(g)) % 2)
        sy = core.new_system(s)
        rc = 0.45 * s.heights().min() if m == 5 else 0.6
        p = ref.pairs(s, rc)
        ok = ref.gap_ok(p, rc, 1e-7)
        before = [tuple(a.pos) for a in sy.atoms]
        sy.embed_in_cubic_box()
        ctx.op()
        ctx.step()
        ctx.visit(case["b"], case["turn"], m)
        what = "box around %s, turned %d, %d atoms" % (B.tolist(), case["turn"], s.n)
        nb = np.array(sy.newbox, dtype=float)
        ctx.check(np.abs(nb - np.diag(np.diag(nb))).max() == 0 and np.diag(nb).min() > 0, "%s: the box is %s", what, nb)
        k = round(nb[2][2] / (want[2] * m))
        # small systems are repeated
        ctx.check(k == 1 or s.n < 200 and k % 2 == 1, "%s: the box is %d times as high", what, k)
        ctx.close(np.diag(nb), want * m * k, what + ": sides", 1e-9, 1e-9)
        ctx.equal([tuple(a.pos) for a in sy.atoms], before, what + ": positions")
        if ok and s.n >= 200:
            sy.find_neighbors(method="cutoff", cutoff=rc)
            ctx.equal([a.coordination for a in sy.atoms], [len(x[0]) for x in p], what + ": coordination")


def nocubic(case, ctx):
    """no orthogonal cell along the axes exists: an error, not a wrong cell"""
    for spec in (dict(lat="dim", rep=[1, 1, 1], cell="tri"), dict(lat="bcc", rep=[1, 1, 1], cell="orot"), dict(lat="fcc_p", rep=[1, 1, 1], cell="rot"), dict(lat="tri3", rep=[1, 1, 1], cell="tri2", disp=0.01)):
        s = space.make(spec)
        sy = core.new_system(s)
        ctx.raises(lambda: sy.extract_cubic_box(repeat=(2, 2, 2)), ValueError, "cubic box of %s" % space.name(spec))
        ctx.op()
        ctx.step()
        ctx.visit(space.name(spec))


def seq(case, ctx):
    import pyscal.core as pc
    name, off = SEQBASE[case["base"]]
    s, n = crystal(name, off, 1)
    R = 1.5 * (s.volume / s.n) ** (1 / 3.)
    want = fingerprint(s.box, s.pos, s.types, R)
    for rest in itertools.product(range(len(SEQ)), repeat=case["depth"] - 1):
        ops = [SEQ[case["first"]]] + [SEQ[k] for k in rest]
        if ops.count("repeat") > 2:
            continue
        sy = core.new_system(s)
        for q, op in enumerate(ops):
            what = "%s after %s" % (op, ops[:q])
            ctx.op()
            ctx.step()
            if op == "remap":
                sy.remap_atoms(remove_images=False)
            elif op == "remap images":
                if sy.natoms < 60:
                    sy.remap_atoms(remove_images=True, dtol=0.05)
            elif op == "wrap out":
                at = sy.atoms
                b = np.array(sy.box)
                for i, a in enumerate(at):
                    a.pos = np.array(a.pos) + np.dot([i % 3 - 1, -(i % 2), 2], b)
                sy.atoms = at
            elif op == "repeat":
                if sy.natoms > 40:
                    continue
                r = sy.repeat((1, 0, 0) if q % 2 else (0, 0, 1), scale_box=True)
                sy.atoms = r
            elif op == "cubic":
                if sy.natoms > 20:
                    continue
                try:
                    box, at = sy.extract_cubic_box(repeat=(3, 3, 3) if sy.natoms < 7 else (2, 2, 2))
                except ValueError:      # atoms far outside of the box: the repetitions do not fill a cell
                    ctx.count("refused")
                    continue
                sy = pc.System() if q % 2 else sy
                sy.box = box
                sy.atoms = at
            elif op == "search":
                sy.find_neighbors(method="cutoff", cutoff=0.9 * R if R < 100 else R)
                ctx.comparisons += 1
            elif op == "rebox":
                sy.box = [[float(x) for x in v] for v in sy.box]
            else:
                i, j = 0, sy.natoms - 1
                b, at = np.array(sy.box), sy.atoms
                d, w = minimum(b, np.array(at[i].pos) - np.array(at[j].pos))
                if d < 0.499 * space.Struct(b, [[0, 0, 0]], [1]).heights().min():
                    ctx.close(sy.get_distance(at[i], at[j]), d, what, 1e-8, 1e-8)
            at = sy.atoms
            if q == len(ops) - 1 or op in ("repeat", "cubic"):
                same_crystal(ctx, fingerprint(np.array(sy.box, dtype=float), np.array([a.pos for a in at]), [a.type for a in at], R), want, what)
            ctx.visit(case["base"], ops[:q + 1])
        # pyscal's own neighbors are those of the crystal
        if sy.natoms < 50:
            b, at = np.array(sy.box, dtype=float), sy.atoms
            t = space.Struct(b, [a.pos for a in at], [a.type for a in at])
            rc = min(R, 0.95 * t.maxcut())
            p = ref.pairs(t, rc)
            if ref.gap_ok(p, rc, 1e-6):
                sy.find_neighbors(method="cutoff", cutoff=rc)
                ctx.equal([a.coordination for a in sy.atoms], [len(x[0]) for x in p], "coordination after %s" % ops)
