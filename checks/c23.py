"""C23: a trajectory behaves as the list of its frames."""
import itertools
import os

import numpy as np

import core
import space
from c22 import dump_text

INFO = {
    "rule": "slices: all (start, stop, step) on trajectories of 1 to 5 frames in every output form, all pairs and some triples of slices added; ops: all sequences of load, modify, unload, read, write, add and iterate up to the depth, on trajectories with tilted boxes, scaled coordinates, extra columns and single atoms, against a list of frames; after every operation all frames are read as blocks, dictionaries and files, and slices made earlier are read again",
    "bounds": {"quick": "5 x up to 1210 slices; 18 operations, sequences of 3 (first operation load, unload, modify or keeping a slice) on one layout and of 2 on 4 others", "thorough": "7 frames; sequences of 4 on all layouts"},
    "assumptions": ["frames have equal numbers of atoms and numeric columns with id and type", "to_system and to_ase are not compared for frames with modified data (documented for writing only)"],
}
LAYOUT = [
    dict(tilt=None, order=["id", "type", "x", "y", "z"], scaled=0, n=3, extra=[]),
    dict(tilt=[0.3, -0.2, 0.5], order=["id", "type", "x", "y", "z", "vx", "q1", "fz", "q3", "c_a"], scaled=0, n=4, extra=["vx", "q1", "fz", "q3", "c_a"], id0=2 ** 31 - 9),
    dict(tilt=None, order=["type", "x", "z", "y", "id"], scaled=1, n=2, extra=[], id0=99999),
    dict(tilt=[0.1, 0.0, 0.0], order=["c_q", "x", "y", "z", "type", "id"], scaled=1, n=3, extra=["c_q"]),
    dict(tilt=None, order=["id", "type", "x", "y", "z", "vx", "c_q"], scaled=0, n=1, extra=["vx", "c_q"]),
]
OPS = [("load", 0), ("load", 1), ("load", -1), ("unload", 0), ("unload", 1), ("modify", 0), ("modify", 1), ("modifybox", 1), ("dict", (None, None, None)), ("dict", (0, 2, None)),
       ("file", (None, None, -1)), ("file", (1, None, None)), ("append", 0), ("system", (None, 2, None)), ("sum", 0), ("keep", (0, 3, 2)), ("iter", 0), ("ase", 1)]


def cases(tier):
    R = 5 if tier == "quick" else 7
    for n in range(1, R + 1):
        for lay in range(len(LAYOUT)):
            yield {"part": "slices", "n": n, "lay": lay}
    for lay in range(len(LAYOUT)):
        for i in range(len(OPS)):
            if tier == "quick":
                # three operations on one layout, two on the others
                yield {"part": "ops", "lay": lay, "first": [i], "depth": 2 if lay == 1 and OPS[i][0] in ("load", "unload", "modify", "keep") else 1}
            else:
                for j in range(len(OPS)):
                    yield {"part": "ops", "lay": lay, "first": [i, j], "depth": 2}
    yield {"part": "iterate"}


def run(case, ctx):
    globals()[case["part"]](case, ctx)


class Model:
    """frames as texts and as numbers"""

    def __init__(self, lay, nframes, fn, shift=0.0):
        L = LAYOUT[lay]
        self.lay, self.fn = L, fn
        self.text, self.box, self.cols = [], [], []
        for k in range(nframes):
            frac = (space.hashed(L["n"], 3, 10 * k + lay) + shift) % 1.0
            types = [1 + (i + k) % 2 for i in range(L["n"])]
            ids = [(i + k) % L["n"] + 1 + L.get("id0", 0) for i in range(L["n"])]
            extra = {c: ["%.6f" % v for v in space.hashed(L["n"], 1, 77 * k + q + 5)[:, 0]] for q, c in enumerate(L["extra"])}
            lens = [3.0 + 0.1 * k, 4.0, 5.0 - 0.05 * k]
            lo = [0.5 * k, 0, -1.0] if L["scaled"] else [0, 0, 0]
            t, box = dump_text(lo, lens, L["tilt"], frac, types, ids, L["order"], L["scaled"], extra, step=100 * k + 7)
            self.text.append(t)
            b, c = parse(t)
            self.box.append(b)
            self.cols.append(c)
        self.n = nframes
        self.loaded = [False] * nframes
        self.cur = [None] * nframes
        with open(fn, "w") as f:
            f.write("".join(self.text))

    def frame(self, k):
        """current data of a frame: (box, columns)"""
        return self.cur[k] if self.loaded[k] else (self.box[k], self.cols[k])

    def load(self, k):
        k %= self.n
        self.loaded[k] = True
        self.cur[k] = (self.box[k].copy(), {c: v.copy() for c, v in self.cols[k].items()})

    def modified(self, k):
        return self.loaded[k] and not (np.array_equal(self.cur[k][0], self.box[k]) and all(np.array_equal(self.cur[k][1][c], self.cols[k][c]) for c in self.cols[k]))


def parse(text):
    L = text.rstrip("\n").split("\n")
    box = np.array([[float(x) for x in l.split()] for l in L[5:8]])
    names = L[8].split()[2:]
    v = np.array([[float(x) for x in l.split()] for l in L[9:]])
    return box, {c: v[:, k].copy() for k, c in enumerate(names)}


def same_frame(ctx, got, want, what):
    ctx.close(got["box"], want[0], what + ": box", 0, 0)
    ctx.equal(sorted(got["atoms"]), sorted(want[1]), what + ": columns")
    for c in want[1]:
        ctx.close(got["atoms"][c], want[1][c], "%s: column %s" % (what, c), 0, 0)


def same_file(ctx, text, m, idx, what):
    """text holds these frames: literally if they are not loaded, with the current numbers if they are"""
    size = m.lay["n"] + 9
    lines = text.split("\n")
    ctx.equal(len(lines), size * len(idx) + 1, what + ": lines")
    for q, (mm, k) in enumerate(idx):
        t = "\n".join(lines[q * size:(q + 1) * size]) + "\n"
        if not mm.loaded[k]:
            ctx.equal(t, mm.text[k], "%s: frame %d of the file" % (what, q))
            continue
        head = mm.text[k].split("\n")
        ctx.equal(t.split("\n")[:5], head[:5], "%s: head of frame %d" % (what, q))
        b, c = parse(t)
        same_frame(ctx, {"box": b, "atoms": c}, mm.frame(k), "%s: frame %d of the file" % (what, q))


def same_system(ctx, sy, m, k, what, extra=True):
    t = m.lay["tilt"]
    at = sy.atoms
    c = m.cols[k]
    ctx.equal(len(at), m.lay["n"], what + ": atoms")
    ctx.equal([(a.id, a.type) for a in at], [(int(i), int(y)) for i, y in zip(c["id"], c["type"])], what + ": ids and types")
    box = np.array(sy.box)
    pos = np.array([a.pos for a in at])
    if m.lay["scaled"]:
        want = np.array([c[x + "s"] for x in "xyz"]).T @ box
    else:
        want = np.array([c[x] for x in "xyz"]).T
    ctx.close(pos, want, what + ": positions", 0, 1e-9)
    b = m.box[k]
    xy, xz, yz = b[:, 2] if t is not None else (0, 0, 0)
    L = [b[0][1] - max(0, xy, xz, xy + xz) - (b[0][0] - min(0, xy, xz, xy + xz)), b[1][1] - max(0, yz) - (b[1][0] - min(0, yz)), b[2][1] - b[2][0]]
    ctx.close(box, [[L[0], 0, 0], [xy, L[1], 0], [xz, yz, L[2]]], what + ": box", 0, 1e-9)


def slices(case, ctx):
    from pyscal.trajectory import Trajectory
    n = case["n"]
    m = Model(case["lay"], n, "t.dump")
    tr = Trajectory("t.dump")
    ctx.equal([tr.nblocks, tr.natoms], [n, m.lay["n"]], "numbers of frames and atoms")
    full = list(range(n))
    for k in range(-n, n):
        read_all(ctx, tr[k], m, [full[k]], "frame [%d] of %d" % (k, n))
        ctx.equal("".join(tr.get_block(k)), m.text[k], "block %d" % k)
        ctx.step()
    for k in (n, n + 1, -n - 1, 10 ** 9):
        ctx.raises(lambda: tr[k], IndexError, "frame [%d] of %d" % (k, n))
        ctx.raises(lambda: tr.get_block(k), IndexError, "block %d of %d" % (k, n))
        ctx.raises(lambda: tr.load(k), IndexError, "loading block %d of %d" % (k, n))
    ends = [None] + list(range(-n - 1, n + 2))
    steps = [None, 1, 2, 3, -1, -2, n]
    count = 0
    done = {}
    for a, b, c in itertools.product(ends, ends, steps):
        idx = full[a:b:c]
        if (tuple(idx), a is None, b is None, c) in done:
            # same frames: only which frames they are
            ts = tr[a:b:c]
            if hasattr(ts, "blocklists"):
                ctx.equal([list(x) for x in ts.blocklists], [idx], "slice [%s:%s:%s] of %d" % (a, b, c, n))
            ctx.step()
            continue
        done[(tuple(idx), a is None, b is None, c)] = 1
        ts = tr[a:b:c]
        read_all(ctx, ts, m, idx, "slice [%s:%s:%s] of %d" % (a, b, c, n), few=count % 5)
        repr(ts)
        count += 1
        ctx.op()
        ctx.step()
        ctx.visit(n, case["lay"], a, b, c)
    # sums
    o = Model((case["lay"]), max(1, n - 1), "u.dump", shift=0.123)
    tu = Trajectory("u.dump")
    some = [("t", slice(None)), ("t", slice(None, None, -1)), ("u", slice(0, 1)), ("t", n - 1), ("u", -1), ("t", slice(0, 0))]

    def pick(x):
        return (tr if x[0] == "t" else tu)[x[1]]

    def frames(x):
        mm = m if x[0] == "t" else o
        r = list(range(mm.n))[x[1]]
        return [(mm, k) for k in (r if isinstance(r, list) else [r])]

    for x, y in itertools.product(some, some):
        sx, sy = pick(x), pick(y)
        total = sx + sy
        what = "sum of %s and %s of %d" % (x, y, n)
        read_mixed(ctx, total, frames(x) + frames(y), what, True)
        read_mixed(ctx, sx, frames(x), what + ": first")
        read_mixed(ctx, sy, frames(y), what + ": second")
        for z in some[:3]:
            t3 = total + pick(z)
            read_mixed(ctx, t3, frames(x) + frames(y) + frames(z), what + " and %s" % (z,))
            t4 = sum([pick(z), sx, sy])
            read_mixed(ctx, t4, frames(z) + frames(x) + frames(y), "sum() of %s, %s, %s" % (z, x, y))
            t5 = pick(z) + total
            read_mixed(ctx, t5, frames(z) + frames(x) + frames(y), "%s and " % (z,) + what, x[0] != y[0])
            t6 = sx + (pick(z) + sy + sx)
            read_mixed(ctx, t6, frames(x) + frames(z) + frames(y) + frames(x), "%s and the sum of %s, %s, %s" % (x, z, y, x))
        ctx.op(4)
        ctx.step(4)
        read_mixed(ctx, total, frames(x) + frames(y), what + " afterwards")
    ctx.equal(open("t.dump").read(), "".join(m.text), "trajectory file")


def read_mixed(ctx, ts, fr, what, forms=False):
    d = ts.to_dict()
    ctx.equal(len(d), len(fr), what + ": frames")
    for x, (m, k) in zip(d, fr):
        same_frame(ctx, x, m.frame(k), what)
    ts.to_file("out.dump")
    same_file(ctx, open("out.dump").read(), fr[0][0] if fr else Model(0, 1, "unused.dump"), fr, what)
    if not forms:
        return
    S = ts.to_system()
    ctx.equal(len(S), len(fr), what + ": systems")
    for sy, (m, k) in zip(S, fr):
        same_system(ctx, sy, m, k, what)
    if all(set(m.cols[k]["type"]) == {1, 2} for m, k in fr):
        A = ts.to_ase(species=["Cu", "Al"])
        ctx.equal(len(A), len(fr), what + ": ASE objects")
        for x, sy, (m, k) in zip(A, S, fr):
            ctx.equal(x.get_chemical_symbols(), [{1: "Cu", 2: "Al"}[int(t)] for t in m.cols[k]["type"]], what + ": species")
            ctx.close(x.positions, [a.pos for a in sy.atoms], what + ": positions of the ASE object", 0, 1e-9)
            ctx.close(x.cell[:], sy.box, what + ": cell", 0, 1e-9)


def read_all(ctx, ts, m, idx, what, few=0):
    d = ts.to_dict()
    ctx.equal(len(d), len(idx), what + ": frames as dictionaries")
    for x, k in zip(d, idx):
        same_frame(ctx, x, m.frame(k), what)
    ts.to_file("o.dump")
    same_file(ctx, open("o.dump").read(), m, [(m, k) for k in idx], what)
    if few == 0:
        keys = m.lay["extra"]
        S = ts.to_system(customkeys=keys or None)
        ctx.equal(len(S), len(idx), what + ": systems")
        for sy, k in zip(S, idx):
            if not m.modified(k):
                same_system(ctx, sy, m, k, what)
                for i, a in enumerate(sy.atoms):
                    ctx.close([float(a.custom[c]) for c in keys], [m.cols[k][c][i] for c in keys], what + ": custom columns", 0, 0)
    if few == 1:
        kinds = [sorted(set(int(t) for t in m.cols[k]["type"])) for k in idx]
        if all(x == [1, 2] for x in kinds):
            A = ts.to_ase(species=["Cu", "Al"])
            ctx.equal(len(A), len(idx), what + ": ASE objects")
            for x, k in zip(A, idx):
                sy = ts.trajectory[k].to_system()[0] if ts.trajectory else None
                ctx.equal(x.get_chemical_symbols(), [{1: "Cu", 2: "Al"}[int(t)] for t in m.cols[k]["type"]], what + ": species")
                ctx.close(x.positions, [a.pos for a in sy.atoms], what + ": positions of the ASE object", 0, 1e-9)
                ctx.close(x.cell[:], sy.box, what + ": cell", 0, 1e-9)


def ops(case, ctx):
    for rest in itertools.product(range(len(OPS)), repeat=case["depth"]):
        sequence(ctx, case["lay"], [OPS[k] for k in case["first"] + list(rest)], len(case["first"]) if any(rest) else 0)


def sequence(ctx, lay, seq, skip):
    from pyscal.trajectory import Trajectory
    n = 4
    m = Model(lay, n, "s.dump")
    tr = Trajectory("s.dump")
    kept = []
    for q, (op, arg) in enumerate(seq):
        what = "%s %s after %s" % (op, arg, seq[:q])
        ctx.op()
        ctx.step()
        full = list(range(n))
        if op == "load":
            tr.load(arg)
            m.load(arg)
        elif op == "unload":
            tr.unload(arg)
            m.loaded[arg], m.cur[arg] = False, None
        elif op in ("modify", "modifybox"):
            if m.loaded[arg]:
                if op == "modify":
                    names = [c for c in m.cols[arg] if c not in ("id", "type")]
                    c = names[q % len(names)]
                    tr.data[arg]["atoms"][c] = tr.data[arg]["atoms"][c] + 0.1 * (q + 1)
                    m.cur[arg][1][c] = m.cur[arg][1][c] + 0.1 * (q + 1)
                    tr.data[arg]["atoms"]["type"][0] = 5 + q
                    m.cur[arg][1]["type"][0] = 5 + q
                else:
                    tr.data[arg]["box"][0][1] = 11.0 + q
                    m.cur[arg][0][0][1] = 11.0 + q
        elif op in ("dict", "file", "system"):
            sl = slice(*arg)
            read_all(ctx, tr[sl], m, full[sl], what, few={"dict": 2, "file": 2, "system": 0}[op])
        elif op == "append":
            tr[1:3].to_file("a.dump")
            tr[0].to_file("a.dump", mode="a")
            same_file(ctx, open("a.dump").read(), m, [(m, 1), (m, 2), (m, 0)], what)
            tr[2].to_file("a.dump", mode="w")
            same_file(ctx, open("a.dump").read(), m, [(m, 2)], what)
        elif op == "sum":
            a, b = tr[0:2], tr[-1]
            kept.append((a + b, [0, 1, 3]))
            kept.append((a, [0, 1]))
        elif op == "keep":
            kept.append((tr[slice(*arg)], full[slice(*arg)]))
        elif op == "iter":
            ctx.equal([int(i) for i in tr.iter()], full, what)
            ctx.equal([int(i) for i in tr.iter(method="descending", n_slices=3)], [3, 2, 1], what)
            ctx.equal(sorted(int(i) for i in tr.iter(method="random")), full, what)
            g = tr.iter(output="system")
            sy = next(g)
            if not m.modified(0):
                same_system(ctx, sy, m, 0, what)
        elif op == "ase":
            read_all(ctx, tr[1:3], m, [1, 2], what, few=1)
        ctx.visit(lay, seq[:q + 1])
        if q < skip - 1:
            continue
        # everything is as the list says
        ctx.equal([bool(x) for x in tr.loadlist], m.loaded, what + ": loaded frames")
        for k in full:
            ctx.equal("".join(tr.get_block(k)), m.text[k], what + ": block %d" % k)
            if m.loaded[k]:
                same_frame(ctx, tr.data[k], m.cur[k], what + ": loaded data of frame %d" % k)
            else:
                ctx.check(tr.data[k] is None, "%s: frame %d is in memory", what, k)
        read_all(ctx, tr[:], m, full, what + ": all frames", few=2)
        for ts, idx in kept:
            read_all(ctx, ts, m, idx, what + ": slice made earlier", few=2)
        ctx.equal([bool(x) for x in tr.loadlist], m.loaded, what + ": loaded frames after reading")
        ctx.equal(open("s.dump").read(), "".join(m.text), what + ": file of the trajectory")
    # the written file is a trajectory with the same frames
    tr[:].to_file("w.dump")
    t2 = Trajectory("w.dump")
    ctx.equal(t2.nblocks, n, "frames of the written trajectory")
    for k, x in enumerate(t2[:].to_dict()):
        same_frame(ctx, x, m.frame(k), "written trajectory after %s: frame %d" % (seq, k))


def iterate(case, ctx):
    from pyscal.trajectory import Trajectory
    for n in range(1, 6):
        m = Model(1, n, "i.dump")
        tr = Trajectory("i.dump")
        for k in range(0, n + 1):
            for out in ("index", "system"):
                for method, want in (("ascending", list(range(k))), ("descending", list(range(n - 1, n - 1 - k, -1))), ("random", None)):
                    got = list(tr.iter(method=method, n_slices=k, output=out))
                    ctx.op()
                    ctx.step()
                    ctx.visit(n, k, out, method)
                    ctx.equal(len(got), k, "%s %d of %d" % (method, k, n))
                    if out == "index":
                        got = [int(i) for i in got]
                        if want is None:
                            ctx.check(len(set(got)) == k and all(0 <= i < n for i in got), "random frames %s of %d", got, n)
                        else:
                            ctx.equal(got, want, "%s %d of %d" % (method, k, n))
                    elif want is not None:
                        for sy, i in zip(got, want):
                            same_system(ctx, sy, m, i, "%s %d of %d" % (method, k, n))
                    else:
                        for sy in got:
                            ctx.check(any(np.allclose([a.pos for a in sy.atoms], np.array([m.cols[i][x] for x in "xyz"]).T, atol=1e-9) for i in range(n)), "a random frame is none of the frames")
        ctx.raises(lambda: list(tr.iter(method="upwards")), ValueError, "unknown order of iteration")
