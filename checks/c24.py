"""C24: a trajectory whose writing was interrupted yields exactly its complete frames."""
import glob
import gzip
import os

import numpy as np

import core
import space
from c22 import dump_text

INFO = {
    "rule": "the file of a trajectory is cut at every byte position (crash point); the prefix is opened, every frame accessed in every form, split into single frames and, for single frames, read as a system; the writer then continues and finishes the file while the trajectory is open (all prefixes, then the rest is appended); compressed files are cut at every byte as well; trajectories written by pyscal itself (to_file, appended) are cut at every byte",
    "bounds": {"quick": "11 layouts (atoms 1-12, columns, tilt, scaled, line ends, padding), 3 frames, every byte; 7 trajectories of 9 to 118 frames cut at the end, before the last line end and before the last frame; 4 trajectories of frames of 1100 and 2500 atoms cut around the ends of frames and multiples of 4, 8 and 64 KiB", "thorough": "5 frames and 25 atoms, every byte, every byte pair of (open, continue)"},
    "assumptions": ["frames have equal numbers of atoms", "a frame is complete when its last line is terminated (a number that is cut cannot be told from one that is not)", "a file that ends before the number of atoms of the first frame is refused or has no frames"],
}
ID = ["id", "type", "x", "y", "z"]
LAYOUT = [
    dict(n=1, order=ID),
    dict(n=2, order=ID, tilt=[0.3, -0.2, 0.5]),
    dict(n=3, order=["type", "x", "y", "z", "vx", "id"], extra=["vx"]),
    dict(n=4, order=["x", "y", "z", "id", "type"], scaled=1),
    dict(n=2, order=ID, eol="\r\n"),
    dict(n=3, order=ID, pad=" "),
    dict(n=12, order=ID),
    dict(n=10, order=["id", "type", "z", "y", "x", "c_q"], extra=["c_q"], scaled=1, tilt=[0, 0.4, 0]),
    dict(n=9, order=ID, boundary=False),
    dict(n=1, order=ID + ["vx"], extra=["vx"], step=999999999),
    dict(n=3, order=ID, written=1),
    # large frames, cut at selected places only
    dict(n=1100, order=ID, tilt=[0.3, -0.2, 0.5]),
    dict(n=2500, order=["id", "type", "x", "y", "z", "vx"], extra=["vx"]),
]
SMALL = 11


def cases(tier):
    F, chunk = (3, 240) if tier == "quick" else (5, 200)
    layouts = list(range(SMALL))
    for lay in layouts:
        size = len(text_of(lay, F)[0])
        for a in range(0, size + 1, chunk):
            yield {"part": "cut", "lay": lay, "frames": F, "lo": a, "hi": min(a + chunk, size + 1)}
    for lay in (0, 2, 5):
        yield {"part": "zipped", "lay": lay, "frames": F}
    for lay in (0, 1, 3, 6):
        yield {"part": "single", "lay": lay}
    yield {"part": "many"}
    for lay in (11, 12):
        for F in (2, 5):
            yield {"part": "large", "lay": lay, "frames": F}
    for lay in (0, 1, 4) if tier == "quick" else range(SMALL):
        yield {"part": "growing", "lay": lay, "frames": 2 if tier == "quick" else 3, "all": tier != "quick"}


def run(case, ctx):
    globals()[case["part"]](case, ctx)


def text_of(lay, F):
    """(whole text, list of frame texts)"""
    L = LAYOUT[lay]
    out = []
    for k in range(F):
        frac = space.hashed(L["n"], 3, 10 * k + lay)
        extra = {c: ["%.6f" % v for v in space.hashed(L["n"], 1, 77 * k + 5)[:, 0]] for c in L.get("extra", [])}
        t, _ = dump_text([0, 0, 0], [3.0 + 0.1 * k, 4.0, 5.0], L.get("tilt"), frac, [1 + i % 2 for i in range(L["n"])], [(i + k) % L["n"] + 1 for i in range(L["n"])], L["order"], L.get("scaled", 0), extra,
                         step=L.get("step", 5) + k, boundary=L.get("boundary", True), eol=L.get("eol", "\n"), pad=L.get("pad", ""))
        out.append(t)
    return "".join(out), out


def make(lay, F):
    """the file as written; the layout `written` is written by pyscal after changing data"""
    whole, frames = text_of(lay, F)
    if not LAYOUT[lay].get("written"):
        return whole.encode(), [f.encode() for f in frames]
    from pyscal.trajectory import Trajectory
    with open("w.dump", "wb") as f:
        f.write(whole.encode())
    tr = Trajectory("w.dump")
    tr.load(1)
    tr.data[1]["atoms"]["x"] += 0.25
    tr[0].to_file("v.dump")
    tr[1:].to_file("v.dump", mode="a")
    b = open("v.dump", "rb").read()
    lines = b.split(b"\n")
    size = LAYOUT[lay]["n"] + 9
    return b, [b"\n".join(lines[k * size:(k + 1) * size]) + b"\n" for k in range(F)]


def numbers(text):
    L = text.decode().split("\n")
    L = [x.strip() for x in L]
    box = np.array([[float(x) for x in l.split()] for l in L[5:8]])
    names = L[8].split()[2:]
    v = np.array([[float(x) for x in l.split()] for l in L[9:] if l])
    return box, {c: v[:, k] for k, c in enumerate(names)}


def complete(frames, size):
    """how many frames are in the first `size` bytes"""
    k, n = 0, 0
    for f in frames:
        n += len(f)
        if n > size:
            break
        k += 1
    return k


def atoms_known(b):
    return b.count(b"\n") >= 4


def check_open(ctx, fn, b, frames, want, what, deep=True):
    from pyscal.trajectory import Trajectory
    ctx.op()
    try:
        tr = Trajectory(fn)
    except Exception as e:
        ctx.check(not atoms_known(b), "%s: not opened (%s)", what, repr(e))
        return None
    ctx.equal(tr.nblocks, want, what + ": frames")
    ctx.equal([len(tr.loadlist), len(tr.data)], [want, want], what + ": lists of frames")
    check_frames(ctx, tr, frames, want, what, deep)
    return tr


def check_frames(ctx, tr, frames, want, what, deep):
    for k in range(want):
        ctx.equal("".join(tr.get_block(k)).encode(), frames[k], "%s: block %d" % (what, k))
        ctx.equal("".join(tr.get_block(k - want)).encode(), frames[k], "%s: block %d" % (what, k - want))
    for k in (want, want + 1, -want - 1):
        for nm, f in (("block", tr.get_block), ("frame", tr.__getitem__), ("loaded frame", tr.load)):
            try:
                got = f(k)
            except IndexError:
                continue
            ctx.fail("%s: %s %d of %d is %s" % (what, nm, k, want, got))
    ctx.comparisons += 9
    ctx.equal(list(tr.iter()), list(range(want)), what + ": iteration")
    if deep:
        d = tr[:].to_dict()
        ctx.equal(len(d), want, what + ": dictionaries")
        for k in range(want):
            box, cols = numbers(frames[k])
            ctx.close(d[k]["box"], box, "%s: box of frame %d" % (what, k), 0, 0)
            ctx.equal(sorted(d[k]["atoms"]), sorted(cols), "%s: columns of frame %d" % (what, k))
            for c in cols:
                ctx.close(d[k]["atoms"][c], cols[c], "%s: %s of frame %d" % (what, c, k), 0, 0)
        S = tr[:].to_system()
        ctx.equal(len(S), want, what + ": systems")
        for k in range(want):
            box, cols = numbers(frames[k])
            ctx.equal([(a.id, a.type) for a in S[k].atoms], [(int(i), int(t)) for i, t in zip(cols["id"], cols["type"])], "%s: atoms of frame %d" % (what, k))
            if "x" in cols:
                ctx.close([a.pos for a in S[k].atoms], np.array([cols[c] for c in "xyz"]).T, "%s: positions of frame %d" % (what, k), 0, 1e-9)
        tr[-1:].to_file("last.dump") if want else None
        if want:
            ctx.equal(open("last.dump", "rb").read(), frames[want - 1], what + ": last frame written")


def check_split(ctx, fn, b, frames, want, what, compressed=False, may_fail=False):
    from pyscal.traj_process import split_trajectory
    for x in glob.glob(fn + ".snap.*"):
        os.unlink(x)
    ctx.op()
    try:
        got = split_trajectory(fn, compressed=compressed)
    except Exception as e:
        ctx.check(may_fail or not atoms_known(b), "%s: not split (%s)", what, repr(e))
        got = None
    names = ["%s.snap.%d.dat" % (fn, k) for k in range(want)]
    if got is not None:
        ctx.equal(list(got), names, what + ": split into")
    there = sorted(glob.glob(fn + ".snap.*"))
    if got is None:
        ctx.check(set(there) <= set(names), "%s: files %s, but %d frames are complete", what, there, want)
    else:
        ctx.equal(there, sorted(names), what + ": files of single frames")
    for k, x in enumerate(names):
        if x in there:
            ctx.equal(open(x, "rb").read().replace(b"\r\n", b"\n"), frames[k].replace(b"\r\n", b"\n"), "%s: single frame %d" % (what, k))
            os.unlink(x)


def cut(case, ctx):
    whole, frames = make(case["lay"], case["frames"])
    for c in range(case["lo"], min(case["hi"], len(whole) + 1)):
        with open("t.dump", "wb") as f:
            f.write(whole[:c])
        want = complete(frames, c)
        what = "layout %d, %d of %d bytes" % (case["lay"], c, len(whole))
        # everything is looked at near the ends of lines, where the number of frames may change, and at every 16th byte
        near = c % 16 == 0 or b"\n" in whole[max(0, c - 2):c + 1]
        check_open(ctx, "t.dump", whole[:c], frames, want, what, near)
        if whole[:c][-1:] != b"\r":          # half of a line end: both are right
            check_split(ctx, "t.dump", whole[:c], frames, want, what)
        ctx.visit(case["lay"], c)
        ctx.step()


def zipped(case, ctx):
    whole, frames = make(case["lay"], case["frames"])
    z = gzip.compress(whole, mtime=0)
    # stored blocks, one per 40 bytes: the prefix that can be decoded grows with the cut
    import zlib
    co = zlib.compressobj(6, zlib.DEFLATED, 31)
    flushed = b"".join(co.compress(whole[k:k + 40]) + co.flush(zlib.Z_SYNC_FLUSH) for k in range(0, len(whole), 40)) + co.flush()
    for q, data in enumerate((z, flushed)):
        for fn, comp in (("t.dump.gz", False), ("t.zipped", True)):
            for c in range(0, len(data) + 1):
                if c > 50 and fn == "t.zipped" and c % 7:
                    continue
                with open(fn, "wb") as f:
                    f.write(data[:c])
                d = zlib.decompressobj(31)
                raw = d.decompress(data[:c])
                check_split(ctx, fn, raw, frames, complete(frames, len(raw)) if c < len(data) else case["frames"], "layout %d zipped %d, %d of %d bytes" % (case["lay"], q, c, len(data)), comp, may_fail=c < len(data))
                ctx.visit(case["lay"], "z", q, fn, c)
                ctx.step()


def single(case, ctx):
    """a single frame that is read as a system has all atoms or is refused"""
    import pyscal.core as pc
    import pyscal.traj_process as ptp
    lay = case["lay"]
    whole, frames = make(lay, 2)
    for fr in (0, 1):
        t = frames[fr]
        ref = pc.System()
        with open("full.dump", "wb") as f:
            f.write(t)
        ref.read_inputfile("full.dump")
        old = pc.System()
        for c in range(0, len(t) + 1):
            what = "layout %d frame %d, %d of %d bytes" % (lay, fr, c, len(t))
            with open("s.dump", "wb") as f:
                f.write(t[:c])
            with gzip.open("s.dump.gz", "wb") as f:
                f.write(t[:c])
            for fn in ("s.dump", "s.dump.gz"):
                sy = pc.System()
                ctx.op()
                ctx.step()
                try:
                    sy.read_inputfile(fn)
                except Exception:
                    # all columns of all atoms are there
                    last = t.decode().rstrip().split("\n")[-1].rstrip()
                    ctx.check(c < len(t.rstrip()), "%s: refused although it is complete", what)
                    ctx.equal(len(sy.atoms), 0, what + ": atoms after a refused file")
                    continue
                ctx.equal(len(sy.atoms), LAYOUT[lay]["n"], what + ": atoms")
                ctx.close(sy.box, ref.box, what + ": box", 0, 0)
                cutline = len(t.rstrip()) > c
                m = len(ref.atoms) - (1 if cutline else 0)     # digits of the last number may be missing
                ctx.equal([(a.id, a.type) for a in sy.atoms][:m], [(a.id, a.type) for a in ref.atoms][:m], what + ": ids and types")
                ctx.close([a.pos for a in sy.atoms][:m], [a.pos for a in ref.atoms][:m], what + ": positions", 0, 0)
            ctx.visit("single", lay, fr, c)


def many(case, ctx):
    """names and order of the frames when their numbers have different lengths"""
    for lay, F in ((0, 9), (0, 10), (0, 11), (9, 99), (0, 100), (1, 101), (0, 118)):
        whole, frames = text_of(lay, F)
        whole, frames = whole.encode(), [f.encode() for f in frames]
        for end in (len(whole), len(whole) - 1, len(whole) - len(frames[-1])):
            with open("t.dump", "wb") as f:
                f.write(whole[:end])
            what = "layout %d, %d of %d bytes of %d frames" % (lay, end, len(whole), F)
            check_open(ctx, "t.dump", whole[:end], frames, complete(frames, end), what, F < 12 or F == 101)
            check_split(ctx, "t.dump", whole[:end], frames, complete(frames, end), what)
            ctx.visit("many", lay, F, end)
            ctx.step()


def large(case, ctx):
    """frames larger than the buffers of files: cut around the ends of frames and around multiples of usual sizes of buffers"""
    lay, F = case["lay"], case["frames"]
    whole, frames = make(lay, F)
    at, k = set([len(whole)]), 0
    for f in frames:
        last = len(f.rstrip(b"\n").split(b"\n")[-1])
        k += len(f)
        at |= set(k + d for d in (-last - 2, -last - 1, -last, -2, -1, 0, 1, 2, 40, len(f) // 2))
    for size in (4096, 8192, 65536):
        at |= set(m * size + d for m in range(1, len(whole) // size + 1, max(1, len(whole) // size // 3)) for d in (-1, 0, 1))
    for c in sorted(x for x in at if 0 <= x <= len(whole)):
        with open("t.dump", "wb") as f:
            f.write(whole[:c])
        want = complete(frames, c)
        what = "layout %d, %d of %d bytes" % (lay, c, len(whole))
        check_open(ctx, "t.dump", whole[:c], frames, want, what, c in (len(whole), len(whole) - 1))
        check_split(ctx, "t.dump", whole[:c], frames, want, what)
        ctx.visit("large", lay, F, c)
        ctx.step()


def growing(case, ctx):
    """the file is opened while it is written; what was complete stays as it was, a new look sees the new frames"""
    from pyscal.trajectory import Trajectory
    lay, F = case["lay"], case["frames"]
    whole, frames = make(lay, F)
    n = len(whole)
    start = whole.index(b"\n", whole.index(b"NUMBER OF ATOMS") + 17) + 1
    ends = sorted(set([k for k in range(start, n + 1) if whole[k - 1:k] == b"\n"] + [n - 1, len(frames[0]) - 1, len(frames[0]) + 1]))
    second = list(range(start, n + 1)) if case["all"] else ends
    for a in range(start, n + 1):
        if not case["all"] and a % 3 and a not in ends:
            continue
        with open("g.dump", "wb") as f:
            f.write(whole[:a])
        tr = Trajectory("g.dump")
        wa = complete(frames, a)
        ctx.equal(tr.nblocks, wa, "layout %d opened at byte %d: frames" % (lay, a))
        pos = a
        for b in second:
            if b <= a:
                continue
            with open("g.dump", "ab") as f:
                f.write(whole[pos:b])
            pos = b
            what = "layout %d opened at byte %d, now %d bytes" % (lay, a, b)
            ctx.equal(tr.nblocks, wa, what)
            for k in range(wa):
                ctx.equal("".join(tr.get_block(k)).encode(), frames[k], "%s: block %d" % (what, k))
            try:
                tr.get_block(wa)
                ctx.fail("%s: block %d of %d is returned" % (what, wa, wa))
            except IndexError:
                pass
            t2 = Trajectory("g.dump")
            ctx.equal(t2.nblocks, complete(frames, b), what + ": frames of a new trajectory")
            ctx.op(2)
            ctx.step()
            ctx.visit(lay, a, b)
        if wa:
            check_frames(ctx, tr, frames, wa, "layout %d opened at byte %d, finished" % (lay, a), True)
