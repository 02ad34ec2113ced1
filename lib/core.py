"""Per-case context, and helpers that talk to pyscal's public Python API."""
import hashlib
import json

import numpy as np


class Violation(Exception):
    pass


class Ctx:
    """Collects what one case covered.

    op()       one call of the implementation
    visit(x)   a distinct state of the explored space (canonical, hashable by repr)
    step()     one transition of the explored space
    """

    def __init__(self, pid, scratch):
        self.pid = pid
        self.scratch = scratch
        self._states = set()
        self.ops = 0
        self.transitions = 0
        self.comparisons = 0
        self.counters = {}
        self.known_seen = {}
        self.violation = None
        self.sample = None

    def visit(self, *x):
        self._states.add(hashlib.md5(repr(x).encode()).hexdigest()[:16])

    def visited(self, *x):
        return hashlib.md5(repr(x).encode()).hexdigest()[:16] in self._states

    def op(self, n=1):
        self.ops += n

    def step(self, n=1):
        self.transitions += n

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def known(self, key, msg):
        self.known_seen[key] = msg

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg, *args):
        self.comparisons += 1
        if not cond:
            raise Violation(msg % args if args else msg)

    def close(self, got, want, msg, rtol=1e-7, atol=1e-9):
        """Numbers (arrays) agree; NaN only equals NaN."""
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        self.comparisons += max(1, w.size)
        if g.shape != w.shape:
            raise Violation("%s: shape %s, expected %s" % (msg, g.shape, w.shape))
        if g.size == 0:
            return
        ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        if not ok.all():
            k = tuple(np.argwhere(~ok)[0])
            raise Violation("%s: at %s got %.12g, expected %.12g (%d of %d differ)" % (
                msg, k, g[k], w[k], (~ok).sum(), ok.size))

    def equal(self, got, want, msg):
        self.comparisons += 1
        if got != want:
            raise Violation("%s: got %s, expected %s" % (msg, str(got)[:300], str(want)[:300]))

    def raises(self, fn, exc, msg):
        self.comparisons += 1
        try:
            fn()
        except exc:
            return
        except Exception as e:
            raise Violation("%s: raised %s instead of %s" % (msg, type(e).__name__, exc))
        raise Violation("%s: no error raised" % msg)

    def result(self, case):
        return {"states": sorted(self._states), "ops": self.ops, "transitions": self.transitions,
                "comparisons": self.comparisons, "counters": self.counters, "known": self.known_seen,
                "violation": self.violation, "sample": self.sample or case}


# ---------------------------------------------------------------- pyscal side
def new_atoms(s, ids=True):
    from pyscal.core import Atom
    out = []
    for i in range(len(s.pos)):
        a = Atom()
        a.pos = [float(x) for x in s.pos[i]]
        a.id = i + 1
        a.type = int(s.types[i])
        out.append(a)
    return out


def new_system(s):
    """A pyscal System holding the structure."""
    import pyscal.core as pc
    sys_ = pc.System()
    sys_.box = [[float(x) for x in v] for v in s.box]
    sys_.atoms = new_atoms(s)
    return sys_


def real_index(sys_, s):
    """For every atom pyscal knows (images included): which atom of the structure
    it is an image of, decided by position modulo the lattice."""
    n = len(s.pos)
    inv = np.linalg.inv(s.box)
    frac = (s.pos @ inv) % 1.0
    out = list(range(n))
    nt = sys_.ntotal
    if nt == n:
        return np.array(out)
    key = {}
    from scipy.spatial import cKDTree
    tree = cKDTree(np.where(frac >= 1 - 1e-9, 0.0, frac), boxsize=1.0)
    pos = np.array([sys_.get_atom(i).pos for i in range(n, nt)])
    f = (pos @ inv) % 1.0
    f = np.where(f >= 1 - 1e-12, 0.0, f)
    d, k = tree.query(f)
    if d.max() > 1e-6:
        raise Violation("a ghost atom is not an image of any atom")
    return np.array(out + list(k))


def neighbor_lists(sys_, s, ridx=None):
    """pyscal's neighbors as {atom: sorted list of (real index, dx, dy, dz, distance)}"""
    if ridx is None:
        ridx = real_index(sys_, s)
    out = []
    for a in sys_.atoms:
        js = a.neighbors
        ds = a.neighbor_distance
        vs = a.neighbor_vector
        out.append((np.array([ridx[j] for j in js], dtype=int),
                    np.array(vs, dtype=float).reshape(-1, 3),
                    np.array(ds, dtype=float),
                    np.array(js, dtype=int)))
    return out


def same_neighbors(ctx, got, want, what, tol=1e-7):
    """Both sides: list of (index, vector, distance, ...) arrays, order free."""
    ctx.check(len(got) == len(want), "%s: %d atoms, expected %d" % (what, len(got), len(want)))
    for i, (g, w) in enumerate(zip(got, want)):
        if len(g[0]) != len(w[0]):
            ctx.fail("%s: atom %d has %d neighbors, expected %d (got %s, expected %s)" % (
                what, i, len(g[0]), len(w[0]), sorted(np.round(g[2], 6).tolist())[:30],
                sorted(np.round(w[2], 6).tolist())[:30]))
        ctx.check(len(g[1]) == len(g[0]) and len(g[2]) == len(g[0]),
                  "%s: atom %d has neighbor data of different lengths" % (what, i))
        if len(g[0]) == 0:
            continue
        go = _order(g)
        wo = _order(w)
        if not (np.array_equal(g[0][go], w[0][wo])
                and np.allclose(g[1][go], w[1][wo], atol=tol, rtol=0)
                and np.allclose(g[2][go], w[2][wo], atol=tol, rtol=0)):
            ctx.fail("%s: atom %d: got %s, expected %s" % (
                what, i, [(int(a), [round(float(x), 5) for x in b], round(float(c), 6)) for a, b, c in zip(g[0][go], g[1][go], g[2][go])][:8],
                [(int(a), [round(float(x), 5) for x in b], round(float(c), 6)) for a, b, c in zip(w[0][wo], w[1][wo], w[2][wo])][:8]))
        ctx.comparisons += len(g[0])


def _order(g):
    v = np.round(g[1], 5) + 0.0
    return np.lexsort((v[:, 2], v[:, 1], v[:, 0], g[0]))


def mapped(sy, s, ridx=None, weights=False):
    """pyscal's own neighbor lists with images mapped to atoms: [(index, vector, distance, weight)]"""
    if ridx is None:
        ridx = real_index(sy, s)
    out = []
    for a in sy.atoms:
        out.append((np.array([ridx[j] for j in a.neighbors], dtype=int),
                    np.array(a.neighbor_vector, dtype=float).reshape(-1, 3),
                    np.array(a.neighbor_distance, dtype=float),
                    np.array(a.neighbor_weights, dtype=float)))
    return out


def search(sy, s, m, ctx=None):
    """A neighbor search named by a short list; distances in units of the mean atomic spacing."""
    if ctx is not None:
        ctx.op()
    a0 = (s.volume / s.n) ** (1 / 3.)
    k = m[0]
    flt = m[-1] if isinstance(m[-1], str) and m[-1].startswith("type") else None
    if k == "c":
        sy.find_neighbors(method="cutoff", cutoff=float(min(m[1] * a0, 0.97 * s.maxcut())), filter=flt)
    elif k == "a":
        sy.find_neighbors(method="cutoff", cutoff="adaptive", nlimit=m[1], padding=m[2], threshold=3, filter=flt)
    elif k == "n":
        sy.find_neighbors(method="number", nmax=m[1], threshold=3)
    elif k == "s":
        sy.find_neighbors(method="cutoff", cutoff="sann", threshold=3)
    elif k == "v":
        sy.find_neighbors(method="voronoi", voroexp=m[1])
    else:
        raise ValueError(m)


def in_domain(s, nb):
    """every atom has neighbors, all of them closer than half the (image) cell"""
    return all(len(x[0]) > 0 and x[2].max() < 0.999 * s.maxcut() for x in nb)
