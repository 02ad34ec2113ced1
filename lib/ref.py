"""Reference models: brute force definitions, independent of pyscal's code."""
import itertools

import numpy as np
from numpy.polynomial import legendre
from scipy.spatial import cKDTree


# ------------------------------------------------------------ periodic pairs
def images(s, rc):
    """Every periodic image within rc of some atom: positions, real index."""
    h = s.heights()
    inv = np.linalg.inv(s.box)
    frac = s.pos @ inv
    sh = np.floor(frac)
    base = s.pos - sh @ s.box              # all atoms inside the box
    k = np.ceil(rc / h).astype(int)
    T = np.array(list(itertools.product(*(range(-m, m + 1) for m in k))), dtype=float)
    P = (base[None, :, :] + (T @ s.box)[:, None, :]).reshape(-1, 3)
    J = np.tile(np.arange(s.n), len(T))
    return base, P, J


def pairs(s, rc):
    """For every atom: (index of neighbor, vector, distance) of all images with 0 < d < rc."""
    base, P, J = images(s, rc)
    tree = cKDTree(P)
    out = []
    for i in range(s.n):
        k = np.array(tree.query_ball_point(base[i], rc + 1e-9), dtype=int)
        v = P[k] - base[i]
        d = np.sqrt((v * v).sum(1))
        m = (d < rc) & (d > 1e-9)
        k, v, d = k[m], v[m], d[m]
        o = np.argsort(d, kind="stable")
        out.append((J[k[o]], v[o], d[o]))
    return out


def nearest(s, m, rc=None):
    """The m+some closest images of every atom, sorted by distance."""
    if rc is None:
        rho = s.n / s.volume
        rc = (3 * (m + 4) / (4 * np.pi * rho)) ** (1 / 3.) * 1.15
    while True:
        p = pairs(s, rc)
        if all(len(x[0]) > m for x in p):
            return p
        rc *= 1.25


def gap_ok(p, rc, tol=1e-6):
    return all(np.all(np.abs(x[2] - rc) > tol) for x in p)


def select(nb, masks):
    return [(x[0][m], x[1][m], x[2][m]) for x, m in zip(nb, masks)]


def cutoff(s, rc):
    return pairs(s, rc)


def filtered(s, nb, flt):
    if flt is None:
        return nb
    same = [s.types[x[0]] == s.types[i] for i, x in enumerate(nb)]
    if flt == "type":
        return select(nb, same)
    return select(nb, [~m for m in same])


def number(s, nmax):
    p = nearest(s, nmax + 1)
    tie = any(x[2][nmax] - x[2][nmax - 1] < 1e-7 for x in p)
    return [(x[0][:nmax], x[1][:nmax], x[2][:nmax]) for x in p], tie


def adaptive(s, nlimit=6, padding=1.2):
    p = nearest(s, nlimit + 1)
    rc = np.array([padding * x[2][:nlimit].mean() for x in p])
    q = pairs(s, rc.max() + 1e-3)
    tie = any(np.any(np.abs(x[2] - rc[i]) < 1e-7) for i, x in enumerate(q))
    return select(q, [x[2] < rc[i] for i, x in enumerate(q)]), rc, tie


def sann(s, first=3, k=40):
    """Solid angle nearest neighbors, van Meel et al 2012: smallest m >= 3 with
    R(m) = sum_{j<=m} r_j/(m-2) <= r_{m+1}; the neighbors are the m closest."""
    p = nearest(s, k)
    out, rcs, tie = [], [], False
    for x in p:
        d = x[2]
        m = first
        while True:
            rm = d[:m].sum() / (m - 2)
            if abs(rm - d[m]) < 1e-7:
                tie = True
            if rm <= d[m]:
                break
            m += 1
        out.append((x[0][:m], x[1][:m], d[:m]))
        rcs.append(rm)
    return out, np.array(rcs), tie


# ------------------------------------------------------------ bond orientation
def plegendre(l, x):
    c = np.zeros(l + 1)
    c[l] = 1
    return legendre.legval(x, c)


def unit(nb):
    return [x[1] / x[2][:, None] for x in nb]


def overlap(l, u1, w1, u2, w2):
    """4 pi/(2l+1) sum_m q_lm(1) q*_lm(2), by the addition theorem."""
    c = np.clip(u1 @ u2.T, -1, 1)
    return float(w1 @ plegendre(l, c) @ w2) / (w1.sum() * w2.sum())


class Bonds:
    """Bond orientational order of a structure with given neighbors and weights."""

    def __init__(self, nb, weights=None):
        self.nb = nb
        self.u = unit(nb)
        self.w = weights if weights is not None else [np.ones(len(x[0])) for x in nb]
        self.cache = {}

    def S(self, l, i, j):
        k = (l, min(i, j), max(i, j))
        if k not in self.cache:
            self.cache[k] = overlap(l, self.u[i], self.w[i], self.u[j], self.w[j])
        return self.cache[k]

    def q(self, l):
        return np.array([np.sqrt(max(0.0, self.S(l, i, i))) for i in range(len(self.nb))])

    def aq(self, l, cond=None):
        out = []
        for i, x in enumerate(self.nb):
            grp = [i] + [int(j) for j in x[0] if cond is None or cond[j] == cond[i]]
            tot = sum(self.S(l, a, b) for a in grp for b in grp)
            out.append(np.sqrt(max(0.0, tot)) / len(grp))
        return np.array(out)

    def norm_overlap(self, l, i, j):
        return self.S(l, i, j) / np.sqrt(self.S(l, i, i) * self.S(l, j, j))


# ------------------------------------------------------------ graphs
def components(n, edges):
    par = list(range(n))

    def find(a):
        while par[a] != a:
            par[a] = par[par[a]]
            a = par[a]
        return a
    for a, b in edges:
        par[find(a)] = find(b)
    comp = {}
    for i in range(n):
        comp.setdefault(find(i), []).append(i)
    return [find(i) for i in range(n)], comp


# ------------------------------------------------------------ Voronoi cells
class Cell:
    __slots__ = ("j", "vec", "dist", "area", "perim", "nvert", "poly", "volume", "verts")


def voronoi(s):
    """Periodic Voronoi tessellation: one Cell per atom (scipy/qhull over replicated points)."""
    from scipy.spatial import Voronoi
    a0 = (s.volume / s.n) ** (1 / 3.)
    rc = 3.2 * a0
    while True:
        base, P, J = images(s, rc)
        # keep only the points close to the box
        tree = cKDTree(base)
        d, _ = tree.query(P, distance_upper_bound=rc)
        keep = np.isfinite(d)
        P, J = P[keep], J[keep]
        tb = cKDTree(P)
        d, own = tb.query(base)
        assert d.max() < 1e-9
        vor = Voronoi(P)
        cells = [None] * s.n
        lookup = {int(o): i for i, o in enumerate(own)}
        faces = [[] for _ in range(s.n)]
        ok = True
        for (p, q), rv in zip(vor.ridge_points, vor.ridge_vertices):
            for x, y in ((p, q), (q, p)):
                i = lookup.get(int(x))
                if i is None:
                    continue
                if -1 in rv:
                    ok = False
                    break
                faces[i].append((int(y), rv))
        if ok:
            far = max(np.linalg.norm(vor.vertices[[v for f in faces[i] for v in f[1]]] - base[i], axis=1).max() for i in range(s.n))
            ok = 2 * far < rc
        if ok:
            break
        rc *= 1.4
    for i in range(s.n):
        c = Cell()
        c.j, c.vec, c.area, c.perim, c.nvert, c.poly = [], [], [], [], [], []
        vol = 0.0
        vv = set()
        for y, rv in faces[i]:
            poly = vor.vertices[rv] - base[i]
            # merge coincident vertices
            vec = P[y] - base[i]
            dist = np.linalg.norm(vec)
            e = np.roll(poly, -1, axis=0) - poly
            ar = 0.5 * abs(np.cross(poly - poly[0], np.roll(poly, -1, axis=0) - poly[0]).sum(0) @ (vec / dist))
            c.j.append(int(J[y]))
            c.vec.append(vec)
            c.area.append(ar)
            c.perim.append(np.linalg.norm(e, axis=1).sum())
            c.nvert.append(len(rv))
            c.poly.append(poly)
            vol += ar * dist / 6.0
            vv.update(rv)
        c.j = np.array(c.j)
        c.vec = np.array(c.vec)
        c.dist = np.linalg.norm(c.vec, axis=1)
        c.area = np.array(c.area)
        c.perim = np.array(c.perim)
        c.nvert = np.array(c.nvert)
        c.volume = vol
        c.verts = vor.vertices[sorted(vv)] - base[i]
        cells[i] = c
    return cells


# ------------------------------------------------------------ spherical harmonics
def qlm(l, nb, weights):
    """Weighted mean of Y_lm over the neighbors of every atom (scipy's spherical harmonics)."""
    from scipy.special import sph_harm_y
    n = len(nb)
    cnt = np.array([len(x[0]) for x in nb])
    V = np.concatenate([x[1] for x in nb]) if cnt.sum() else np.zeros((0, 3))
    D = np.linalg.norm(V, axis=1)
    W = np.concatenate(weights)
    own = np.repeat(np.arange(n), cnt)
    th = np.arccos(np.clip(V[:, 2] / D, -1, 1))
    ph = np.arctan2(V[:, 1], V[:, 0])
    tot = np.zeros(n)
    np.add.at(tot, own, W)
    out = np.zeros((n, 2 * l + 1), complex)
    for m in range(-l, l + 1):
        y = sph_harm_y(l, m, th, ph) * W
        out[:, m + l] = np.bincount(own, y.real, n) + 1j * np.bincount(own, y.imag, n)
    return out / tot[:, None]


def qnorm(l, q):
    return np.sqrt(4 * np.pi / (2 * l + 1) * (np.abs(q) ** 2).sum(1))


def group_mean(nb, x):
    """mean over every atom and its neighbors"""
    return np.array([(x[i] + x[b[0]].sum(0)) / (len(b[0]) + 1) for i, b in enumerate(nb)])


def number_tie(s, nmax):
    return number(s, nmax)[1]
