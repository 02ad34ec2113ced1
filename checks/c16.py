"""C16: pair distances and radial distribution function."""
import itertools

import numpy as np

import core
import ref
import space

INFO = {
    "rule": "a case is one structure and a sequence of radial distribution functions with different numbers of bins and ranges; pair distances, distribution function, bin positions and the coordination numbers it integrates to are compared with a brute force minimum image evaluation of the supercell",
    "bounds": {"quick": "all regimes x 2 seeds x 14 bin and range combinations, and 3 systems of 1170-1458 atoms", "thorough": "all regimes x 6 seeds x 40 combinations"},
    "assumptions": ["triclinic boxes: distances below half the smallest height of the cell (further away pyscal wraps box coordinates)", "no distance within 1e-9 of a bin edge"],
}
# bins, min, max in units of the range limit (None: default)
P = [(100, 0.0, None), (1, 0.0, 1.0), (7, 0.0, 0.9), (50, 0.3, 0.99), (200, 0.0, 0.7), (13, 0.55, 0.6), (100, 0.1, None), (3, 0.9, 1.0), (1000, 0.0, 1.0),
     (25, 0.0, 0.45), (2, 0.2, 0.8), (31, 0.0, 0.33), (64, 0.25, 0.5), (100, 0.0, 0.999)]
PT = [(b, lo, hi) for b in (1, 10, 99, 400) for lo, hi in ((0, .5), (0, .95), (.4, .7), (.05, .15), (0, 1.0), (.7, 1.0), (.0, .77))][:26]


def cases(tier):
    k = 0
    for sd in range(2 if tier == "quick" else 6):
        for spec in space.regimes(disp=0.07):
            p = P if tier == "quick" else P + PT
            yield {"s": dict(spec, seed=sd + spec.get("seed", 0), a=(1.0, 3.1)[k % 2]), "p": p[k % len(p):] + p[:k % len(p)]}
            k += 1
    # systems of more than a thousand atoms
    for i, (lat, cell, rep) in enumerate((("bcc", "ortho", [9, 9, 9]), ("fcc", "tri", [7, 7, 7]), ("sc", "ortho", [13, 9, 10]))):
        yield {"s": {"lat": lat, "cell": cell, "rep": rep, "disp": 0.07, "off": 2, "types": "alt", "seed": i}, "p": P[3 * i:3 * i + 5]}


def brute(s, m):
    """all pairs of the supercell: minimum image distances (27 images after wrapping)"""
    T = np.array(list(itertools.product(range(m), repeat=3)), dtype=float)
    P = (s.pos[None] + (T @ s.box)[:, None]).reshape(-1, 3)
    box = s.box * m
    inv = np.linalg.inv(box)
    i, j = np.triu_indices(len(P), 1)
    f = (P[j] - P[i]) @ inv
    f -= np.round(f)
    best = np.full(len(i), np.inf)
    for t in itertools.product((-1, 0, 1), repeat=3):
        v = (f + t) @ box
        np.minimum(best, (v * v).sum(1), out=best)
    return np.sqrt(best), len(P), abs(np.linalg.det(box))


def run(case, ctx):
    s = space.make(case["s"])
    sy = core.new_system(s)
    m = int(round((sy.ntotal / s.n) ** (1 / 3.)))
    ctx.equal(sy.ntotal, s.n * m ** 3, "number of atoms of the cell")
    d, N, V = brute(s, m)
    gram = s.box @ s.box.T
    ortho = np.abs(gram - np.diag(np.diag(gram))).max() < 1e-9 * np.abs(gram).max()
    got = np.array(sy.get_pairdistances())
    ctx.op()
    ctx.equal(len(got), N * (N - 1) // 2, "number of pair distances")
    lim = d.max() if ortho else 0.5 * m * s.heights().min() * (1 - 1e-9)
    a, b = np.sort(got[got <= lim * (1 + 1e-9)]), np.sort(d[d <= lim * (1 + 1e-9)])
    if len(a) != len(b):
        a, b = np.sort(got[got < lim - 1e-6]), np.sort(d[d < lim - 1e-6])
    ctx.close(a, b, "pair distances", rtol=1e-9, atol=1e-8)
    for bins, lo, hi in case["p"]:
        if hi is None and not ortho:
            hi = 1.0
        lo_, hi_ = lo * lim, None if hi is None else hi * lim
        kw = dict(histobins=bins, histomin=lo_)
        top = hi_ if hi_ is not None else got.max()
        edges = np.linspace(lo_, top, bins + 1)
        e = edges[:-1] if hi is None else edges
        k = np.searchsorted(np.sort(d), e)
        sd = np.sort(d)
        near = np.minimum(np.abs(sd[np.clip(k, 0, len(sd) - 1)] - e), np.abs(sd[np.clip(k - 1, 0, len(sd) - 1)] - e))
        if near.min() < 1e-8:
            ctx.count("tie")
            continue
        if hi_ is not None:
            kw["histomax"] = hi_
        ctx.op()
        ctx.step()
        g, r = sy.calculate_rdf(**kw)
        cnt = np.array([((d >= x) & (d < y)).sum() for x, y in zip(edges, edges[1:])], dtype=float) if bins < 60 else np.diff(np.searchsorted(sd, edges)).astype(float)
        if hi is None:
            cnt[-1] = (d >= edges[-2]).sum()
        vol = 4 / 3. * np.pi * (edges[1:] ** 3 - edges[:-1] ** 3)
        want = cnt / vol / (N * (N - 1) // 2 / V)
        ctx.close(r, edges[:-1], "radii of %s" % kw, rtol=1e-9, atol=1e-9)
        ctx.close(g, want, "radial distribution function with %s" % kw, rtol=1e-6, atol=1e-9)
        if lo == 0 and hi is not None and hi * lim < s.maxcut() * 0.999:
            p = ref.pairs(s, hi * lim)
            z = np.mean([len(x[0]) for x in p])
            ctx.close((g * vol).sum() * (N - 1) / V, z, "coordination number up to %g" % (hi * lim), rtol=1e-6)
        ctx.visit(space.name(case["s"]), bins, lo, hi)
