"""C21: created crystals are the named crystals."""
import itertools

import numpy as np

import ref
import space

INFO = {
    "rule": "all structures x all repetitions up to the bound in each direction x lattice constants x c/a x types of arguments; around every atom the numbers, types and distances of the first coordination shells, found by brute force in the returned periodic box, are compared with the published ones for the sites of the structure; numbers of sites, box, ids, locations and order are checked; noise is compared with the crystal without noise and with the random stream",
    "bounds": {"quick": "8 structures x 64 repetitions (1..4 in each direction) x 3 lattice constants (hcp with 3 c/a), and 4 long or large crystals of each (up to 5760 atoms)", "thorough": "repetitions 1..6, 4 lattice constants"},
    "assumptions": [],
}
# (distance/a)^2 -> {type: number} for each site, sites by share of the atoms
S = {
    "sc": [(1, 1, {1: {1: 6}, 2: {1: 12}, 3: {1: 8}, 4: {1: 6}, 5: {1: 24}})],
    "bcc": [(2, 1, {.75: {1: 8}, 1: {1: 6}, 2: {1: 12}, 2.75: {1: 24}, 3: {1: 8}})],
    "fcc": [(4, 1, {.5: {1: 12}, 1: {1: 6}, 1.5: {1: 24}, 2: {1: 12}, 2.5: {1: 24}})],
    "diamond": [(8, 1, {3 / 16.: {1: 4}, .5: {1: 12}, 11 / 16.: {1: 12}, 1: {1: 6}, 19 / 16.: {1: 12}, 1.5: {1: 24}})],
    "a15": [(2, 1, {5 / 16.: {1: 12}, .75: {1: 8}, 13 / 16.: {1: 12}, 1: {1: 6}}), (6, 1, {.25: {1: 2}, 5 / 16.: {1: 4}, 3 / 8.: {1: 8}, 13 / 16.: {1: 4}, 7 / 8.: {1: 16}, 1: {1: 6}})],
    "l12": [(1, 1, {.5: {2: 12}, 1: {1: 6}, 1.5: {2: 24}, 2: {1: 12}}), (3, 2, {.5: {1: 4, 2: 8}, 1: {2: 6}, 1.5: {1: 8, 2: 16}, 2: {2: 12}})],
    "b2": [(1, 1, {.75: {2: 8}, 1: {1: 6}, 2: {1: 12}, 2.75: {2: 24}, 3: {1: 8}}), (1, 2, {.75: {1: 8}, 1: {2: 6}, 2: {2: 12}, 2.75: {1: 24}, 3: {2: 8}})],
}


def hcp(c):
    sh = {}
    for d2, n in ((1.0, 6), (1 / 3. + c * c / 4, 6), (4 / 3. + c * c / 4, 6), (c * c, 2), (3.0, 6), (7 / 3. + c * c / 4, 12), (1 + c * c, 12)):
        sh[d2] = {1: sh.get(d2, {1: 0})[1] + n}
    top = 1 + c * c if 1 + c * c < 4 else 3.9
    return [(4, 1, {k: v for k, v in sh.items() if k < min(top, 3.2) + 1e-9})]


def cases(tier):
    R = 4 if tier == "quick" else 6
    for st in list(S) + ["hcp"]:
        for nx in range(1, R + 1):
            for ny in range(1, R + 1):
                yield {"st": st, "nx": nx, "ny": ny, "R": R, "a": [0.7, 1.0, 3.52] + ([28.3] if tier == "thorough" else [])}
        # long, flat and large crystals
        for rep in ([13, 1, 2], [1, 11, 1], [2, 1, 15], [8, 9, 10]):
            yield {"st": st, "rep": rep, "a": 3.52}
    for st in list(S) + ["hcp"]:
        yield {"st": st, "noise": True}
    yield {"st": "default"}


def make(*args, **kw):
    import pyscal.crystal_structures as pcs
    return pcs.make_crystal(*args, **kw)


def verify(ctx, st, rep, a, ca, atoms, box, what):
    rep = [int(x) for x in rep]
    sites = hcp(ca) if st == "hcp" else S[st]
    cell = np.array([1, np.sqrt(3), ca]) if st == "hcp" else np.ones(3)
    per = sum(x[0] for x in sites)
    n = per * rep[0] * rep[1] * rep[2]
    L = cell * a * rep
    ctx.equal(len(atoms), n, what + ": number of atoms")
    ctx.close(box, np.diag(L), what + ": box", 1e-12, 1e-12)
    ctx.equal([x.id for x in atoms], list(range(1, n + 1)), what + ": ids")
    ctx.equal([x.loc for x in atoms], list(range(n)), what + ": locations")
    p = np.array([x.pos for x in atoms])
    ctx.check(p.min() > -1e-9 and (p < L - 1e-9).all(), "%s: atoms outside of the box", what)
    t = np.array([x.type for x in atoms])
    for typ in set(x[1] for x in sites):
        ctx.equal(int((t == typ).sum()), n * sum(x[0] for x in sites if x[1] == typ) // per, what + ": atoms of type %d" % typ)
    rmax = np.sqrt(max(max(x[2]) for x in sites)) * a * 1.0001
    P = ref.pairs(space.Struct(np.diag(L), p, t), rmax)
    tally = [0] * len(sites)
    shells = [sorted((d2, typ, k) for d2, m in x[2].items() for typ, k in m.items()) for x in sites]
    for i in range(n):
        got = {}
        for j, d in zip(P[i][0], P[i][2]):
            d2 = float(d / a) ** 2
            k = (round(d2, 5), int(t[j]))
            got[k] = got.get(k, 0) + 1
        hit = None
        for q, x in enumerate(sites):
            lim = max(x[2]) + 1e-4
            want = {}
            for d2, typ, k in shells[q]:
                want[(round(d2, 5), typ)] = want.get((round(d2, 5), typ), 0) + k
            if t[i] == x[1] and match({k: v for k, v in got.items() if k[0] < lim}, want):
                hit = q
        ctx.comparisons += len(got)
        ctx.check(hit is not None, "%s: atom %d of type %d has the shells %s", what, i, t[i], sorted(got.items())[:6])
        tally[hit] += 1
    ctx.equal(tally, [n * x[0] // per for x in sites], what + ": atoms on each site")


def match(a, b):
    if len(a) != len(b):
        return False
    for (d1, t1), (d2, t2) in zip(sorted(a), sorted(b)):
        if abs(d1 - d2) > 3e-5 or t1 != t2 or a[(d1, t1)] != b[(d2, t2)]:
            return False
    return True


def run(case, ctx):
    st = case["st"]
    if st == "default":
        for name in list(S) + ["hcp"]:
            atoms, box = make(name)
            verify(ctx, name, [1, 1, 1], 1.0, 1.633, atoms, box, name)
            atoms, box = make(name, repetitions=(2, 1, 2))
            verify(ctx, name, [2, 1, 2], 1.0, 1.633, atoms, box, name)
            atoms, box = make(name, 2.5, (1, 2, 1))
            verify(ctx, name, [1, 2, 1], 2.5, 1.633, atoms, box, name)
            atoms, box = make(name, lattice_constant=2, repetitions=[1, 1, 3], noise=0)
            verify(ctx, name, [1, 1, 3], 2.0, 1.633, atoms, box, name)
            ctx.op(4)
            ctx.step(4)
            ctx.visit(name)
            if name != "hcp":        # c/a belongs to hcp only
                atoms, box = make(name, ca_ratio=1.1)
                verify(ctx, name, [1, 1, 1], 1.0, 1.1, atoms, box, name + " with c/a")
        for bad in ("", "FCC ", "hexagonal", None, 3):
            ctx.raises(lambda: make(bad), ValueError, "structure %r" % (bad,))
        return
    if case.get("noise"):
        return noise(st, ctx)
    if "rep" in case:
        atoms, box = make(st, lattice_constant=case["a"], repetitions=case["rep"])
        ctx.op()
        ctx.step()
        ctx.visit(st, case["rep"])
        verify(ctx, st, case["rep"], case["a"], 1.633, atoms, box, "%s %s" % (st, case["rep"]))
        return
    for nz in range(1, case["R"] + 1):
        for a in case["a"]:
            for ca in ((1.633, 1.5, 1.8) if st == "hcp" else (1.633,)):
                rep = [case["nx"], case["ny"], nz]
                if rep[0] * rep[1] * rep[2] > 48 and a != 3.52:
                    continue
                atoms, box = make(st, lattice_constant=a, repetitions=rep, ca_ratio=ca)
                ctx.op()
                ctx.step()
                ctx.visit(st, rep, a, ca)
                verify(ctx, st, rep, a, ca, atoms, box, "%s %s a=%s c/a=%s" % (st, rep, a, ca))
                if a == 3.52 and len(atoms) < 60:
                    usable(ctx, st, atoms, box, a, ca)


def usable(ctx, st, atoms, box, a, ca):
    """a System made of it has the first shells as neighbors"""
    import pyscal.core as pc
    sy = pc.System()
    sy.box = box
    sy.atoms = atoms
    sites = hcp(ca) if st == "hcp" else S[st]
    d2 = sorted(set(k for x in sites for k in x[2]))
    rc = 0.5 * (np.sqrt(d2[0]) + np.sqrt(d2[1])) * a
    if rc > 0.5 * 3 * np.diag(np.array(box)).min():
        return
    sy.find_neighbors(method="cutoff", cutoff=rc)
    want = sorted(sum(v for k, m in x[2].items() if k < (rc / a) ** 2 for v in m.values()) for x in sites for _ in range(x[0] * len(atoms) // sum(y[0] for y in sites)))
    ctx.equal(sorted(x.coordination for x in sy.atoms), want, "%s: coordination in a System" % st)


def noise(st, ctx):
    """noise displaces every atom as told and changes nothing else"""
    for rep in ([1, 1, 1], [2, 1, 3], [3, 3, 2]):
        for sigma in (0.001, 0.02, 0.3):
            for a in (1.0, 3.52):
                ideal, box0 = make(st, lattice_constant=a, repetitions=rep)
                np.random.seed(7)
                atoms, box = make(st, lattice_constant=a, repetitions=rep, noise=sigma)
                np.random.seed(7)
                again, box2 = make(st, lattice_constant=a, repetitions=rep, noise=sigma)
                other, box3 = make(st, lattice_constant=a, repetitions=rep, noise=sigma)
                ctx.op(4)
                ctx.step()
                ctx.visit(st, rep, sigma, a)
                what = "%s %s a=%s noise=%s" % (st, rep, a, sigma)
                ctx.equal([box, box2, box3], [box0] * 3, what + ": box")
                ctx.equal([(x.id, x.type, x.loc) for x in atoms], [(x.id, x.type, x.loc) for x in ideal], what + ": ids and types")
                p, q, r = (np.array([x.pos for x in y]) for y in (atoms, again, other))
                ctx.close(q, p, what + ": same seed", 0, 0)
                ctx.check(np.abs(r - p).min() > 0, "%s: the same displacements without the same seed", what)
                d = (p - np.array([x.pos for x in ideal])).ravel() / sigma
                ctx.check(np.abs(d).min() > 0 and len(set(np.round(d, 9).tolist())) == len(d), "%s: displacements repeat or are zero", what)
                ctx.check(np.abs(d).max() < 6, "%s: a displacement of %.3g standard deviations", what, np.abs(d).max())
                if len(d) > 100:
                    m = d.reshape(-1, 3)
                    ctx.check(np.abs(m.mean(axis=0)).max() < 6 / np.sqrt(len(m)) and np.abs(m.std(axis=0) - 1).max() < 6 / np.sqrt(2 * len(m)), "%s: mean %s and deviation %s", what, m.mean(axis=0), m.std(axis=0))
