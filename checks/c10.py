"""C10: common neighbor analysis and diamond identification."""
import itertools

import numpy as np
from scipy.spatial.distance import pdist, squareform

import core
import ref
import space

INFO = {
    "rule": "a case is one structure; adaptive CNA, conventional CNA with several lattice constants and diamond identification run one after another on one system (every order of the three); the structure of every atom and the returned counts are compared with the assignment from explicit bond graphs of the closest atoms. All stacking sequences of close packed layers up to a length, and all sets of vacancies up to a size, are enumerated",
    "bounds": {"quick": "all stackings of up to 6 layers (close packed and diamond, up to rotation) ideal and displaced; all vacancy sets of 1 atom in 4 crystals and of 2 in diamond; all regimes at 3 displacements; 3 clusters; four structures of more than 4000 atoms",
               "thorough": "all stackings of up to 8 layers; all vacancy sets of up to 2 atoms in 4 crystals; all regimes at 7 displacements x 3 seeds; four structures of more than 4000 atoms"},
    "assumptions": ["atoms for which the 12 (14, 4) closest atoms are not unique, or a bond is at the cutoff within 1e-9, are compared only if every choice gives the same answer (CNA) or not at all (diamond)",
                    "an atom next to both a cubic and a hexagonal diamond atom may be marked as neighbor of either"],
}


def necklaces(n):
    """Stackings of n layers in which neighboring layers differ, up to translation, relabelling and rotation."""
    seen, out = set(), []
    for seq in itertools.product("ABC", repeat=n):
        if seq[0] != "A" or any(seq[i] == seq[(i + 1) % n] for i in range(n)):
            continue
        forms = []
        for r in range(n):
            for d in (1, -1):
                x = (seq[r:] + seq[:r])[::d]
                names = {}
                for c in x:
                    if c not in names:
                        names[c] = "ABC"[len(names)]
                forms.append("".join(names[c] for c in x))
        key = min(forms)
        if key not in seen:
            seen.add(key)
            out.append(key)
    return out


ORD = list(itertools.permutations(range(3)))


def cases(tier):
    k = 0
    top = 6 if tier == "quick" else 8
    for n in range(2, top + 1):
        for seq in necklaces(n):
            for kind in ("cp", "dia"):
                for disp in ((0.0, 0.04) if tier == "quick" else (0.0, 0.04, 0.08)):
                    rep = [4, 3]
                    if kind == "dia" and n > 5:
                        rep = [3, 2]
                    yield {"s": dict(lat="stack", seq=seq, kind=kind, rep=rep, disp=disp), "o": k % 6}
                    k += 1
    for lat, rep in (("fcc", [3, 3, 3]), ("bcc", [4, 4, 4]), ("dia", [3, 3, 3]), ("hdia", [4, 3, 3])):
        n = len(space.LAT[lat][1]) * int(np.prod(rep))
        # one vacancy is equivalent to every other by translation: one per atom of the cell is enough
        one = range(len(space.LAT[lat][1]))
        sets = [[i] for i in one]
        far = list(range(1, n))
        if tier == "quick":
            far = far[::3] if lat == "dia" else far[::9]
        sets += [[0, j] for j in far]
        for v in sets:
            yield {"s": dict(lat=lat, rep=rep, vac=v, disp=0.015), "o": k % 6}
            k += 1
    # boxes of a few interatomic distances, and long thin ones
    for lat, rep in (("bcc", [3, 8, 8]), ("bcc", [8, 3, 8]), ("bcc", [8, 8, 3]), ("bcc", [3, 3, 12]), ("fcc", [2, 6, 6]), ("fcc", [2, 2, 14]),
                     ("hcp", [3, 5, 5]), ("hcp", [8, 2, 4]), ("hcp", [8, 4, 2]), ("dia", [2, 5, 4]), ("dia", [6, 2, 3]), ("hdia", [3, 5, 3]),
                     ("hdia", [3, 3, 3]), ("hdia", [5, 2, 4]), ("hdia", [6, 3, 2]), ("a15", [3, 3, 4])):
        for cell in ("ortho", "tri", "rot"):
            yield {"s": dict(lat=lat, rep=rep, cell="ortho" if cell == "tri" else cell if cell == "ortho" else "orot", disp=0.02 if cell == "tri" else 0.0), "o": k % 6}
            k += 1
    # more than 4000 atoms: neighbors are found with cells, after a search that decided so
    for spec in (dict(lat="fcc", rep=[10, 10, 11]), dict(lat="bcc", rep=[13, 13, 12], cell="tri2"), dict(lat="dia", rep=[8, 8, 8]), dict(lat="hcp", rep=[11, 10, 10], cell="rot")):
        yield {"s": dict(spec, disp=0.05), "o": 0, "first": 1}
        k += 1
    for c in ("ico", "ico2", "ico+"):
        for disp in (0.0, 0.02, 0.06):
            yield {"s": dict(lat="cluster", kind=c, disp=disp), "o": k % 6}
            k += 1
    disps = (0.02, 0.07, 0.13) if tier == "quick" else (0.0, 0.02, 0.04, 0.07, 0.1, 0.13, 0.2)
    for sd in ((0,) if tier == "quick" else (0, 1, 2)):
        for d in disps:
            for spec in space.regimes(disp=d):
                yield {"s": dict(spec, seed=sd + spec.get("seed", 0)), "o": k % 6}
                k += 1
        for spec in space.regimes(disp=0.03):
            if spec["lat"] in ("fcc", "sc", "hcp"):
                yield {"s": dict(spec, lat="dia", rep=[max(1, r - 1) for r in spec["rep"]], seed=sd), "o": k % 6}
                yield {"s": dict(spec, lat="hdia", rep=[max(1, r - 1) for r in spec["rep"]], seed=sd), "o": k % 6}
                k += 1


class Amb(Exception):
    pass


def graph(P, cut):
    d = squareform(pdist(P))
    if np.abs(d - cut).min() < 1e-9:
        raise Amb
    A = d < cut
    np.fill_diagonal(A, False)
    return A


def pattern(A, k):
    """The graph which the common neighbors of the central atom and neighbor k form."""
    c = np.flatnonzero(A[k])
    B = A[np.ix_(c, c)]
    deg = sorted(B.sum(0).tolist())
    return len(c), int(B.sum()) // 2, deg


FCC, HCP = (4, 2, [1, 1, 1, 1]), (4, 2, [0, 1, 1, 2])
ICO, BCC4, BCC6 = (5, 5, [2] * 5), (4, 4, [2] * 4), (6, 6, [2] * 6)


def twelve(P, cut):
    A = graph(P, cut)
    sig = [pattern(A, k) for k in range(len(P))]
    f, h, i = sig.count(FCC), sig.count(HCP), sig.count(ICO)
    return 1 if f == 12 else 2 if (f == 6 and h == 6) else 4 if i == 12 else 0


def fourteen(P, cut):
    A = graph(P, cut)
    sig = [pattern(A, k) for k in range(len(P))]
    return 3 if (sig.count(BCC4) == 6 and sig.count(BCC6) == 8) else 0


def choices(x, m):
    """all sets of m closest neighbors, if ties make them ambiguous"""
    d = x[2]
    lim = d[m - 1]
    sure = np.flatnonzero(d < lim - 1e-7)
    tied = np.flatnonzero(np.abs(d - lim) <= 1e-7)
    need = m - len(sure)
    out = list(itertools.islice(itertools.combinations(tied, need), 0, 40))
    if len(out) == 40:
        raise Amb
    return [np.concatenate([sure, np.array(c, dtype=int)]).astype(int) for c in out]


def cna(s, near, lc):
    """structure per atom, or None where it is not determined"""
    out = []
    for x in near:
        res = set()
        try:
            c14 = None
            for c in choices(x, 12):
                cut = 1.207 * x[2][c].mean() if lc is None else 0.854 * lc
                r = twelve(x[1][c], cut)
                if r:
                    res.add(r)
                    continue
                if c14 is None:
                    c14 = set()
                    for c2 in choices(x, 14):
                        ds = np.sort(x[2][c2])
                        cut = 1.207 * (1.1547 * ds[:8].sum() + ds[8:].sum()) / 14 if lc is None else 1.207 * lc
                        c14.add(fourteen(x[1][c2], cut))
                res |= c14
        except Amb:
            res = set()
        out.append(res.pop() if len(res) == 1 else None)
    return out


def diamond(s, near):
    if any(x[2][4] - x[2][3] < 1e-7 for x in near):
        return None
    st, second = [], []
    for i, x in enumerate(near):
        vec, idx = [], []
        for j in range(4):
            y = near[x[0][j]]
            for k in range(4):
                v = x[1][j] + y[1][k]
                if (v * v).sum() > 1e-12:
                    vec.append(v)
                    idx.append(y[0][k])
        second.append(idx)
        if len(vec) > 12:         # the atom is not among the closest atoms of its neighbors
            st.append(0)
            continue
        P = np.array(vec)
        try:
            st.append(twelve(P, 1.207 * np.linalg.norm(P, axis=1).mean()))
        except Amb:
            return None
    out = []
    for i, x in enumerate(near):
        if st[i] in (1, 2):
            out.append({1: {5}, 2: {8}}[st[i]])
            continue
        n1 = {st[j] for j in x[0][:4]} & {1, 2}
        n2 = {st[j] for j in second[i]} & {1, 2}
        if n1:
            out.append({{1: 6, 2: 9}[k] for k in n1})
        elif n2:
            out.append({{1: 7, 2: 10}[k] for k in n2})
        else:
            out.append({st[i]})
    return out


KEYS = ["others", "fcc", "hcp", "bcc", "ico"]
DKEYS = KEYS + ["cubic diamond", "cubic diamond 1NN", "cubic diamond 2NN", "hex diamond", "hex diamond 1NN", "hex diamond 2NN"]


def run(case, ctx):
    s = space.make(case["s"])
    near = ref.nearest(s, 18 if s.n > 18 else 18)
    if max(x[2][15] for x in near) > 0.999 * s.maxcut():
        ctx.count("out_of_domain")
        return
    if case["s"].get("lat") == "cluster":
        return cluster(case, ctx, s, near)
    sy = core.new_system(s)
    if case.get("first"):
        sy.find_neighbors(method="number", nmax=12, threshold=3)
    a0 = (s.volume / s.n) ** (1 / 3.)
    lcs = [1.5874 * a0, 1.26 * a0] if case["o"] % 2 else [1.26 * a0, 1.5874 * a0]
    for what in ORD[case["o"]]:
        if what == 0:
            one(ctx, s, sy, near, None)
        elif what == 1:
            for lc in lcs:
                one(ctx, s, sy, near, lc)
        else:
            want = diamond(s, near)
            ctx.op()
            ctx.step()
            r = sy.identify_diamond()
            got = [a.structure for a in sy.atoms]
            counts(ctx, r, got, DKEYS, "identify_diamond")
            if want is None:
                ctx.count("diamond_ambiguous")
                continue
            for i in range(s.n):
                ctx.check(got[i] in want[i], "identify_diamond: atom %d is %d, expected %s", i, got[i], sorted(want[i]))
            for g in set(got):
                ctx.count("diamond_%d" % g, got.count(g))
            ideal(ctx, case["s"], got, {"c": 5, "h": 8}, "dia")
    ctx.visit(space.name(case["s"]), case["o"])


def counts(ctx, r, got, keys, what):
    ctx.equal(sorted(r), sorted(keys), what + ": keys of the result")
    for k, name in enumerate(keys):
        ctx.equal(r[name], got.count(k), "%s: number of atoms counted as %s" % (what, name))
    ctx.equal(sum(r.values()), len(got), what + ": total of the counts")


def one(ctx, s, sy, near, lc):
    want = cna(s, near, lc)
    what = "adaptive CNA" if lc is None else "CNA with lattice constant %.4f" % lc
    ctx.op()
    ctx.step()
    r = sy.calculate_cna(lattice_constant=lc)
    got = [a.structure for a in sy.atoms]
    counts(ctx, r, got, KEYS, what)
    for i in range(s.n):
        if want[i] is None:
            ctx.count("cna_ambiguous")
            continue
        ctx.check(got[i] == want[i], "%s: atom %d is %d, expected %d", what, i, got[i], want[i])
        ctx.count("structure_%d" % got[i])
    if lc is None:
        ideal(ctx, s.spec, got, {"c": 1, "h": 2}, "cp")


def ideal(ctx, spec, got, code, kind):
    """in an undistorted stacking the environment of a layer is known beforehand"""
    if spec.get("lat") != "stack" or spec["kind"] != kind or spec.get("disp") or len(spec["seq"]) < 3:
        return
    seq = spec["seq"]
    m = len(seq)
    env = ["c" if seq[k - 1] != seq[(k + 1) % m] else "h" for k in range(m)]
    per = 2 if kind == "cp" else 4
    for i, g in enumerate(got):
        k = (i // per) % m
        ctx.check(g == code[env[k]], "ideal stacking %s: atom %d of layer %d is %d", seq, i, k, g)


def cluster(case, ctx, s, near):
    sy = core.new_system(s)
    near = ref.nearest(s, 14)
    one(ctx, s, sy, near, None)
    one(ctx, s, sy, near, 1.7)
    ctx.visit(space.name(case["s"]), case["o"])
