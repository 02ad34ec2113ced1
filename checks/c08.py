"""C08: solid atoms, by count or fraction of solid bonds."""
import itertools

import numpy as np

import core
import ref
import space

INFO = {
    "rule": "a case is one structure, one neighbor search and a grid of classification parameters applied one after another to the same system; after every classification the bond overlaps, their mean, the number of solid bonds and the classification of every atom, the surface flag of solid atoms and the size of the largest solid cluster are compared with the definition",
    "bounds": {"quick": "all regimes x 1 of 4 neighbor searches (rotating) and 6 structures x all of them, x 14 parameter sets in sequence; two structures of more than 4000 atoms, two with up to 230 neighbors",
               "thorough": "all regimes x 3 seeds x 7 neighbor searches x 40 parameter sets in sequence; two structures of more than 4000 atoms, two with up to 230 neighbors"},
    "assumptions": ["no overlap closer than 1e-9 to a threshold", "every atom has a neighbor", "the order parameter does not vanish (below 1e-3) for any atom: the normalised overlap is 0/0 there"],
}
# bonds, threshold, avgthreshold, q, right, cluster
P = [
    (0.5, 0.5, 0.6, 6, True, True), (7, 0.5, 0.6, 6, True, True), (4, 0.3, 0.2, 4, True, False), (0.6, 0.45, 0.7, 8, False, True),
    (1, 0.9, 0.1, 6, True, True), (1.0, 0.1, 0.1, 6, True, False), (0, 0.95, 0.9, 12, True, True), (0.0, 0.2, 0.3, 2, False, False),
    (0.9, 0.6, 0.5, 6, True, True), (10, 0.7, 0.8, 6, False, True), (0.25, 0, 0.05, 3, True, True), (3, 0.65, 1, 5, False, True),
    (2, 1, 0, 6, False, True), (0.3, 1.0, 1.0, 7, False, False),
]
# for atoms with many neighbors
MANY = [(60, 0.2, 0.1, 6, True, True), (0.5, 0.1, 0.2, 4, True, True), (100, 0.05, 0.1, 8, False, True), (0.3, 0.4, 0.3, 12, True, False)]
# one argument outside its documented range each: the call is refused and changes nothing
BAD = [dict(q=1), dict(q=13), dict(q=-6), dict(q=6.0), dict(q="6"), dict(threshold=-0.01), dict(threshold=1.01), dict(threshold="a"), dict(avgthreshold=-0.01),
       dict(avgthreshold=1.01), dict(avgthreshold=None), dict(bonds=1.01), dict(bonds=-0.01), dict(bonds="7"), dict(bonds=None)]
PT = [(b, t, a, q, r, False) for b, t, a, q, r in itertools.product((0.3, 5, 0.75, 9), (0.35, 0.7), (0.25, 0.65), (6, 4, 11), (True, False))]
FIND = [["c", 1.35], ["a", 6, 1.3], ["n", 9], ["v", 1]]
NEXT = {"c": ["a", 4, 1.4], "a": ["c", 1.5], "n": ["c", 1.25], "v": ["n", 8], "s": ["c", 1.4]}
FIND_T = FIND + [["c", 1.8], ["s"], ["v", 2]]


def cases(tier):
    reg = space.regimes(disp=0.09)
    for k in (0, 4, 14):
        yield {"s": reg[k], "f": ["c", 1.35], "refused": True}
    for spec in (dict(lat="bcc", rep=[13, 13, 12], disp=.09), dict(lat="fcc", rep=[12, 8, 11], disp=.12, cell="tri2")):
        yield {"s": spec, "f": FIND[0], "p": P[:2]}
    for spec, c in ((dict(lat="bcc", rep=[7, 7, 7]), 3.1), (dict(lat="fcc", rep=[6, 6, 6]), 3.8)):
        yield {"s": dict(spec, disp=0.09), "f": ["c", c], "p": MANY}
    if tier == "quick":
        for k, spec in enumerate(reg):
            yield {"s": spec, "f": FIND[k % 4], "p": P}
        for k in (0, 1, 4, 14, 33, 45):
            for f in FIND:
                yield {"s": dict(reg[k], disp=0.14), "f": f, "p": P[::-1]}
        return
    for sd in (0, 1, 2):
        for spec in reg:
            for f in FIND_T:
                yield {"s": dict(spec, seed=sd + spec.get("seed", 0)), "f": f, "p": P + PT}


def refused(case, ctx):
    s = space.make(case["s"])
    sy = core.new_system(s)
    ctx.op()
    ctx.raises(lambda: sy.find_solids(), RuntimeError, "solids before a neighbor search")
    core.search(sy, s, case["f"], ctx)
    size = sy.find_solids(bonds=6, cutoff=1e6)
    was = [(a.solid, a.bonds, a.avg_sij, list(a.sij), a.surface, a.cluster) for a in sy.atoms]
    for bad in BAD:
        ctx.raises(lambda: sy.find_solids(**bad), (TypeError, ValueError), "find_solids(%s)" % bad)
        ctx.equal([(a.solid, a.bonds, a.avg_sij, list(a.sij), a.surface, a.cluster) for a in sy.atoms], was, "classification after the refused %s" % bad)
        ctx.step()
        ctx.visit("refused", str(bad))
    ctx.equal(sy.find_solids(bonds=6, cutoff=1e6), size, "size of the largest cluster, after refused calls")


def run(case, ctx):
    if case.get("refused"):
        return refused(case, ctx)
    s = space.make(case["s"])
    sy = core.new_system(s)
    ridx = core.real_index(sy, s)
    f = case["f"]
    # the last two sets once more after another search on the same system, and back
    for f, params in ((f, case["p"]), (NEXT[f[0]], case["p"][-1:] + case["p"][:1]), (f, case["p"][:2])):
        if not classify(case, s, sy, ridx, f, params, ctx):
            return


def classify(case, s, sy, ridx, f, params, ctx):
    if f[0] == "n" and ref.number_tie(s, f[1]) or f[0] == "s" and ref.sann(s)[2]:
        ctx.count("tie")
        return False
    core.search(sy, s, f, ctx)
    nb = core.mapped(sy, s, ridx)
    if not core.in_domain(s, nb):
        ctx.count("out_of_domain")
        return False
    cache = {}
    for p in params:
        bonds, th, av, q, right, cluster = p
        if q not in cache:
            Q = ref.qlm(q, nb, [x[3] for x in nb])
            if np.sqrt((np.abs(Q) ** 2).sum(1)).min() < 1e-3:
                ctx.count("order_parameter_vanishes")
                continue
            U = Q / np.sqrt((np.abs(Q) ** 2).sum(1))[:, None]
            cache[q] = [np.real(U[x[0]].conj() @ U[i]) for i, x in enumerate(nb)]
        S = cache[q]
        mean = np.array([x.mean() for x in S])
        if any(np.abs(x - th).min() < 1e-9 for x in S) or np.abs(mean - av).min() < 1e-9:
            ctx.count("tie")
            continue
        cl = 1e6 if f[0] in ("v", "s") else 0
        if right:
            cnt = np.array([(x > th).sum() for x in S])
            ok = mean > av
        else:
            cnt = np.array([(x < th).sum() for x in S])
            ok = mean < av
        n = np.array([len(x) for x in S])
        sol = ok & (cnt > bonds if isinstance(bonds, int) else cnt / n > bonds)
        r = sy.find_solids(bonds=bonds, threshold=th, avgthreshold=av, q=q, right=right, cluster=cluster, cutoff=cl)
        ctx.op()
        ctx.step()
        at = sy.atoms
        for i, a in enumerate(at):
            ctx.close(a.sij, S[i], "overlaps of atom %d, %s" % (i, p), atol=1e-6)
        for i in range(0, s.n, max(1, s.n // 8)):
            ctx.close([sy.get_number_from_bond(at[i], at[int(j)]) for j in nb[i][0]], S[i], "overlap of atom %d and its neighbors asked for one by one, %s" % (i, p), atol=1e-6)
        ctx.close([a.avg_sij for a in at], mean, "mean overlaps, %s" % (p,), atol=1e-6)
        ctx.equal([a.bonds for a in at], cnt.tolist(), "number of solid bonds, %s" % (p,))
        ctx.equal([bool(a.solid) for a in at], sol.tolist(), "solid atoms, %s" % (p,))
        if cluster:
            comp = ref.components(s.n, [(i, int(j)) for i, x in enumerate(nb) if sol[i] for j in x[0] if sol[j]])[1]
            big = max([len(c) for c in comp.values() if sol[c[0]]], default=0)
            ctx.equal(r, big, "size of the largest solid cluster, %s" % (p,))
            want = [not all(sol[x[0]]) for i, x in enumerate(nb) if sol[i]]
            ctx.equal([bool(a.surface) for i, a in enumerate(at) if sol[i]], want, "solid atoms at the surface, %s" % (p,))
        else:
            ctx.check(r is None, "a cluster size was returned although none was requested")
        ctx.count("solid", int(sol.sum()))
        ctx.visit(space.name(case["s"]), str(f), p)
    return True
