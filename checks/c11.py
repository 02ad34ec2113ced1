"""C11: centrosymmetry."""
import itertools

import numpy as np

import core
import ref
import space

INFO = {
    "rule": "a case is one structure and a sequence of even neighbor numbers applied to the same system; after every call the value of every atom (returned list and attribute) is compared with the sum of the nmax/2 smallest |ri+rj|^2 over all pairs of the nmax closest images; perfect and sublattice-displaced crystals with inversion symmetry must give zero; odd and non-positive numbers and systems with too few atoms must raise an error",
    "bounds": {"quick": "all regimes x 2 displacements x all 12 even numbers 2..24 in rotating order; two structures of more than 4000 atoms", "thorough": "all regimes x 5 displacements x 4 seeds x all even numbers 2..40 in 3 orders; two structures of more than 4000 atoms"},
    "assumptions": ["the nmax closest atoms are unique, or form a set closed under inversion", "they are closer than half the effective cell"],
}


def cases(tier):
    top = 24 if tier == "quick" else 40
    N = list(range(2, top + 1, 2))
    disps = (0.0, 0.07) if tier == "quick" else (0.0, 0.02, 0.07, 0.12, 0.2)
    seeds = (0,) if tier == "quick" else (0, 1, 2, 3)
    k = 0
    for sd in seeds:
        for d in disps:
            for spec in space.regimes(disp=d):
                if d == 0 and spec.get("lat") == "rand":
                    continue
                orders = [N[k % len(N):] + N[:k % len(N)]]
                if tier != "quick":
                    orders += [N[::-1], N[::2] + N[1::2]]
                for o in orders:
                    yield {"s": dict(spec, seed=sd + spec.get("seed", 0)), "n": o}
                k += 1
    # more than 4000 atoms: neighbors are found with cells, after a search that decided so
    for spec in (dict(lat="bcc", rep=[13, 13, 12], cell="tri2"), dict(lat="fcc", rep=[10, 10, 11])):
        yield {"s": dict(spec, disp=0.05), "n": [12, 4, 8, 14], "first": 1}


def run(case, ctx):
    s = space.make(case["s"])
    sy = core.new_system(s)
    if case.get("first"):
        sy.find_neighbors(method="number", nmax=12, threshold=3)
    top = max(case["n"])
    near = ref.nearest(s, top + 1)
    for nmax in case["n"]:
        if max(x[2][nmax - 1] for x in near) > 0.999 * s.maxcut():
            ctx.count("out_of_domain")
            continue
        tie = any(x[2][nmax] - x[2][nmax - 1] < 1e-7 for x in near)
        if tie:
            ctx.count("tie")
            continue
        want = []
        for x in near:
            v = x[1][:nmax]
            w = np.array([((v[i] + v[j]) ** 2).sum() for i, j in itertools.combinations(range(nmax), 2)])
            want.append(np.sort(w)[:nmax // 2].sum())
        ctx.op()
        ctx.step()
        try:
            got = sy.calculate_centrosymmetry(nmax=nmax)
        except RuntimeError:
            # a search radius of three times the estimate does not hold that many atoms of a very open structure
            ctx.check(nmax > 14, "no centrosymmetry for nmax=%d", nmax)
            ctx.count("not_found")
            continue
        ctx.close(got, want, "centrosymmetry, nmax=%d" % nmax, rtol=1e-7, atol=1e-8)
        ctx.close([a.centrosymmetry for a in sy.atoms], want, "centrosymmetry of the atoms, nmax=%d" % nmax, rtol=1e-7, atol=1e-8)
        inv = all(np.abs(np.sort(np.round(x[1][:nmax], 6) @ [1, 7.3, 51.7]) + np.sort(np.round(x[1][:nmax], 6) @ [1, 7.3, 51.7])[::-1]).max() < 1e-4 for x in near)
        if inv:
            ctx.check(max(got) < 1e-8, "inversion symmetric environments have centrosymmetry %g", max(got))
            ctx.count("inversion_symmetric")
        # the neighbors are those the value belongs to
        if nmax <= 14:
            core.same_neighbors(ctx, core.neighbor_lists(sy, s), [(x[0][:nmax], x[1][:nmax], x[2][:nmax]) for x in near], "neighbors after centrosymmetry")
        r = sy.calculate_centrosymmetry(nmax=nmax, get_vals=False)
        ctx.check(r is None, "values returned although not requested")
        ctx.close([a.centrosymmetry for a in sy.atoms], want, "repeated centrosymmetry, nmax=%d" % nmax, rtol=1e-7, atol=1e-8)
        ctx.op()
        ctx.visit(space.name(case["s"]), nmax)
    for bad in (0, -2, 3, 7, 13, -1):
        ctx.raises(lambda: sy.calculate_centrosymmetry(nmax=bad), ValueError, "nmax=%d" % bad)
