"""C15: short range order."""
import itertools

import numpy as np

import core
import ref
import space

INFO = {
    "rule": "a case is one structure with one assignment of types, and a sequence of Cowley and pairwise multicomponent calculations (every pair of types present, one and two shells, with and without delta) on one system after a cutoff search; per-atom values and averages are compared with the published formulas. For small cells every assignment of two types is enumerated",
    "bounds": {"quick": "all 2^n assignments of cells of up to 8 atoms (6 cells), all regimes x 3 assignments; one structure of more than 4000 atoms", "thorough": "all 2^n assignments of cells of up to 10 atoms, all regimes x 5 assignments x 2 seeds x 2 cutoffs; one structure of more than 4000 atoms"},
    "assumptions": ["both shells of every atom of the reference type are occupied; no distance is equal to their mean (within 1e-9)"],
}


def cases(tier):
    small = [dict(lat="bcc", rep=[2, 1, 1]), dict(lat="fcc", rep=[1, 1, 1]), dict(lat="tri3", rep=[2, 1, 1]), dict(lat="dia", rep=[1, 1, 1]),
             dict(lat="hcp_p", rep=[2, 1, 1], cell="rot"), dict(lat="dim", rep=[1, 1, 1], cell="tri"), dict(lat="a15", rep=[1, 1, 1])]
    if tier == "quick":
        small.pop()
    else:
        small += [dict(lat="bcc", rep=[5, 1, 1]), dict(lat="tri3", rep=[3, 1, 1], cell="tri2")]
    for sp in small:
        n = len(space.LAT[sp["lat"]][1]) * int(np.prod(sp["rep"]))
        masks = list(range(2 ** n))
        for k in range(0, len(masks), 8):
            yield {"s": dict(sp, disp=0.03), "m": masks[k:k + 8], "c": 1.75}
    for spec in (dict(lat="bcc", rep=[6, 6, 6]), dict(lat="fcc", rep=[4, 4, 5], cell="tri2"), dict(lat="hcp", rep=[5, 5, 4])):
        yield {"s": dict(spec, disp=0.04, types="many"), "m": None, "c": 2.0}
    for t in ("three",):
        yield {"s": dict(lat="bcc", rep=[13, 13, 12], disp=0.04, types=t, cell="tri2"), "m": None, "c": 1.7}
    how = ("alt", "three", "gap") if tier == "quick" else ("alt", "three", "gap", "few", "one")
    for sd in ((0,) if tier == "quick" else (0, 1)):
        for c in ((1.7,) if tier == "quick" else (1.5, 2.0)):
            for t in how:
                for spec in space.regimes(disp=0.04, types=t):
                    if tier == "quick" and t != "alt" and spec["lat"] == "bcc" and spec["rep"][0] > 4:
                        continue
                    yield {"s": dict(spec, seed=sd + spec.get("seed", 0)), "m": None, "c": c}


def run(case, ctx):
    if case["m"] is None:
        one(case, ctx, space.make(case["s"]), case["c"])
        return
    for m in case["m"]:
        one(case, ctx, space.make(dict(case["s"], types="bits%d" % m)), case["c"], m)


def one(case, ctx, s, c, mask=None):
    sy = core.new_system(s)
    ridx = core.real_index(sy, s)
    ctx.raises(lambda: sy.calculate_sro(), RuntimeError, "calculate_sro without neighbors")
    got = sy.get_concentration()
    n, kinds = list(got.values()), sorted(set(s.types.tolist()))
    ctx.equal(sorted(got), sorted(str(k) for k in kinds), "types whose concentration is reported")
    ctx.close([got[str(k)] / sum(n) for k in kinds], [(s.types == k).mean() for k in kinds], "reported concentrations", rtol=1e-9, atol=0)
    core.search(sy, s, ["c", c], ctx)
    nb = core.mapped(sy, s, ridx)
    if not core.in_domain(s, nb):
        ctx.count("out_of_domain")
        return
    T = s.types
    kinds = sorted(set(T.tolist()))
    conc = {k: (T == k).sum() / s.n for k in kinds}
    mean = [x[2].mean() for x in nb]
    if any(np.abs(x[2] - m).min() < 1e-9 for x, m in zip(nb, mean)):
        ctx.count("tie")
        return
    shells = {2: [[x[0][x[2] < m], x[0][x[2] > m]] for x, m in zip(nb, mean)], 1: [[x[0]] for x in nb]}
    if any(len(a) == 0 or len(b) == 0 for a, b in shells[2]):
        ctx.count("empty_shell")
        return

    def verify(ret, refk, sh, fn, what):
        ctx.op()
        ctx.step()
        per = {i: [fn(T[x]) for x in shells[sh][i]] for i in range(s.n) if T[i] == refk}
        at = sy.atoms
        for i, w in per.items():
            ctx.close(at[i].sro, w, "%s: atom %d" % (what, i), rtol=1e-9, atol=1e-9)
        avg = np.mean([per[i] for i in per], axis=0)
        ctx.close(ret, np.resize(avg, 2), what + ": average", rtol=1e-9, atol=1e-9)
        ctx.visit(space.name(case["s"]), mask, what)

    for sh in ((2, 1, 2) if s.n < 150 else (2, 1)):
        for k in (1, 2):
            if 1 in kinds and 2 in kinds and len(kinds) == 2:
                r = sy.calculate_sro(reference_type=k, shells=sh)
                verify(r, k, sh, lambda t: 1 - (t != k).mean() / (1 - conc[k]), "sro of %d, %d shells" % (k, sh))
            elif not (1 in kinds and 2 in kinds):
                ctx.raises(lambda: sy.calculate_sro(reference_type=k, shells=sh), RuntimeError, "sro with one type")
        for a, b in itertools.product(kinds if len(kinds) < 5 else kinds[:2] + kinds[-2:], kinds if len(kinds) < 5 else kinds[:3] + kinds[-3:]):
            for delta in (True, False):
                if a == b and delta and len(kinds) == 1:
                    continue
                r = sy.calculate_pmsro(reference_type=a, compare_type=b, shells=sh, delta=delta)
                if a == b and delta:
                    fn = lambda t: ((t == b).mean() - conc[b]) / (1 - conc[b])
                else:
                    fn = lambda t: 1 - (t == b).mean() / conc[b]
                verify(r, a, sh, fn, "pmsro %d-%d, %d shells, delta=%s" % (a, b, sh, delta))
    if 1 in kinds and 2 in kinds and len(kinds) == 2:
        # the two agree for an alloy of two types
        r1 = sy.calculate_sro(reference_type=1)
        r2 = sy.calculate_pmsro(reference_type=1, compare_type=2)
        ctx.close(r1, r2, "sro and pmsro of a binary alloy", rtol=1e-9, atol=1e-9)
        r = sy.calculate_sro(reference_type=2, average=False)
        ctx.check(r is None, "an average was returned although not requested")
    ctx.raises(lambda: sy.calculate_sro(reference_type=3), ValueError, "sro of type 3")
    ctx.raises(lambda: sy.calculate_pmsro(reference_type=max(kinds) + 1), ValueError, "pmsro of an absent type")
    ctx.raises(lambda: sy.calculate_pmsro(reference_type=kinds[0], compare_type=max(kinds) + 1), ValueError, "pmsro with an absent type")
