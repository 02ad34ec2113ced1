"""C13: entropy fingerprint."""
import numpy as np

import core
import ref
import space

INFO = {
    "rule": "a case is one structure, a cutoff search and a sequence of entropy calculations (broadening, range, step, local or global density, averaging, switching function) on one system, each of them made twice; every atom's value is compared with the integral evaluated by the trapezoidal rule on the same grid, within the contribution of the last grid points, the averaged one with the weighted mean of the values pyscal reports for the atom and its neighbors",
    "bounds": {"quick": "all regimes x 1 of 3 searches x 8 parameter sets, 8 structures x 3 searches with a distance as switching length, 4 with isolated atoms, 5 with up to 230 neighbors; two structures of more than 4000 atoms", "thorough": "all regimes x 3 seeds x 5 searches x 24 parameter sets; two structures of more than 4000 atoms"},
    "assumptions": ["no distance differs from the switching length by less than 1e-6 unless it is equal to it", "with a local density every atom has a neighbor closer than the cutoff"],
}
# sigma, rstart, rm (all in units of a0), h (in rm-rstart), local, averaged, switching(ra in a0, M, N)
P = [
    (0.1, 0.001, 1.5, 0.002, False, False, None), (0.1, 0.001, 1.5, 0.002, True, True, None), (0.05, 0.2, 1.3, 0.004, False, True, (0.93, 12, 6)),
    (0.2, 0.001, 2.2, 0.003, True, True, (1.21, 10, 5)), (0.02, 0.001, 1.4, 0.002, False, True, None), (0.15, 0.5, 1.0, 0.01, True, False, None),
    (0.1, 0.001, 1.7, 0.005, False, True, (1.77, 14, 7)), (0.08, 0.05, 1.2, 0.003, False, True, (0.71, 12, 6)),
]
# a switching length which is one of the distances
PD = [(0.1, 0.001, 1.6, 0.004, True, True, ("d", 12, 6)), (0.07, 0.01, 1.2, 0.005, False, True, ("d", 9, 4))]
PN = [(0.1, 0.001, 2.8, 0.004, True, True, (1.9, 12, 6)), (0.06, 0.2, 2.4, 0.006, False, True, None)]
# atoms without neighbors
PI = [(0.1, 0.001, 1.2, 0.004, False, True, None), (0.04, 0.1, 0.9, 0.01, False, True, (0.81, 12, 6)), (0.1, 0.001, 1.2, 0.004, False, False, None)]
PT = [(sg, rs, rm, 0.003, loc, True, sw) for sg in (0.06, 0.18) for rs, rm in ((0.01, 1.1), (0.3, 1.9)) for loc in (True, False)
      for sw in (None, (1.013, 12, 6))]
FIND = [["c", 1.35], ["c", 1.75], ["a", 8, 1.3]]
FIND_T = FIND + [["c", 2.2], ["a", 5, 1.5]]


def cases(tier):
    k = 0
    for sd in ((0,) if tier == "quick" else (0, 1, 2)):
        for spec in space.regimes(disp=0.06):
            for f in ([FIND[k % 3]] if tier == "quick" else FIND_T):
                p = P if tier == "quick" else P + PT
                yield {"s": dict(spec, seed=sd + spec.get("seed", 0), a=1.0 if k % 2 else 2.7), "f": f, "p": p[k % len(p):] + p[:k % len(p)]}
            k += 1
    for lat, rep in (("fcc", [2, 2, 2]), ("bcc", [5, 5, 5]), ("hcp", [2, 2, 1]), ("fcc", [4, 4, 4])):
        for disp in (0.0, 0.05):
            for f in FIND:
                yield {"s": dict(lat=lat, rep=rep, disp=disp), "f": f, "p": PD}
    for k, spec in enumerate((dict(lat="bcc", rep=[13, 13, 12], disp=.07), dict(lat="fcc", rep=[12, 8, 11], disp=.05, cell="tri2"))):
        yield {"s": spec, "f": FIND[k], "p": P[:2]}
    # many neighbors
    for k, (lat, rep, a) in enumerate((("bcc", [5, 5, 5], 1.0), ("fcc", [2, 2, 2], 3.6), ("hcp", [5, 5, 5], 2.95))):
        yield {"s": dict(lat=lat, rep=rep, disp=0.05, a=a), "f": ["c", 2.55 + k / 7], "p": PN}
    for k, (lat, rep, m) in enumerate((("bcc", [7, 7, 7], 3.1), ("fcc", [6, 6, 6], 3.8))):
        yield {"s": dict(lat=lat, rep=rep, disp=0.05), "f": ["c", m], "p": PN}
    for cell in ("ortho", "tri"):
        for m, sd in ((0.45, 0), (0.6, 1)):
            yield {"s": dict(lat="rand", n=230, disp=.4, cell=cell, seed=sd), "f": ["c", m], "p": PI, "lone": 1}


def integrand(r, d, sigma, rho):
    g = np.exp(-(r[:, None] - d[None, :]) ** 2 / (2 * sigma ** 2)).sum(1) / (4 * np.pi * rho * r * r * np.sqrt(2 * np.pi) * sigma)
    gl = np.where(g > 0, g * np.log(np.where(g > 0, g, 1)), 0)
    return (gl - g + 1) * r * r


def run(case, ctx):
    s = space.make(case["s"])
    sy = core.new_system(s)
    ridx = core.real_index(sy, s)
    core.search(sy, s, case["f"], ctx)
    nb = core.mapped(sy, s, ridx)
    if "lone" in case:
        ctx.check(any(len(x[0]) == 0 for x in nb), "the case has no atom without neighbors")
    elif not core.in_domain(s, nb):
        ctx.count("out_of_domain")
        return
    a0 = (s.volume / s.n) ** (1 / 3.)
    if case["f"][0] == "c":
        cut = np.full(s.n, min(case["f"][1] * a0, 0.97 * s.maxcut()))
    else:
        cut = ref.adaptive(s, case["f"][1], case["f"][2])[1]
    last = None
    for p in case["p"]:
        sigma, rs, rm, hh, local, avg, sw = p
        sigma, rs, rm = sigma * a0, rs * a0, rm * a0
        h = hh * (rm - rs)
        n = int((rm - rs) / h)
        r = rs + h * np.arange(n + 1)
        kw = dict(sigma=sigma, rstart=rs, h=h, local=local, averaged=avg)
        if sw:
            if isinstance(sw[0], str):      # one of the distances
                ra = float(nb[s.n // 2][2][len(nb[s.n // 2][2]) // 2])
            else:
                ra = sw[0] * a0
                if any(len(x[2]) and np.abs(x[2] - ra).min() < 1e-6 for x in nb):
                    ctx.count("tie")
                    continue
            kw.update(switching_function=True, ra=ra, M=sw[1], N=sw[2])
        ctx.op()
        ctx.step()
        sy.calculate_entropy(rm, **kw)
        e = np.array([a.entropy for a in sy.atoms])
        want = np.empty(s.n)
        tol = np.empty(s.n)
        for i, x in enumerate(nb):
            rho = s.n / s.volume if not local else len(x[0]) / (4 / 3. * np.pi * cut[i] ** 3)
            f = integrand(r, x[2], sigma, rho)
            want[i] = -rho * h * (f.sum() - 0.5 * f[0] - 0.5 * f[-1])
            tol[i] = rho * h * (np.abs(f[-3:]).sum()) * 1.05 + 1e-9 * (1 + abs(want[i]))
        bad = ~(np.abs(e - want) <= tol)
        ctx.comparisons += s.n
        if bad.any():
            i = int(np.argmax(bad))
            ctx.fail("entropy of atom %d with %s: got %.10g, expected %.10g +- %.2g" % (i, kw, e[i], want[i], tol[i]))
        if avg:
            w = []
            for i, x in enumerate(nb):
                fr = np.ones(len(x[0]))
                if sw:
                    eq = np.abs(x[2] / ra - 1) < 1e-9
                    z = np.where(eq, 2, x[2] / ra)
                    fr = np.where(eq, sw[2] / sw[1], (1 - z ** sw[2]) / (1 - z ** sw[1]))
                w.append((e[i] + (fr * e[x[0]]).sum()) / (1 + fr.sum()))
            ctx.close([a.avg_entropy for a in sy.atoms], w, "averaged entropy with %s" % kw, rtol=1e-6, atol=1e-8)
            last = [a.avg_entropy for a in sy.atoms]
        elif last is not None:
            ctx.close([a.avg_entropy for a in sy.atoms], last, "averaged entropy changed although it was not calculated", rtol=0, atol=0)
        sy.calculate_entropy(rm, **kw)
        ctx.op()
        ctx.close([a.entropy for a in sy.atoms], e, "entropy of a second calculation with %s" % kw, rtol=0, atol=0)
        ctx.visit(space.name(case["s"]), str(case["f"]), p)
