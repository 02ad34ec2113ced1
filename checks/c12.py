"""C12: disorder parameter and its average."""
import numpy as np

import core
import ref
import space

INFO = {
    "rule": "a case is one structure and one history of neighbor searches and disorder calculations (which need the q_l of the same l, calculated before); after every calculation the disorder of every atom and its average over the neighbors are compared with the definition",
    "bounds": {"quick": "all regimes x 3 histories; two structures of more than 4000 atoms, two with up to 230 neighbors", "thorough": "all regimes x 3 seeds x 5 histories; two structures of more than 4000 atoms"},
    "assumptions": ["every atom has a neighbor", "the order parameter does not vanish (below 1e-3) for any atom: the normalised overlap is 0/0 there"],
}
HIST = [
    [["c", 1.35], ["d", 6, True], ["d", 4, False], ["a", 6, 1.3], ["d", 4, True], ["d", 6, True]],
    [["v", 1], ["d", 6, True], ["n", 7], ["d", 8, True], ["d", 12, True], ["v", 2], ["d", 2, True]],
    [["c", 1.7], ["d", 10, True], ["solid", 5], ["d", 3, True], ["c", 1.2], ["d", 3, True]],
    [["s"], ["d", 6, True], ["d", 6, True], ["n", 14], ["d", 7, True], ["d", 5, False], ["d", 11, True]],
    [["a", 12, 1.5], ["d", 9, True], ["solid", 6], ["d", 4, True], ["v", 3], ["d", 4, True]],
]


def cases(tier):
    for sd in ([0] if tier == "quick" else [0, 1, 2]):
        for spec in space.regimes(disp=0.08):
            for h in (HIST[:3] if tier == "quick" else HIST):
                yield {"s": dict(spec, seed=sd + spec.get("seed", 0)), "h": h}
    for lat, rep in (("bcc", [2, 2, 2]), ("fcc", [4, 4, 4]), ("sc", [6, 6, 6])):
        yield {"s": dict(lat=lat, rep=rep), "h": HIST[0], "perfect": 1}
    for spec in (dict(lat="bcc", rep=[13, 13, 12]), dict(lat="hcp", rep=[11, 10, 10], cell="tri2")):
        yield {"s": dict(spec, disp=0.08), "h": HIST[1]}
    for spec, c in ((dict(lat="bcc", rep=[7, 7, 7]), 3.1), (dict(lat="fcc", rep=[6, 6, 6]), 3.8)):
        yield {"s": dict(spec, disp=0.08), "h": [["c", c], HIST[1][1]]}


def run(case, ctx):
    s = space.make(case["s"])
    sy = core.new_system(s)
    ridx = core.real_index(sy, s)
    nb = None
    for st in case["h"]:
        ctx.step()
        if st[0] not in ("d", "solid"):
            core.search(sy, s, st, ctx)
            nb = core.mapped(sy, s, ridx)
            if not core.in_domain(s, nb) or st[0] == "n" and ref.number_tie(s, st[1]) or st[0] == "s" and ref.sann(s)[2]:
                nb = None
                ctx.count("out_of_domain")
            continue
        if nb is None:
            continue
        ctx.op()
        if st[0] == "solid":
            sy.find_solids(q=st[1], cluster=False)
            continue
        l = st[1]
        if case["h"].index(st) % 2:
            sy.calculate_q(l)
        sy.calculate_disorder(averaged=st[2], q=l)
        Q = ref.qlm(l, nb, [x[3] for x in nb])
        if np.sqrt((np.abs(Q) ** 2).sum(1)).min() < 1e-3:
            ctx.count("order_parameter_vanishes")
            continue
        U = Q / np.sqrt((np.abs(Q) ** 2).sum(1))[:, None]
        D = np.array([np.mean(2 - 2 * np.real(U[x[0]].conj() @ U[i])) for i, x in enumerate(nb)])
        at = sy.atoms
        ctx.close([a.disorder for a in at], D, "disorder l=%d in %s" % (l, st), atol=2e-6, rtol=1e-6)
        if st[2]:
            ctx.close([a.avg_disorder for a in at], ref.group_mean(nb, D), "averaged disorder l=%d" % l, atol=2e-6, rtol=1e-6)
        if case.get("perfect") and l % 2 == 0:
            ctx.check(max(abs(a.disorder) for a in at) < 1e-6, "disorder of a perfect crystal is not zero")
        ctx.visit(space.name(case["s"]), str(st), case["h"].index(st))
