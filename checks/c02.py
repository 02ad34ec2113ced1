"""C02: adaptive-cutoff and fixed-number neighbors match their definitions, whatever the search radius."""
import numpy as np

import core
import ref
import space

INFO = {
    "rule": "a case is one structure and one history of adaptive / number searches with their parameters on the same system; after every step the complete lists and the reported cutoffs are compared with the definition over brute-force sorted distances, and a too small search radius must raise instead of returning lists",
    "bounds": {"quick": "all regimes x 3 histories of 5 searches, cell-list regimes (more than 4000 atoms or images) included",
               "thorough": "all regimes x 3 displacement seeds x 9 histories"},
    "assumptions": ["the result is compared only if every neighbor lies within half the smallest height of the (image) cell",
                    "no ties at the boundary of the neighbor shell"],
}

HIST = [
    [["a", 6, 1.2, 2], ["n", 12, 2], ["a", 14, 1.1, 3], ["n", 8, 3], ["a", 4, 1.6, 2]],
    [["n", 4, 2], ["a", 12, 1.3, 2], ["n", 14, 2.5], ["a", 2, 1.9, 2.5], ["n", 1, 1.7]],
    [["a", 6, 1.2, 1.0], ["n", 12, 1.0], ["a", 8, 1.45, 1.35], ["n", 6, 1.3], ["a", 6, 1.0, 2]],
]
HIST_T = HIST + [
    [["n", 20, 3], ["n", 3, 3], ["a", 10, 1.25, 2.2]],
    [["a", 16, 1.05, 2.2], ["a", 3, 1.5, 2], ["n", 2, 2]],
    [["n", 12, 1.2], ["n", 12, 1.6], ["n", 12, 2.4]],
    [["a", 6, 1.2, 1.2], ["a", 6, 1.2, 1.6], ["a", 6, 1.2, 2.4]],
    [["a", 1, 1.3, 2], ["n", 7, 2], ["a", 1, 2.2, 1.4]],
    [["n", 16, 2.2], ["a", 18, 1.15, 2.4], ["n", 5, 1.5]],
]
BIG = [
    dict(lat="tri3", rep=[4, 4, 4], disp=.02),                       # 192 atoms, 5184 with images
    dict(lat="bcc", rep=[5, 4, 4], disp=.05, cell="tri"),            # 160 atoms, 4320 with images
    dict(lat="bcc", rep=[13, 13, 13], disp=.05),                     # 4394 atoms
    dict(lat="bcc", rep=[13, 13, 13], disp=.05, cell="tri2", off=2),
    dict(lat="fcc", rep=[40, 5, 5], disp=.03, cell="triz"),
]


def cases(tier):
    seeds = [0] if tier == "quick" else [0, 1, 2]
    hist = HIST if tier == "quick" else HIST_T
    for sd in seeds:
        for spec in BIG:
            for h in (hist[:2] if tier == "quick" else hist[:5]):
                yield {"s": dict(spec, seed=sd), "h": h[:3]}
        for spec in space.regimes(disp=0.05):
            spec = dict(spec, seed=sd + spec.get("seed", 0))
            for h in hist:
                yield {"s": spec, "h": h}


def run(case, ctx):
    s = space.make(case["s"])
    sy = core.new_system(s)
    ridx = core.real_index(sy, s)
    # mean distance between atoms, over the cell that contains the images
    guess = (s.volume / s.n) ** (1 / 3.)
    lim = s.maxcut()
    for h in case["h"]:
        ctx.step()
        ctx.op()
        thr = h[-1]
        if h[0] == "a":
            nb, rc, tie = ref.adaptive(s, h[1], h[2])
            radius = rc
            must = thr * guess
            call = lambda: sy.find_neighbors(method="cutoff", cutoff="adaptive" if h[1] % 2 == 0 else 0, nlimit=h[1], padding=h[2], threshold=thr)
            close = max(ref.nearest(s, h[1]), key=lambda x: x[2][h[1] - 1])[2][h[1] - 1]
        else:
            nb, tie = ref.number(s, h[1])
            rc = np.array([x[2][-1] for x in nb])
            radius = rc
            call = lambda: sy.find_neighbors(method="number", nmax=h[1], threshold=thr)
            close = rc.max()
        if tie or max(len(x[0]) for x in nb) > 290:
            ctx.count("skipped_tie_or_domain")
            continue
        try:
            call()
            raised = False
        except RuntimeError:
            raised = True
        if raised:
            # only allowed when the candidates within the search radius do not suffice
            ctx.check(close > thr * guess * 0.999999, "search %s failed although every atom has its %d closest atoms within %.4f of the search radius %.4f", h, h[1], close, thr * guess)
            ctx.check(sy.neighbors_found is False, "a failed neighbor search is recorded as successful")
            ctx.count("refused")
            continue
        if radius.max() >= lim * 0.999:
            ctx.count("out_of_domain")
            continue
        core.same_neighbors(ctx, core.neighbor_lists(sy, s, ridx), nb, "%s" % h)
        at = sy.atoms
        ctx.close([a.cutoff for a in at], rc, "cutoff reported by %s" % h)
        ctx.close([a.coordination for a in at], [len(x[0]) for x in nb], "coordination %s" % h)
        ctx.visit(space.name(case["s"]), h)
        ctx.count("neighbors", sum(len(x[0]) for x in nb))
