"""C01: cutoff neighbors are exactly the periodic images closer than the cutoff."""
import numpy as np

import core
import ref
import space

INFO = {
    "rule": "a case is one structure (regime of box shape, size, image handling, placement) and one history of cutoffs applied to the same system; after every step the complete neighbor lists (image identity, vector, distance) are compared with the brute force definition",
    "bounds": {"quick": "all regimes x 2 cutoff histories of length 4, cell-list systems up to 2916 atoms, 7 systems with pairs of almost the cutoff at every cell boundary, 3 integer lattices with distances of exactly the cutoff",
               "thorough": "all regimes x 3 displacement seeds x all ordered pairs of 5 cutoffs, cell-list systems up to 5488 atoms"},
    "assumptions": ["cutoff below half the smallest height of the (image) cell", "no pair closer than 1e-6 to the cutoff, except in the constructed boundary cases"],
}

BIG = [
    dict(lat="bcc", rep=[11, 11, 11], disp=.06),
    dict(lat="bcc", rep=[11, 11, 11], disp=.06, cell="tri2"),
    dict(lat="bcc", rep=[11, 11, 11], disp=.06, cell="tri", off=2),
    dict(lat="fcc", rep=[9, 9, 9], disp=.04, cell="left"),
    dict(lat="bcc", rep=[24, 7, 7], disp=.06, off=2),
    dict(lat="bcc", rep=[7, 25, 7], disp=.06, cell="tet"),
    dict(lat="bcc", rep=[6, 7, 29], disp=.06, cell="rot"),
    dict(lat="fcc", rep=[30, 5, 5], disp=.04, cell="triy"),
    dict(lat="bcc", rep=[11, 11, 11], disp=.06, cell="orot", off=4),
    dict(lat="fcc", rep=[9, 9, 9], disp=.04, cell="trix"),
    dict(lat="fcc", rep=[9, 9, 9], disp=.04, cell="triz", off=1),
]


def cuts(s, spec, fr):
    rho = s.n / s.volume
    top = min(0.98 * s.maxcut(), (200 / (4.19 * rho)) ** (1 / 3.))   # at most 300 neighbors are supported
    return [round(f * top, 5) for f in fr]


EDGE = [["ortho", 6, 9e-7], ["ortho", 5, 1e-9], ["ortho", 6, 1e-17], ["ortho", 6, 0.0], ["tri", 5, 9e-7], ["tri2", 4, 1e-8], ["tet", 6, 4e-7]]


def edge(cell, k, e):
    """A large structure, a cutoff which is exactly 1/k of its smallest height, and for every axis
    and every k-th part of the box two more atoms of almost this distance, one of them just below the k-th part."""
    s = space.make(dict(lat="bcc", rep=[11, 11, 11], disp=.05, cell=cell))
    h = s.heights()
    rc = float(h.min()) / k
    extra = []
    for ax in range(3):
        nv = np.cross(s.box[(ax + 1) % 3], s.box[(ax + 2) % 3])
        nv = nv / np.linalg.norm(nv)
        nv = nv * np.sign(nv @ s.box[ax])
        m = int(h[ax] / rc)
        for b in range(m):
            f = np.array([.313 + .02 * b, .457 - .03 * b, .131 + .07 * b])
            f[ax] = b / m
            p = f @ s.box - e * nv
            extra += [p, p - (rc - max(e / 4, 1e-10)) * nv]
    n = s.n
    return space.Struct(s.box, np.vstack([s.pos, extra]), [1] * (n + len(extra))), rc


def cases(tier):
    for e in EDGE:
        yield {"edge": e}
    # distances which are exactly the cutoff, without and with cell lists
    for rep in ([2, 2, 2], [6, 6, 6], [14, 14, 13]):
        yield {"tie": rep, "rc": [1.0, 2.0, 3.0] if rep[0] > 6 else [1.0, 2.0]}
    seeds = [0] if tier == "quick" else [0, 1, 2]
    for sd in seeds:
        for disp in (0.05, 0.0):
            if disp == 0.0 and sd:
                continue
            for spec in space.regimes(disp=disp):
                spec = dict(spec, seed=sd + spec.get("seed", 0))
                yield {"s": spec, "h": [0.55, 0.999, 0.3, 0.75]}
                yield {"s": spec, "h": [0.9, 0.05, 0.62, 0.42]}
                if tier == "thorough":
                    fs = [0.2, 0.45, 0.66, 0.83, 0.97]
                    for a in fs:
                        for b in fs:
                            if a != b:
                                yield {"s": spec, "h": [a, b]}
        for spec in BIG:
            spec = dict(spec, seed=sd)
            yield {"s": spec, "h": [0.6, 0.25]}
            yield {"s": spec, "h": [0.97, 0.45]}
            if tier == "thorough":
                yield {"s": spec, "h": [0.33, 0.5, 0.72, 0.8]}
    if tier == "thorough":
        yield {"s": dict(lat="bcc", rep=[14, 14, 14], disp=.05, cell="tri"), "h": [.5, .3]}
        yield {"s": dict(lat="bcc", rep=[14, 14, 14], disp=.05), "h": [.5, .3]}


def special(case, ctx):
    if "edge" in case:
        s, rc = edge(*case["edge"])
        todo = [(rc, ref.pairs(s, rc))]
        ctx.check(ref.gap_ok(todo[0][1], rc, 1e-12), "the case has a tie")
    else:
        s = space.make(dict(lat="sc", rep=case["tie"], off=3))
        s.pos = np.round(s.pos)        # exact numbers
        todo = [(rc, ref.pairs(s, rc - 1e-6)) for rc in case["rc"]]
    sy = core.new_system(s)
    ridx = core.real_index(sy, s)
    for rc, nb in todo:
        ctx.op()
        ctx.step()
        sy.find_neighbors(method="cutoff", cutoff=float(rc))
        core.same_neighbors(ctx, core.neighbor_lists(sy, s, ridx), nb, "cutoff %r" % rc)
        ctx.visit(str(case), rc)
        ctx.count("neighbors", sum(len(x[0]) for x in nb))


def run(case, ctx):
    if "s" not in case:
        return special(case, ctx)
    s = space.make(case["s"])
    sy = core.new_system(s)
    ctx.op(2)
    ridx = core.real_index(sy, s)
    for rc in cuts(s, case["s"], case["h"]):
        nb = ref.pairs(s, rc)
        if not ref.gap_ok(nb, rc):
            rc += 3e-4
            nb = ref.pairs(s, rc)
            if not ref.gap_ok(nb, rc):
                ctx.count("skipped_near_tie")
                continue
        if max(len(x[0]) for x in nb) > 290 or rc >= s.maxcut():
            ctx.count("skipped_out_of_domain")
            continue
        sy.find_neighbors(method="cutoff", cutoff=float(rc))
        ctx.op()
        ctx.step()
        got = core.neighbor_lists(sy, s, ridx)
        core.same_neighbors(ctx, got, nb, "cutoff %.5f" % rc)
        for i, a in enumerate(sy.atoms):
            ctx.check(a.coordination == len(nb[i][0]), "coordination of atom %d: %s", i, a.coordination)
            ctx.check(all(w == 1.0 for w in a.neighbor_weights) and len(a.neighbor_weights) == len(nb[i][0]),
                      "weights of atom %d are not one", i)
        ctx.visit(space.name(case["s"]), rc)
        ctx.count("neighbors", sum(len(x[0]) for x in nb))
