"""C03: type filters keep exactly the neighbors of the same / of another type."""
import numpy as np

import core
import ref
import space

INFO = {
    "rule": "a case is one structure with one assignment of types and one history of (method, filter); the filtered lists must equal the unfiltered definition restricted to the pairs whose types agree (disagree). All assignments of two types to the atoms of the small cells are enumerated",
    "bounds": {"quick": "all 2^n assignments of two types on 4- and 8-atom cells (three box shapes), all regimes x 3 type patterns; cutoff and adaptive cutoff, histories of 5",
               "thorough": "in addition 2^12 assignments on a 12 atom cell, more regimes and cutoffs"},
    "assumptions": ["filters apply to the cutoff and adaptive methods (documented for neighbor calculation; number and sann ignore them and are not claimed)"],
}

H = [[None, "type", "type_r", None, "type_r"], ["type_r", "type", None, "type", "type"]]


def cases(tier):
    # all assignments on small cells
    for spec, n in ((dict(lat="fcc", rep=[1, 1, 1], disp=.03), 4),
                    (dict(lat="bcc", rep=[2, 2, 1], disp=.04, cell="tri"), 8),
                    (dict(lat="dia", rep=[1, 1, 1], disp=.02, cell="rot"), 8)):
        for b0 in range(0, 2 ** n, 16):
            yield {"s": spec, "masks": [b0, min(2 ** n, b0 + 16)], "h": H[0][:3], "m": ["c", .4]}
    if tier == "thorough":
        for b0 in range(0, 2 ** 12, 16):
            yield {"s": dict(lat="bcc", rep=[3, 2, 1], disp=.04), "masks": [b0, b0 + 16], "h": H[1], "m": ["c", .5]}
    for types in ("alt", "three", "gap"):
        for spec in space.regimes(disp=0.05, types=types):
            for m in (["c", .55], ["a", 1.2]) if tier == "quick" else (["c", .55], ["c", .9], ["a", 1.2], ["a", 1.5]):
                yield {"s": spec, "h": H[0] if m[0] == "c" else H[1], "m": m}
    for spec in space.regimes(disp=0.05, types="many")[::3]:
        yield {"s": spec, "h": H[0], "m": ["c", .9]}
        yield {"s": spec, "h": H[1], "m": ["a", 1.6]}
    big = [dict(lat="bcc", rep=[11, 11, 11], disp=.05, types="three"), dict(lat="fcc", rep=[9, 9, 9], disp=.04, cell="tri2", types="gap"),
           dict(lat="bcc", rep=[13, 13, 13], disp=.05, types="alt", cell="tri")]
    for spec in big:
        yield {"s": spec, "h": ["type", "type_r"], "m": ["c", .5]}
        yield {"s": spec, "h": ["type_r", "type"], "m": ["a", 1.25]}


def one(s, case, ctx, tag):
    sy = core.new_system(s)
    ridx = core.real_index(sy, s)
    if case["m"][0] == "c":
        rho = s.n / s.volume
        rc = case["m"][1] * min(0.98 * s.maxcut(), (200 / (4.19 * rho)) ** (1 / 3.))
        full = ref.pairs(s, rc)
        if not ref.gap_ok(full, rc):
            rc += 3e-4
            full = ref.pairs(s, rc)
        kw = dict(method="cutoff", cutoff=float(rc))
        tie = not ref.gap_ok(full, rc)
    else:
        full, rcs, tie = ref.adaptive(s, 6, case["m"][1])
        if rcs.max() > .99 * s.maxcut():
            tie = True
        kw = dict(method="cutoff", cutoff="adaptive", padding=case["m"][1])
    if tie:
        ctx.count("skipped_tie")
        return
    for flt in case["h"]:
        sy.find_neighbors(filter=flt, **kw)
        ctx.op()
        ctx.step()
        core.same_neighbors(ctx, core.neighbor_lists(sy, s, ridx), ref.filtered(s, full, flt), "filter %s %s" % (flt, tag))
        ctx.visit(space.name(case["s"]), tag, flt, case["m"])


def run(case, ctx):
    if "masks" in case:
        for m in range(*case["masks"]):
            s = space.make(dict(case["s"], types="bits%d" % m))
            one(s, case, ctx, "types %d" % m)
    else:
        one(space.make(case["s"]), case, ctx, "")
