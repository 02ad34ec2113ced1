"""C04: SANN neighbors are the solid-angle nearest neighbors."""
import numpy as np

import core
import ref
import space

INFO = {
    "rule": "a case is one structure and one search radius (threshold); the neighbor lists are compared with the definition of van Meel et al., the smallest m >= 3 with sum of the m closest distances/(m-2) <= distance of the next atom, evaluated over all sorted distances",
    "bounds": {"quick": "all regimes x perfect and displaced x 3 thresholds, cell-list systems, 4 clusters with isolated atoms which have up to 70 neighbors", "thorough": "all regimes x 4 seeds x 2 amplitudes x 6 thresholds"},
    "assumptions": ["neighbors lie within half the smallest height of the (image) cell", "no ties at the decisive distances"],
}

BIG = [dict(lat="bcc", rep=[13, 13, 13], disp=.05), dict(lat="bcc", rep=[13, 13, 13], disp=.05, cell="tri2"),
       dict(lat="fcc", rep=[40, 5, 5], disp=.03, cell="triz")]


# a cluster and atoms far from it, which have many neighbors
DOTS = [(6, 0.5, 0, 20.0, 12.0, "ortho"), (6, 0.6, 1, 22.0, 12.0, "tri"), (7, 0.5, 2, 24.0, 14.0, "ortho"), (9, 0.4, 3, 24.0, 16.0, "tri2")]


def dots(k, a, seed, L, t, cell):
    """k^3 atoms in the middle of a box of length L, and 1 + seed atoms around them"""
    i = np.array([(x, y, z) for x in range(k) for y in range(k) for z in range(k)])
    p = L / 2 + a * (i - (k - 1) / 2) + 0.1 * a * (space.hashed(len(i), 3, seed) - 0.5)
    r = L / 2 * 0.75
    far = L / 2 + r * np.array([(1, .1, .05), (-.1, -.9, .2), (.5, .6, -.7), (-.6, .3, .75)])[:1 + seed]
    p = np.concatenate([far[:1], p, far[1:]])
    box = L * np.eye(3)
    if cell == "tri":
        box[1][0] = 0.3 * L
    elif cell == "tri2":
        box[2][:2] = 0.2 * L, -0.15 * L
        box = box @ space._rot(.9, -.4, 1.7)
        p = p @ space._rot(.9, -.4, 1.7)
    return space.Struct(box, p, np.ones(len(p), int))


def cases(tier):
    for d in DOTS:
        yield {"d": d, "t": [d[4]]}
    seeds = [0] if tier == "quick" else [0, 1, 2, 3]
    thr = [2, 1.2, 3] if tier == "quick" else [2, 1.0, 1.2, 1.5, 2.5, 3.5]
    for sd in seeds:
        for spec in BIG:
            yield {"s": dict(spec, seed=sd), "t": thr[:1] if tier == "quick" else thr[:3]}
        for disp in (0.05, 0.12):
            for spec in space.regimes(disp=disp):
                yield {"s": dict(spec, seed=sd + spec.get("seed", 0)), "t": thr}


def off_by_one(s, p):
    """The recurrence as coded: the fourth closest atom is passed over."""
    out, tie = [], False
    for x in p:
        d = x[2]
        idx = [0, 1, 2]
        summ = d[:3].sum()
        m = 3
        dcut = summ / (m - 2)
        while m + 1 < len(d) and dcut >= d[m]:
            tie = tie or abs(dcut - d[m]) < 1e-7
            m += 1
            idx.append(m)
            summ += d[m]
            dcut = summ / (m - 2)
        out.append((x[0][idx], x[1][idx], d[idx]))
        tie = tie or abs(dcut - d[m]) < 1e-7
    return out, tie


def matches_off_by_one(got, bug, p):
    """Same distances as the recurrence above, all of them images at their true
    place (which of several equally distant atoms is passed over is arbitrary)."""
    for g, b, x in zip(got, bug, p):
        if len(g[0]) != len(b[0]) or not np.allclose(np.sort(g[2]), np.sort(b[2]), atol=1e-7):
            return False
        have = {(int(j),) + tuple(np.round(v, 5) + 0.0) for j, v in zip(x[0], x[1])}
        mine = {(int(j),) + tuple(np.round(v, 5) + 0.0) for j, v in zip(g[0], g[1])}
        if len(mine) != len(g[0]) or not mine <= have:
            return False
    return True


def run(case, ctx):
    many = 160 if "d" in case else 40
    s = dots(*case["d"]) if "d" in case else space.make(case["s"])
    name = str(case["d"]) if "d" in case else space.name(case["s"])
    want, rc, tie = ref.sann(s, k=many)
    if "d" in case:
        ctx.check(max(len(x[0]) for x in want) > 25, "no atom has many neighbors")
    if tie:
        ctx.count("skipped_tie")
        return
    p = ref.nearest(s, many)
    bug, btie = off_by_one(s, p)
    sy = core.new_system(s)
    ridx = core.real_index(sy, s)
    far = max(x[2].max() for x in want)
    for t in case["t"]:
        ctx.step()
        ctx.op()
        try:
            sy.find_neighbors(method="cutoff", cutoff="sann", threshold=t)
        except RuntimeError:
            ctx.fail("sann search with threshold %s did not converge" % t)
        if max(far, max(x[2].max() for x in bug)) > 0.99 * s.maxcut():
            ctx.check("d" not in case, "the case is too large")
            ctx.count("out_of_domain")
            continue
        got = core.neighbor_lists(sy, s, ridx)
        ctx.visit(name, t)
        try:
            core.same_neighbors(ctx, got, want, "sann")
            ctx.count("correct")
        except core.Violation as e:
            if btie:
                ctx.count("skipped_tie")
                continue
            if not matches_off_by_one(got, bug, p):
                raise e
            ctx.known("sann-fourth-neighbor", "threshold %s %s: %s" % (t, name, str(e)[:150]))
            ctx.count("known")
