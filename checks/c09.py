"""C09: clusters are the connected components of the atoms that fulfil a condition."""
import numpy as np

import core
import ref
import space

INFO = {
    "rule": "a case is one structure, one neighbor search and a range of subsets of its atoms; every subset is made the condition in turn on the same system (as an atom attribute, a custom value or a function), with different cluster cutoffs (given, those of the search, or from the mean distance to the neighbors), and ids, sizes and members of the largest cluster are compared with the connected components of the neighbor graph",
    "bounds": {"quick": "all subsets of 1 to 9 atoms in 8 small periodic structures x 3-4 neighbor searches, all subsets of a 9 atom chain, clusters of 5000 atoms on a small stack, and 14 subset patterns of the other regimes; two structures of more than 4000 atoms, two with up to 230 neighbors",
               "thorough": "all subsets of up to 12 atoms in 12 small periodic structures x 6 neighbor searches, 40 subset patterns of all regimes x 3 seeds; two structures of more than 4000 atoms, two with up to 230 neighbors"},
    "assumptions": ["the largest cluster is compared by size; where several clusters are largest any one of them may be marked",
                    "Voronoi and sann neighbors are clustered with an explicit cutoff or with cutoffs set by set_atom_cutoff"],
}
SMALL = [
    dict(lat="tri3", rep=[2, 1, 1], disp=.05), dict(lat="dim", rep=[2, 2, 1], disp=.06, cell="tri"), dict(lat="sc", rep=[7, 1, 1], disp=.03),
    dict(lat="sc", rep=[3, 2, 1], disp=.06, off=4), dict(lat="dia", rep=[1, 1, 1], disp=.04), dict(lat="bcc", rep=[2, 1, 2], disp=.05, cell="left"), dict(lat="rand", n=9, seed=1),
    dict(lat="dim", rep=[1, 1, 1], disp=.05),
]
SMALL_T = SMALL + [dict(lat="sc", rep=[11, 1, 1], disp=.03), dict(lat="rand", n=12, seed=2), dict(lat="fcc", rep=[3, 1, 1], disp=.04), dict(lat="rand", n=11, seed=5, cell="tri2", off=4)]
FIND = [["c", 1.15], ["a", 3, 1.15], ["n", 3], ["v", 1]]
FIND_T = FIND + [["c", 1.6], ["n", 1], ["a", 2, 1.3], ["s"]]


def cases(tier):
    small = SMALL if tier == "quick" else SMALL_T
    for k, spec in enumerate(small):
        n = space.make(spec).n
        fs = FIND_T if tier != "quick" else FIND if n < 9 else FIND[k % 2::2]
        for f in fs:
            step = 1 << min(n, 7)
            for lo in range(0, 1 << n, step):
                yield {"s": spec, "f": f, "lo": lo, "hi": lo + step}
    if tier == "quick":
        for lo in range(0, 512, 128):
            yield {"s": dict(lat="sc", rep=[9, 1, 1], disp=.03), "f": ["c", 1.1], "lo": lo, "hi": lo + 128}
        # few neighbors
        for f in (["n", 1], ["n", 2], ["c", 0.7], ["c", 0.9]):
            yield {"s": dict(lat="rand", n=12, seed=2), "f": f, "pat": 14}
            yield {"s": dict(lat="rand", n=205, disp=0.05), "f": f, "pat": 9}
    for k, spec in enumerate((dict(lat="bcc", rep=[13, 13, 12], disp=.07), dict(lat="fcc", rep=[12, 8, 11], disp=.05, cell="tri2"))):
        yield {"s": spec, "f": FIND[k], "pat": 5}
    for spec, c in ((dict(lat="bcc", rep=[7, 7, 7]), 3.1), (dict(lat="fcc", rep=[6, 6, 6]), 3.8)):
        yield {"s": dict(spec, disp=.07), "f": ["c", c], "pat": 9}
    for k in range(3):
        yield {"long": k}
    npat = 14 if tier == "quick" else 40
    for sd in ([0] if tier == "quick" else [0, 1, 2]):
        for k, spec in enumerate(space.regimes(disp=.07)):
            for f in ([FIND[k % 4]] if tier == "quick" else FIND_T):
                yield {"s": dict(spec, seed=sd + spec.get("seed", 0)), "f": f, "pat": npat}


def patterns(n, s, k):
    i = np.arange(n)
    fr = (s.pos @ np.linalg.inv(s.box)) % 1.0
    if k == 0:
        return np.ones(n, bool)
    if k == 1:
        return np.zeros(n, bool)
    if k == 2:
        return i == n - 1
    if k == 3:                       # a slab across the boundary
        return (fr[:, 0] < .2) | (fr[:, 0] > .8)
    if k == 4:                       # two slabs
        return ((fr[:, 1] > .1) & (fr[:, 1] < .25)) | ((fr[:, 1] > .55) & (fr[:, 1] < .85))
    if k == 5:                       # a column across the corner
        return ((fr[:, 0] < .2) | (fr[:, 0] > .85)) & ((fr[:, 2] < .2) | (fr[:, 2] > .85))
    p = [.15, .3, .5, .2, .4, .7, .25, .6, .1, .35][k % 10]
    return space.hashed(n, 1, 50 + k)[:, 0] < p


def long(k, ctx):
    """clusters of thousands of atoms, found with little stack (the size of a cluster is not limited by it)"""
    import threading
    s = space.make(dict(lat="sc", rep=[[50, 10, 10], [5000, 1, 1], [25, 100, 2]][k], disp=.02, off=1))
    sy = core.new_system(s)
    core.search(sy, s, ["c", 1.2], ctx)
    nb = core.mapped(sy, s, None)
    fr = np.round((s.pos @ np.linalg.inv(s.box)) % 1.0, 6)
    for q, c in enumerate([np.ones(s.n, bool), np.arange(s.n) % 977 != 5, np.arange(s.n) < s.n // 2]):
        at = sy.atoms
        for i, a in enumerate(at):
            a.solid = int(c[i])
            sy.set_atom(a)
        del at
        got = []
        th = threading.Thread(target=lambda: got.append(sy.cluster_atoms("solid", largest=True)))
        old = threading.stack_size(192 * 1024)
        th.start()
        th.join()
        threading.stack_size(old)
        ctx.op()
        ctx.step()
        ctx.visit("long", k, q)
        lab, comp = ref.components(s.n, [(i, int(j)) for i, x in enumerate(nb) if c[i] for j in x[0] if c[j]])
        want = max(len(v) for v in comp.values() if c[v[0]])
        ctx.equal(got, [want], "size of the largest cluster of %d atoms, pattern %d" % (s.n, q))


def run(case, ctx):
    if "long" in case:
        return long(case["long"], ctx)
    s = space.make(case["s"])
    sy = core.new_system(s)
    ridx = core.real_index(sy, s)
    f = case["f"]
    if f[0] == "n" and ref.number_tie(s, f[1]) or f[0] == "s" and ref.sann(s)[2]:
        ctx.count("tie")
        return
    core.search(sy, s, f, ctx)
    nb = core.mapped(sy, s, ridx)
    if not all(x[2].max() < 0.999 * s.maxcut() for x in nb if len(x[0])):
        ctx.count("out_of_domain")
        return
    n = s.n
    alld = np.concatenate([x[2] for x in nb] + [[1.0]])
    mid = float(np.sort(alld)[len(alld) // 2]) + 1e-6
    flags = range(case["lo"], case["hi"]) if "lo" in case else range(case["pat"])
    key = {tuple(np.round(p, 8)): i for i, p in enumerate(s.pos)}
    todo = [(None, k) for k in flags]
    # the same with cutoffs of the atoms set from the mean distance to their neighbors
    for q, factor in enumerate((1.0, 0.85, 1.1)):
        todo += [(factor, k) for k in list(flags)[-1 - q::-7][:4]]
    own = None
    labels = (np.arange(n) * 5 + n) % 4         # conditions set by the user stay
    at = sy.atoms
    for i, a in enumerate(at):
        a.condition = int(labels[i])
        sy.set_atom(a)
    for factor, k in todo:
        if factor is not None and (own is None or own[0] != factor):
            sy.set_atom_cutoff(factor) if factor != 1.0 else sy.set_atom_cutoff()
            mean = np.array([x[2].mean() if len(x[0]) else 0.0 for x in nb])
            own = (factor, factor * mean)
            some = [i for i in range(n) if len(nb[i][0])]
            at = sy.atoms
            ctx.op()
            ctx.close([at[i].cutoff for i in some], own[1][some], "cutoffs from the mean distance, factor %s" % factor)
            if any(len(x[0]) and np.abs(x[2] - w).min() < 1e-7 for x, w in zip(nb, own[1])):
                # a distance which equals the mean
                own = (factor, None)
        if factor is not None and own[1] is None:
            ctx.count("tie")
            continue
        c = np.array([(k >> b) & 1 for b in range(n)], bool) if "lo" in case else patterns(n, s, k)
        how = k % 3
        if how == 0:
            cond = lambda a: bool(c[key[tuple(np.round(a.pos, 8))]])
        else:
            at = sy.atoms
            for i, a in enumerate(at):
                if how == 1:
                    a.solid = int(c[i])
                else:
                    a.custom = {"mine": int(c[i])}
                sy.set_atom(a)
            cond = "solid" if how == 1 else "mine"
        cuts = [0, mid] if f[0] not in ("v", "s") or factor is not None else [1e6, mid]
        for cut in (cuts[::-1] if k % 2 else cuts):
            largest = k % 4 != 3
            r = sy.cluster_atoms(cond, largest=largest, cutoff=cut)
            ctx.op()
            ctx.step()
            lim = np.full(n, cut if cut else 1e9) if cut or factor is None else own[1]
            edges = [(i, int(j)) for i, x in enumerate(nb) if c[i] for j, d in zip(x[0], x[2]) if c[j] and d <= lim[i]]
            lab, comp = ref.components(n, edges)
            comp = {k2: v for k2, v in comp.items() if c[v[0]]}
            at = sy.atoms
            ids = [a.cluster for a in at]
            what = "subset %s of %d atoms, %s, cluster cutoff %s%s" % (k, n, f, cut, "" if factor is None else ", own cutoffs with factor %s" % factor)
            seen = {}
            for i in range(n):
                if not c[i]:
                    ctx.check(ids[i] == -1, "atom %d does not fulfil the condition but has cluster id %s (%s)", i, ids[i], what)
                    continue
                ctx.check(ids[i] > 0, "atom %d fulfils the condition but has cluster id %s (%s)", i, ids[i], what)
                g = seen.setdefault(ids[i], lab[i])
                ctx.check(g == lab[i], "cluster %s contains unconnected atoms (%s)", ids[i], what)
            ctx.check(len(seen) == len(comp), "%d clusters, expected %d (%s)", len(seen), len(comp), what)
            big = max([len(v) for v in comp.values()], default=0)
            if largest:
                ctx.check(r == big, "largest cluster has %s atoms, expected %d (%s)", r, big, what)
            else:
                ctx.check(r is None, "a size was returned although not requested")
            ctx.check(sy.find_largestcluster() == big, "find_largestcluster: expected %d (%s)", big, what)
            mem = [i for i, a in enumerate(at) if a.largest_cluster]
            ok = any(sorted(v) == mem for v in comp.values() if len(v) == big) or (big == 0 and not mem)
            ctx.check(ok, "atoms marked as the largest cluster are %s (%s)", mem, what)
            ctx.equal([a.condition for a in at], labels.tolist(), "conditions of the atoms (%s)" % what)
            ctx.visit(space.name(case["s"]), str(f), k, cut, factor)
            ctx.count("clusters", len(comp))
