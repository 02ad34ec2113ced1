"""C06: Steinhardt parameters, plain and averaged, with and without a condition."""
import numpy as np

import core
import ref
import space

INFO = {
    "rule": "a case is one structure and one history of neighbor searches and order parameter calculations; after every calculation q_l (and averaged q_l) of every atom are compared with the definition over the current neighbors and weights, and all components q_lm with an independent implementation of spherical harmonics",
    "bounds": {"quick": "all regimes x 3 histories x every l from 2 to 12, and one history on 3 structures of more than 4000 atoms; two with up to 230 neighbors",
               "thorough": "all regimes x 3 displacement seeds x 8 histories x every l from 2 to 12, and one history on 3 structures of more than 4000 atoms; two with up to 230 neighbors"},
    "assumptions": ["every atom has at least one neighbor (that fulfils the condition)", "condition and Voronoi weights are not combined"],
}
ALL = list(range(2, 13))
# steps: ["find", search], ["q", ls, averaged, only_averaged, condition], ["clear", ls]
HIST = [
    [["find", ["c", 1.35]], ["q", ALL, True, False, None], ["find", ["a", 6, 1.3]], ["q", [6, 4], False, False, None], ["q", [4, 6], False, True, None], ["q", 8, True, False, None]],
    [["find", ["v", 1]], ["q", ALL, True, False, None], ["find", ["n", 8]], ["q", [12, 2, 7], True, False, None], ["find", ["v", 2]], ["q", [3, 6], True, False, None]],
    [["find", ["c", 1.7]], ["q", [4, 6, 9], True, False, "attr"], ["q", [6, 5], False, False, None], ["q", [4, 8], True, False, "label"], ["clear", [6, 11]], ["q", [6], True, False, "func"], ["find", ["n", 10]], ["q", [6, 10], True, False, None]],
]
HIST_T = HIST + [
    [["find", ["s"]], ["q", ALL, True, False, None], ["q", ALL, True, False, None]],
    [["find", ["n", 14]], ["q", ALL, True, False, "label"], ["q", ALL, True, False, "custom"], ["clear", ALL], ["q", ALL, False, True, None]],
    [["find", ["a", 12, 1.4]], ["q", [2, 3, 4], False, False, None], ["q", [2, 3, 4], False, True, "attr"], ["find", ["v", 3]], ["q", ALL, True, False, None], ["find", ["a", 12, 1.4]], ["q", ALL, True, False, None]],
    [["find", ["c", 2.1]], ["q", ALL, True, False, "func"], ["q", ALL, True, False, "attr"], ["find", ["c", 1.4]], ["q", ALL, True, False, None]],
    [["find", ["v", 0]], ["q", ALL, True, False, None], ["find", ["c", 1.2]], ["q", [5, 7, 11], True, False, None], ["find", ["n", 5]], ["q", 2, True, False, None]],
]
BIG = [["find", ["c", 1.35]], ["q", [3, 4, 6], True, False, None], ["q", [5, 12], False, False, "custom"], ["find", ["a", 8, 1.3]], ["q", [7, 2, 6], True, False, None]]


def cases(tier):
    for sd in ([0] if tier == "quick" else [0, 1, 2]):
        for spec in space.regimes(disp=0.06, types="three"):
            spec = dict(spec, seed=sd + spec.get("seed", 0))
            for h in (HIST if tier == "quick" else HIST_T):
                yield {"s": spec, "h": h}
    for lat, rep in (("bcc", [2, 2, 2]), ("fcc", [4, 4, 4]), ("hcp", [4, 4, 4]), ("dia", [3, 3, 3])):
        for h in HIST[:2]:
            yield {"s": dict(lat=lat, rep=rep, types="three"), "h": h}
    # more than 4000 atoms: neighbors are found with cells
    for k, spec in enumerate((dict(lat="bcc", rep=[13, 13, 12]), dict(lat="fcc", rep=[10, 10, 11], cell="tri2"), dict(lat="hcp", rep=[11, 10, 10], off=2))):
        yield {"s": dict(spec, disp=0.06, types="three"), "h": BIG}
    # more than 120 and 200 neighbors
    for spec, c in ((dict(lat="bcc", rep=[7, 7, 7]), 3.1), (dict(lat="fcc", rep=[6, 6, 6]), 3.8)):
        yield {"s": dict(spec, disp=0.06, types="three"), "h": [["find", ["c", c]]] + [x for x in BIG if x[0] == "q"][:2]}


def run(case, ctx):
    s = space.make(case["s"])
    sy = core.new_system(s)
    ridx = core.real_index(sy, s)
    nb = None
    cond = np.zeros(s.n, int)
    qb, have = {}, {}
    for st in case["h"]:
        ctx.step()
        if st[0] == "find":
            core.search(sy, s, st[1], ctx)
            if st[1][0] == "n" and ref.number_tie(s, st[1][1]) or st[1][0] == "s" and ref.sann(s)[2]:
                nb = None          # the choice among equally close atoms is free
                ctx.count("tie")
                continue
            nb = core.mapped(sy, s, ridx)
            cond = np.zeros(s.n, int)
            qb, have = {}, {}
            weighted = st[1][0] == "v"
            if st[1][0] == "v":
                for i, x in enumerate(nb):
                    ctx.close(x[3].sum(), 1.0 if st[1][1] else x[3].sum(), "weights of atom %d" % i)
            continue
        if nb is None or not core.in_domain(s, nb):
            ctx.count("out_of_domain")
            continue
        ls = st[1]
        ll = [ls] if isinstance(ls, int) else ls
        if st[0] == "clear":
            sy.calculate_q(ls, clear_condition=True, averaged=True)
            cond = np.zeros(s.n, int)
            av, only = True, False
        else:
            _, _, av, only, c = st
            kw = {}
            if c is not None:
                newc = np.array([1 if (i * 7 + s.types[i]) % 3 == 0 else 0 for i in range(s.n)])
                use = newc if c != "attr" else cond
                if c == "custom" or c == "func":
                    use = newc
                # needs a neighbor which fulfils it too
                if c == "attr":
                    use = (s.types == 1).astype(int)
                if c == "label":
                    use = (np.arange(s.n) * 7 + s.types) % 3
                if not all((use[x[0]] == use[i]).any() for i, x in enumerate(nb)):
                    ctx.count("skipped_isolated_condition")
                    continue
                cond = use
                if c == "func":
                    pos = {tuple(np.round(p, 9)): int(use[i]) for i, p in enumerate(s.pos)}
                    kw["condition"] = lambda a: bool(pos[tuple(np.round(a.pos, 9))])
                elif c == "label":     # several values, set by the user
                    at = sy.atoms
                    for i, a in enumerate(at):
                        a.condition = int(use[i])
                        sy.set_atom(a)
                elif c == "attr":
                    at = sy.atoms
                    for i, a in enumerate(at):
                        a.solid = int(use[i])
                        sy.set_atom(a)
                    kw["condition"] = "solid"
                else:
                    at = sy.atoms
                    for i, a in enumerate(at):
                        a.custom = {"flag": int(use[i])}
                        sy.set_atom(a)
                    kw["condition"] = "flag"
            sy.calculate_q(ls, averaged=av, only_averaged=only, **kw)
        ctx.op()
        flt = [cond[x[0]] == cond[i] for i, x in enumerate(nb)]
        sub = [(x[0][m], x[1][m], x[2][m]) for x, m in zip(nb, flt)]
        w = [x[3][m] for x, m in zip(nb, flt)]
        at = sy.atoms
        if not only:
            for l in ll:
                have[l] = ref.qlm(l, sub, w)
        for l in ll:
            if l not in have:
                continue
            Q = have[l]
            got = np.array(sy.get_qvals(l))
            ctx.close(got, ref.qnorm(l, Q), "q%d after %s" % (l, st), rtol=1e-6, atol=2e-7)
            ctx.close([a.get_q(l) for a in at], got, "get_q(%d)" % l, rtol=0, atol=0)
            ctx.close([a.allq[l - 2] for a in at], got, "allq of l=%d" % l, rtol=0, atol=0)
            q = np.array([a.get_qlm(l) for a in at])
            ctx.close(q.real, Q.real, "real part of q_lm, l=%d" % l, rtol=1e-6, atol=3e-7)
            ctx.close(q.imag, Q.imag, "imaginary part of q_lm, l=%d" % l, rtol=1e-6, atol=3e-7)
            if av or only:
                # members of the average: same condition now; components: as calculated last
                A = ref.group_mean(sub, Q)
                got = np.array(sy.get_qvals(l, averaged=True))
                ctx.close(got, ref.qnorm(l, A), "averaged q%d after %s" % (l, st), rtol=1e-6, atol=2e-7)
                ctx.close([a.get_q(l, averaged=True) for a in at], got, "get_q averaged", rtol=0, atol=0)
                ctx.close([a.allaq[l - 2] for a in at], got, "allaq", rtol=0, atol=0)
                q = np.array([a.get_qlm(l, averaged=True) for a in at])
                ctx.close(q.real, A.real, "real part of averaged q_lm", rtol=1e-6, atol=3e-7)
                ctx.close(q.imag, A.imag, "imaginary part of averaged q_lm", rtol=1e-6, atol=3e-7)
        if len(ll) > 1:
            ctx.close(sy.get_qvals(ll), [sy.get_qvals(l) for l in ll], "list of q values", rtol=0, atol=0)
            ctx.close(sy.get_qvals(ll, averaged=True), [sy.get_qvals(l, averaged=True) for l in ll], "list of averaged q values", rtol=0, atol=0)
        ctx.visit(space.name(case["s"]), str(st), tuple(cond))
