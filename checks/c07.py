"""C07: descriptors do not depend on the representation of the structure."""
import itertools

import numpy as np

import core
import desc
import ref
import space

INFO = {
    "rule": "a case is one structure and one word over the generators {translate, unwrap, permute, rotate, exchange axes, reverse a box vector, exchange box vectors, shear the box vectors by a lattice vector, double or triple the cell along a vector}; the representation reached by the word is given to a fresh system and every per-atom descriptor after each of the neighbor searches is compared with the original representation, atom by atom",
    "bounds": {"quick": "10 base structures x all words of length 1 (16) and 4 base structures x a fifteenth of the words of length 2 (rotating); 7 searches x all descriptors; 2048 atoms and their doubled cell in 3 representations",
               "thorough": "14 base structures x all words up to length 2, 4 of them x words of length 3 (every third)"},
    "assumptions": ["searches stay below half of the smallest height of every representation", "displaced structures: no ties", "averages over the system (rdf, sro) are compared too, cluster sizes not across supercells"],
}


def G():
    return ["t1", "t2", "w4", "w2", "p1", "p2", "r", "x", "n", "l", "s", "s2", "d0", "d1", "d2", "k3"]


def apply(s, amap, g):
    """-> structure in the new representation, atom i is (an image of) atom amap[i] of the original"""
    box, pos, types = s.box.copy(), s.pos.copy(), s.types.copy()
    n = len(pos)
    amap = np.array(amap)
    if g == "t1":
        pos = pos + np.array([.37, -.21, .55]) @ box
    elif g == "t2":            # translate, wrapped into the box
        f = (pos @ np.linalg.inv(box) + [.123, .456, .789]) % 1.0
        pos = f @ box
    elif g == "w4":
        i = np.arange(n)
        pos = pos + np.array([i % 3 - 1, (i // 3) % 4 - 2, (i * 5) % 6 - 3]).T @ box
    elif g == "w2":
        f = pos @ np.linalg.inv(box)
        pos = np.where(f[:, :1] > .6, pos - box[0], pos)
        pos = np.where(f[:, 1:2] < .4, pos + box[1], pos)
    elif g in ("p1", "p2"):
        p = np.argsort(space.hashed(n, 1, 7 if g == "p1" else 11)[:, 0])
        if g == "p2":
            p = np.arange(n)[::-1]
        pos, types, amap = pos[p], types[p], amap[p]
    elif g == "r":
        box, pos = box @ space._rot(.9, -.4, 1.7), pos @ space._rot(.9, -.4, 1.7)
    elif g == "x":             # cyclic exchange of the axes
        P = np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0]], dtype=float)
        box, pos = box @ P, pos @ P
    elif g == "n":
        box = box * np.array([1, -1, 1])[:, None]
    elif g == "l":
        box = box[[1, 2, 0]]
    elif g == "s":
        box = np.array([box[0], box[1] + box[0], box[2]])
    elif g == "s2":
        box = np.array([box[0], box[1], box[2] - box[1]])
    elif g in ("d0", "d1", "d2", "k3"):
        ax, m = {"d0": (0, 2), "d1": (1, 2), "d2": (2, 2), "k3": (1, 3)}[g]
        pos = np.concatenate([pos + k * box[ax] for k in range(m)])
        types = np.concatenate([types] * m)
        amap = np.concatenate([amap] * m)
        box = box.copy()
        box[ax] *= m
    return space.Struct(box, pos, types, s.spec), amap


BASE = [
    dict(lat="bcc", rep=[2, 2, 2], disp=0.06, types="alt"), dict(lat="fcc", rep=[2, 1, 2], disp=0.06, types="few", cell="tri"),
    dict(lat="tri3", rep=[1, 1, 1], disp=0.03, types="three"), dict(lat="bcc", rep=[5, 5, 5], disp=0.06, types="alt"),
    dict(lat="dia", rep=[1, 1, 1], disp=0.03, types="alt"), dict(lat="fcc", rep=[4, 4, 4], disp=0.06, types="alt", cell="tri2"),
    dict(lat="hcp", rep=[2, 1, 1], disp=0.05, types="alt", cell="rot"), dict(lat="rand", n=40, disp=0.1, types="alt"),
    dict(lat="bcc_p", rep=[2, 2, 2], disp=0.04, types="alt"), dict(lat="dim", rep=[1, 1, 1], disp=0.0, types="alt"),
    dict(lat="hdia", rep=[3, 3, 3], disp=0.03, types="alt"), dict(lat="fcc_p", rep=[3, 2, 2], disp=0.05, types="alt"),
    dict(lat="rand", n=210, disp=0.1, types="three"), dict(lat="bcc", rep=[3, 6, 6], disp=0.05, types="alt"),
]


# the replicated cell has more than 4000 atoms
BIG = dict(lat="fcc", rep=[8, 8, 8], disp=0.06, types="alt")
BIGW = (["d0"], ["d2", "r"], ["s", "d1", "w2"])


def cases(tier):
    g = G()
    for w in BIGW:
        yield {"s": BIG, "w": w, "big": 1}
    if tier == "quick":
        for b in BASE[:10]:
            for w in g:
                yield {"s": b, "w": [w]}
        k = 0
        for b in (BASE[2], BASE[0], BASE[1], BASE[4]):
            for w in itertools.product(g, g):
                k += 1
                if k % 15 == 0:
                    yield {"s": b, "w": list(w)}
        for w in g:
            yield {"s": BASE[13], "w": [w]}
        return
    for b in BASE:
        for w in g:
            yield {"s": b, "w": [w]}
        for w in itertools.product(g, g):
            yield {"s": b, "w": list(w)}
    k = 0
    for b in (BASE[2], BASE[0], BASE[1], BASE[4]):
        for w in itertools.product(g, g, g):
            k += 1
            if k % 3 == 0:
                yield {"s": b, "w": list(w)}


Q = ["q", [2, 3, 4, 6, 7, 8, 12], True]
AFTER = [Q, ["disorder", 6], ["solids", [0.5, 0.45, 0.5, 6, True, False]], ["angular"], ["chi"]]
PLAN = [
    (["c", 1.35], AFTER + [["entropy", [False, True, None]], ["sro", 1, 2], ["pmsro", 2, 1, 1], ["cluster", 1, 0]]),
    (["a", 7, 1.3], AFTER + [["entropy", [True, True, 0.97]], ["qcond", [4, 6], 1]]),
    (["n", 9], AFTER), (["s"], AFTER), (["v", 1], AFTER + [["vorovector", 0.05, 0.01]]), (["v", 2], [Q]),
    (["c", 1.3, "type"], [Q, ["chi"]]),
]
LAST = [["cna", None], ["cna", 1.26], ["diamond"], ["csm", 8], ["csm", 14], ["conc"], ["rdf", 40, 1.4]]


_cache = {}


def ties(s):
    """searches and calculations which depend on an arbitrary choice between equally distant atoms"""
    near = ref.nearest(s, 18)
    t = {k for k in range(2, 17) if any(x[2][k] - x[2][k - 1] < 1e-6 for x in near)}
    out = set()
    if 9 in t:
        out.add("n")
    if t & {3, 4} or ref.sann(s)[2]:
        out.add("s")
    if 12 in t or 14 in t:
        out.add("cna")
    if 4 in t:
        out |= {"diamond", "angular"}
    if t & {4, 5, 6}:
        out.add("s angular")
    # cosines at the edge of a bin (opposite neighbors are C14's)
    u = [x[1] / x[2][:, None] for x in ref.pairs(s, 1.75 * desc.a0(s))]
    c = np.concatenate([(v @ v.T)[np.triu_indices(len(v), 1)] for v in u])
    if np.abs(np.abs(c) - 1).min() < 1e-9:
        out.add("chi")
    if 8 in t:
        out.add("csm8")
    if 14 in t:
        out.add("csm14")
    return out


def evaluate(ctx, s, cut, tie):
    sy = core.new_system(s)
    out = []
    for m, after in PLAN:
        mm = list(m)
        if mm[0] in tie:
            continue
        if mm[0] == "c":
            mm[1] = min(mm[1], cut)
        r = desc.perform(sy, s, ["find", mm])
        ctx.op()
        out.append((str(mm), r))
        zero = any(c == 0 for c in r["coordination"])
        for op in after:
            if op[0] in tie or "%s %s" % (mm[0], op[0]) in tie:
                continue
            if zero and op[0] != "cluster":
                continue
            if op[0] in ("sro", "pmsro") and not {1, 2} <= set(s.types.tolist()):
                continue
            if op[0] == "sro" and len(set(s.types.tolist())) > 2:
                continue
            out.append(("%s %s" % (mm, op), desc.perform(sy, s, op)))
            ctx.op()
    for op in LAST:
        if op[0] in tie or "".join(map(str, op)) in tie:
            continue
        if op[0] == "rdf":
            op = [op[0], op[1], min(op[2], cut)]
        out.append((str(op), desc.perform(sy, s, op)))
        ctx.op()
    return out, sy.ntotal


def run(case, ctx):
    s = space.make(case["s"])
    t, amap = s, np.arange(s.n)
    for g in case["w"]:
        t, amap = apply(t, amap, g)
        ctx.step()
    if t.n > 700 and "big" not in case:
        ctx.count("too_large")
        return
    near = ref.nearest(s, 18)
    lim = min(s.maxcut(), t.maxcut()) * 0.97
    need = max(x[2][15] for x in near)
    if max(need, 1.3 * np.mean([x[2][:7].mean() for x in near])) > lim:
        ctx.count("out_of_domain")
        return
    cut = lim / desc.a0(s)
    tie = ties(s)
    key = (repr(case["s"]), round(min(cut, 1.4), 12))
    if key not in _cache:
        if len(_cache) > 40:
            _cache.clear()
        _cache[key] = evaluate(ctx, s, cut, tie)
    want, nw = _cache[key]
    got, ng = evaluate(ctx, t, cut, tie)
    mult = t.n // s.n
    for (name, w), (name2, g) in zip(want, got):
        ctx.equal(name2, name, "calculation")
        skip = set()
        if mult > 1:
            skip |= {"inlargest", "clustersize", "*largest"}
        if "*counts" in g:
            g, w = dict(g), dict(w)
            w["*counts"] = np.array(w["*counts"]) * mult
        if "*rdf" in g:            # normalised by N(N-1)/2 pairs of the cell
            g, w = dict(g), dict(w)
            g["*rdf"] = np.asarray(g["*rdf"]) * (ng - 1) / ng
            w["*rdf"] = np.asarray(w["*rdf"]) * (nw - 1) / nw
        if name == "['conc']":
            g, w = dict(g), dict(w)
            w["*conc"] = np.array(w["*conc"]) * mult      # numbers of atoms
        # faces and weights which are tiny may or may not be present
        skip |= {"faces"}
        if "'v'" in name and "weights" in g:
            g, w = trim(g), trim(w)
        tol = 1e-6
        if "entropy" in name:
            tol = 1e-5
        desc.same(ctx, g, w, "%s after %s" % (name, case["w"]), amap=amap, rtol=tol, atol=tol, skip=skip)
    ctx.visit(space.name(case["s"]), str(case["w"]))


def trim(r):
    r = dict(r)
    ws, ds, cs = [], [], []
    for w in r["weights"]:
        w = np.asarray(w)
        ws.append(w[w > 1e-7])
    r["weights"] = ws
    r.pop("distances")
    r.pop("coordination")
    return r
