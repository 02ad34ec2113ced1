"""A menu of calculations: each runs on a System and reports what a user would read.

perform(sy, s, op) -> {name: value}, where per-atom values are listed in the order of the atoms
and do not depend on the order in which pyscal lists neighbors.
"""
import numpy as np

import core


def _sorted(x):
    return np.sort(np.asarray(x, dtype=float))


def a0(s):
    return (s.volume / s.n) ** (1 / 3.)


def perform(sy, s, op, vectors=True):
    k = op[0]
    out = {}
    a = a0(s)
    if k == "find":
        core.search(sy, s, op[1])
        at = sy.atoms
        out["distances"] = [_sorted(x.neighbor_distance) for x in at]
        out["weights"] = [_sorted(x.neighbor_weights) for x in at]
        out["coordination"] = [x.coordination for x in at]
        if op[1][0] == "v":
            out["volume"] = [x.volume for x in at]
            out["avg_volume"] = [x.avg_volume for x in at]
            out["faces"] = [sorted(x.face_vertices) for x in at]
        else:
            out["cutoff"] = [x.cutoff for x in at] if op[1][0] in ("c", "a", "s") else []
    elif k == "diafind":
        sy.find_diamond_neighbors()
        out["distances"] = [_sorted(x.neighbor_distance) for x in sy.atoms]
    elif k == "q":
        sy.calculate_q(op[1], averaged=op[2])
        out["q"] = np.array(sy.get_qvals(op[1])).T
        if op[2]:
            out["aq"] = np.array(sy.get_qvals(op[1], averaged=True)).T
    elif k == "qcond":
        sy.calculate_q(op[1], averaged=True, condition=op[2] if isinstance(op[2], str) else (lambda at: at.type == op[2]))
        out["q"] = np.array(sy.get_qvals(op[1])).T
        out["aq"] = np.array(sy.get_qvals(op[1], averaged=True)).T
        sy.calculate_q(op[1], averaged=True, clear_condition=True)
    elif k == "disorder":
        sy.calculate_disorder(averaged=True, q=op[1])
        out["disorder"] = [x.disorder for x in sy.atoms]
        out["avg_disorder"] = [x.avg_disorder for x in sy.atoms]
    elif k == "solids":
        bonds, th, av, q, right, cluster = op[1]
        r = sy.find_solids(bonds=bonds, threshold=th, avgthreshold=av, q=q, right=right, cluster=cluster, cutoff=op[2] * a if len(op) > 2 else 0)
        at = sy.atoms
        out["solid"] = [bool(x.solid) for x in at]
        out["avg_sij"] = [x.avg_sij for x in at]
        out["sij"] = [_sorted(x.sij) for x in at]
        out["bonds"] = [x.bonds for x in at]
        out["*largest"] = r if cluster else None
    elif k == "cluster":
        t = op[1]
        out["*largest"] = sy.cluster_atoms(lambda x: x.type == t, largest=True, cutoff=op[2] * a)
        at = sy.atoms
        out["inlargest"] = [bool(x.largest_cluster) and x.type == t for x in at]
        groups = {}
        for i, x in enumerate(at):
            if x.type == t:
                groups.setdefault(x.cluster, []).append(i)
        out["clustersize"] = [len(groups[x.cluster]) if x.type == t else 0 for x in at]
    elif k == "cna":
        r = sy.calculate_cna(lattice_constant=None if op[1] is None else op[1] * a)
        out["structure"] = [x.structure for x in sy.atoms]
        out["*counts"] = [r[x] for x in sorted(r)]
    elif k == "diamond":
        r = sy.identify_diamond()
        out["structure"] = [x.structure for x in sy.atoms]
        out["*counts"] = [r[x] for x in sorted(r)]
    elif k == "csm":
        out["csm"] = list(sy.calculate_centrosymmetry(nmax=op[1]))
        out["centrosymmetry"] = [x.centrosymmetry for x in sy.atoms]
    elif k == "entropy":
        loc, avg, ra = op[1]
        kw = dict(switching_function=True, ra=ra * a) if ra else {}
        sy.calculate_entropy(1.4 * a, sigma=0.1 * a, rstart=0.02 * a, h=0.00437 * a, local=loc, averaged=avg, **kw)
        out["entropy"] = [x.entropy for x in sy.atoms]
        if avg:
            out["avg_entropy"] = [x.avg_entropy for x in sy.atoms]
    elif k == "angular":
        sy.calculate_angularcriteria()
        out["angular"] = [x.angular for x in sy.atoms]
    elif k == "chi":
        sy.calculate_chiparams()
        out["chi"] = [[int(v) for v in x.chiparams] for x in sy.atoms]
    elif k == "vorovector":
        sy.calculate_vorovector(edge_cutoff=op[1], area_cutoff=op[2])
        out["vorovector"] = [list(x.vorovector) for x in sy.atoms]
    elif k == "sro":
        out["*sro"] = sy.calculate_sro(reference_type=op[1], shells=op[2])
        out["sro"] = [list(x.sro) if x.type == op[1] else [] for x in sy.atoms]
    elif k == "pmsro":
        out["*sro"] = sy.calculate_pmsro(reference_type=op[1], compare_type=op[2], shells=op[3])
        out["sro"] = [list(x.sro) if x.type == op[1] else [] for x in sy.atoms]
    elif k == "rdf":
        g, r = sy.calculate_rdf(histobins=op[1], histomin=0, histomax=op[2] * a)
        out["*rdf"], out["*r"] = g, r
    elif k == "conc":
        c = sy.get_concentration()
        out["*conc"] = [c[x] for x in sorted(c)]
    elif k == "qvals":
        out["q"] = np.array(sy.get_qvals(op[1])).T
    else:
        raise ValueError(op)
    return out


def same(ctx, got, want, what, amap=None, rtol=1e-6, atol=1e-7, skip=()):
    """amap: atom i of got corresponds to atom amap[i] of want"""
    ctx.equal(sorted(got), sorted(want), what + ": results")
    for k in got:
        if k in skip:
            continue
        g, w = got[k], want[k]
        if g is None or w is None:
            ctx.check(g is None and w is None, "%s: %s: got %s, expected %s", what, k, g, w)
            continue
        if k.startswith("*"):
            ctx.close(g, w, "%s: %s" % (what, k[1:]), rtol, atol)
            continue
        if amap is not None and len(w):
            w = [w[i] for i in amap]
        ctx.check(len(g) == len(w), "%s: %s has %d entries, expected %d", what, k, len(g), len(w))
        if len(g) == 0:
            continue
        lens = [np.size(x) for x in g]
        if lens != [np.size(x) for x in w]:
            i = [np.size(x) for x in w]
            b = next(q for q in range(len(g)) if lens[q] != i[q])
            ctx.fail("%s: %s of atom %d: got %s, expected %s" % (what, k, b, str(g[b])[:200], str(w[b])[:200]))
        gf = np.concatenate([np.atleast_1d(np.asarray(x, dtype=float)).ravel() for x in g])
        wf = np.concatenate([np.atleast_1d(np.asarray(x, dtype=float)).ravel() for x in w])
        ctx.close(gf, wf, "%s: %s" % (what, k), rtol, atol)


def exact(ctx, got, want, what):
    same(ctx, got, want, what, rtol=1e-12, atol=1e-12)


# ------------------------------------------------------------ refused requests
def bad_requests(sy, s):
    """name -> (callable which must be refused, does it need neighbors, may it drop the neighbors)"""
    a = a0(s)
    n = sy.natoms
    T = max(s.types) + 3
    # name: (function, needs neighbors, the neighbors may be gone afterwards)
    B = {
        "method": (lambda: sy.find_neighbors(method="nearest", cutoff=a), 0, 1),
        "filter": (lambda: sy.find_neighbors(method="cutoff", cutoff=a, filter="species"), 0, 1),
        "cutoff none": (lambda: sy.find_neighbors(method="cutoff"), 0, 1),
        "cutoff name": (lambda: sy.find_neighbors(method="cutoff", cutoff="voronoi"), 0, 1),
        "threshold adaptive": (lambda: sy.find_neighbors(method="cutoff", cutoff="adaptive", threshold=0.9), 0, 1),
        "threshold zero cutoff": (lambda: sy.find_neighbors(method="cutoff", cutoff=0, threshold=0.5), 0, 1),
        "threshold sann": (lambda: sy.find_neighbors(method="cutoff", cutoff="sann", threshold=0.99), 0, 1),
        "threshold number": (lambda: sy.find_neighbors(method="number", nmax=8, threshold=0), 0, 1),
        "too many": (lambda: sy.find_neighbors(method="number", nmax=100000, threshold=1), 0, 1),
        "q 1": (lambda: sy.calculate_q(1), 0, 0),
        "q 13": (lambda: sy.calculate_q(13, averaged=True), 0, 0),
        "q list": (lambda: sy.calculate_q([4, 6, 0]), 0, 0),
        "q negative": (lambda: sy.calculate_q(-6), 0, 0),
        "q condition": (lambda: sy.calculate_q(6, condition="nothing like that"), 0, 0),
        "q condition value": (lambda: sy.calculate_q(6, condition=lambda at: at.pos), 0, 0),
        "qvals 1": (lambda: sy.get_qvals(1), 0, 0),
        "qvals list": (lambda: sy.get_qvals([6, 13], averaged=True), 0, 0),
        "solids q": (lambda: sy.find_solids(q=13), 1, 0),
        "solids q 1": (lambda: sy.find_solids(q=1), 1, 0),
        "solids q float": (lambda: sy.find_solids(q=6.0), 1, 0),
        "solids threshold": (lambda: sy.find_solids(threshold=1.01), 1, 0),
        "solids threshold negative": (lambda: sy.find_solids(threshold=-0.01), 1, 0),
        "solids threshold type": (lambda: sy.find_solids(threshold="0.5"), 1, 0),
        "solids average": (lambda: sy.find_solids(avgthreshold=1.5), 1, 0),
        "solids average negative": (lambda: sy.find_solids(avgthreshold=-1), 1, 0),
        "solids bonds": (lambda: sy.find_solids(bonds=1.2), 1, 0),
        "solids bonds negative": (lambda: sy.find_solids(bonds=-0.1), 1, 0),
        "solids bonds type": (lambda: sy.find_solids(bonds="7"), 1, 0),
        "cluster condition": (lambda: sy.cluster_atoms("nothing like that"), 0, 0),
        "cluster value": (lambda: sy.cluster_atoms(lambda at: 5), 0, 0),
        "cluster raises": (lambda: sy.cluster_atoms(lambda at: 1 / 0), 0, 0),
        "disorder 1": (lambda: sy.calculate_disorder(q=1), 0, 0),
        "disorder 13": (lambda: sy.calculate_disorder(q=13, averaged=True), 0, 0),
        "csm odd": (lambda: sy.calculate_centrosymmetry(nmax=11), 0, 0),
        "csm zero": (lambda: sy.calculate_centrosymmetry(nmax=0), 0, 0),
        "csm negative": (lambda: sy.calculate_centrosymmetry(nmax=-4), 0, 0),
        "sro type": (lambda: sy.calculate_sro(reference_type=3), 0, 0),
        "sro type 0": (lambda: sy.calculate_sro(reference_type=0), 0, 0),
        "pmsro type": (lambda: sy.calculate_pmsro(reference_type=int(T)), 0, 0),
        "pmsro compare": (lambda: sy.calculate_pmsro(reference_type=int(s.types[0]), compare_type=int(T)), 0, 0),
        "get atom": (lambda: sy.get_atom(sy.ntotal), 0, 0),
        "get atom -1": (lambda: sy.get_atom(-1), 0, 0),
        "get atom far": (lambda: sy.get_atom(10 ** 9), 0, 0),
        "set atom": (lambda: sy.set_atom(_loc(sy, n)), 0, 0),
        "set atom -1": (lambda: sy.set_atom(_loc(sy, -1)), 0, 0),
        "set atom far": (lambda: sy.set_atom(_loc(sy, 10 ** 8)), 0, 0),
        "read missing": (lambda: sy.read_inputfile("no such file"), 0, 0),
        "read format": (lambda: sy.read_inputfile(_text("x"), format="cif2"), 0, 0),
        "read empty": (lambda: sy.read_inputfile(_text("")), 0, 0),
        "read poscar empty": (lambda: sy.read_inputfile(_text(""), format="poscar"), 0, 0),
        "read noise": (lambda: sy.read_inputfile(_text("this is\nnot a\ndump file\nat all\n1 2 3\n4 5 6\n7 8 9\n1 2\nend\n")), 0, 0),
        "read no atoms": (lambda: sy.read_inputfile(_text("ITEM: TIMESTEP\n0\nITEM: NUMBER OF ATOMS\n0\nITEM: BOX BOUNDS pp pp pp\n0 7\n0 8\n0 9\nITEM: ATOMS id type x y z\n")), 0, 0),
        "read fewer atoms": (lambda: sy.read_inputfile(_text("ITEM: TIMESTEP\n0\nITEM: NUMBER OF ATOMS\n2\nITEM: BOX BOUNDS pp pp pp\n0 7\n0 8\n0 9\nITEM: ATOMS id type x y z\n1 1 0 0 0\n")), 0, 0),
        "read nan": (lambda: sy.read_inputfile(_text("ITEM: TIMESTEP\n0\nITEM: NUMBER OF ATOMS\n1\nITEM: BOX BOUNDS pp pp pp\n0 7\n0 8\n0 9\nITEM: ATOMS id type x y z\n1 1 0 nan 0\n")), 0, 0),
        "read no box": (lambda: sy.read_inputfile(_text("ITEM: TIMESTEP\n0\nITEM: NUMBER OF ATOMS\n1\nITEM: BOX BOUNDS pp pp pp\n0 7\n0 0\n0 9\nITEM: ATOMS id type x y z\n1 1 0 1 0\n")), 0, 0),
        "read not compressed": (lambda: sy.read_inputfile(_text("plain"), compressed=True), 0, 0),
        "write format": (lambda: sy.to_file("out.none", format="nosuchformat"), 0, 0),
        "write species": (lambda: sy.to_file("out.data", format="lammps-data", species=["Cu"] * (len(set(s.types)) + 1)), 0, 0),
        "write to a folder": (lambda: sy.to_file("/nonexistent/folder/x.dump"), 0, 0),
        "write customkeys": (lambda: sy.to_file("out.dump", customkeys=["nokey"]), 0, 0),
        "ase species": (lambda: sy.to_ase(species=["Cu"] * (len(set(s.types)) + 2)), 0, 0),
        "rdf bins": (lambda: sy.calculate_rdf(histobins=0), 0, 0),
        "rdf bins negative": (lambda: sy.calculate_rdf(histobins=-5), 0, 0),
        "rdf range": (lambda: sy.calculate_rdf(histomin=3 * a, histomax=a), 0, 0),
        "custom": (lambda: sy.get_custom(sy.get_atom(0), ["nokey"]), 0, 0),
        "box singular": (lambda: setattr(sy, "box", [[1.0, 1.0, 0], [2.0, 2.0, 0], [0, 0, 1.0]]), 0, 0),
        "box zero": (lambda: setattr(sy, "box", [[0.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]), 0, 0),
        "box nan": (lambda: setattr(sy, "box", [[1.0, 0, 0], [0, float("nan"), 0], [0, 0, 1.0]]), 0, 0),
        "box inf": (lambda: setattr(sy, "box", [[float("inf"), 0, 0], [0, 1.0, 0], [0, 0, 1.0]]), 0, 0),
        "set atom neighbors": (lambda: sy.set_atom(_with(sy, "neighbors", [0, sy.ntotal])), 0, 0),
        "set atom neighbors -1": (lambda: sy.set_atom(_with(sy, "neighbors", [-1])), 0, 0),
        "box short": (lambda: setattr(sy, "box", [[1.0, 0], [0, 1.0]]), 0, 0),
        "atoms none": (lambda: setattr(sy, "atoms", []), 0, 0),
        "atoms numbers": (lambda: setattr(sy, "atoms", [[0.0, 0.0, 0.0], [1.0, 1.0, 1.0]]), 0, 0),
        "atoms missing": (lambda: setattr(sy, "atoms", None), 0, 0),
    }
    return B


def bad_names():
    from types import SimpleNamespace as N
    return list(bad_requests(N(natoms=1), N(volume=1.0, n=1, types=[1])))


def _loc(sy, k):
    a = sy.get_atom(0)
    a.loc = k
    return a


def _with(sy, k, v):
    a = sy.get_atom(0)
    setattr(a, k, v)
    return a


def _text(t):
    open("verif_bad_input.txt", "w").write(t)
    return "verif_bad_input.txt"


# ------------------------------------------------------------ the menu of valid calculations
SEARCHES = [["find", m] for m in (["c", 1.35], ["c", 1.7], ["a", 7, 1.3], ["n", 9], ["n", 14], ["s"], ["v", 1], ["v", 2], ["c", 1.4, "type"], ["c", 1.4, "type_r"])]
SELFSEARCH = [["diafind"], ["cna", None], ["cna", 1.26], ["cna", 0.8], ["diamond"], ["csm", 8], ["csm", 12]]
PLAIN = [["q", [4, 6], False], ["q", [6], True], ["q", [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], True], ["qcond", [4, 6], 1], ["qcond", [5], 2], ["disorder", 6], ["disorder", 4],
         ["solids", [0.5, 0.45, 0.5, 6, True, True], 1.35], ["solids", [6, 0.3, 0.2, 4, True, False]], ["solids", [0.3, 0.5, 0.6, 8, False, True], 1.2],
         ["cluster", 1, 1.35], ["cluster", 2, 1.1], ["entropy", [False, True, None]], ["entropy", [True, True, 0.97]], ["angular"], ["chi"], ["vorovector", 0.05, 0.01],
         ["sro", 1, 2], ["pmsro", 2, 1, 1], ["pmsro", 1, 1, 2]]
NONEED = [["rdf", 60, 1.5], ["conc"]]


def applicable(op, nb):
    """is the calculation defined with the current neighbors (the operation which set them)?"""
    if op in PLAIN:
        if nb is None:
            return False
        if op[0] in ("solids", "sro", "pmsro") and nb[0] != "find":
            return False         # these insist on find_neighbors
        if op[0] == "vorovector":
            return nb[0] == "find" and nb[1][0] == "v"
        if op[0] == "entropy" and op[1][0]:
            return nb[0] == "find" and nb[1][0] in ("c", "a")
    return True


def outcome(sy, s, op):
    """('ok', results) or ('raise', exception class)"""
    try:
        return "ok", perform(sy, s, op)
    except Exception as e:
        return "raise", type(e).__name__


def snapshot(sy):
    at = sy.atoms
    return {"box": [[float(x) for x in v] for v in sy.box], "natoms": sy.natoms, "len": len(at), "ntotal": sy.ntotal,
            "pos": [[float(x) for x in a.pos] for a in at], "type": [a.type for a in at], "id": [a.id for a in at],
            "loc": [a.loc for a in at], "custom": [sorted((k, repr(v)) for k, v in a.custom.items()) for a in at]}


def same_snapshot(ctx, got, want, what):
    for k in want:
        if got[k] != want[k]:
            if isinstance(want[k], list) and len(want[k]) == len(got[k]):
                i = next(i for i in range(len(want[k])) if got[k][i] != want[k][i])
                ctx.fail("%s: %s of atom or vector %d is %s, was %s" % (what, k, i, got[k][i], want[k][i]))
            ctx.fail("%s: %s is %s, was %s" % (what, k, str(got[k])[:200], str(want[k])[:200]))
        ctx.comparisons += len(want["pos"])
