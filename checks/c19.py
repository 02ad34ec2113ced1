"""C19: a system stores atoms like an indexed register."""
import itertools

import numpy as np

import core
import space

INFO = {
    "rule": "breadth first exploration of all sequences of register operations (set, set of an atom read earlier, add, assign longer, shorter and reversed lists, box changes, searches, refused accesses) up to the depth; a shadow list of atoms predicts every read (atoms, get_atom, iter_atoms, locations, numbers) after each operation, and after the last operation neighbors and clusters are compared with those of a new System holding the shadow atoms",
    "bounds": {"quick": "all sequences of 3 from 5 x 19 x 19 operations on a system of 2 atoms, all pairs on systems of 205 and 20 (tilted box) atoms, 2 x 19 pairs on one of 198 atoms", "thorough": "sequences of 3 on 5 systems, all pairs with 198 atoms, and sequences of 4 on the two smallest"},
    "assumptions": ["distances, vectors, angles and overlaps of neighbors follow from the neighbors and cannot be set separately"],
}
BASE = [dict(lat="bcc", rep=[1, 1, 1], disp=0.03, types="alt"), dict(lat="rand", n=198, disp=0.05, types="alt"),
        dict(lat="rand", n=205, disp=0.05, types="alt"), dict(lat="fcc", rep=[5, 1, 1], disp=0.03, types="alt", cell="tri"),
        dict(lat="hcp", rep=[1, 1, 1], disp=0.03, types="three"), dict(lat="tri3", rep=[1, 1, 1], disp=0.03, types="alt", cell="rot")]
OPS = ["move", "retype", "reid", "recustom", "results", "stale read", "stale set", "add one", "add three", "add none", "reverse", "shorten", "extend", "box", "tilt", "search", "new atom", "bad", "swap"]


def cases(tier):
    for b in range(4 if tier == "quick" else 6):
        if b == 1:       # thousands of images: slow
            for i in range(len(OPS)):
                if tier == "thorough" or OPS[i] in ("stale read", "add three"):
                    yield {"b": b, "ops": [i], "more": 1}
            continue
        for i in range(len(OPS)):
            if tier == "quick" and b > 0:
                yield {"b": b, "ops": [i], "more": 1}
                continue
            for j in range(len(OPS)):
                if tier == "thorough" or OPS[i] in ("move", "stale read", "extend", "box", "search"):
                    yield {"b": b, "ops": [i, j], "more": 1}
    yield {"attr": True}
    for n in (205, 12):
        yield {"ghosts": n}
    if tier == "thorough":
        for b in (0, 4):
            for i in range(len(OPS)):
                for j in range(len(OPS)):
                    yield {"b": b, "ops": [i, j], "more": 2}


class Shadow:
    def __init__(self, s):
        self.box = [[float(x) for x in v] for v in s.box]
        self.a = (s.volume / s.n) ** (1 / 3.)
        self.atoms = [dict(pos=[float(x) for x in s.pos[i]], id=i + 1, type=int(s.types[i]), custom={}, res=None) for i in range(s.n)]
        self.stale = None
        self.count = 0


def clone(a):
    b = dict(a)
    b["pos"] = list(a["pos"])
    b["custom"] = dict(a["custom"])
    return b


def build(atoms):
    from pyscal.core import Atom
    out = []
    for x in atoms:
        a = Atom(pos=x["pos"], id=x["id"], type=x["type"])
        if x["custom"]:
            a.custom = dict(x["custom"])
        if x["res"] is not None:
            put(a, x["res"])
        out.append(a)
    return out


def put(a, v):
    a.solid = bool(v % 2)
    a.structure = v
    a.volume = v + 0.5
    a.entropy = -v - 0.25
    a.sro = [v, v + 1.0]
    a.chiparams = [v] * 9
    a.set_q(6, v * 0.01)
    a.set_q([4, 12], [0.5, v * 0.02], averaged=True)
    a.energy = v * 2.0


def got(a):
    return [bool(a.solid), a.structure, a.volume, a.entropy, list(a.sro), list(a.chiparams), a.get_q(6), a.get_q([4, 12], averaged=True), a.energy]


def wanted(v):
    return [bool(v % 2), v, v + 0.5, -v - 0.25, [v, v + 1.0], [v] * 9, v * 0.01, [0.5, v * 0.02], v * 2.0]


def apply(ctx, op, sy, m):
    """one operation on the system and on the shadow"""
    ctx.op()
    ctx.step()
    m.count += 1
    c, n, at = m.count, len(m.atoms), m.atoms
    i = (7 * c + 1) % n
    if op == "move":
        for j in (i, n - 1):
            a = sy.get_atom(j)
            p = [x + d * m.a for x, d in zip(at[j]["pos"], (0.11 * c, -0.07, 0.05 * c))]
            a.pos = p
            sy.set_atom(a)
            at[j]["pos"] = p
    elif op == "retype":
        a = sy.get_atom(i)
        a.type = 5 + c
        sy.set_atom(a)
        at[i]["type"] = 5 + c
    elif op == "reid":
        a = sy.get_atom(n - 1)
        a.id = 900 + c
        sy.set_atom(a)
        at[n - 1]["id"] = 900 + c
    elif op == "recustom":
        a = sy.get_atom(0)
        a.custom = {"k": c, "name": "n%d" % c}
        sy.set_atom(a)
        at[0]["custom"] = {"k": c, "name": "n%d" % c}
    elif op == "results":
        a = sy.get_atom(i)
        put(a, c + 2)
        sy.set_atom(a)
        at[i]["res"] = c + 2
    elif op == "stale read":
        m.stale = (sy.get_atom(i), i, clone(at[i]))
        a = sy.get_atom((i + 1) % n)      # changed, but never stored
        a.pos = [0.0, 0.0, 0.0]
        a.type = 17
    elif op == "stale set":
        if m.stale is not None:
            a, j, x = m.stale
            if j < n:
                sy.set_atom(a)
                at[j] = clone(x)
            else:
                ctx.raises(lambda: sy.set_atom(a), IndexError, "an atom whose location is gone was stored")
    elif op in ("add one", "add three", "add none"):
        k = {"add one": 1, "add three": 3, "add none": 0}[op]
        new = []
        box = np.array(m.box)
        for q in range(k):
            new.append(dict(pos=[float(x) for x in np.dot([0.21 + 0.13 * c, 0.37 + 0.2 * q, 0.61 - 0.1 * q], box)], id=500 + 10 * c + q, type=1 + q % 2, custom={"new": q}, res=None))
        sy.add_atoms(build(new))
        at.extend(new)
    elif op == "reverse":
        sy.atoms = sy.atoms[::-1]
        at.reverse()
    elif op == "shorten":
        if n > 3:
            keep = sy.atoms[: n - 3]
            sy.atoms = keep
            del at[n - 3:]
    elif op == "extend":
        box = np.array(m.box)
        new = [dict(pos=[float(x) for x in np.dot([0.9 - 0.1 * q, 0.15 + 0.1 * c, 0.05 + 0.3 * q], box)], id=700 + 10 * c + q, type=2, custom={}, res=None) for q in range(2)]
        sy.atoms = sy.atoms + build(new)
        at.extend(new)
    elif op == "box":
        m.box = [[x * 1.13 for x in v] for v in m.box]
        sy.box = [list(v) for v in m.box]
    elif op == "tilt":
        b = [list(v) for v in m.box]
        b[1] = [y + 0.2 * x for x, y in zip(b[0], b[1])]
        m.box = b
        sy.box = [list(v) for v in b]
    elif op == "search":
        sy.find_neighbors(method="cutoff", cutoff=1.3 * m.a)
    elif op == "new atom":
        x = dict(pos=[0.3 * c * m.a, 0.1 * m.a, 0.2 * m.a], id=333, type=3, custom={"fresh": c}, res=None)
        a = build([x])[0]
        a.loc = n - 1
        sy.set_atom(a)
        at[n - 1] = x
    elif op == "swap":
        a, b = sy.get_atom(0), sy.get_atom(n - 1)
        a.loc, b.loc = n - 1, 0
        sy.set_atom(a)
        sy.set_atom(b)
        at[0], at[n - 1] = at[n - 1], at[0]
        if n == 1:
            pass
    elif op == "bad":
        for loc in (n, n + 1, -1, sy.ntotal, 10 ** 7):
            a = sy.get_atom(0)
            a.loc = loc
            ctx.raises(lambda: sy.set_atom(a), IndexError, "an atom with location %d of %d was stored" % (loc, n))
        for k in (-1, sy.ntotal, 10 ** 7):
            ctx.raises(lambda: sy.get_atom(k), IndexError, "atom %d of %d was returned" % (k, n))
    else:
        raise ValueError(op)


def verify(ctx, sy, m, what):
    n = len(m.atoms)
    ctx.equal([sy.natoms, [[float(x) for x in v] for v in sy.box]], [n, m.box], what + ": number of atoms and box")
    A = sy.atoms
    ctx.equal(len(A), n, what + ": length of the list of atoms")
    it = list(sy.iter_atoms())
    ctx.equal(len(it), n, what + ": length of the iteration")
    some = range(n) if n < 30 else sorted(set(list(range(0, n, 37)) + [0, n - 1, n - 2, n - 3]) | {(7 * c + 1) % n for c in range(5)})
    for i in range(n):
        x = m.atoms[i]
        for name, a in (("atoms", A[i]), ("iter_atoms", it[i])) + ((("get_atom", sy.get_atom(i)),) if i in some else ()):
            g = (list(a.pos), a.id, a.type, a.custom, a.loc)
            w = (x["pos"], x["id"], x["type"], x["custom"], i)
            ctx.comparisons += 5
            if g != w:
                ctx.fail("%s: %s[%d] is %s, expected %s" % (what, name, i, g, w))
            if x["res"] is not None:
                ctx.equal(got(a), wanted(x["res"]), "%s: stored results of %s[%d]" % (what, name, i))


def calc(sy, a):
    sy.find_neighbors(method="cutoff", cutoff=1.35 * a)
    n = sy.natoms
    at = sy.atoms
    nb = [sorted((j % n, round(d, 8)) for j, d in zip(x.neighbors, x.neighbor_distance)) for x in at]
    big = sy.cluster_atoms(lambda x: x.type == 1, largest=True)
    # several clusters may be the largest
    groups = {}
    for i, x in enumerate(sy.atoms):
        if x.type == 1:
            groups.setdefault(x.cluster, []).append(i)
    return nb, big, sorted(sorted(v) for v in groups.values())


def fresh(m):
    import pyscal.core as pc
    f = pc.System()
    f.box = [list(v) for v in m.box]
    f.atoms = build(m.atoms)
    return f


def ghosts(n, ctx):
    """atoms which the user marks as images: not among the atoms of the system, wherever in the list they are"""
    from pyscal.core import Atom
    s = space.make(dict(lat="rand", n=n, disp=0.05))
    for marks in itertools.product((0, 1), repeat=4):
        sy = core.new_system(s)
        want = [(tuple(a.pos), a.id) for a in sy.atoms]
        for part in ([0, 1], [2], [3]):
            new = [Atom(pos=np.dot([.21 + .1 * k, .4, .7 - .2 * k], s.box), id=5000 + k) for k in part]
            for k, a in zip(part, new):
                a.ghost = marks[k]
            if n < 200 and any(marks):
                # images of images are not defined
                continue
            sy.add_atoms(new)
            want += [(tuple(a.pos), a.id) for k, a in zip(part, new) if not marks[k]]
            ctx.op()
            ctx.step()
            ctx.visit(n, marks, part)
            what = "atoms %s added to %d, marked %s" % (part, s.n, marks)
            ctx.equal(sy.natoms, len(want), what + ": number of atoms")
            ctx.equal([(tuple(a.pos), a.id) for a in sy.atoms], want, what + ": atoms")
            ctx.equal([a.loc for a in sy.atoms], list(range(len(want))), what + ": locations")


def run(case, ctx):
    if "ghosts" in case:
        return ghosts(case["ghosts"], ctx)
    if case.get("attr"):
        return attributes(ctx)
    s = space.make(BASE[case["b"]])
    tails = [[k] for k in range(len(OPS))] if case["more"] == 1 else [[k, l] for k in range(len(OPS)) for l in range(len(OPS))]
    for t in tails:
        seq = [OPS[k] for k in case["ops"] + t]
        m = Shadow(s)
        sy = core.new_system(s)
        for k, op in enumerate(seq):
            apply(ctx, op, sy, m)
            # earlier states were compared at the first of the continuations
            if k >= len(case["ops"]) or t == tails[0]:
                verify(ctx, sy, m, "after %s" % seq[:k + 1])
            ctx.visit(case["b"], seq[:k + 1])
        g, w = calc(sy, m.a), calc(fresh(m), m.a)
        ctx.op()
        ctx.comparisons += len(g[0])
        if g != w:
            i = next((i for i in range(len(w[0])) if g[0][i] != w[0][i]), None)
            if i is not None:
                ctx.fail("after %s: neighbors of atom %d are %s, on a new system %s" % (seq, i, g[0][i], w[0][i]))
            ctx.fail("after %s: clusters are %s, on a new system %s" % (seq, g[1:], w[1:]))


def qs(ctx):
    """values of q are stored for each order on its own, other orders are refused"""
    from pyscal.core import Atom
    none = [list(Atom().allq), list(Atom().allaq)]
    for first, second in itertools.permutations([(q, av) for q in range(2, 13) for av in (False, True)], 2):
        a = Atom()
        a.set_q(first[0], 0.5, averaged=first[1])
        a.set_q([second[0]], [0.25], averaged=second[1])
        ctx.op()
        ctx.step()
        ctx.visit("q", first, second)
        want = {first: 0.5, second: 0.25}
        for av in (False, True):
            w = [want.get((q, av), none[av][q - 2]) for q in range(2, 13)]
            what = "order and averaging %s, then %s: averaged=%s" % (first, second, av)
            ctx.equal([a.get_q(q, averaged=av) for q in range(2, 13)], w, what)
            ctx.equal(list(a.get_q(list(range(12, 1, -1)), averaged=av)), w[::-1], what + ", as list")
            ctx.equal(list(a.allaq if av else a.allq), w, what + ", all")
        if not first[1]:
            ctx.equal(a.get_q(first[0]), 0.5, what + ", not averaged by default")
    for bad in (1, 13, 0, -1, -6, 100):
        for av in (False, True):
            a = Atom()
            a.set_q(list(range(2, 13)), [0.125] * 11, averaged=av)
            for what, fn in (("get_q(%d)", lambda: a.get_q(bad, averaged=av)), ("get_q([4, %d])", lambda: a.get_q([4, bad], averaged=av)),
                             ("set_q(%d)", lambda: a.set_q(bad, 0.5, averaged=av)), ("set_q([%d])", lambda: a.set_q([bad], [0.5], averaged=av))):
                ctx.raises(fn, ValueError, what % bad + ", averaged=%s" % av)
                ctx.op()
            ctx.equal(list(a.get_q(list(range(2, 13)), averaged=av)), [0.125] * 11, "values after refused orders")
            ctx.visit("bad q", bad, av)
    for n in (0, 1, 3):
        ctx.raises(lambda: Atom().set_q([4, 6], [0.5] * n), ValueError, "%d values for two orders" % n)


def attributes(ctx):
    """every attribute which can be set survives storing, in each way of storing"""
    from pyscal.core import Atom
    vals = dict(pos=[1.5, -2.5, 3.25], id=2 ** 31 - 1, condition=3, mask=True, type=12, custom={"a": 1, "b": "text", "c": [1, 2]}, neighbors=[3, 1, 2], cutoff=2.25,
                next_neighbors=[[1], [2, 3]], next_neighbor_distances=[[0.5], [0.25, 1.5]], avg_sij=0.625, disorder=1.25, avg_disorder=2.5, cluster=7, bonds=4, solid=True, surface=True,
                largest_cluster=True, structure=3, volume=11.5, avg_volume=12.5, vertex_numbers=[3, 4, 5], vertex_vectors=[1.0, 2.0], vertex_positions=[[1.0, 2.0, 3.0]],
                edge_lengths=[[1.0, 2.0], [3.0]], vorovector=[1, 2, 3, 4], angular=0.5, avg_angular=0.25, chiparams=[1, 2, 3, 4, 5, 6, 7, 8, 9], sro=[0.5, -0.5], centrosymmetry=0.125,
                entropy=-3.5, avg_entropy=-2.5, energy=-1.5, avg_energy=-0.5, allq=[0.01 * i for i in range(11)], allaq=[0.02 * i for i in range(11)])
    lists = {"neighbor_weights": [0.5, 0.25, 0.125], "face_vertices": [4, 5, 6], "face_perimeters": [1.5, 2.5, 3.5]}     # one value per neighbor
    names = list(vals) + list(lists)
    qs(ctx)

    def norm(v):
        return [norm(x) for x in v] if isinstance(v, (list, tuple, np.ndarray)) else v

    def compare(a, want, what, exclude=()):
        for k in names:
            if k not in exclude:
                g = norm(getattr(a, k))
                w = norm(want[k])
                ctx.equal(g, w, "%s: %s" % (what, k))
        ctx.equal([a.get_q(l) for l in range(2, 13)], norm(want["allq"]), what + ": get_q")
        ctx.equal(a.get_q(list(range(2, 13)), averaged=True), norm(want["allaq"]), what + ": averaged get_q")

    allv = dict(vals, **lists)
    # each attribute is a register: the value written last is read, shorter and longer lists included
    other = dict(pos=[0.0, 4.5, -1.0], id=-3, condition=0, mask=False, type=1, custom={}, neighbors=[[5, 6], [], [1, 2, 3, 4, 5, 6, 7], [9]], cutoff=0.0,
                 next_neighbors=[[[4]], [], [[1, 2], [3], [4, 5, 6]]], next_neighbor_distances=[[[0.1]], [], [[1.0], [2.0], [3.0]]], avg_sij=-0.5, disorder=0.0, avg_disorder=-1.0,
                 cluster=-1, bonds=0, solid=False, surface=False, largest_cluster=False, structure=0, volume=0.0, avg_volume=1.0, vertex_numbers=[[], [1], [9, 8, 7, 6, 5]],
                 vertex_vectors=[[], [0.5], [1.0, 2.0, 3.0, 4.0, 5.0]], vertex_positions=[[], [[0.0, 0.0, 0.0], [1.0, 1.0, 1.0]]], edge_lengths=[[], [[4.0]], [[1.0], [2.0], [3.0, 4.0]]],
                 vorovector=[[4, 3, 2, 1], [0, 0, 0, 0]], angular=-1.0, avg_angular=0.0, chiparams=[[9, 8, 7, 6, 5, 4, 3, 2, 1], [0] * 9], sro=[[0.25], [], [1.0, 2.0]], centrosymmetry=0.0,
                 entropy=0.0, avg_entropy=1.0, energy=0.0, avg_energy=3.0, allq=[[0.5] * 11, [0.1 * i for i in range(11)]], allaq=[[0.25] * 11, [0.3 * i for i in range(11)]],
                 neighbor_weights=[[0.1, 0.2, 0.3], [1.0, 1.0, 1.0]], face_vertices=[[3, 3, 3], [7, 8, 9]], face_perimeters=[[0.0, 0.5, 1.0]])
    several = set(k for k in other if isinstance(allv[k], list) and k != "pos")
    for k in names:
        menu = [allv[k]] + (other[k] if k in several else [other[k]])
        for u in menu:
            for v in menu:
                for w in menu:
                    a = Atom()
                    if k in lists:
                        a.neighbors = [3, 1, 2]
                    for z in (u, v, w):
                        setattr(a, k, z)
                        ctx.equal(norm(getattr(a, k)), norm(z), "%s set to %s, %s, %s" % (k, u, v, w))
                        if k == "neighbors":
                            ctx.equal([a.coordination, len(a.neighbor_weights)], [len(z), len(z)], "coordination after neighbors %s, %s, %s" % (u, v, w))
                    ctx.op(3)
                    ctx.step()
                    ctx.visit(k, repr((u, v, w)))
    for bi in (0, 2):
        s = space.make(BASE[bi])
        # every pair of attributes set in both orders on one atom keeps both
        for k1 in names:
            for k2 in names:
                if k1 == k2:
                    continue
                a = Atom()
                order = ["neighbors"] + [k1, k2] if (k1 in lists or k2 in lists) else [k1, k2]
                if order[0] == "neighbors" and "neighbors" in order[1:]:
                    order = ["neighbors"] + [k for k in order if k != "neighbors"]
                for k in order:
                    setattr(a, k, allv[k])
                for k in (k1, k2):
                    ctx.equal(norm(getattr(a, k)), norm(allv[k]), "attribute %s after setting %s" % (k, order))
                ctx.op(2)
                ctx.step()
                ctx.visit(bi, k1, k2)
        a = Atom()
        for k in names:
            setattr(a, k, allv[k])
        compare(a, allv, "atom")
        for how in ("set_atom", "atoms", "add_atoms", "set all"):
            sy = core.new_system(s)
            n = s.n
            if how == "set_atom":
                a.loc = 1
                sy.set_atom(a)
                k = 1
            elif how == "atoms":
                at = sy.atoms
                at[1] = a
                sy.atoms = at
                k = 1
            elif how == "add_atoms":
                sy.add_atoms([a])
                k = n
            else:
                sy.atoms = [a] * 5
                k = 3
            for name, b in (("get_atom", sy.get_atom(k)), ("atoms", sy.atoms[k]), ("iter", list(sy.iter_atoms())[k])):
                compare(b, allv, "%s then %s" % (how, name))
                ctx.equal(b.loc, k, "location")
            # the others are as before
            ref = core.new_system(s)
            for j in range(min(n, sy.natoms)):
                if j != k and how != "set all":
                    x, y = sy.get_atom(j), ref.get_atom(j)
                    for q in ("pos", "id", "type", "custom", "solid", "volume", "neighbors", "sro", "cluster"):
                        ctx.equal(norm(getattr(x, q)), norm(getattr(y, q)), "%s changed %s of atom %d" % (how, q, j))
