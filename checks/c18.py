"""C18: calculations do not alter the structure."""
import gzip
import json

import numpy as np

import core
import desc
import space

INFO = {
    "rule": "transitions are all searches, calculations, conversions (writing files, to_ase, images of atoms, cubic box) and refused requests; a case walks x,y1,x,y2,... over all pairs (x,y) on one System whose atoms carry custom values; after every transition box, number, order, positions (bitwise), types, ids, locations and custom values of the atoms are compared with those stored at first",
    "bounds": {"quick": "all ordered pairs of 105 transitions (every twelfth x on each of 6 structures), and 20 operations one after the other on two structures of more than 4000 atoms", "thorough": "all ordered pairs on 10 structures"},
    "assumptions": ["calculate_energy (needs LAMMPS) is not included", "embed_in_cubic_box, repeat with scale_box and assigning remap_atoms change the box or the atoms on purpose (C20)"],
}
BASE = [
    dict(lat="bcc", rep=[2, 2, 2], disp=0.05, types="alt", off=2), dict(lat="fcc", rep=[4, 4, 4], disp=0.05, types="alt", cell="tri", off=4),
    dict(lat="fcc", rep=[2, 1, 1], disp=0.05, types="alt", cell="rot", off=4), dict(lat="bcc", rep=[5, 5, 5], disp=0.05, types="alt", off=2),
    dict(lat="tri3", rep=[1, 1, 1], disp=0.02, types="alt", cell="tri2", off=2), dict(lat="rand", n=205, disp=0.1, types="alt", off=4),
    dict(lat="hcp", rep=[2, 2, 1], disp=0.05, types="three"), dict(lat="bcc_p", rep=[3, 2, 2], disp=0.05, types="alt"),
    dict(lat="dia", rep=[1, 1, 2], disp=0.02, types="gap"), dict(lat="sc", rep=[6, 6, 6], disp=0.05, types="alt", cell="left"),
]
OTHER = ["dump", "dump custom", "dump gz", "dump q", "poscar", "data", "ase", "remap copy", "remap images", "cubic", "distance", "pairdistances", "iter", "getatom", "get_custom", "repeat list",
         "set cutoff", "largest", "calculate_solidneighbors", "averages", "qvals", "atoms mutated", "box mutated"]


def ops():
    s = space.make(BASE[0])
    return (desc.SEARCHES + desc.SELFSEARCH + desc.PLAIN + desc.NONEED + [["other", o] for o in OTHER]
            + [["bad", b] for b in desc.bad_requests(core.new_system(s), s) if not b.startswith("set atom")])


def cases(tier):
    n = 10 ** 6
    N = len(desc.SEARCHES + desc.SELFSEARCH + desc.PLAIN + desc.NONEED) + len(OTHER) + sum(not b.startswith("set atom") for b in desc.bad_names())
    base = BASE[:6] if tier == "quick" else BASE
    for b in range(len(base)):
        for x in range(N):
            if tier == "quick" and x % 12 != b % 12:
                continue
            yield {"b": b, "x": x}
    yield {"big": 0}
    yield {"big": 1}


def other(name, sy, s):
    if name == "dump":
        sy.to_file("o.dump")
    elif name == "dump custom":
        sy.to_file("o.dump", customkeys=["mark", "volume"], timestep=7)
        sy.to_file("o.dump", customkeys=["ext"], customvals=[[float(i)] for i in range(sy.natoms)])
    elif name == "dump gz":
        sy.to_file("o2.dump", compressed=True)
    elif name == "dump q":
        sy.to_file("o.dump", customkeys=["q6", "aq4"])
    elif name == "poscar":
        sy.to_file("o.poscar", format="poscar", species=sp(s))
    elif name == "data":
        sy.to_file("o.data", format="lammps-data", species=sp(s))
    elif name == "ase":
        a = sy.to_ase(species=sp(s))
        a.positions += 0.3
        a.set_cell(a.cell * 2)
    elif name == "remap copy":
        r = sy.remap_atoms(remove_images=False, assign=False)
        r[0].pos = [9.0, 9.0, 9.0]
    elif name == "remap images":
        if s.n < 60:
            sy.remap_atoms(remove_images=True, assign=False)
    elif name == "cubic":
        try:
            if s.n < 40:
                sy.extract_cubic_box(repeat=(1, 1, 1))
        except ValueError:
            pass
    elif name == "distance":
        sy.get_distance(sy.get_atom(0), sy.get_atom(s.n - 1), vector=True)
    elif name == "pairdistances":
        sy.get_pairdistances()
    elif name == "iter":
        for a in sy.iter_atoms():
            a.pos = [0.0, 0.0, 0.0]      # a copy
            a.type = 9
    elif name == "getatom":
        for i in range(0, s.n, 3):
            a = sy.get_atom(i)
            a.pos = [1.0, 2.0, 3.0]
            a.id = 77
            a.custom = {"gone": 1}
    elif name == "get_custom":
        sy.get_custom(sy.get_atom(0), ["mark", "id"])
    elif name == "repeat list":
        r = sy.repeat((1, 0, 0), scale_box=False)
        r[-1].pos = [5.0, 5.0, 5.0]
    elif name == "set cutoff":
        sy.set_atom_cutoff(factor=1.1)
    elif name == "largest":
        sy.find_largestcluster()
    elif name == "calculate_solidneighbors":
        sy.calculate_solidneighbors()
    elif name == "averages":
        for a in sy.atoms:
            a.get_q(6), a.get_q([4, 6], averaged=True), a.get_qlm(6)
    elif name == "qvals":
        sy.get_qvals([4, 6], averaged=True)
    elif name == "atoms mutated":
        at = sy.atoms
        at[0].pos = [4.0, 4.0, 4.0]
        at[-1].type = 12
        at.pop()
    elif name == "box mutated":
        b = sy.box
        [list(v) for v in b]
    else:
        raise ValueError(name)


def sp(s):
    return ["Cu", "Al", "Ni", "Fe"][:len(set(s.types.tolist()))]


BIG = [dict(lat="bcc", rep=[13, 13, 13], disp=0.05, types="alt", off=3), dict(lat="sc", rep=[17, 16, 17], disp=0.05, types="alt", cell="tri", off=3)]
BIGOPS = [o for o in desc.SEARCHES + desc.SELFSEARCH if o != ["find", ["c", 1.7]]] + [["q", [4, 6], True], ["cluster", 1, 1.35], ["solids", [0.5, 0.45, 0.5, 6, True, True], 1.35], ["disorder", 6], ["conc"]]


def run(case, ctx):
    s = space.make(BIG[case["big"]] if "big" in case else BASE[case["b"]])
    sy = core.new_system(s)
    at = sy.atoms
    for i, a in enumerate(at):
        a.id = 1000 - i if i % 2 else i + 1
        a.custom = {"mark": i * 0.5, "name": "atom%d" % i}
    sy.atoms = at
    want = desc.snapshot(sy)
    ctx.equal(want["pos"], [[float(x) for x in p] for p in s.pos], "stored positions")
    ctx.equal(want["box"], [[float(x) for x in p] for p in s.box], "stored box")
    O = ops()
    x = O[case.get("x", 0) % len(O)]
    hist = []
    nb = [False]

    def do(op):
        hist.append(op)
        ctx.op()
        ctx.step()
        if op[0] == "other":
            try:
                other(op[1], sy, s)
            except AttributeError:
                raise
        elif op[0] == "bad":
            fn, need, drop = desc.bad_requests(sy, s)[op[1]]
            if need and not nb[0]:
                return
            if drop:
                nb[0] = False
            try:
                fn()
            except Exception:
                pass
        elif op[0] == "vorovector" and not (nb[0] == "v"):
            return
        else:
            r = desc.outcome(sy, s, op)
            if op[0] == "find" and r[0] == "ok":
                nb[0] = op[1][0] if op[1][0] == "v" else True
            elif op in desc.SELFSEARCH:
                nb[0] = False
        desc.same_snapshot(ctx, desc.snapshot(sy), want, "%s after %s" % (op, hist[-4:-1]))
        ctx.visit(case.get("b", "big"), repr(hist[-2:]))

    if "big" in case:       # searches with cell lists
        for y in BIGOPS:
            do(y)
        return
    do(["find", ["c", 1.35]])
    for y in O:
        do(x)
        do(y)
