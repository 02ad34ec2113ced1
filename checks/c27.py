"""C27: energies of atoms are those of the calculator, and their averages."""
import itertools
import os
import sys
import types as _types

import numpy as np

import core
import ref
import space

INFO = {
    "rule": "a case is one structure (regime, number of types, ids); calculate_energy runs against a stand-in of the lammps module which reads the data file that pyscal writes and evaluates a pair potential that differs for every pair of elements; energies come back in the order of the stand-in, which is not the order of the atoms; every choice of species, of earlier calls and of averaging is enumerated",
    "bounds": {"quick": "28 structures x 2 orders of species x 9 earlier calls x averaged or not", "thorough": "all regimes, 1 to 3 types; 2 structures of 13 types"},
    "assumptions": ["LAMMPS itself is replaced by a stand-in which evaluates the file and commands it is given"],
}
SP = ["Ni", "Al", "Zr", "Cu", "Fe", "Ti", "W", "Mo", "Pt", "Ag", "Au", "Pb", "C"]
ALT = ["Al", "Cu", "Ni", "Zr", "C", "Pb", "Ag", "Au", "Fe", "Pt", "W", "Mo", "Ti"]
RC = 3.1
BEFORE = ["nothing", "cutoff", "voronoi", "adaptive", "filter", "clusters", "few", "replaced", "reset"]


def strength(a, b):
    k = sorted([SP.index(a), SP.index(b)])
    return 1.0 + 0.37 * k[0] + 1.9 * k[1] + 0.11 * k[0] * k[1]


def energies(s, names):
    out = np.zeros(s.n)
    for i, (j, v, d) in enumerate(ref.pairs(s, RC)):
        out[i] = sum(strength(names[i], names[x]) * (1 - r / RC) ** 2 for x, r in zip(j, d))
    return out


class Lammps:
    """Just enough of the library: reads the data file, knows one pair style."""
    log = []

    def __init__(self, *args, **kw):
        self.style = self.elements = self.s = self.result = None
        self.mass = {}
        Lammps.log.append(self)

    def commands_string(self, text):
        self.commands_list(text.split("\n"))

    def commands_list(self, cmds):
        for c in cmds:
            self.command(c)

    def close(self):
        pass

    finalize = close

    def command(self, cmd):
        w = cmd.split()
        if not w or w[0] in ("echo", "log", "thermo", "atom_modify", "neighbor", "neigh_modify"):
            return
        if w[0] == "units":
            assert w[1] == "metal"
        elif w[0] == "atom_style":
            assert w[1] == "atomic"
        elif w[0] == "boundary":
            assert w[1:] == ["p", "p", "p"], "not periodic: %s" % cmd
        elif w[0] == "read_data":
            self.read(w[1])
        elif w[0] == "pair_style":
            self.style = w[1:]
        elif w[0] == "pair_coeff":
            assert w[1:3] == ["*", "*"] and self.style, cmd
            self.elements = w[4:]
        elif w[0] == "mass":
            self.mass[w[1]] = float(w[2])
        elif w[0] == "compute":
            assert w[2:4] == ["all", "pe/atom"], cmd
            self.compute = w[1]
        elif w[0] == "run":
            self.run()
        else:
            raise RuntimeError("unknown command " + cmd)

    def read(self, fn):
        self.file = os.path.abspath(fn)
        lo, hi, tilt = [0] * 3, [0] * 3, [0.0] * 3
        rows, sec = [], None
        for line in open(fn):
            w = line.split("#")[0].split()
            if not w:
                continue
            if w[0] in ("Atoms", "Masses", "Velocities"):
                sec = w[0]
            elif w[-1] in ("xhi", "yhi", "zhi"):
                k = "xyz".index(w[-1][0])
                lo[k], hi[k] = float(w[0]), float(w[1])
            elif w[-1] == "yz":
                tilt = [float(x) for x in w[:3]]
            elif w[-1] == "atoms":
                n = int(w[0])
            elif w[-1] == "types":
                self.ntypes = int(w[0])
            elif sec == "Atoms":
                rows.append([float(x) for x in w[:5]])
            elif sec == "Masses":
                self.mass[int(w[0])] = float(w[1])
        rows = np.array(rows)
        assert len(rows) == n
        L = np.array(hi) - lo
        box = np.array([[L[0], 0, 0], [tilt[0], L[1], 0], [tilt[1], tilt[2], L[2]]])
        self.s = space.Struct(box, rows[:, 2:5] - lo, rows[:, 1].astype(int))
        self.ids = rows[:, 0].astype(int)

    def run(self):
        assert self.mass, "Not all per-type masses are set"
        assert self.elements is not None, "no pair coefficients"
        assert "*" in self.mass or all(str(t + 1) in self.mass for t in range(self.ntypes)), "Not all per-type masses are set"
        assert len(self.elements) == self.ntypes, "Incorrect args for pair coefficients"
        names = [self.elements[t - 1] for t in self.s.types]
        e = energies(self.s, names)
        # atoms are in the order of the spatial sort
        order = np.argsort(space.hashed(self.s.n, 1, 5)[:, 0])
        self.eng, self.tag = e[order], self.ids[order]

    def get_natoms(self):
        return self.s.n

    def extract_compute(self, name, style, kind):
        assert (name, style, kind) == (self.compute, 1, 1)
        return list(self.eng) + [0.0] * 10

    def extract_atom(self, name, kind=None):
        assert name == "id"
        return [int(x) for x in self.tag] + [0] * 10


def structures(tier):
    out = []
    for k, spec in enumerate(space.regimes(disp=0.05, types="alt")):
        if tier == "thorough":
            out += [dict(spec, types=t) for t in ("one", "alt", "three")]
        elif k % 2 == 0 or spec.get("cell") == "left":
            out.append(dict(spec, types=("alt", "three", "one")[k // 2 % 3]))
    out += [dict(lat="bcc", rep=[3, 3, 3], disp=0.05, types="many", cell="tri"), dict(lat="fcc", rep=[4, 4, 4], disp=0.05, types="many")]
    return out


def cases(tier):
    for k, spec in enumerate(structures(tier)):
        spec["a"] = 2.2 if "dia" in spec["lat"] else 3.0
        yield {"spec": spec, "ids": k % 3}


def run(case, ctx):
    mod = _types.ModuleType("lammps")
    mod.lammps = Lammps
    mod.PyLammps = Lammps
    sys.modules["lammps"] = mod
    s = space.make(case["spec"])
    k = len(set(s.types.tolist()))
    if sorted(set(s.types.tolist())) != list(range(1, k + 1)):
        s.types = np.array([sorted(set(s.types.tolist())).index(t) + 1 for t in s.types])
    n0 = sorted(os.listdir("."))
    for sp, before, averaged in itertools.product((SP[:k], ALT[:k]), BEFORE, (False, True)):
        if sp is not SP and k == 1 and sp[0] == SP[0]:
            continue
        what = "%s with %s after %s%s" % (space.name(case["spec"]), sp, before, ", averaged" if averaged else "")
        sy = core.new_system(s)
        if case["ids"]:
            # ids as they come from a dump file: neither sorted nor complete
            at = sy.atoms
            for i, a in enumerate(at):
                a.id = 3 * s.n - 2 * i if case["ids"] == 1 else (7 * i + 3) % (9 * s.n + 1) + 1
            sy.atoms = at
        ids = [a.id for a in sy.atoms]
        if before == "cutoff":
            sy.find_neighbors(method="cutoff", cutoff=3.4)
        elif before == "few":
            # some atoms have no neighbors
            near = np.sort([d.min() for j, v, d in ref.pairs(s, 6.0) if len(d)] or [3.0])
            sy.find_neighbors(method="cutoff", cutoff=float(near[len(near) // 2]) + 1e-5)
        elif before == "voronoi":
            sy.find_neighbors(method="voronoi")
        elif before == "adaptive":
            sy.find_neighbors(method="cutoff", cutoff=0)
        elif before == "filter":
            sy.find_neighbors(method="cutoff", cutoff=4.1, filter="type")
        elif before == "clusters":
            sy.find_neighbors(method="cutoff", cutoff=3.4)
            sy.cluster_atoms(lambda a: a.type == 1)
        elif before == "replaced":
            # other atoms, for which neighbors were never searched
            sy.find_neighbors(method="cutoff", cutoff=3.4)
            at = core.new_atoms(s)
            for a, i in zip(at, ids):
                a.id = i
            sy.atoms = at
        elif before == "reset":
            sy.find_neighbors(method="cutoff", cutoff=3.4)
            sy.reset_neighbors()
        nb = [list(a.neighbors) for a in sy.atoms]
        Lammps.log[:] = []
        coeff = "* * file.eam %s" % " ".join(sp)
        sy.calculate_energy(species=sp if k > 1 or not averaged else sp[0], pair_style="eam/alloy", pair_coeff=coeff, mass=58.7, averaged=averaged)
        ctx.op()
        ctx.step()
        ctx.visit(str(case["spec"]), tuple(sp), before, averaged)
        ctx.equal(sorted(os.listdir(".")), n0, what + ": files left behind")
        ctx.equal([l.style for l in Lammps.log], [["eam/alloy"]], what + ": calculator")
        ctx.equal(sorted({x for l in Lammps.log for x in l.mass.values()}), [58.7], what + ": mass")
        want = energies(s, [sp[t - 1] for t in s.types])
        at = sy.atoms
        ctx.equal(len(at), s.n, what + ": atoms")
        ctx.close([a.energy for a in at], want, what + ": energies", 1e-6, 1e-5)
        ctx.equal([a.id for a in at], ids, what + ": ids")
        if before not in ("nothing", "replaced", "reset"):
            ctx.equal([list(a.neighbors) for a in at], nb, what + ": neighbors")
        if averaged:
            if before in ("nothing", "replaced", "reset"):
                t = core.new_system(s)
                t.find_neighbors(method="cutoff", cutoff=0)
                nb = [list(a.neighbors) for a in t.atoms]
            avg = [np.mean([want[i]] + [want[x % s.n] for x in v]) for i, v in enumerate(nb)]
            ctx.close([a.avg_energy for a in at], avg, what + ": averaged energies", 1e-6, 1e-5)
        # the energies are still there for the next calculation, and can be written
        if before in ("cutoff", "nothing"):
            sy.find_neighbors(method="cutoff", cutoff=3.0)
            ctx.close([a.energy for a in sy.atoms], want, what + ": energies after another search", 1e-6, 1e-5)
