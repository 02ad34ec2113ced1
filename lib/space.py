"""The finite space of structures which the checks enumerate.

A structure is described by a small JSON object, so that every state of the
space can be named in a replay file:
  lat    lattice of the unit cell (primitive cells carry their own box)
  rep    repetitions
  cell   ortho | tet | tri | tri2 | rot | left | skew    (how the box is deformed)
  disp   amplitude of the (quasi-random, tie-breaking) displacement
  off    0: inside the box, 1: shifted off the box edge, 2: partly outside of the box, 4: unwrapped
  types  assignment of types
  perm   permutation of the atoms
"""
import itertools

import numpy as np

S3 = np.sqrt(3.0)
LAT = {
    "sc": (np.eye(3), [[0, 0, 0]]),
    "bcc": (np.eye(3), [[0, 0, 0], [.5, .5, .5]]),
    "fcc": (np.eye(3), [[0, 0, 0], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]]),
    "dia": (np.eye(3), [[0, 0, 0], [.5, .5, 0], [.5, 0, .5], [0, .5, .5],
                        [.25, .25, .25], [.75, .75, .25], [.75, .25, .75], [.25, .75, .75]]),
    "hcp": (np.diag([1, S3, np.sqrt(8 / 3.)]), [[0, 0, 0], [.5, .5, 0], [.5, 5 / 6., .5], [0, 1 / 3., .5]]),
    # hexagonal diamond (lonsdaleite), ideal, 8 atoms orthorhombic
    "hdia": (np.diag([1, S3, np.sqrt(8 / 3.)]),
             [[0, 0, 0], [.5, .5, 0], [.5, 5 / 6., .5], [0, 1 / 3., .5],
              [0, 0, .375], [.5, .5, .375], [.5, 5 / 6., .875], [0, 1 / 3., .875]]),
    "fcc_p": (np.array([[.5, .5, 0], [.5, 0, .5], [0, .5, .5]])[[1, 0, 2]], [[0, 0, 0]]),
    "bcc_p": (np.array([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]]), [[0, 0, 0]]),
    "hcp_p": (np.array([[1, 0, 0], [-.5, S3 / 2, 0], [0, 0, np.sqrt(8 / 3.)]]), [[0, 0, 0], [1 / 3., 2 / 3., .5]]),
    "dia_p": (np.array([[.5, 0, .5], [.5, .5, 0], [0, .5, .5]]), [[0, 0, 0], [.25, .25, .25]]),
    "dim": (np.eye(3), [[.1, .2, .3], [.45, .5, .35]]),
    "tri3": (np.eye(3), [[.1, .2, .3], [.6, .7, .25], [.3, .85, .75]]),
    "a15": (np.eye(3), [[0, 0, 0], [.5, .5, .5], [.25, .5, 0], [.75, .5, 0], [0, .25, .5], [0, .75, .5], [.5, 0, .25], [.5, 0, .75]]),
}

_TRI = np.array([[1, 0, 0], [.3, 1.05, 0], [-.2, .25, .95]])
_TRI2 = np.array([[1, 0, 0], [-.45, .9, 0], [.4, -.35, 1.1]])
_TRIX = np.array([[1, 0, 0], [.22, 1.0, 0], [0, 0, 1.0]])
_TRIY = np.array([[1, 0, 0], [0, 1.0, 0], [0, .27, 1.0]])
_TRIZ = np.array([[1, 0, 0], [0, 1.0, 0], [.25, 0, 1.0]])


def _rot(a=.5, b=.7, c=.3):
    ca, sa, cb, sb, cc, sc = np.cos(a), np.sin(a), np.cos(b), np.sin(b), np.cos(c), np.sin(c)
    rx = np.array([[1, 0, 0], [0, ca, -sa], [0, sa, ca]])
    ry = np.array([[cb, 0, sb], [0, 1, 0], [-sb, 0, cb]])
    rz = np.array([[cc, -sc, 0], [sc, cc, 0], [0, 0, 1]])
    return rx @ ry @ rz


ROT = _rot()


class Struct:
    def __init__(self, box, pos, types, spec=None):
        self.box = np.array(box, dtype=float)
        self.pos = np.array(pos, dtype=float).reshape(-1, 3)
        self.types = np.array(types, dtype=int)
        self.spec = spec

    @property
    def n(self):
        return len(self.pos)

    @property
    def volume(self):
        return abs(np.linalg.det(self.box))

    def heights(self, box=None):
        b = self.box if box is None else box
        v = abs(np.linalg.det(b))
        return np.array([v / np.linalg.norm(np.cross(b[(k + 1) % 3], b[(k + 2) % 3])) for k in range(3)])

    def supercell(self):
        """Repetitions of the box which pyscal works with (images of small systems)."""
        n = self.n
        if n >= 200:
            return 1
        nx = int(np.ceil((200 - n) / n) ** (1 / 3))
        nx = int(np.ceil(nx / 2))
        return 2 * nx + 1

    def maxcut(self):
        """Cutoffs below this have a unique nearest image in pyscal's cell."""
        return 0.5 * self.supercell() * self.heights().min()

    def copy(self):
        return Struct(self.box.copy(), self.pos.copy(), self.types.copy(), self.spec)


def qr(n, d, seed=0):
    """Additive recurrence sequence (deterministic, well spread, no ties)."""
    g = 1.0
    for _ in range(30):
        g = (1 + g) ** (1.0 / (d + 1))
    alpha = np.array([(1 / g) ** (k + 1) for k in range(d)])
    return (0.5 + np.outer(np.arange(1, n + 1), alpha) + 0.137 * seed) % 1.0


def hashed(n, d, seed=0):
    """Deterministic scrambled numbers in [0,1) (no lattice structure, unlike qr)."""
    x = (np.arange(n * d, dtype=np.uint64) + np.uint64(1 + 7919 * seed)) * np.uint64(0x9E3779B97F4A7C15)
    x ^= x >> np.uint64(30)
    x *= np.uint64(0xBF58476D1CE4E5B9)
    x ^= x >> np.uint64(27)
    x *= np.uint64(0x94D049BB133111EB)
    x ^= x >> np.uint64(31)
    return (x >> np.uint64(11)).astype(float).reshape(n, d) / 2.0 ** 53


def assign_types(n, how, pos=None):
    i = np.arange(n)
    if how in (None, "one"):
        return np.ones(n, dtype=int)
    if how == "alt":
        return 1 + i % 2
    if how == "three":
        return 1 + (i * 7 // 3) % 3
    if how == "gap":           # types that are not 1..k
        return np.where((i * 5 + i // 3) % 3 == 0, 2, 5)
    if how == "many":          # thirteen types
        return 1 + (i * 7) % 13
    if how == "few":
        return np.where(i % 7 == 3, 2, 1)
    if how.startswith("bits"):  # bits<mask>: the mask's bits are the second type
        m = int(how[4:])
        return np.array([1 + ((m >> k) & 1) for k in range(n)])
    raise ValueError(how)


def stack(seq, rep, kind="cp"):
    """Close packed layers stacked in the given order (nearest distance 1)."""
    h = np.sqrt(2 / 3.)
    shift = {"A": 0.0, "B": 1 / 3., "C": 2 / 3.}
    z0 = 1.0 if kind == "cp" else 2.0
    pos = []
    for i in range(rep[0]):
        for j in range(rep[1]):
            for k, c in enumerate(seq):
                for b in ((0, 0), (.5, .5)):
                    x, y = b[0] + i, (b[1] + shift[c] + j) * S3
                    pos.append((x, y, k * h))
                    if kind == "dia":
                        pos.append((x, y, k * h + np.sqrt(6) / 4))
    pos = np.array(pos)
    box = np.diag([rep[0] * 1.0, rep[1] * S3, len(seq) * h])
    if kind == "dia":          # put the bilayers so that the closest distance is sqrt(6)/4
        pass
    return box, pos


def cluster(kind):
    g = (1 + np.sqrt(5)) / 2
    ico = []
    for s1 in (1, -1):
        for s2 in (1, -1):
            ico += [(0, s1, s2 * g), (s1, s2 * g, 0), (s1 * g, 0, s2)]
    ico = np.array(ico) / np.sqrt(1 + g * g)
    pos = np.vstack([[[0, 0, 0]], ico])
    if kind == "ico2":         # two shells: central atom and its 12 neighbors
        pos = np.vstack([pos, 2 * ico])
    if kind == "ico+":         # an extra atom far away from the shell
        pos = np.vstack([pos, [[2.2, 0.3, 0.1]]])
    return np.eye(3) * 12.0, pos + 6.0


def make(spec):
    lat = spec.get("lat", "bcc")
    a = spec.get("a", 1.0)
    cell, basis = LAT[lat] if lat in LAT else (np.eye(3), None)
    cell = np.array(cell, dtype=float)
    rep = spec.get("rep", [2, 2, 2])
    if lat == "rand":          # spread points, minimal distance enforced below
        n = spec["n"]
        frac = qr(n, 3, spec.get("seed", 0))
        box = np.diag(np.array(spec.get("lens", [1.0, 1.0, 1.0]), dtype=float) * n ** (1 / 3.))
        pos = frac @ box
    elif lat == "stack":       # close packed layers "ABC...", or the diamond polytype of that stacking
        box, pos = stack(spec["seq"], spec.get("rep", [3, 2])[:2], spec.get("kind", "cp"))
    elif lat == "cluster":     # icosahedral cluster (1+12 atoms) and variants in a big box
        box, pos = cluster(spec["kind"])
    else:
        basis = np.array(basis, dtype=float)
        pos = []
        for i, j, k in itertools.product(*(range(r) for r in rep)):
            for b in basis:
                pos.append((b + [i, j, k]))
        pos = np.array(pos) @ cell
        box = cell * np.array(rep, dtype=float)[:, None]
    pos = pos * a
    box = box * a
    how = spec.get("cell", "ortho")
    M = {"ortho": np.eye(3), "tet": np.diag([1.0, 1.1, 1.25]), "tri": _TRI, "tri2": _TRI2, "rot": _TRI @ ROT,
         "left": _TRI @ ROT, "skew": np.eye(3), "orot": ROT, "trix": _TRIX, "triy": _TRIY, "triz": _TRIZ,
         "thin": np.eye(3), "negx": np.linalg.inv(_TRIX), "negy": np.linalg.inv(_TRIY), "negz": np.linalg.inv(_TRIZ),
         "tiny": np.array([[1, 0, 0], [3e-4, 1, 0], [-2e-4, 4e-4, 1]]), "zero": np.array([[1, 0, 0], [.25, 1, 0], [-.25, 0, 1]])}[how]
    pos = pos @ M
    box = box @ M
    n = len(pos)
    if spec.get("disp"):
        pos = pos + spec["disp"] * a * (2 * hashed(n, 3, spec.get("seed", 0)) - 1)
    off = spec.get("off", 0)
    frac = pos @ np.linalg.inv(box)
    if off == 0:
        frac = frac - np.floor(frac + 1e-12)
    elif off == 1:             # shifted, wrapped
        frac = (frac + [0.137, 0.411, 0.773]) % 1.0
    elif off == 2:             # a slightly displaced window, some atoms outside of the box
        frac = (frac + [0.31, 0.17, 0.59]) % 1.0 + [-0.21, 0.18, -0.12]
    elif off == 3:             # raw: exactly as constructed
        pass
    elif off == 4:             # unwrapped: every atom in another image of the box
        i = np.arange(n)
        frac = (frac + [0.31, 0.17, 0.59]) % 1.0 + np.array([i % 3 - 1, (i // 3) % 4 - 2, (i * 5) % 6 - 3]).T
    pos = frac @ box
    if how == "left":
        box = box[[1, 0, 2]]
    if how == "skew":          # same lattice of translations, other box vectors
        box = np.array([box[0], box[1] + box[0], box[2]])
    types = assign_types(n, spec.get("types"))
    if spec.get("vac"):        # remove atoms
        keep = np.array([i for i in range(n) if i not in spec["vac"]])
        pos, types = pos[keep], types[keep]
    if spec.get("perm"):
        p = np.argsort(hashed(n, 1, 100 + spec["perm"])[:, 0])
        pos, types = pos[p], types[p]
    return Struct(box, pos, types, spec)


def name(spec):
    return "/".join("%s=%s" % (k, spec[k]) for k in sorted(spec))


# ---------------------------------------------------------------- menus
def regimes(disp=0.05, types="one"):
    """One structure per regime of the implementation: image systems built from
    very small cells, large systems without images, orthogonal, triclinic (both
    signs of tilt, single tilts), rotated and left handed boxes, atoms outside."""
    out = []
    for lat, rep in (("fcc", [2, 2, 2]), ("bcc", [3, 3, 3]), ("hcp", [2, 2, 1]), ("dim", [1, 1, 1]), ("tri3", [2, 1, 1]),
                     ("sc", [1, 1, 1]), ("sc", [3, 2, 1]), ("fcc_p", [1, 1, 1]), ("bcc_p", [2, 2, 2]), ("hcp_p", [1, 1, 1]), ("dia", [1, 1, 1]), ("dia_p", [2, 2, 1])):
        out.append(dict(lat=lat, rep=rep, disp=disp, types=types))
    for cell in ("tet", "tri", "tri2", "rot", "left", "skew", "orot", "trix", "triy", "triz"):
        out.append(dict(lat="bcc", rep=[2, 2, 2], cell=cell, disp=disp, types=types))
        out.append(dict(lat="fcc", rep=[4, 4, 4], cell=cell, disp=disp, types=types))
    for off in (1, 2, 4):
        for cell in ("ortho", "tri"):
            out.append(dict(lat="bcc", rep=[2, 2, 3], cell=cell, disp=disp, off=off, types=types))
            out.append(dict(lat="bcc", rep=[5, 5, 5], cell=cell, disp=disp, off=off, types=types))
    for lat, rep in (("fcc", [4, 4, 4]), ("bcc", [5, 5, 5]), ("bcc", [9, 4, 4]), ("sc", [6, 6, 6]), ("dia", [3, 3, 3]), ("hcp", [4, 4, 4])):
        out.append(dict(lat=lat, rep=rep, disp=disp, types=types))
    out.append(dict(lat="rand", n=220, disp=2 * disp, types=types))
    out.append(dict(lat="rand", n=30, disp=2 * disp, types=types, seed=3))
    # in different units of length
    for k, spec in enumerate(out):
        spec["a"] = (1.0, 2.87, 5.43)[k % 3]
    return out
