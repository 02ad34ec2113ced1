"""C17: results do not depend on earlier calls."""
import numpy as np

import core
import desc
import ref
import space

INFO = {
    "rule": "the system is a transition system: its abstract state is (structure, positions changed or not, type changed or not, the operation which set the current neighbors); transitions are all searches, calculations, refused requests and changes of the structure. A case walks x,y1,x,y2,... over all pairs of transitions (x,y) on one System object; after every transition the results are compared with those of a fresh System brought to the same abstract state by the shortest path. Further cases walk all calculations after all pairs of searches",
    "bounds": {"quick": "all ordered pairs of 61 transitions (in walks of 122 steps) on 4 pairs of structures, half of them on each of 2 systems, and parts of them on 2 others; all 17 x 17 pairs of searches (a condition was left after the first) with all 20 calculations on one system; pairs of 7 searches in a system of 4394 atoms", "thorough": "all ordered pairs on 8 pairs of structures, all triples (every second first element) on one"},
    "assumptions": ["calculations which need neighbors are not compared while the structure has changed since the last search", "results of cna/diamond as neighbor searches are compared with a fresh system on which the same was called"],
}

BADS = ["filter", "threshold number", "too many", "q 13", "q condition value", "solids q", "solids bonds", "cluster raises", "disorder 13", "csm odd", "sro type", "pmsro compare",
        "set atom", "read noise", "box singular", "atoms numbers"]
MUT = [["move"], ["retype"], ["replace"], ["store"], ["leave", [6, 4], 1], ["leave", [5], 2]]
BIGCALC = [["q", [6], True], ["csm", 8], ["angular"]]
OPS = desc.SEARCHES + desc.SELFSEARCH + desc.PLAIN + desc.NONEED + MUT + [["bad", b] for b in BADS]

PAIRS = [
    (dict(lat="bcc", rep=[2, 2, 2], disp=0.05, types="alt"), dict(lat="fcc", rep=[4, 4, 4], disp=0.05, types="alt", cell="tri")),
    (dict(lat="fcc", rep=[2, 2, 1], disp=0.04, types="alt", cell="tri2"), dict(lat="dia", rep=[1, 1, 1], disp=0.03, types="alt")),
    (dict(lat="bcc", rep=[5, 5, 5], disp=0.05, types="alt"), dict(lat="bcc", rep=[2, 2, 1], disp=0.05, types="alt", cell="rot")),
    (dict(lat="rand", n=30, disp=0.1, types="alt"), dict(lat="rand", n=210, disp=0.1, types="alt")),
    (dict(lat="hcp", rep=[2, 1, 2], disp=0.03, types="alt"), dict(lat="bcc", rep=[6, 5, 4], disp=0.1, types="few", cell="tri")),
    (dict(lat="dia", rep=[3, 3, 3], disp=0.03, types="alt"), dict(lat="hdia", rep=[2, 1, 1], disp=0.03, types="alt")),
    (dict(lat="fcc_p", rep=[3, 3, 2], disp=0.05, types="alt"), dict(lat="bcc_p", rep=[2, 2, 2], disp=0.05, types="alt")),
    (dict(lat="tri3", rep=[3, 2, 1], disp=0.02, types="alt"), dict(lat="fcc", rep=[4, 4, 4], disp=0.08, types="alt")),
    (dict(lat="bcc", rep=[13, 13, 13], disp=0.05, types="alt"), dict(lat="bcc", rep=[13, 13, 13], disp=0.05, types="alt")),
]
BIG = [desc.SEARCHES[i] for i in (0, 2, 3, 5, 6, 9)] + [["csm", 12]]


def cases(tier):
    n = len(OPS)
    for x in range(len(BIG)):
        if tier != "quick" or BIG[x][1] in (["v", 1], ["a", 7, 1.3]):
            yield {"p": 8, "big": x, "alt": 0}
    for p in range(1 if tier == "quick" else 8):
        for x in range(len(desc.SEARCHES + desc.SELFSEARCH)):
            yield {"p": p, "after": x, "alt": x}
    if tier == "quick":
        for p in range(4):
            for x in range(n):
                if p == 0 and x % 2 == 0 or p in (1, 3) and x % 12 == 7 or p == 2 and x % 4 == 0:
                    yield {"p": p, "w": [x], "alt": p}
                elif p == 0 and x % 2 == 1:
                    yield {"p": 1, "w": [x], "alt": p}
        return
    for p in range(8):
        for x in range(n):
            yield {"p": p, "w": [x], "alt": p}
    for x in range(0, n, 2):
        for y in range(n):
            yield {"p": 1, "w": [x, y], "alt": x + y}


def word(w):
    for y in range(len(OPS)):
        for x in w:
            yield OPS[x]
        yield OPS[y]


def after(x):
    """two searches one after the other, and all calculations with the neighbors of the second"""
    S = desc.SEARCHES + desc.SELFSEARCH
    for i, y in enumerate(S):
        yield S[x]
        # a calculation whose condition stays with the atoms until the next search
        yield ["leave", [6, 4], 1 + i % 2]
        yield y
        for c in desc.PLAIN:
            yield c


def big(x):
    """the same in a large system, where neighbors are found with cells"""
    for y in BIG:
        if y == BIG[x]:
            continue
        yield BIG[x]
        yield BIGCALC[0]
        yield y
        for c in BIGCALC:
            yield c


class State:
    """abstract state: everything a fresh system needs to know"""

    def __init__(self, pair):
        self.pair = pair
        self.which, self.moved, self.retyped, self.nb, self.stale = 0, False, False, None, False

    def key(self):
        return (self.pair, self.which, self.moved, self.retyped, repr(self.nb))

    def struct(self):
        s = space.make(PAIRS[self.pair][self.which])
        if self.moved:
            s.pos[3 % s.n] += np.array([.11, -.07, .05])
        if self.retyped:
            s.types[2 % s.n] = 3 - s.types[2 % s.n]
        return s


_fresh = {}
_structs = {}


def struct(st):
    k = (st.pair, st.which, st.moved, st.retyped)
    if k not in _structs:
        _structs[k] = st.struct()
    return _structs[k]


def expected(st, op):
    k = st.key() + (repr(op),)
    if k not in _fresh:
        s = struct(st)
        sy = core.new_system(s)
        if st.nb is not None and op not in desc.SEARCHES + desc.SELFSEARCH:
            desc.perform(sy, s, st.nb)
        _fresh[k] = desc.outcome(sy, s, op)
    return _fresh[k]


def run(case, ctx):
    st = State(case["p"])
    s = struct(st)
    sy = core.new_system(s)
    hist = []
    first = {"find": OPS[case["alt"] % 8]}["find"]
    for op in [first] + list(big(case["big"]) if "big" in case else after(case["after"]) if "after" in case else word(case["w"])):
        hist.append(op)
        ctx.op()
        ctx.step()
        k = op[0]
        s = struct(st)
        if k == "move":
            a = sy.get_atom(3 % s.n)
            d = np.array([.11, -.07, .05]) * (-1 if st.moved else 1)
            a.pos = [float(v) for v in np.array(a.pos) + d]
            sy.set_atom(a)
            st.moved = not st.moved
            st.stale = True
            # moving there and back leaves rounding errors, put the exact position
            b = sy.get_atom(3 % s.n)
            b.pos = [float(v) for v in struct(st).pos[3 % s.n]]
            sy.set_atom(b)
            continue
        if k == "retype":
            a = sy.get_atom(2 % s.n)
            a.type = 3 - a.type
            sy.set_atom(a)
            st.retyped = not st.retyped
            st.stale = True
            continue
        if k == "replace":
            st.which, st.moved, st.retyped, st.nb, st.stale = 1 - st.which, False, False, None, True
            s = struct(st)
            sy.box = [[float(x) for x in v] for v in s.box]
            sy.atoms = core.new_atoms(s)
            continue
        if k == "store":
            # the user stores the atoms again as they are (pickling a structure, adding custom values)
            at = sy.atoms
            for a in at:
                a.custom["verif"] = a.id * 2
            sy.atoms = at
            st.nb, st.stale = None, True
            continue
        if k == "leave":
            # the condition stays with the atoms until neighbors are searched again
            if st.nb is not None:
                sy.calculate_q(op[1], averaged=True, condition=lambda at: at.type == op[2])
                st.stale = True
            continue
        if k == "bad":
            fn, need, drop = desc.bad_requests(sy, s)[op[1]]
            if need and (st.nb is None or st.stale):
                continue
            ctx.raises(fn, Exception, "refused request '%s' after %s" % (op[1], hist[-4:]))
            if drop:
                st.nb, st.stale = None, True
            continue
        search = op in desc.SEARCHES or op in desc.SELFSEARCH
        if search:
            st.nb, st.stale = op, False
        if op in desc.PLAIN and st.stale:
            desc.outcome(sy, s, op)      # no crash
            continue
        if not desc.applicable(op, st.nb):
            continue
        want = expected(st, op)
        got = desc.outcome(sy, s, op)
        what = "%s after %s" % (op, [h if h[0] != "bad" else h for h in hist[-5:-1]])
        ctx.equal(got[0], want[0], "%s: outcome (%s / %s)" % (what, str(got[1])[:80] if got[0] == "raise" else "", str(want[1])[:80] if want[0] == "raise" else ""))
        if got[0] == "ok":
            desc.same(ctx, got[1], want[1], what, rtol=1e-9, atol=1e-9)
            if op in desc.PLAIN and "after" not in case:
                again = desc.outcome(sy, s, op)
                ctx.op()
                ctx.equal(again[0], "ok", what + " repeated")
                desc.same(ctx, again[1], want[1], what + " repeated", rtol=1e-9, atol=1e-9)
        else:
            ctx.equal(got[1], want[1], what + ": error")
        ctx.visit(st.key(), repr(op))
