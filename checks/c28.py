"""C28: the picture of a system shows its atoms and its box."""
import contextlib
import io
import itertools

import numpy as np

import core
import space

INFO = {
    "rule": "a case is one structure; show() is called with every way to colour and to select the atoms, the widget that comes up is operated as a user would (values of the slider, rendering once or several times), and every figure that is drawn is compared with the structure: markers at the wrapped positions of the selected atoms, one colour per marker, twelve box edges",
    "bounds": {"quick": "27 structures x 7 colourings x 5 selections x 2 renderings, boxes with 3 origins", "thorough": "all regimes with 3 displacements"},
    "assumptions": ["a figure is what is passed to plotly, nothing is drawn on a screen"],
}
COLOR = [None, "type", "loc", "mine", "q4", "aq6", "coordination"]
FILTER = [None, "solid", "mine", "none", "all"]


def cases(tier):
    for sd in (range(1) if tier == "quick" else range(3)):
        for k, spec in enumerate(space.regimes(disp=0.05, types="alt")):
            if tier == "thorough" or k % 2 == 0:
                yield {"spec": dict(spec, a=3.0, seed=sd)}
    yield {"box": 1}


def pictures():
    """Record the figures that are shown and the widgets that are made."""
    import ipywidgets.widgets.interaction as wi
    import plotly.graph_objs as go
    shown, made = [], []
    if not hasattr(wi.interactive, "_recorded"):
        init = wi.interactive.__init__

        def record(self, *a, **k):
            init(self, *a, **k)
            wi.interactive._recorded.append(self)
        wi.interactive.__init__ = record
    wi.interactive._recorded = made
    go.Figure.show = lambda self, *a, **k: shown.append(self)
    return shown, made


def edges(box, origin=(0, 0, 0)):
    o, b = np.array(origin, dtype=float), np.array(box, dtype=float)
    out = []
    for i in range(3):
        j, k = [x for x in range(3) if x != i]
        for p, q in itertools.product((0, 1), repeat=2):
            x = o + p * b[j] + q * b[k]
            out.append((x, x + b[i]))
    return out


def drawn(traces):
    seg = []
    for t in traces:
        p = np.array([t.x, t.y, t.z], dtype=float).T
        seg += list(zip(p[:-1], p[1:]))
    return seg


def same_edges(seg, want, tol):
    def match(s, w):
        return min(np.abs(s[0] - w[0]).max() + np.abs(s[1] - w[1]).max(), np.abs(s[0] - w[1]).max() + np.abs(s[1] - w[0]).max()) < tol
    return all(any(match(s, w) for w in want) for s in seg) and all(any(match(s, w) for s in seg) for w in want)


def run(case, ctx):
    if "box" in case:
        return boxes(ctx)
    s = space.make(case["spec"])
    name = space.name(case["spec"])
    sy = core.new_system(s)
    sy.find_neighbors(method="cutoff", cutoff=3.3)
    sy.calculate_q([4, 6], averaged=True)
    at = sy.atoms
    flag = space.hashed(s.n, 1, 9)[:, 0]
    for i, a in enumerate(at):
        a.solid = int(flag[i] < 0.6)
        a.custom = {"mine": int(flag[i] > 0.3), "none": 0, "all": 1.5}
    for a in at:
        sy.set_atom(a)
    at = sy.atoms
    inv = np.linalg.inv(s.box)
    values = {"type": s.types, "loc": np.arange(s.n), "mine": [a.custom["mine"] for a in at], "coordination": [len(a.neighbors) for a in at],
              "q4": sy.get_qvals(4), "aq6": sy.get_qvals(6, averaged=True), None: np.ones(s.n)}
    keep = {None: np.ones(s.n, bool), "solid": flag < 0.6, "mine": flag > 0.3, "none": np.zeros(s.n, bool), "all": np.ones(s.n, bool)}
    L = np.linalg.norm(s.box, axis=1).max()
    for colour, sel in itertools.product(COLOR, FILTER):
        what = "%s, colours by %s, selected by %s" % (name, colour, sel)
        k = keep[sel]
        shown, made = pictures()
        with contextlib.redirect_stdout(io.StringIO()):
            if sel is None:
                sy.show(colorby=colour) if colour else sy.show()
            else:
                sy.show(colorby=colour, filterby=sel)
            ctx.equal(len(made), 1, what + ": widgets")
            slider = [c for c in made[0].children if type(c).__name__ == "FloatSlider"]
            button = [c for c in made[0].children if type(c).__name__ == "Button"]
            sizes = [7.0, 12.0] if slider else [None, None]
            for v in sizes:
                if v:
                    slider[0].value = v
                if button:
                    button[0].click()
                else:
                    made[0].update()
        ctx.op(1 + len(sizes))
        ctx.step(len(sizes))
        ctx.visit(name, colour, sel)
        ctx.equal(len(shown), len(sizes), what + ": figures")
        for v, fig in zip(sizes, shown):
            marks = [t for t in fig.data if "markers" in (t.mode or "")]
            lines = [t for t in fig.data if "markers" not in (t.mode or "")]
            ctx.equal(len(marks), 1, what + ": sets of markers")
            m = marks[0]
            p = np.array([m.x, m.y, m.z], dtype=float).reshape(3, -1).T
            ctx.equal(len(p), int(k.sum()), what + ": number of markers")
            f = p @ inv
            ctx.check(len(f) == 0 or f.min() > -1e-6 and f.max() < 1 + 1e-6, "%s: a marker is outside of the box", what)
            d = f - s.pos[k] @ inv
            ctx.check(np.abs((d - np.round(d)) @ s.box).max(initial=0) < 1e-8 * (1 + L), "%s: a marker is not where its atom is", what)
            c = np.array(m.marker.color, dtype=float).reshape(-1)
            ctx.equal(c.shape, (len(p),), what + ": number of colours")
            ctx.close(c, np.array(values[colour], dtype=float)[k], what + ": colours")
            if v:
                ctx.equal(float(np.max(m.marker.size)), v, what + ": size of the markers")
            ctx.check(same_edges(drawn(lines), edges(s.box), 1e-7 * (1 + L)), "%s: the lines are not the edges of the box", what)
    ctx.close([a.pos for a in sy.atoms], s.pos, name + ": positions after the plots")
    # a value which does not exist
    for kw in (dict(colorby="nothing like this"), dict(filterby="nothing like this")):
        ctx.raises(lambda: sy.show(**kw), AttributeError, "%s: show(%s)" % (name, kw))


def boxes(ctx):
    import pyscal.visualization as pv
    for spec, o in itertools.product(space.regimes(disp=0, types="one"), ([0, 0, 0], [1.5, -2.0, 0.25], [-30.0, 7.0, 11.0])):
        s = space.make(spec)
        for args in ((o,), ()) if o == [0, 0, 0] else ((o,),):
            t = pv.create_box_plot([list(v) for v in s.box], *args)
            ctx.op()
            ctx.step()
            ctx.visit(space.name(spec), tuple(o))
            ctx.check(same_edges(drawn(t), edges(s.box, o), 1e-7 * np.abs(s.box).max() + 1e-9), "%s: box plotted at %s", space.name(spec), o)
    shown, made = pictures()
    pos = space.hashed(20, 3, 1)
    pv.plot_3d(pos, color=list(range(20)))
    ctx.equal([len(f.data) for f in shown], [1], "plot without a box")
