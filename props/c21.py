"""Pictures of states and results."""
import os

from symx import env, pictures
from symx.api import AND, NOT, OR, count, harness, same
from props.util import OCC, SITES

pictures.install(env.SYMBOLIC)

from pylattica.core import SimulationResult, SimulationState  # noqa: E402
from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder, SimpleSquare3DStructureBuilder  # noqa: E402
from pylattica.visualization import CellArtist, DiscreteCellArtist, ResultArtist, SquareGridArtist2D, SquareGridArtist3D  # noqa: E402
from pylattica.visualization.colors import COLORS  # noqa: E402
from pylattica.visualization.helpers import color_map  # noqa: E402


class Plain(CellArtist):
    """Colors and labels as the states give them."""

    def get_color_from_cell_state(self, cell_state):
        return (cell_state["r"], cell_state["g"], 77)

    def get_cell_legend_label(self, cell_state):
        return cell_state["label"]


def _grid2(w, h):
    # the grid's first lattice vector points along y
    struct = SimpleSquare2DStructureBuilder().build(w if w == h else (h, w))
    return struct, {(x, y): struct.id_at((x, y)) for x in range(w) for y in range(h)}


def _at(img, x, y):
    return pictures.pixel(img, x, y)


def _block(ctx, img, x0, y0, n, color, what):
    ctx.check(AND([same(_at(img, x, y), color) for x in range(x0, x0 + n) for y in range(y0, y0 + n)]), what)


def _written_over(label, x0, y0, n):
    """Could the label, written from (5, 5) on, reach the block?"""
    return label is not None and x0 < 6 + 9 * len(label) and y0 < 22 and x0 + n > 4 and y0 + n > 4


def _picture_is(ctx, img, at, h, color_of, n, what, label=None):
    for (x, y), i in at.items():
        if not _written_over(label, x * n, (h - 1 - y) * n, n):
            _block(ctx, img, x * n, (h - 1 - y) * n, n, color_of(i), f"{what}: the site's color at the site's place")


def _legend_is(ctx, img, legend, n, what, label=None, left=0):
    got = pictures.texts(img)
    names = [t[2] for t in got]
    if label is not None:
        ctx.check(len([x for x in names if x == label]) == 1, f"{what}: the label is written")
    want = sorted(legend) + ([label] if label is not None else [])
    ctx.check(sorted(names) == sorted(want), f"{what}: the legend names exactly the labels present")
    for x, y, name, _ in got:
        if name == label:
            continue
        ctx.check(x >= left and x < img.size[0] and y >= 0 and y < img.size[1], f"{what}: legend beside the picture")
        # the box before the name, away from its edges
        bx, by = int(x) - n // 4 - n // 2 - 1, int(y)
        ctx.check(same(_at(img, max(bx, left), by), legend[name]), f"{what}: the label's color before its name")


@harness("C21", quick=[(2, 2, 4, None), (3, 3, 5, None), (1, 1, 20, None), (3, 3, 1, 2), (4, 4, None, 3), (2, 2, 20, 1), (7, 7, 3, 4), (2, 4, 5, 2), (5, 3, 4, 3), (20, 15, 6, 60)],
         thorough=[(5, 5, 20, None), (10, 10, 7, 5), (12, 12, 2, 1), (3, 7, 6, None), (6, 2, 20, None), (4, 4, 40, None), (45, 30, 3, 300)],
         bounds="grids of 1x1 to 7x7 cells (thorough: 12x12) and one of 20x15 (45x30), square or not, cells of 1 to 20 pixels (thorough: 40) and the default, any colors, a "
                "label per site or one for every few sites, with and without a step label")
def grids(ctx, cfg):
    w, h, n, every = cfg
    struct, at = _grid2(w, h)
    st = SimulationState()
    colors, legend = {}, {}
    for k, (c, i) in enumerate(sorted(at.items(), key=lambda e: (e[0][1], -e[0][0]))):
        name = f"L{k if every is None else k // every % 4}"
        # sites of one label have one color
        if name not in legend:
            legend[name] = (ctx.int(f"r{k}", 0, 255), ctx.int(f"g{k}", 0, 255), 77)
        colors[i] = legend[name]
        st.set_site_state(i, {"r": colors[i][0], "g": colors[i][1], "label": name})
    artist = SquareGridArtist2D(struct, Plain())
    label = "Step 12" if every == 3 else None
    kw = {} if n is None else {"cell_size": n}
    if label:
        kw["label"] = label
    n = n or 20
    if every == 1:
        d = ctx.tmpdir()
        p = os.path.join(d, "out.png")
        ctx.check(artist.save_img(st, p, **kw) == p, "saving gives the file's name")
        from PIL import Image

        img = Image.open(p)
        left = None
    else:
        img = artist.get_img(st, **kw)
        left = w * n
    _picture_is(ctx, img, at, h, colors.get, n, "picture", label)
    if left is not None:
        _legend_is(ctx, img, legend, n, "picture", label, left)


ABC = ("A", "B", "C")


def _artist(ctx, how, phases, state, result):
    """A cell artist made in the asked way, and the phases it knows."""
    if how == "list":
        return DiscreteCellArtist.from_phase_list(list(phases)), phases
    if how == "state":
        return DiscreteCellArtist.from_discrete_state(state), None
    if how == "result":
        return DiscreteCellArtist.from_discrete_result(result), None
    return DiscreteCellArtist(color_map={p: (10 * k + 1, 200, k) for k, p in enumerate(phases)}), phases


@harness("C21", quick=[("state", 2, "ABC"), ("list", 2, "ABC"), ("result", 2, "AB"), ("map", 2, "ABC"), ("list", 2, "AC")],
         thorough=[("state", 3, "AB"), ("result", 2, "ABC"), ("list", 3, "AB")],
         bounds="2x2 grids (thorough: 3x3) with any of up to three phases on each site, artists made from a phase list, a state, a result of two "
                "steps, or a color map, some leaving out a phase")
def phases(ctx, cfg):
    how, w, known = cfg
    struct, at = _grid2(w, w)
    opts = ABC if how in ("map", "list") and w == 2 else tuple(known)
    st = SimulationState()
    occs = {}
    for k, i in enumerate(at.values()):
        occs[i] = ctx.enum(f"p{k}", opts)
        st.set_site_state(i, {OCC: occs[i]})
    res = SimulationResult(st)
    new = None
    if how == "result":
        new = ctx.enum("new", ABC)
        res.add_step({at[(0, 0)]: {OCC: new}})
    cells, known = _artist(ctx, how, known, st, res)
    img = SquareGridArtist2D(struct, cells).get_img(st, cell_size=3)
    present = sorted({str(o) for o in occs.values()})
    colors = {p: tuple(cells.get_color_from_cell_state({OCC: p})) for p in ABC}
    _legend_is(ctx, img, {p: colors[p] for p in present}, 3, "phases", None, w * 3)
    legend = cells.get_legend(st)
    ctx.check(same(dict(legend), {p: colors[p] for p in present}), "the legend gives each phase present its color")
    _picture_is(ctx, img, at, w, lambda i: colors[str(occs[i])], 3, "phases")
    if w == 2:
        # and with another state
        st2 = SimulationState()
        two = {i: ("C" if how in ("map", "list") else known[0]) if k else occs[i] for k, i in enumerate(at.values())} \
            if how not in ("state", "result") else {i: occs[at[(0, 0)]] for i in at.values()}
        for i, o in two.items():
            st2.set_site_state(i, {OCC: o})
        now = {p: colors[p] for p in {str(o) for o in two.values()}}
        ctx.check(same(dict(cells.get_legend(st2)), now), "the legend of another state")
        drawer = SquareGridArtist2D(struct, cells)
        drawer.get_img(st, cell_size=3)
        img = drawer.get_img(st2, cell_size=3)
        _legend_is(ctx, img, now, 3, "another state", None, w * 3)
        _picture_is(ctx, img, at, w, lambda i: colors[str(two[i])], 3, "another state")
    told = known if known is not None else present + ([str(new)] if new is not None else [])
    for p in ABC:
        if p not in told:
            ctx.check(colors[p] == (0, 0, 0), "a phase the artist was not told of is black")
    told = sorted(set(told))
    ctx.check(len({colors[p] for p in told} | {(0, 0, 0)}) == len(told) + 1, "different phases get different colors")


@harness("C21", quick=[2, 5, len(COLORS), 40], thorough=[3, 20, 31],
         bounds="lists of 2 to 40 phases, compared at any two places")
def palettes(ctx, n):
    names = [f"p{k}" for k in range(n)]
    cm = DiscreteCellArtist.build_color_map_from_phase_list(names)
    cells = DiscreteCellArtist.from_phase_list(names, state_key="x")
    helper = color_map(names) if n <= len(COLORS) else None
    i = ctx.size("i", 0, n - 1)
    for what, get in (("map", lambda k: cm[names[k]]), ("artist", lambda k: cells.get_color_from_cell_state({"x": names[k], OCC: "z"})),
                      ("helper", lambda k: helper[names[k]])):
        if what == "helper" and helper is None:
            continue
        a = tuple(get(i))
        ctx.check(len(a) == 3 and all(0 <= v <= 255 and int(v) == v for v in a), f"{what}: colors are red, green, blue")
        if n <= len(COLORS):
            ctx.check(all(tuple(get(j)) != a for j in range(n) if j != i), f"{what}: different phases get different colors")
        ctx.check(a != (0, 0, 0), f"{what}: no listed phase looks unknown")
    ctx.check(cells.get_cell_legend_label({"x": names[i], OCC: "z"}) == names[i], "the label is the value")


@harness("C21", quick=[((1, 1, 1), False), ((2, 2, 2), False), ((2, 2, 2), True), ((3, 3, 3), True), ((2, 3, 1), False), ((3, 1, 2), True), ((2, 3, 4), True), ((3, 2, 2), True)],
         thorough=[((3, 3, 3), False), ((4, 4, 4), True), ((2, 4, 3), True), ((1, 2, 5), False)],
         bounds="blocks of 1 to 3 (thorough: 5) cells per side, any of three phases on up to four of the sites, the rest of one, shown whole or as a "
                "shell")
def blocks(ctx, cfg):
    size, shell = cfg
    pictures.reset()
    w, h, d = size
    struct = SimpleSquare3DStructureBuilder().build(w if w == h == d else _along(size))
    at = {(x, y, z): struct.id_at((x, y, z)) for x in range(w) for y in range(h) for z in range(d)}
    st = SimulationState()
    occs = {}
    free = [(0, 0, 0), (w - 1, 0, 0), (0, h - 1, d - 1), (w // 2, h // 2, 0)]
    for k, (c, i) in enumerate(at.items()):
        occs[c] = ctx.enum(f"p{k}", ABC) if c in free else "B"
        st.set_site_state(i, {OCC: occs[c]})
    if (w + h + d) % 2:
        # colors with a red, a sum or a spelling in common
        cells = DiscreteCellArtist({"A": (1, 12, 0), "B": (11, 2, 0), "C": (1, 1, 20)})
    else:
        cells = DiscreteCellArtist.from_phase_list(["A", "B"] if w == 2 else list(ABC))
    SquareGridArtist3D(struct, cells).get_img(st, **({"shell_only": True} if shell else {}))
    for v in pictures.voxels:
        ctx.check(set(v) == set(at), "a voxel for each place")
    for c in at:
        shown = [(f, col) for v in pictures.voxels for f, col in [v[c]] if f]
        solid = [list(col) for f, col in shown if not isinstance(col, str) and (len(col) < 4 or col[3] > 0.5)]
        if shell and not (c[1] == 0 or c[0] == w - 1 or c[2] == d - 1):
            ctx.check(solid == [], "inside the shell nothing is drawn")
            continue
        ctx.check(len(shown) == 1 and len(solid) == 1, "one color for each site shown")
        want = cells.get_color_from_cell_state({OCC: str(occs[c])})
        ctx.check(all(abs(float(a) * 255 - b) < 1e-6 for a, b in zip(solid[0], want)), "the site's color at the site's place")


def _along(size):
    """The numbers of cells along the grid's lattice vectors, which need not point along x, y, z in this order."""
    vecs = SimpleSquare3DStructureBuilder().lattice.vecs
    return tuple(size[[abs(x) > 0.5 for x in v].index(True)] for v in vecs)


@harness("C21", quick=[(1, 1, "linux"), (3, 1, "linux"), (4, 2, "linux"), (3, 5, "linux"), (3, 2, "win32"), (6, 1, "linux"), (12, 1, "linux"), (23, 2, "win32"), (9, 3, "linux"), (14, 4, "win32")],
         thorough=[(101, 10, "linux"), (9, 2, "linux"), (5, 3, "win32")],
         bounds="results of 1 to 12 steps, one of 23 (thorough: 101) of a 1x4 grid with any colors, drawn each, each second, third, fourth, fifth or tenth step, any placement "
                "of the drawing on two workers")
def animations(ctx, cfg):
    import sys

    steps, freq, platform = cfg
    pictures.reset()
    struct, at = _grid2(1, 4)
    st = SimulationState()
    vals = {}
    for k, i in enumerate(at.values()):
        vals[i] = (ctx.int(f"r{k}", 0, 255), ctx.int(f"g{k}", 0, 255), 77)
        st.set_site_state(i, {"r": vals[i][0], "g": vals[i][1], "label": "cell"})
    res = SimulationResult(st)
    frames = [vals]
    order = list(at.values())
    for t in range(1, steps):
        i = order[t % 2]
        vals = dict(vals)
        vals[i] = (ctx.int(f"r_{t}", 0, 255), ctx.int(f"g_{t}", 0, 255), 77) if t < 6 else (t, 3 * t % 256, 77)
        res.add_step({i: {"r": vals[i][0], "g": vals[i][1]}})
        frames.append(vals)
    artist = ResultArtist(SquareGridArtist2D(struct, Plain()), res)
    other = ResultArtist(SquareGridArtist2D(struct, DiscreteCellArtist({}, state_key="label")), res)
    d = ctx.tmpdir()
    cwd, was = os.getcwd(), sys.platform
    os.chdir(d)
    sys.platform = platform
    try:
        kw = {"cell_size": 12}
        if freq > 1:
            kw["draw_freq"] = freq
        if freq == 2:
            kw["wait"] = 0.25
        if steps == 3 and freq == 1:
            # drawing another result's pictures in between changes nothing
            other.to_gif("other.gif", cell_size=1, draw_freq=3)
            os.remove("other.gif")
            ctx.check(len(pictures.saved) == 1, "one animation is written")
            pictures.saved.clear()
        artist.to_gif("out.gif", **kw)
    finally:
        sys.platform = was
        os.chdir(cwd)
    ctx.check(len(pictures.saved) == 1, "one animation is written")
    gif = pictures.saved[0]
    ctx.check(os.listdir(d) == ["out.gif"], "only the animation is left")
    ctx.check(gif["options"].get("duration", 800) == (250 if freq == 2 else 800), "frames last as long as asked")
    shown = list(range(0, steps, freq))
    ctx.check(len(gif["frames"]) == len(shown), "one picture per drawn step")
    for img, t in zip(gif["frames"], shown):
        _picture_is(ctx, img, at, 4, frames[t].get, 12, f"step {t}", "Step 10")
        ctx.check([x[2] for x in pictures.texts(img) if x[2] != "cell"] == [f"Step {t}"], f"step {t}: labelled with its number")
    ctx.observe(len(shown))


@harness("C21", quick=[2, 3], bounds="one artist drawing one 2x2 (2x2x2) state again after it was changed, another state, and other sizes, any colors on two sites")
def drawn_again(ctx, dim):
    pictures.reset()
    if dim == 2:
        struct, at = _grid2(2, 2)
    else:
        struct = SimpleSquare3DStructureBuilder().build(2)
        at = {(x, y, z): struct.id_at((x, y, z)) for x in range(2) for y in range(2) for z in range(2)}
    cells = DiscreteCellArtist({"A": (1, 12, 0), "B": (11, 2, 0), "C": (1, 1, 20)})
    artist = (SquareGridArtist2D if dim == 2 else SquareGridArtist3D)(struct, cells)
    st, other = SimulationState(), SimulationState()
    occs = {i: "B" for i in at.values()}
    first, last = list(at.values())[0], list(at.values())[-1]
    occs[first] = ctx.enum("p0", ABC)
    for i, o in occs.items():
        st.set_site_state(i, {OCC: o})
        other.set_site_state(i, {OCC: "C"})

    def drawn(state, occs, n, what):
        if dim == 2:
            img = artist.get_img(state, cell_size=n)
            _picture_is(ctx, img, at, 2, lambda i: cells.get_color_from_cell_state({OCC: str(occs[i])}), n, what)
            _legend_is(ctx, img, {p: cells.get_color_from_cell_state({OCC: p}) for p in {str(o) for o in occs.values()}}, n, what, None, 2 * n)
            return
        before = len(pictures.voxels)
        artist.get_img(state)
        for c, i in at.items():
            shown = [v[c][1] for v in pictures.voxels[before:] if v[c][0]]
            want = cells.get_color_from_cell_state({OCC: str(occs[i])})
            ctx.check(len(shown) == 1 and all(abs(float(a) * 255 - b) < 1e-6 for a, b in zip(list(shown[0]), want)), f"{what}: the site's color")

    drawn(st, occs, 4, "first")
    st.set_site_state(last, {OCC: ctx.enum("p1", ABC)})
    occs[last] = st.get_site_state(last)[OCC]
    drawn(st, occs, 4, "after a change")
    drawn(other, {i: "C" for i in occs}, 4, "another state")
    drawn(st, occs, 6, "another size")
    drawn(st.copy(), occs, 4, "a copy")
    st.batch_update({first: {OCC: "C"}})
    occs[first] = "C"
    drawn(st, occs, 4, "after another change")


@harness("C21", bounds="one result artist used again after its result grew, any colors, drawn each and each second step")
def animated_again(ctx, _):
    pictures.reset()
    struct, at = _grid2(1, 4)
    st = SimulationState()
    order = list(at.values())
    vals = {i: (ctx.int(f"r{k}", 0, 255) if k == 3 else 9 * k, 5, 77) for k, i in enumerate(order)}
    for i, v in vals.items():
        st.set_site_state(i, {"r": v[0], "g": v[1], "label": "cell"})
    res = SimulationResult(st)
    frames = [vals]
    artist = ResultArtist(SquareGridArtist2D(struct, Plain()), res)
    d = ctx.tmpdir()
    cwd = os.getcwd()
    os.chdir(d)
    try:
        for n in range(3):
            for _ in range(n + 1):
                t = len(frames)
                v = dict(frames[-1])
                v[order[2 + t % 2]] = (ctx.int(f"r_{t}", 0, 255) if t % 3 == 0 else t, 3, 77)
                res.add_step({order[2 + t % 2]: {"r": v[order[2 + t % 2]][0], "g": 3}})
                frames.append(v)
            pictures.saved.clear()
            freq = 1 + n % 2
            artist.to_gif(f"out{n}.gif", cell_size=12, draw_freq=freq)
            ctx.check(len(pictures.saved) == 1, "one animation is written")
            shown = list(range(0, len(frames), freq))
            got = pictures.saved[0]["frames"]
            ctx.check(len(got) == len(shown), "one picture per drawn step")
            for img, t in zip(got, shown):
                _picture_is(ctx, img, at, 4, frames[t].get, 12, f"step {t}", "Step 10")
    finally:
        os.chdir(cwd)
