"""Images and 3-d plots.  Symbolically, stand-ins for PIL and matplotlib that keep what is
drawn; in a replay, the real libraries with the calls noted."""
import os

import numpy as np

from .proxies import has_sym, is_sym

TEXTS = "symx_texts"
saved = []  # animations written: dict(path, frames, options)
voxels = []  # dict(filled, colors)
_files = {}  # path -> what was saved there


def reset():
    saved.clear()
    voxels.clear()
    _files.clear()


def texts(img):
    """What was written on the image: (x, y, text, color)."""
    return [tuple(t) for t in img.info.get(TEXTS, ())]


def pixel(img, x, y):
    p = img.getpixel((x, y))
    return tuple(p)[:3] if isinstance(p, (tuple, list)) else p


def _color(c):
    if isinstance(c, str):
        from PIL import ImageColor

        c = ImageColor.getrgb(c)
    if isinstance(c, np.ndarray):
        c = c.tolist()
    if isinstance(c, (int, float)) and not is_sym(c):
        return (c & 255, c >> 8 & 255, c >> 16 & 255)
    return tuple(c)


class Pixels:
    def __init__(self, img):
        self.img = img

    def __setitem__(self, xy, c):
        self.img.putpixel(xy, c)

    def __getitem__(self, xy):
        return self.img.getpixel(xy)


class Picture:
    """An RGB image."""

    mode = "RGB"

    def __init__(self, size, color="black"):
        self.size = tuple(int(s) for s in size)
        self.base = _color(color)
        self.at = {}
        self.info = {}

    width = property(lambda self: self.size[0])
    height = property(lambda self: self.size[1])

    def _xy(self, xy):
        x, y = xy
        if x != int(x) or y != int(y):
            raise TypeError("an integer is required")
        x, y = int(x), int(y)
        w, h = self.size
        x, y = x + w if x < 0 else x, y + h if y < 0 else y
        if not (0 <= x < w and 0 <= y < h):
            raise IndexError("image index out of range")
        return x, y

    def putpixel(self, xy, c):
        self.at[self._xy(xy)] = _color(c)

    def getpixel(self, xy):
        return self.at.get(self._xy(xy), self.base)

    def load(self):
        return Pixels(self)

    def _fill(self, x0, y0, x1, y1, c):
        c = _color(c)
        for x in range(max(0, int(x0)), min(int(x1), self.size[0])):
            for y in range(max(0, int(y0)), min(int(y1), self.size[1])):
                self.at[(x, y)] = c

    def paste(self, im, box=None, mask=None):
        box = (0, 0) if box is None else tuple(box)
        if isinstance(im, Picture):
            for x in range(im.size[0]):
                for y in range(im.size[1]):
                    p = (int(box[0]) + x, int(box[1]) + y)
                    if 0 <= p[0] < self.size[0] and 0 <= p[1] < self.size[1]:
                        self.at[p] = im.getpixel((x, y))
        else:
            self._fill(*(box if len(box) == 4 else box + self.size), im)

    def copy(self):
        r = Picture(self.size, self.base)
        r.at, r.info = dict(self.at), {k: list(v) for k, v in self.info.items()}
        return r

    def __deepcopy__(self, memo):
        return self.copy()

    def convert(self, mode=None, *a, **kw):
        return self.copy()

    def crop(self, box):
        r = Picture((box[2] - box[0], box[3] - box[1]), self.base)
        for x in range(r.size[0]):
            for y in range(r.size[1]):
                r.at[(x, y)] = self.getpixel((x + box[0], y + box[1]))
        return r

    def resize(self, size, *a, **kw):
        r = Picture(size, self.base)
        for x in range(r.size[0]):
            for y in range(r.size[1]):
                r.at[(x, y)] = self.getpixel((int((x + .5) * self.size[0] / r.size[0]), int((y + .5) * self.size[1] / r.size[1])))
        return r

    def transpose(self, how):
        r = Picture(self.size, self.base)
        for (x, y), c in self.at.items():
            x = self.size[0] - 1 - x if int(how) in (0, 3) else x
            y = self.size[1] - 1 - y if int(how) in (1, 3) else y
            r.at[(x, y)] = c
        return r

    def save(self, fp, format=None, **kw):
        frames = [self.copy()]
        if kw.get("save_all"):
            frames += [f.copy() for f in kw.get("append_images", ())]
            saved.append(dict(path=os.fspath(fp), frames=frames, options={k: v for k, v in kw.items() if k in ("duration", "loop")}))
        if isinstance(fp, (str, os.PathLike)):
            with open(fp, "w") as f:
                f.write("picture")
            _files[os.path.abspath(fp)] = frames[0]
        else:
            fp.write(b"picture")
            _files[id(fp)] = frames[0]

    def seek(self, n):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Pen:
    def __init__(self, img, mode=None):
        self.img = img
        self._image = img

    def text(self, xy, text, fill=None, *a, **kw):
        self.img.info.setdefault(TEXTS, []).append((xy[0], xy[1], text, fill))

    def rectangle(self, xy, fill=None, outline=None, width=1):
        if len(xy) == 2:
            xy = tuple(xy[0]) + tuple(xy[1])
        if fill is not None:
            self.img._fill(xy[0], xy[1], xy[2] + 1, xy[3] + 1, fill)
        if outline is not None:
            for b in ((xy[0], xy[1], xy[2] + 1, xy[1] + 1), (xy[0], xy[3], xy[2] + 1, xy[3] + 1),
                      (xy[0], xy[1], xy[0] + 1, xy[3] + 1), (xy[2], xy[1], xy[2] + 1, xy[3] + 1)):
                self.img._fill(*b, outline)

    def point(self, xy, fill=None):
        pts = [xy] if len(xy) == 2 and not isinstance(xy[0], (tuple, list)) else xy
        for p in pts:
            if 0 <= p[0] < self.img.size[0] and 0 <= p[1] < self.img.size[1]:
                self.img.putpixel(p, fill)

    def line(self, xy, fill=None, width=1, joint=None):
        pts = [tuple(xy[i:i + 2]) for i in range(0, len(xy), 2)] if not isinstance(xy[0], (tuple, list)) else list(xy)
        for (a, b), (c, d) in zip(pts, pts[1:]):
            if a != c and b != d:
                from .engine import Unsupported

                raise Unsupported("slanted line")
            lo, hi = -((width - 1) // 2), width // 2
            if a == c:
                self.img._fill(a + lo, min(b, d), a + hi + 1, max(b, d) + 1, fill)
            else:
                self.img._fill(min(a, c), b + lo, max(a, c) + 1, b + hi + 1, fill)


def _open(fp, *a, **kw):
    if isinstance(fp, (str, os.PathLike)):
        with open(fp):
            pass
        return _files[os.path.abspath(fp)].copy()
    return _files[id(fp)].copy()


def _fromarray(a, mode=None):
    r = Picture((a.shape[1], a.shape[0]))
    for y in range(a.shape[0]):
        for x in range(a.shape[1]):
            r.at[(x, y)] = _color(a[y, x])
    return r


def _note_voxels(args, kw):
    args = list(args)
    filled = args[-1] if args else kw["filled"]
    colors = kw.get("facecolors", kw.get("color", kw.get("facecolor")))
    filled = np.array(filled, dtype=object) if has_sym(filled) else np.array(filled)
    out = {}
    per_cell = isinstance(colors, np.ndarray) and colors.ndim > 1 and colors.shape[:3] == filled.shape
    for p in np.ndindex(*filled.shape):
        out[p] = (filled[p], list(colors[p]) if per_cell else colors)
    voxels.append(out)


class Axes:
    def voxels(self, *a, **kw):
        _note_voxels(a, kw)
        return {}

    def get_figure(self):
        return self.figure

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **kw: None


class Fig:
    def add_subplot(self, *a, **kw):
        ax = Axes()
        ax.figure = self
        self.axes = [ax]
        return ax

    gca = add_subplot

    def savefig(self, fp, *a, **kw):
        Picture((1, 1)).save(fp)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **kw: None


def _plt_nothing(*a, **kw):
    return None


def install(symbolic):
    from PIL import Image, ImageDraw
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    if symbolic:
        Image.new = lambda mode, size, color=0: Picture(size, color)
        Image.open, Image.fromarray, ImageDraw.Draw = _open, _fromarray, Pen
        plt.figure = lambda *a, **kw: Fig()
        plt.axis = plt.close = plt.savefig = plt.legend = plt.tight_layout = _plt_nothing

        def subplots(*a, **kw):
            f = Fig()
            return f, f.add_subplot()

        plt.subplots = subplots
        return
    from mpl_toolkits.mplot3d.axes3d import Axes3D

    text, save, op, vox = ImageDraw.ImageDraw.text, Image.Image.save, Image.open, Axes3D.voxels

    def note_text(self, xy, s, fill=None, *a, **kw):
        self._image.info.setdefault(TEXTS, []).append([xy[0], xy[1], s, fill])
        return text(self, xy, s, fill, *a, **kw)

    def note_save(self, fp, format=None, **kw):
        if kw.get("save_all"):
            frames = [self] + list(kw.get("append_images", ()))
            keep = []
            for f in frames:
                c = f.convert("RGB")
                c.info = dict(f.info)
                keep.append(c)
            saved.append(dict(path=os.fspath(fp), frames=keep, options={k: v for k, v in kw.items() if k in ("duration", "loop")}))
        elif isinstance(fp, (str, os.PathLike)):
            _files[os.path.abspath(fp)] = self.info.get(TEXTS, [])
        info = self.info
        self.info = {k: v for k, v in info.items() if k != TEXTS}
        try:
            return save(self, fp, format, **kw)
        finally:
            self.info = info

    def note_open(fp, *a, **kw):
        im = op(fp, *a, **kw)
        if isinstance(fp, (str, os.PathLike)) and _files.get(os.path.abspath(fp)):
            im.info[TEXTS] = _files[os.path.abspath(fp)]
        return im

    def note_vox(self, *a, **kw):
        _note_voxels(a, kw)
        return vox(self, *a, **kw)

    ImageDraw.ImageDraw.text, Image.Image.save, Image.open, Axes3D.voxels = note_text, note_save, note_open, note_vox
