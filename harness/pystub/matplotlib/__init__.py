"""A stand-in for matplotlib which records what is drawn; written to $DRAWN at the end."""
import atexit
import json
import os
import numpy as np

DRAWN = []          # figures: dict(drawn=[...], saved=[...])
_current = []


def use(*a, **k):
    pass


class Anything:
    """whatever is asked of it, it does nothing"""

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Anything()

    def __call__(self, *a, **k):
        return Anything()

    def __iter__(self):
        return iter(())


def _list(x):
    return np.asarray(x, float).reshape(-1).tolist()


class Axes(Anything):
    def __init__(self, fig):
        self.__dict__["fig"] = fig
        self.__dict__["pts"] = []
        self.__dict__["lims"] = {}

    def _add(self, kind, xs, ys, zs):
        n = max(len(_list(q)) for q in (xs, ys, zs))
        q = [(_list(v) * n)[:n] if len(_list(v)) == 1 else _list(v) for v in (xs, ys, zs)]
        self.pts.extend(zip(*q))
        self.fig["drawn"].append(dict(kind=kind, x=q[0], y=q[1], z=q[2]))
        return [Anything()]

    def plot(self, xs, ys=None, *args, **k):
        zs = k.get("zs", args[0] if args and not isinstance(args[0], str) else 0)
        return self._add("line", xs, ys, zs)

    plot3D = plot

    def scatter(self, xs, ys, zs=0, *a, **k):
        self._add("points", k.get("xs", xs), k.get("ys", ys), zs)
        return Anything()

    scatter3D = scatter

    def bar(self, x, height, *a, **k):
        return self._add("bar", x, height, 0)[0]

    def _lim(self, i):
        v = [p[i] for p in self.pts] or [0.0, 1.0]
        return self.lims.get(i, (min(v), max(v)))


for _i, _d in enumerate("xyz"):
    setattr(Axes, "get_%slim" % _d, lambda self, i=_i: self._lim(i))
    setattr(Axes, "get_%slim3d" % _d, lambda self, i=_i: self._lim(i))
    setattr(Axes, "set_%slim" % _d, lambda self, a=None, b=None, *r, i=_i, **k: self.lims.__setitem__(i, a if b is None else (a, b)))
    setattr(Axes, "set_%slim3d" % _d, getattr(Axes, "set_%slim" % _d))


class Figure(Anything):
    def __init__(self):
        r = dict(drawn=[], saved=[])
        DRAWN.append(r)
        self.__dict__["rec"] = r
        self.__dict__["axes"] = []

    def add_subplot(self, *a, **k):
        self.axes.append(Axes(self.rec))
        return self.axes[-1]

    def add_axes(self, *a, **k):
        return self.add_subplot()

    def gca(self, *a, **k):
        return self.axes[-1] if self.axes else self.add_subplot()

    def subplots(self, *a, **k):
        return self.add_subplot()

    def savefig(self, path, *a, **k):
        self.rec["saved"].append(os.path.abspath(str(path)))


@atexit.register
def _write():
    if os.environ.get("DRAWN"):
        with open(os.environ["DRAWN"], "w") as o:
            json.dump(DRAWN, o)
