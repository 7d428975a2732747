from . import Anything, Axes, Figure, _current


def figure(*a, **k):
    _current.append(Figure())
    return _current[-1]


def gcf():
    return _current[-1] if _current else figure()


def gca(*a, **k):
    return gcf().gca()


def subplots(*a, **k):
    f = figure()
    return f, f.add_subplot()


def axes(*a, **k):
    return gcf().add_subplot()


def subplot(*a, **k):
    return gcf().add_subplot()


def savefig(path, *a, **k):
    gcf().savefig(path)


def close(*a, **k):
    if _current:
        _current.pop()


def bar(*a, **k):
    return gca().bar(*a, **k)


def plot(*a, **k):
    return gca().plot(*a, **k)


def scatter(*a, **k):
    return gca().scatter(*a, **k)


def __getattr__(k):
    if k.startswith("__"):
        raise AttributeError(k)
    return Anything()
