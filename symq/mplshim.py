"""Stands in for matplotlib: records what the library hands to it.

The renderer itself is C code behind matplotlib and no part of what is decided
(C91); the checks of C26 and C27 read what reaches this boundary."""
import sys
import types


class Soft(object):
    """Accepts anything."""

    def __init__(self, *a, **k):
        pass

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Soft()

    def __call__(self, *a, **k):
        return Soft()


def colors(c):
    """A copy, as matplotlib converts colours when they are set."""
    if c is None:
        return None
    return [[y for y in x] if hasattr(x, '__len__') or hasattr(x, 'shape') else x for x in c]


class LineCollection(Soft):
    def __init__(self, segments, **kw):
        self.segments = [tuple(tuple(p) for p in s) for s in segments]
        self.kw = kw
        self.set_color(kw.get('colors'))

    def set_color(self, c):
        self.colors = colors(c)

    set_colors = set_edgecolor = set_edgecolors = set_color


class Scatter(Soft):
    def __init__(self, x, y, s=None, c=None, **kw):
        self.x, self.y, self.s = [v for v in x], [v for v in y], s
        self.kw = kw
        self.face = colors(c)
        self.edge = colors(kw.get('edgecolors'))

    def set_edgecolors(self, c):
        self.edge = colors(c)

    def set_facecolors(self, c):
        self.face = colors(c)

    set_edgecolor, set_facecolor = set_edgecolors, set_facecolors


class Axes(Soft):
    def __init__(self):
        self.lines = self.scatt = self.background = None

    def add_collection(self, c, **kw):
        self.lines = c
        return c

    def scatter(self, *a, **k):
        self.scatt = Scatter(*a, **k)
        return self.scatt

    def set_facecolor(self, c):
        self.background = c


class Figure(Soft):
    def __init__(self, **kw):
        self.kw = kw
        self.ax = Axes()
        self.saved = []

    def gca(self, **k):
        return self.ax

    def add_subplot(self, *a, **k):
        return self.ax

    def savefig(self, *a, **k):
        self.saved.append((a, k))


class FuncAnimation(Soft):
    def __init__(self, fig, func, *a, **kw):
        self.fig, self.func, self.kw = fig, func, kw
        FIGURES[-1].animation = self

    def save(self, *a, **k):
        play(self)


FIGURES = []
SHOWN = [0]
FRAMES = [0, None]       # how many frames are shown, and what is called after each


def play(animation):
    for i in range(FRAMES[0]):
        animation.func(i)
        if FRAMES[1] is not None:
            FRAMES[1](i, animation.fig.ax)


def figure(*a, **k):
    f = Figure(**k)
    f.animation = None
    FIGURES.append(f)
    return f


def show(*a, **k):
    SHOWN[0] += 1
    if FIGURES and FIGURES[-1].animation is not None:
        play(FIGURES[-1].animation)


def install():
    mods = {}
    for n in ('matplotlib', 'matplotlib.pyplot', 'matplotlib.animation', 'matplotlib.collections'):
        m = types.ModuleType(n)
        m.__getattr__ = lambda name: (_ for _ in ()).throw(AttributeError(name)) if name.startswith('__') else Soft()
        mods[n] = m
        sys.modules[n] = m
    mods['matplotlib'].__path__ = []
    p = mods['matplotlib.pyplot']
    p.figure, p.show = figure, show
    p.gca = lambda *a, **k: (FIGURES[-1] if FIGURES else figure()).ax
    p.subplots = lambda *a, **k: (lambda f: (f, f.ax))(figure(**k))
    for n in ('pyplot', 'animation', 'collections'):
        setattr(mods['matplotlib'], n, mods['matplotlib.' + n])
    mods['matplotlib.animation'].FuncAnimation = FuncAnimation
    mods['matplotlib.collections'].LineCollection = LineCollection
