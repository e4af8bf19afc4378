"""A small model of the part of matplotlib that matters for what a figure shows: curves, scales, labels, grid state.
Stands in for matplotlib both in symbolic and in concrete (replay) runs; semantics follow matplotlib 3.x."""
import types


class Anything(object):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Anything()

    def __call__(self, *a, **k):
        return Anything()

    def __iter__(self):
        return iter([Anything()])

    def __getitem__(self, k):
        return Anything()


class Ax(object):
    def __init__(self):
        self.clear()

    def clear(self):
        self.curves = []
        self.xscale = self.yscale = "linear"
        self.xlabel = self.ylabel = ""
        self.gridstate = {"major": False, "minor": False}

    cla = clear

    def _curve(self, x, y, yerr, xerr, kw):
        self.curves.append({"x": x, "y": y, "yerr": yerr, "xerr": xerr, "kw": kw})
        return [Anything()]

    def plot(self, *a, **k):
        if len(a) < 2 or isinstance(a[1], str):
            return self._curve(None, a[0] if a else None, None, None, k)
        return self._curve(a[0], a[1], None, None, k)

    def errorbar(self, x, y, yerr=None, xerr=None, fmt="", **k):
        if fmt:
            k["fmt"] = fmt
        return self._curve(x, y, yerr, xerr, k)

    def scatter(self, x, y, **k):
        return self._curve(x, y, None, None, k)

    def loglog(self, *a, **k):
        self.xscale = self.yscale = "log"
        return self.plot(*a, **k)

    def semilogx(self, *a, **k):
        self.xscale = "log"
        return self.plot(*a, **k)

    def semilogy(self, *a, **k):
        self.yscale = "log"
        return self.plot(*a, **k)

    def set_xscale(self, v, **k):
        self.xscale = v

    def set_yscale(self, v, **k):
        self.yscale = v

    def set_xlabel(self, v, *a, **k):
        self.xlabel = v

    def set_ylabel(self, v, *a, **k):
        self.ylabel = v

    def get_xlabel(self):
        return self.xlabel

    def get_ylabel(self):
        return self.ylabel

    def get_xscale(self):
        return self.xscale

    def get_yscale(self):
        return self.yscale

    def set(self, **k):
        for n, v in k.items():
            getattr(self, "set_" + n)(v)

    def grid(self, visible=None, which="major", axis="both", **k):
        for w in ("major", "minor"):
            if which in (w, "both"):
                if visible is None:
                    self.gridstate[w] = True if k else not self.gridstate[w]
                else:
                    self.gridstate[w] = bool(visible)

    def minorticks_on(self):
        pass

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Anything()


class Fig(object):
    def __init__(self, axes):
        self.axes = [axes]
        self.saved = []
        self.saved_curves = []      # how many curves the figure showed when it was saved
        self.number = 0

    def add_subplot(self, *a, **k):
        return self.axes[0]

    def gca(self):
        return self.axes[0]

    subplots = add_subplot

    def savefig(self, f, *a, **k):
        self.saved.append(f)
        self.saved_curves.append(sum(len(a.curves) for a in self.axes))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Anything()


class Pyplot(types.ModuleType):
    """matplotlib.pyplot"""

    def __init__(self, name="matplotlib.pyplot"):
        types.ModuleType.__init__(self, name)
        self.reset()

    def reset(self):
        self.figs = []
        self.shown = 0

    def figure(self, num=None, *a, **k):
        for f in self.figs:
            if num is not None and (num is f or num == f.number):
                self.figs.remove(f)          # the current figure is the last one
                self.figs.append(f)
                return f
        f = Fig(Ax())
        f.number = num if num is not None else 1 + max([0] + [g.number for g in self.figs if isinstance(g.number, int)])
        self.figs.append(f)
        return f

    def sca(self, ax):
        for f in self.figs:
            if ax in f.axes:
                return self.figure(f)

    def fignum_exists(self, n):
        return any(f.number == n for f in self.figs)

    def get_fignums(self):
        return sorted(f.number for f in self.figs)

    def subplots(self, nrows=1, ncols=1, num=None, **k):
        f = self.figure(num)
        return f, f.axes[0]

    def subplot(self, *a, **k):
        return self.gca()

    def gcf(self):
        return self.figs[-1] if self.figs else self.figure()

    def gca(self):
        return self.gcf().axes[0]

    axes = gca

    def show(self, *a, **k):
        self.shown += 1

    def savefig(self, f, *a, **k):
        self.gcf().savefig(f)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        ax = {"xlabel": "set_xlabel", "ylabel": "set_ylabel", "xscale": "set_xscale", "yscale": "set_yscale"}.get(n, n)
        if hasattr(Ax, ax):
            return getattr(self.gca(), ax)
        return Anything()


def build():
    m = types.ModuleType("matplotlib")
    m.__path__ = []
    m.use = lambda *a, **k: None
    m.rcParams = {}
    m.pyplot = Pyplot()
    return {"matplotlib": m, "matplotlib.pyplot": m.pyplot}
