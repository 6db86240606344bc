"""Records what a figure shows at the moment it is saved, instead of rasterising it."""
import contextlib

import numpy as np


class Shot:
    """One saved figure: a list of axes, each with the data its artists hold."""

    def __init__(self, path, fig):
        self.path, self.axes = str(path), [Axes(a) for a in fig.axes if a.get_label() != "<colorbar>"]
        self.bars = [a for a in (Axes(x) for x in fig.axes if x.get_label() == "<colorbar>")]


class Axes:
    def __init__(self, ax):
        from matplotlib import collections as C, image as I, patches as P, quiver  # noqa: F401
        self.title, self.xlabel, self.ylabel = ax.get_title(), ax.get_xlabel(), ax.get_ylabel()
        self.texts = [t.get_text() for t in ax.texts]
        self.xlim, self.ylim = ax.get_xlim(), ax.get_ylim()
        self.xscale, self.yscale = ax.get_xscale(), ax.get_yscale()
        self.lines = [dict(x=np.array(l.get_xdata(orig=True)), y=np.array(l.get_ydata(orig=True)), label=l.get_label(), style=l.get_linestyle()) for l in ax.lines]
        self.scatters, self.meshes, self.others = [], [], []
        for c in ax.collections:
            if isinstance(c, C.QuadMesh):
                self.meshes.append(dict(data=np.ma.filled(np.ma.asarray(c.get_array(), dtype=float), np.nan).copy(), corners=np.array(c.get_coordinates()),
                                        clim=c.get_clim()))
            elif isinstance(c, C.PathCollection):
                self.scatters.append(dict(xy=np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan).copy(), label=c.get_label()))
            else:
                self.others.append(type(c).__name__)
        self.images = [dict(data=np.ma.filled(np.ma.asarray(i.get_array(), dtype=float), np.nan).copy(), extent=i.get_extent(), clim=i.get_clim(), origin=i.origin) for i in ax.images]
        self.rects = [(float(p.get_x()), float(p.get_width()), float(p.get_height())) for p in ax.patches if isinstance(p, P.Rectangle)]


@contextlib.contextmanager
def recording(write=True, stamp=False):
    """While active, every Figure.savefig appends a Shot and (optionally) writes a small placeholder file."""
    import matplotlib
    matplotlib.use("Agg", force=True)
    from matplotlib.figure import Figure
    import matplotlib.pyplot as plt
    shots, real = [], Figure.savefig

    def save(self, fname, *a, **k):
        shots.append(Shot(fname, self))
        if write:
            with open(fname, "wb") as f:
                f.write(b"png %d" % len(shots) if stamp else b"png")
    Figure.savefig = save
    try:
        yield shots
    finally:
        Figure.savefig = real
        plt.close("all")
