"""Records what is drawn: outermost calls of the drawing methods of axes."""
import contextlib
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.axes import Axes
from mpl_toolkits.mplot3d import Axes3D
import numpy as np

NAMES = ['plot', 'scatter', 'tricontourf', 'pcolormesh', 'quiver',
         'plot_trisurf', 'plot_surface', 'text']


class Record:
    def __init__(self):
        self.calls = []
        self.depth = 0

    def of(self, name):
        return [c for c in self.calls if c['name'] == name and
                c['ax'].get_label() != '<colorbar>']


def copied(v):
    return np.array(v, copy=True) if isinstance(v, np.ndarray) else v


@contextlib.contextmanager
def record():
    """Figures made inside are closed at the end."""
    rec = Record()
    saved = []
    for cls in (Axes, Axes3D):
        for n in NAMES:
            if n not in vars(cls):
                continue
            f = vars(cls)[n]
            saved.append((cls, n, f))

            def wrap(self, *a, _f=f, _n=n, **k):
                rec.depth += 1
                try:
                    a2 = [copied(v) for v in a]
                    k2 = {x: copied(v) for x, v in k.items()}
                    r = _f(self, *a, **k)
                finally:
                    rec.depth -= 1
                if rec.depth == 0:
                    rec.calls.append(dict(name=_n, ax=self, args=a2, kw=k2,
                                          result=r))
                return r
            setattr(cls, n, wrap)
    try:
        yield rec
    finally:
        for cls, n, f in saved:
            setattr(cls, n, f)
        plt.close('all')


def points3(col):
    return np.array([np.ma.getdata(v) for v in col._offsets3d]).T
