"""Questions to the helpers of planar geometry, on the image of a grid of whole numbers."""
import numpy as np
from shapely.geometry import LineString, Point
from session import encs, PVFactorsError
from pvfactors.geometry import utils as U
from pvfactors.geometry.base import BaseSurface, PVSurface, ShadeCollection, PVSegment, BaseSide
from pvfactors.geometry.timeseries import TsLineCoords, TsPointCoords, TsSurface


class Frame(object):
    def __init__(self, f):
        a = np.radians(f[0] / 10.)
        self.m = f[1] / 1000. * np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
        self.o = np.array([f[2], f[3]]) / 1000.

    def at(self, p):
        x = self.m.dot(np.array(p, dtype=float)) + self.o
        return float(x[0]), float(x[1])

    def way(self, d):
        x = self.m.dot(np.array(d, dtype=float))
        return float(x[0]), float(x[1])

    def line(self, u):
        return LineString([self.at(u[0]), self.at(u[1])])


def pieces(geom):
    """The straight pieces of a geometry, without those of no length."""
    if geom.is_empty:
        return []
    return [encs(np.array(g.coords).ravel()[[0, 1, -2, -1]]) for g in getattr(geom, 'geoms', [geom])]


def diff(op, f):
    u, v = f.line(op['u']), f.line(op['v'])
    if op['by']:
        return pieces(BaseSurface(list(u.coords)).difference(v))
    return pieces(U.difference(u, v))


def has(op, f):
    p = np.array(f.at(op['p']))
    e = np.array(f.way([op['u'][1][0] - op['u'][0][0], op['u'][1][1] - op['u'][0][1]]))
    p = p + op['off'] * 1e-9 * np.array([-e[1], e[0]]) / np.hypot(*e)
    return int(bool(U.contains(f.line(op['u']), Point(*p))))


def proj(op, f):
    x = U.projection(Point(*f.at(op['p'])), f.way(op['d']), f.line(op['u']), must_contain=bool(op['must']))
    return [] if x.is_empty else encs([x.x, x.y])


def attempt(f, *refusals):
    """What f says as 0/1 (it says nothing: 1); 0 if it refuses; 2 if it fails otherwise."""
    try:
        x = f()
        return int(bool(x)) if isinstance(x, (bool, np.bool_)) else 1
    except refusals:
        return 0
    except Exception:
        return 2


def same(op, f):
    surf = [PVSurface(None if d == [0, 0] else [f.at(p), f.at([p[0] + d[0], p[1] + d[1]])], shaded=bool(s))
            for d, s, p in zip(op['d'], op['sh'], op['at'])]
    o = [attempt(lambda: U.is_collinear(surf)), attempt(lambda: U.check_collinear(surf), PVFactorsError)]
    made = []
    o.append(attempt(lambda: made.append(ShadeCollection(surf)), PVFactorsError))
    o += [attempt(lambda: made[0].is_collinear), attempt(lambda: made[0].n_vector is not None, PVFactorsError)] if made else [-1, -1]
    side = []
    o.append(attempt(lambda: side.append(BaseSide([PVSegment(**{'shaded_collection' if s.shaded else 'illum_collection': ShadeCollection([s], shaded=s.shaded)})
                                                   for s in surf])), PVFactorsError))
    o.append(attempt(lambda: PVSegment(illum_collection=ShadeCollection([s for s in surf if not s.shaded], shaded=False),
                                       shaded_collection=ShadeCollection([s for s in surf if s.shaded], shaded=True)),
                     PVFactorsError, AssertionError))
    o.append(attempt(lambda: side[0].n_vector is not None) if side else -1)
    return o


def line(op, f):
    c = np.array(op['u'], dtype=float) / 8.                  # timestep, end, coordinate
    lc = TsLineCoords.from_array(np.moveaxis(c, 0, 2)) if op['by'] else \
        TsLineCoords(TsPointCoords(c[:, 0, 0], c[:, 0, 1]), TsPointCoords(c[:, 1, 0], c[:, 1, 1]))
    along = c[:, 1, :] - c[:, 0, :]
    # the normal is the way along turned to the left; along it goes back the other way
    ts = TsSurface(lc, n_vector=np.array([-along[:, 1], along[:, 0]]), param_names=['v'], index=7)
    ts.update_params({'v': np.array(op['v'], dtype=float)})
    out = []
    for i in range(len(c)):
        x = ts.at(i)
        out.append(dict(l=encs([ts.length[i]])[0], m=encs(ts.centroid.at(i)), hi=encs(ts.highest_point.at(i)),
                        lo=encs(ts.lowest_point.at(i)), a=encs(np.ravel(lc.at(i))), un=encs(-ts.u_vector[:, i]),
                        gone=int(x.is_empty), v=-1 if x.is_empty else int(x.get_param('v'))))
    return out, int(bool(ts.is_empty))


def answer(op):
    f = Frame(op['f'])
    if op['g'] == 'line':
        o, none = line(op, f)
        return dict(op, seen=o, none=none)
    name = {'diff': 'o', 'has': 'is', 'proj': 'x', 'same': 'ans'}[op['g']]
    return dict(op, **{name: {'diff': diff, 'has': has, 'proj': proj, 'same': same}[op['g']](op, f)})
