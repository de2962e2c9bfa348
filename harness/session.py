"""Drives the real pvfactors code through its public API and projects what a user can
observe onto the vocabulary of the TLA+ specification (canonical surface order)."""
import os
import sys
import time
import warnings
import zlib
import datetime as dt

REPO = os.environ.get('PVF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

import numpy as np                                   # noqa: E402
import pandas as pd                                  # noqa: E402
import pvfactors                                     # noqa: E402
from pvfactors.geometry.pvarray import OrderedPVArray  # noqa: E402
from pvfactors.engine import PVEngine                # noqa: E402
from pvfactors.irradiance import HybridPerezOrdered, IsotropicOrdered  # noqa: E402
from pvfactors.viewfactors.calculator import VFCalculator  # noqa: E402
from pvfactors.config import COLOR_DIC                # noqa: E402
from pvfactors import PVFactorsError               # noqa: E402
from pvfactors.irradiance.utils import (              # noqa: E402
    calculate_circumsolar_shading, calculate_horizon_band_shading, perez_diffuse_luminance,
    breakup_df_inputs, gaussian)
from pvfactors.viewfactors.aoimethods import faoi_fn_from_pvlib_sandia  # noqa: E402
from realenc import enc, encs, encm                  # noqa: E402

assert os.path.realpath(pvfactors.__file__).startswith(os.path.realpath(REPO)), pvfactors.__file__


# ---------------------------------------------------------------- inputs
def short(kw, defaults, key=''):
    """The same arguments without some of those that have their documented default value."""
    def coin(k):
        return zlib.crc32(repr((key, k, sorted((a, b) for a, b in kw.items() if isinstance(b, (int, float, str))))).encode()) & 1
    return {k: v for k, v in kw.items() if not (k in defaults and type(v) is type(defaults[k]) and v == defaults[k] and coin(k))}


def lay_params(lay):
    cut = {i: {'front': int(c[0]), 'back': int(c[1])} for i, c in enumerate(lay['cut'])
           if list(c) != [1, 1] or lay.get('cutall')}
    cut = {i: short(c, {'front': 1, 'back': 1}, (i, lay['w'])) for i, c in cut.items()}
    p = dict(axis_azimuth=lay['axis'] / 10., gcr=lay['gcr'] / 1000., pvrow_height=lay['h'] / 1000.,
             n_pvrows=lay['n'], pvrow_width=lay['w'] / 1000.)
    if cut:
        p['cut'] = cut
    return p


SANDIA = ['Advent_Solar_AS160___2006_', 'BP_Solar_MSX110__2003__E__', 'SunPower_SPR_220__CS____2006_',
          'LG_LG290N1C_G3__2013_', 'SolarWorld_Sunmodule_250_Poly__2013_', 'Silevo_Triex_U300_Black__2014_']
_SANDIA_FN = {}


def sandia(c):
    """The loss function of the code for the module c of the list."""
    if c not in _SANDIA_FN:
        _SANDIA_FN[c] = faoi_fn_from_pvlib_sandia(SANDIA[c - 1001])
    return _SANDIA_FN[c]


def faoi_value(c, angles):
    """The faoi family of the specification: f(a) = 1 - (c/1000) ((a - 90) / 90)^2 or that of a Sandia module."""
    if c > 1000:
        return sandia(c)(angles)
    a = np.asarray(angles, dtype=float)
    return 1. - (c / 1000.) * ((a - 90.) / 90.) ** 2


def faoi(c):
    if c > 1000:
        return sandia(c)

    def fn(angles):
        return faoi_value(c, angles)
    return fn


class FaoiObject(object):
    """An object with a faoi method (and, unlike a local function, one that can be pickled)."""
    def __init__(self, c):
        self.c = c

    def faoi(self, angles):
        return faoi_value(self.c, angles)


def faoi_arg(c, obj=False):
    if c < 0:
        return None
    return FaoiObject(c) if obj else faoi(c)


def losses(op):
    """Values of a loss function at angles given in some form, one by one or together."""
    a = [x / 100. for x in op['a']]
    fn = faoi(op['c'])
    if op['form'] == 'number':
        return [float(fn(x)) for x in a]
    if op['form'] == 'series':
        v = fn(pd.Series(a))
    else:
        v = fn(a if op['form'] == 'list' else np.array(a))
    v = np.asarray(v)
    assert v.shape == (len(a),)
    return [float(x) for x in v]


MODEL_DEFAULTS = dict(rho_front=0.01, rho_back=0.03, module_transparency=0., module_spacing_ratio=0., faoi_fn_front=None,
                      faoi_fn_back=None, horizon_band_angle=6.5)
VF_DEFAULTS = dict(faoi_fn_front=None, faoi_fn_back=None, n_aoi_integral_sections=300)


def reflectivity(v):
    """In thousandths; above 10000, in hundredthousandths."""
    return (v - 10000) / 100000. if v > 10000 else v / 1000.


def model_params_in_full(mod):
    kw = {}
    if mod.get('rf', 10) >= 0:
        kw['rho_front'] = reflectivity(mod.get('rf', 10))
    else:
        kw['rho_front'] = None
    if mod.get('rb', 30) >= 0:
        kw['rho_back'] = reflectivity(mod.get('rb', 30))
    else:
        kw['rho_back'] = None
    kw['module_transparency'] = mod.get('tr', 0) / 1000.
    kw['module_spacing_ratio'] = mod.get('sp', 0) / 1000.
    kw['faoi_fn_front'] = faoi_arg(mod.get('ff', -1), mod.get('fobj', 0) == 1)
    kw['faoi_fn_back'] = faoi_arg(mod.get('fb', -1), mod.get('fobj', 0) == 1)
    if mod['kind'] == 'hyb':
        kw['horizon_band_angle'] = mod.get('hba', 65) / 10.
    return kw


def model_params(mod):
    return short(model_params_in_full(mod), MODEL_DEFAULTS)


def model_class(mod):
    return HybridPerezOrdered if mod['kind'] == 'hyb' else IsotropicOrdered


def make_model(mod):
    return model_class(mod)(**model_params(mod))


def vf_params(mod):
    return short(dict(faoi_fn_front=faoi_arg(mod['vff'], mod.get('fobj', 0) == 1),
                faoi_fn_back=faoi_arg(mod['vfb'], mod.get('fobj', 0) == 1),
                n_aoi_integral_sections=mod.get('nsec', 300)), VF_DEFAULTS)


def engine_parts(mod, key=''):
    """Model and calculator for an engine; those with all values at their defaults may be left out."""
    kw = dict(irradiance_model=make_model(mod), vf_calculator=make_vf(mod))
    plain = all(model_params_in_full(mod)[k] == v for k, v in MODEL_DEFAULTS.items()) if mod['kind'] == 'hyb' else False
    if plain and zlib.crc32(repr(key).encode()) & 1:
        kw.pop('irradiance_model')
    if mod['vff'] < 0 and mod['vfb'] < 0 and zlib.crc32(repr(key).encode()) & 2:
        kw.pop('vf_calculator')
    return kw


def make_vf(mod):
    return VFCalculator(**vf_params(mod))


def timestamp(r):
    return dt.datetime(2019, 1, 1) + dt.timedelta(days=r['doy'] - 1, minutes=r.get('min', 720))


def columns(rows):
    """The input columns of the fit call, as numpy arrays."""
    def light(v):
        return float('nan') if v == -9999 else float(v)

    c = {
        'timestamps': [timestamp(r) for r in rows],
        'DNI': np.array([light(r['dni']) for r in rows]),
        'DHI': np.array([light(r['dhi']) for r in rows]),
        'solar_zenith': np.array([r['z'] / 10. for r in rows]),
        'solar_azimuth': np.array([r['a'] / 10. for r in rows]),
        'surface_tilt': np.array([r['t'] / 10. for r in rows]),
        'surface_azimuth': np.array([r['s'] / 10. for r in rows]),
        'albedo': np.array([r['alb'] / 1000. for r in rows]),
    }
    if all(r.get('ghi', -1) >= 0 for r in rows) and rows:
        c['ghi'] = np.array([float(r['ghi']) for r in rows])
    else:
        c['ghi'] = None
    return c


def present(c, form):
    """The same columns in another form.  `form` is a list of words."""
    c = dict(c)
    n = len(c['DNI'])
    num_cols = [k for k in c if k != 'timestamps' and c[k] is not None]
    if 'ghi' in form and c['ghi'] is None:            # explicit, equal to what would be derived
        c['ghi'] = c['DNI'] * np.cos(np.radians(c['solar_zenith'])) + c['DHI']
        num_cols.append('ghi')
    if 'az' in form:                                  # azimuths modulo 360
        c['solar_azimuth'] = c['solar_azimuth'] + 360. * (np.arange(n) % 3 - 1)
        c['surface_azimuth'] = c['surface_azimuth'] - 360. * (np.arange(n) % 2)
    if 'alb' in form and len(set(c['albedo'])) == 1:  # constant albedo as a scalar
        c['albedo'] = float(c['albedo'][0])
        num_cols.remove('albedo')
    stamps = c['timestamps']
    if 'dti' in form or 'tser' in form:
        c['timestamps'] = pd.DatetimeIndex(stamps)
    if 'utc' in form:
        c['timestamps'] = pd.DatetimeIndex(stamps).tz_localize('UTC')
    for word, hours in (('east', 11), ('west', -10)):  # the day at the site, not in Greenwich
        if word in form:
            c['timestamps'] = pd.DatetimeIndex(stamps).tz_localize(dt.timezone(dt.timedelta(hours=hours)))
    if 'aware' in form:
        c['timestamps'] = [s.replace(tzinfo=dt.timezone(dt.timedelta(hours=9))) for s in stamps]
    if 'float' in form:
        for k in num_cols:
            c[k] = float(c[k][0])
    elif 'scalar' in form and n == 1:
        c['timestamps'] = stamps[0]
        for k in num_cols:
            x = float(c[k][0])
            if 'np' in form:                          # elements of arrays, of whole numbers where they are whole
                x = np.int64(x) if x == int(x) else np.float64(x)
            c[k] = x
    elif 'int' in form:                               # whole numbers
        for k in num_cols:
            if all(x == int(x) for x in c[k]):
                c[k] = [int(x) for x in c[k]] if 'list' in form else c[k].astype(int)
    elif 'list' in form or 'tuple' in form:
        for k in num_cols:
            c[k] = (list if 'list' in form else tuple)(float(x) for x in c[k])
    elif 'ser' in form:                               # columns of a table with the default index
        for k in num_cols:
            c[k] = pd.Series(c[k])
    elif 'tser' in form:                              # ... indexed by time
        for k in num_cols:
            c[k] = pd.Series(c[k], index=c['timestamps'])
    elif 'xser' in form:                              # ... a slice or a sorted table: other labels
        idx = (np.arange(n) * 7 + 3)[::-1]
        for k in num_cols:
            c[k] = pd.Series(c[k], index=idx)
    elif 'pser' in form:                              # ... a permutation of the labels
        idx = np.roll(np.arange(n), 1)
        for k in num_cols:
            c[k] = pd.Series(c[k], index=idx)
    elif 'ro' in form:                                # arrays that cannot be written
        for k in num_cols:
            c[k] = c[k].copy()
            c[k].setflags(write=False)
    return c


def unchanged(a, b):
    """Is the caller's object a still equal to its copy b?"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(unchanged(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(unchanged(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
    if isinstance(a, (pd.Series, pd.Index)):
        return a.equals(b) and (not isinstance(a, pd.Series) or (a.index.equals(b.index) and a.name == b.name))
    if isinstance(a, pd.DataFrame):
        return a.equals(b) and a.index.equals(b.index) and a.columns.equals(b.columns)
    if isinstance(a, FaoiObject):
        return vars(a) == vars(b)
    return a is b or a == b


FIT_ORDER = ['timestamps', 'DNI', 'DHI', 'solar_zenith', 'solar_azimuth', 'surface_tilt',
             'surface_azimuth', 'albedo']


ANGLES = ['solar_zenith', 'solar_azimuth', 'surface_tilt', 'surface_azimuth']


def fit_array(pa, c):
    """Fit the array alone, without engine."""
    pa.fit(*[c[k] for k in ANGLES])


def array_of_scalars(pa, row, lend):
    c = columns([row])
    p = dict(axis_azimuth=pa.axis_azimuth, gcr=pa.gcr, pvrow_height=pa.height, n_pvrows=pa.n_pvrows, pvrow_width=pa.width,
             cut=pa.cut, **{k: float(c[k][0]) for k in ANGLES})
    return OrderedPVArray.fit_from_dict_of_scalars(lend('scalars' + str(row), lambda: p))


def fit_engine(eng, c):
    eng.fit(*[c[k] for k in FIT_ORDER], ghi=c['ghi'])


# ---------------------------------------------------------------- projection
def handles(pa):
    """[(id, ts_surface)] in the specification's canonical surface order."""
    out = []
    for k, el in enumerate(pa.ts_ground.shadow_elements):
        for z, s in enumerate(el.surface_list):
            out.append((('gs', k + 1, z + 1, 0, 1), s))
    for k, el in enumerate(pa.ts_ground.illum_elements):
        for z, s in enumerate(el.surface_list):
            out.append((('gi', k + 1, z + 1, 0, 0), s))
    for i, row in enumerate(pa.ts_pvrows):
        for sd, side in ((1, row.front), (2, row.back)):
            for j, seg in enumerate(side.list_segments):
                for s in seg.illum.list_ts_surfaces:
                    out.append((('pv', i + 1, sd, j + 1, 0), s))
                for s in seg.shaded.list_ts_surfaces:
                    out.append((('pv', i + 1, sd, j + 1, 1), s))
    return out


def ids_of(hs):
    return [list(i) for i, _ in hs]


def val(v, t):
    """Value at timestep t of a scalar or 1-d result."""
    if v is None:
        return None
    a = np.asarray(v, dtype=float)
    if a.ndim == 0:
        return float(a)
    return float(a[t])


def geo_at(hs, t):
    out = []
    for _, s in hs:
        out.append(encs([val(s.b1.x, t), val(s.b1.y, t), val(s.b2.x, t), val(s.b2.y, t), val(s.length, t)]))
    return out


def matrix_at(m, hs, t):
    """Matrix at t permuted to canonical order, sky last."""
    idx = [s.index for _, s in hs] + [m.shape[0] - 1]
    return encm(np.asarray(m)[np.ix_(idx, idx)][:, :, t] if np.asarray(m).ndim == 3 else np.asarray(m)[np.ix_(idx, idx)])


def param_at(hs, name, t):
    return [enc(val(s.get_param(name), t)) for _, s in hs]


FIT_PARAMS = ['rho', 'inv_rho', 'direct', 'circumsolar', 'horizon', 'total_perez', 'direct_absorbed',
              'circumsolar_absorbed', 'horizon_absorbed', 'horizon_unshaded', 'horizon_shd_pct']
VFS = ['to_gnd_shaded', 'to_gnd_illum', 'to_gnd_total', 'to_pvrow_total', 'to_pvrow_shaded', 'to_pvrow_illum', 'to_sky']
TERMS = ['reflection_gnd_shaded', 'reflection_gnd_illum', 'reflection_pvrow_shaded', 'reflection_pvrow_illum', 'sky_term']


def has(s, *names):
    return all(s.params.get(n) is not None for n in names)


def vec(pa, hs, t, lean=False):
    """Everything observable at timestep t, for comparison with other observations (module Memo)."""
    v = {'len': [enc(val(s.length, t)) for _, s in hs]}
    fit = []
    if not lean:
        up = next(val(s.b1.y, t) for i, s in hs if i[0] != 'pv')   # heights above the ground
        for _, s in hs:
            fit += [val(s.b1.x, t), val(s.b1.y, t) - up, val(s.b2.x, t), val(s.b2.y, t) - up]
            fit += [val(s.params[n], t) for n in FIT_PARAMS if has(s, n)]
        for row in pa.ts_pvrows:
            fit += [val(row.front.shaded_length, t), val(row.back.shaded_length, t)]
        fit += [float(bool(np.asarray(pa.has_direct_shading)[t])), val(pa.rotation_vec, t),
                val(pa.ts_ground.length, t), val(pa.ts_ground.shaded_length, t)]
    v['fit'] = encs(fit)
    v['full'] = [encs([val(s.params['q0'], t), val(s.params['qabs'], t)]) if has(s, 'q0', 'qabs') else [] for _, s in hs]
    v['res'] = [encs([val(s.params[n], t) for n in ('qinc', 'isotropic', 'reflection')])
                if has(s, 'qinc', 'isotropic', 'reflection') else [] for _, s in hs]
    fast = []
    for _, s in hs:
        if has(s, 'view_factors'):
            vf = s.params['view_factors']
            fast.append(encs([val(vf[k], t) for k in VFS] + [val(x, t) for x in vf['to_each_gnd_shadow']]
                             + [val(s.params[k], t) for k in TERMS]))
        else:
            fast.append([])
    v['fast'] = fast
    for k, m in (('F', pa.ts_vf_matrix), ('A', pa.ts_vf_aoi_matrix)):
        ok = not lean and m is not None and m.shape[2] > t and m.shape[0] == len(hs) + 1
        v[k] = matrix_at(m, hs, t) if ok else [[] for _ in hs]
    return v


def carried(hs):
    """The results each surface carries."""
    names = ['q0', 'qinc', 'isotropic', 'reflection', 'qabs', 'view_factors']
    return [[n for n in names if s.params.get(n) is not None] for _, s in hs]


def numbers(part, surfaces):
    """The surface numbers a part lists, and those of its surfaces."""
    return {'l': [int(k) for k in part.surface_indices], 's': [int(s.index) for s in surfaces]}


# Classes of the caller's own, in place of the default ones; FITTED tells which of them have been put to work.
FITTED = set()


def marking(number, base):
    class Own(base):
        def fit(self, *args, **kwargs):
            FITTED.add(number)
            return super(Own, self).fit(*args, **kwargs)
    return Own


OWN = [('cls_pvarray', marking(1, OrderedPVArray)), ('cls_engine', marking(2, PVEngine)), ('cls_vf', marking(3, VFCalculator))]
OWN_MODELS = {'hyb': marking(4, HybridPerezOrdered), 'iso': marking(4, IsotropicOrdered)}
for _i, _c in enumerate([c for _, c in OWN] + list(OWN_MODELS.values())):     # (known by name, for workers)
    _c.__name__ = _c.__qualname__ = 'Own%d' % _i
    globals()['Own%d' % _i] = _c


def own_classes(op):
    kw = {name: c for i, (name, c) in enumerate(OWN) if i + 1 in op['own']}
    kw['cls_irradiance'] = OWN_MODELS[op['mod']['kind']] if 4 in op['own'] else model_class(op['mod'])
    FITTED.clear()
    return kw


class VecBuilder(object):
    """Report builder for the functional interface: one entry per timestep, in order."""
    @staticmethod
    def build(pvarray):
        hs = handles(pvarray)
        n = len(np.asarray(pvarray.rotation_vec))
        own = sorted(FITTED)
        FITTED.clear()
        return [dict(vec(pvarray, hs, t), has=carried(hs), own=own) for t in range(n)]

    @staticmethod
    def merge(reports):
        return [v for r in reports for v in r]


class SlowBuilder(VecBuilder):
    """The same, as an object, taking its time: a delay in 1/100 s per timestep, known by its rotation."""
    def __init__(self, rotations, delays):
        self.delays = dict(zip(rotations, delays))

    def build(self, pvarray):
        for r in np.asarray(pvarray.rotation_vec):
            time.sleep(self.delays.get(round(abs(float(r)), 6), 0) / 100.)
        return VecBuilder.build(pvarray)


# ---------------------------------------------------------------- parts of the array
def target(pa, tg):
    """The object a target <<kind, a, b, c, d>> of the specification stands for."""
    kind, a, b, c, d = tg
    if kind == 'all':
        return pa
    if kind in ('gnd', 'gill', 'gsh'):
        class Ground(object):
            update_params = {'gnd': pa.ts_ground.update_params, 'gill': pa.ts_ground.update_illum_params,
                             'gsh': pa.ts_ground.update_shaded_params}[kind]
        return Ground
    if kind == 'gcol':
        return pa.ts_ground.shaded if d else pa.ts_ground.illum
    if kind == 'gs':
        return pa.ts_ground.shadow_elements[a - 1].surface_list[b - 1]
    if kind == 'gi':
        return pa.ts_ground.illum_elements[a - 1].surface_list[b - 1]
    row = pa.ts_pvrows[a - 1]
    if kind == 'row':
        return row
    side = row.front if b == 1 else row.back
    if kind == 'side':
        return side
    seg = side.list_segments[c - 1]
    if kind == 'seg':
        return seg
    col = seg.shaded if d else seg.illum
    return col if kind == 'col' else col.list_ts_surfaces[0]


def parts(pa):
    """[(target, object)] for all parts that report averages."""
    out = [(['gnd', 0, 0, 0, 0], pa.ts_ground), (['gcol', 0, 0, 0, 0], pa.ts_ground.illum),
           (['gcol', 0, 0, 0, 1], pa.ts_ground.shaded)]
    for k, e in enumerate(pa.ts_ground.illum_elements):
        out.append((['gel', k + 1, 0, 0, 0], e))
    for k, e in enumerate(pa.ts_ground.shadow_elements):
        out.append((['gel', k + 1, 0, 0, 1], e))
    for i, row in enumerate(pa.ts_pvrows):
        for sd, side in ((1, row.front), (2, row.back)):
            out.append((['side', i + 1, sd, 0, 0], side))
            for j, seg in enumerate(side.list_segments):
                out.append((['seg', i + 1, sd, j + 1, 0], seg))
                out.append((['col', i + 1, sd, j + 1, 0], seg.illum))
                out.append((['col', i + 1, sd, j + 1, 1], seg.shaded))
    return out


def snapshot_parts(pa, t):
    out = []
    for i, ts in enumerate(pa.ts_pvrows):
        row = ts.at(t)
        for sd, side in ((1, row.front), (2, row.back)):
            out.append((['side', i + 1, sd, 0, 0], side))
            for j, seg in enumerate(side.list_segments):
                out.append((['seg', i + 1, sd, j + 1, 0], seg))
                out.append((['col', i + 1, sd, j + 1, 0], seg.illum_collection))
                out.append((['col', i + 1, sd, j + 1, 1], seg.shaded_collection))
    out.append((['gnd', 0, 0, 0, 0], pa.ts_ground.at(t, merge_if_flag_overlap=False)))
    return out


def opt(v, t):
    """A value that may be missing: [] or [the encoded real]."""
    return [] if v is None else [enc(val(v, t))]


def surfaces_of(part):
    for name in ('all_ts_surfaces', 'list_ts_surfaces', 'all_surfaces', 'list_surfaces'):
        if hasattr(part, name):
            return getattr(part, name)
    raise AssertionError(part)


def aggregate(c, part, names, t, static=False):
    """What a part reports: its length, and per parameter its weighted average and weighted sum."""
    ln = float(part.length) if static else val(part.length, t)
    out = {'c': c, 'len': enc(ln), 'w': {}}
    surfs = surfaces_of(part)
    for n in names:
        # averages of parameters that some surface does not have are not defined
        if ln is None or not ln > 1e-6 or not surfs or any(s.params.get(n) is None for s in surfs):
            out['w'][n] = []
        else:
            out['w'][n] = [enc(val(part.get_param_weighted(n), t if not static else 0)),
                           enc(val(part.get_param_ww(n), t if not static else 0))]
    return out


def hand_side(segs):
    from pvfactors.geometry.timeseries import TsSurface, TsLineCoords, TsPointCoords, TsShadeCollection
    from pvfactors.geometry.pvrow import TsSide, TsSegment
    x = np.zeros(2)
    zero = np.zeros(2)
    parts_, list_segments = [], []
    for j, seg in enumerate(segs):
        start, cols = x, []
        for sh in (0, 1):
            surfs = []
            for q in seg[sh]:
                nx = x + np.array(q[0], dtype=float) / 100.
                s = TsSurface(TsLineCoords(TsPointCoords(x, zero), TsPointCoords(nx, zero)), shaded=bool(sh),
                              n_vector=np.array([zero, zero + 1.]), param_names=['u1'])
                s.update_params({'u1': np.array(q[1], dtype=float) / 10.})
                surfs.append(s)
                x = nx
            cols.append(TsShadeCollection(surfs, bool(sh)))
            parts_.append((['hcol', 0, 0, j + 1, sh], cols[-1]))
        ts = TsSegment(TsLineCoords(TsPointCoords(start, zero), TsPointCoords(x, zero)), cols[0], cols[1], index=j)
        list_segments.append(ts)
        parts_.append((['hseg', 0, 0, j + 1, 0], ts))
    side = TsSide(list_segments, n_vector=np.array([zero, zero + 1.]))
    return side, parts_ + [(['hside', 0, 0, 0, 0], side)]


def ground_by_hand(op):
    from pvfactors.geometry.pvground import TsGround
    from pvfactors.geometry.timeseries import TsPointCoords
    xs, u = op['x'], 100. / op['G']
    T, n, c = len(xs), len(xs[0]['sh']), len(xs[0]['cut'])
    y = op['y'] * 0.5 * np.ones(T)
    coords = np.array([[[[u * x['sh'][i][k] for x in xs], y] for k in (0, 1)] for i in range(n)], dtype=float)
    cuts = [TsPointCoords(np.array([u * x['cut'][i] for x in xs]), y) for i in range(c)]
    kw = dict(flag_overlap=np.array([bool(x['ov']) for x in xs])) if op['flag'] else {}
    g = TsGround.from_ordered_shadows_coords(coords, cut_point_coords=cuts, y_ground=op['y'] * 0.5, param_names=['a'], **kw)
    by, out = {}, []
    for kd, els in (('gs', g.shadow_elements), ('gi', g.illum_elements)):
        for i, el in enumerate(els):
            for z, s in enumerate(el.all_ts_surfaces):
                by[id(s)] = [kd, i + 1, z + 1]
    sides = [[[by[id(s)] for s in g.ts_surfaces_side_of_cut_point(side, k)] for side in ('left', 'right')] for k in range(c)]
    beside = [[q(k) for q in (g.shadow_coords_left_of_cut_point, g.shadow_coords_right_of_cut_point)] for k in range(c)]
    g.update_shaded_params({'a': 3.})
    g.update_illum_params({'a': 5.})
    mean = [g.get_param_weighted('a'), g.get_param_ww('a')]
    for t in range(T):
        def ends(els):
            return [[encs([val(s.b1.x, t), val(s.b2.x, t)]) for s in el.all_ts_surfaces] for el in els]
        shown = []
        for merge in (True, False):
            for cut in (True, False):
                seg, = g.at(t, merge_if_flag_overlap=merge, with_cut_points=cut).list_segments
                shown.append([[encs(sorted([s.coords[0][0], s.coords[-1][0]])) for s in col.list_surfaces]
                              for col in (seg.shaded_collection, seg.illum_collection)])
        out.append({'gs': ends(g.shadow_elements), 'gi': ends(g.illum_elements), 'sides': sides, 'shown': shown,
                    'len': encs([val(g.length, t), val(g.shaded_length, t)]), 'mean': encs([val(m, t) for m in mean]),
                    'n': [len(g.non_point_shaded_surfaces_at(t)), len(g.non_point_illum_surfaces_at(t)), len(g.non_point_surfaces_at(t)),
                          int(g.n_non_point_surfaces_at(t)), g.n_ts_shaded_surfaces, g.n_ts_illum_surfaces, g.n_ts_surfaces],
                    'near': [[[encs([val(s.b1.x, t), val(s.b2.x, t)]) for s in ln] for ln in lr] for lr in beside]})
    return out


# ---------------------------------------------------------------- snapshots
def snap_surface(s, names):
    b1, b2 = s.coords[0], s.coords[-1]
    return {'geo': encs([b1[0], b1[1], b2[0], b2[1], s.length]), 'nv': encs([float(s.n_vector[0]), float(s.n_vector[1])]),
            'sh': int(bool(s.shaded)), 'ix': -1 if s.index is None else int(s.index),
            'pn': int(len(s.coords) == 2), 'v': [opt(s.params.get(n), 0) for n in names],
            'nm': list(s.param_names)}


def snap_row(row, ts, t, names):
    hi, lo = row.highest_point, row.lowest_point
    b1, b2 = row.boundary
    out = {'ix': row.index, 'line': encs([b1.x, b1.y, b2.x, b2.y]), 'hi': encs([hi.x, hi.y]), 'lo': encs([lo.x, lo.y]),
           'ixs': [int(i) for i in row.surface_indices], 'sides': []}
    for side, tside in ((row.front, ts.front), (row.back, ts.back)):
        segs = []
        for seg, tseg in zip(side.list_segments, tside.list_segments):
            segs.append({'s': [[snap_surface(s, names) for s in col.list_surfaces]
                               for col in (seg.illum_collection, seg.shaded_collection)],
                         'len': encs([seg.length, seg.shaded_length]), 'ix': seg.index,
                         'ixs': [int(s.index) for s in tseg.surfaces_at_idx(t)]})
        out['sides'].append({'segs': segs, 'len': encs([side.length, side.shaded_length]),
                             'n': len(side.list_segments), 'ixs': [int(s.index) for s in tside.surfaces_at_idx(t)]})
    out['all'] = [int(s.index) for s in ts.surfaces_at_idx(t)]
    return out


SHOW_DEFAULTS = dict(merge_if_flag_overlap=True, with_cut_points=True, with_surface_index=False)


def snap_ground(ground, t, merge, cut, names):
    g = ground.at(t, **short(dict(merge_if_flag_overlap=bool(merge), with_cut_points=bool(cut)), SHOW_DEFAULTS, t))
    seg, = g.list_segments
    b1, b2 = g.boundary
    return {'merge': merge, 'cut': cut, 'len': encs([g.length, g.shaded_length]), 'line': encs([b1.x, b1.y, b2.x, b2.y]),
            'sh': [snap_surface(s, names) for s in seg.shaded_collection.list_surfaces],
            'il': [snap_surface(s, names) for s in seg.illum_collection.list_surfaces]}


def owned(snap):
    """Put a value of its own on each surface of a snapshot, and see which is there."""
    for k, s in enumerate(snap.all_surfaces):
        s.update_params({'u1': k + 1})
    return [int(s.get_param('u1')) for s in snap.all_surfaces]


def poke(snap):
    snap.update_params({'u1': -7., 'rho': 0.5, 'direct': -1., 'qinc': -1.})


# ---------------------------------------------------------------- drawings
COLORS = [COLOR_DIC[k].lower() for k in ('pvrow_illum', 'pvrow_shaded', 'ground_illum', 'ground_shaded')]


def drawing(draw, lean=False):
    """What drawing puts on a plot: lines with their colours, marks, texts, and the frame."""
    from matplotlib.figure import Figure
    from matplotlib.colors import to_hex
    ax = Figure().add_subplot()
    draw(ax)
    lines, dots = [], []
    for ln in ax.get_lines():
        pts = [encs(p) for p in np.asarray(ln.get_xydata(), dtype=float)]
        if ln.get_linestyle() not in ('None', '', ' '):
            c = to_hex(ln.get_color()).lower()
            lines += [{'g': a + b, 'c': COLORS.index(c) if c in COLORS else -1} for a, b in zip(pts, pts[1:])]
        if ln.get_marker() not in ('None', '', ' ', None):
            dots += pts
    if lean:
        return {'lines': lines}
    return {'lines': lines, 'dots': dots, 'texts': [{'p': encs(x.get_position()), 's': x.get_text()} for x in ax.texts],
            'xlim': encs(ax.get_xlim()), 'ylim': encs(ax.get_ylim()),
            'eq': int(ax.get_aspect() in (1, 1., 'equal')), 'lab': int(bool(ax.get_xlabel()) and bool(ax.get_ylabel()))}


# ---------------------------------------------------------------- the halo of the sun
def behind(op):
    """The share of the halo that row k of three hides from a surface, or nothing does (no)."""
    from pvfactors.geometry.base import PVSurface
    from pvfactors.geometry.pvrow import PVRow
    c = np.array(op['nb']) / 1000.
    low = [PVRow.from_linestring_coords([(c[0] + d, -9.), (c[0] + d + 1., -8.)]) for d in (1., 2.)]
    rows = low[:op['k']] + [PVRow.from_linestring_coords([(c[0], c[1]), (c[2], c[3])])] + low[op['k']:]
    f = np.array(op['sf']) / 1000.
    el = np.radians(op['el'] / 10.)
    model = HybridPerezOrdered(circumsolar_model=op['m'], circumsolar_angle=op['ca'] / 10.)
    return float(model._calculate_circumsolar_shading_pct(
        PVSurface([(f[0], f[1]), (f[2], f[3])]), None if op['no'] else op['k'], rows, [np.cos(el), np.sin(el)]))


SKY_COLUMNS = [['poa_isotropic', 'poa_circumsolar', 'poa_horizon', 'poa_total_diffuse'],
               ['luminance_isotropic', 'luminance_circumsolar', 'luminance_horizon'],
               ['vf_isotropic', 'vf_circumsolar', 'vf_horizon']]


def sky_args(rows, form, lend):
    c = columns(rows)
    if form == 'frame':
        names = ['solar_zenith', 'solar_azimuth', 'surface_tilt', 'surface_azimuth']
        df = pd.DataFrame(dict({n: c[n] for n in names}, dni=c['DNI'], dhi=c['DHI']), index=pd.DatetimeIndex(c['timestamps']))
        return breakup_df_inputs(lend('sky' + str(rows), lambda: df))
    args = [c[n] for n in ('timestamps', 'surface_tilt', 'surface_azimuth', 'solar_zenith', 'solar_azimuth', 'DNI', 'DHI')]
    if form == 'list':
        args = [args[0]] + [[float(x) for x in a] for a in args[1:]]
    elif form == 'series':
        args = [args[0]] + [pd.Series(a, index=pd.DatetimeIndex(args[0])) for a in args[1:]]
    return lend('sky' + form + str(rows), lambda: args)


# ---------------------------------------------------------------- static geometry
GNAMES = ['a', 'b']


class Static(object):
    """A side, the sides of a row, a ground, or a row of a snapshot, in the frame of the specification."""
    def __init__(self, op):
        from shapely.geometry import LineString, Point
        from pvfactors.geometry.base import BaseSide, PVSegment, ShadeCollection
        from pvfactors.geometry.pvrow import PVRow
        from pvfactors.geometry.pvground import PVGround
        self.LineString, self.Point = LineString, Point
        self.G, self.kind = op['G'], op['kind']
        a = np.radians(op['ang'] / 10.)
        self.u = np.array([np.cos(a), np.sin(a)])
        self.len = op['len'] / 1000.
        self.mid = np.array([op['x'], op['y']]) / 1000.
        shaded = bool(op['sh'])
        tilt, toright = abs(op['ang']) / 10., op['ang'] > 0
        axis = op['axis'] / 10.
        saz = (axis + (270. if toright else 90.)) % 360.
        cut = short({'front': op['n'][0], 'back': op['n'][-1]}, {'front': 1, 'back': 1}, op['ang'])
        self.whole = None

        def brief(**kw):
            return short(kw, {'shaded': False, 'normal_vector': None, 'n_segments': 1, 'y_ground': 0., 'cut': {}}, op['x'])
        nv = {0: None, 1: [-self.u[1], self.u[0]], 2: [self.u[1], -self.u[0]]}[op['nv']]
        if op['kind'] == 'side':
            if op['by']:                                  # assembled by hand: a collection for each segment
                n, name = op['n'][0], 'shaded_collection' if shaded else 'illum_collection'
                self.sides = [BaseSide([PVSegment(index=j, **{name: ShadeCollection.from_linestring_coords(
                    [self.at(j * self.G / n), self.at((j + 1) * self.G / n)], shaded=shaded, param_names=list(GNAMES),
                    **brief(normal_vector=nv))}) for j in range(n)])]
            else:
                self.sides = [BaseSide.from_linestring_coords([self.at(0), self.at(self.G)], param_names=list(GNAMES),
                                                              **brief(shaded=shaded, normal_vector=nv, n_segments=op['n'][0]))]
        elif op['kind'] == 'row' and op['by']:
            self.whole = PVRow.from_linestring_coords([self.at(0), self.at(self.G)], param_names=list(GNAMES),
                                                      **brief(shaded=shaded, normal_vector=nv, cut=cut))
        elif op['kind'] == 'row':
            self.whole = PVRow.from_center_tilt_width(tuple(self.mid), tilt, self.len, saz, axis, param_names=list(GNAMES),
                                                      **brief(shaded=shaded, normal_vector=nv, cut=cut))
        elif op['kind'] == 'gnd':
            x0, x1 = self.at(0)[0], self.at(self.G)[0]
            self.sides = [PVGround.as_flat(x_min_max=(x0, x1), param_names=list(GNAMES), **brief(shaded=shaded, y_ground=float(self.mid[1])))]
        else:                                             # a row of a snapshot
            pa = OrderedPVArray.init_from_dict(
                dict(axis_azimuth=axis, gcr=0.4, pvrow_height=self.mid[1], n_pvrows=1, pvrow_width=self.len, cut={0: cut}),
                param_names=list(GNAMES))
            pa.fit(np.array([20., 30.]), np.array([100., 200.]), np.array([0., tilt]), np.array([saz, saz]))
            self.whole = pa.ts_pvrows[0].at(1)
        if self.whole is not None:
            self.sides = [self.whole.front, self.whole.back]

    def at(self, s, off=0.):
        """The point at s (0..G) along the side, at a distance off from it."""
        p = self.mid + (s / float(self.G) - 0.5) * self.len * self.u + off * np.array([-self.u[1], self.u[0]])
        return float(p[0]), float(p[1])

    def cast(self, op):
        ends = [self.at(op['a'], op['off'] / 1000.), self.at(op['b'], op['off'] / 1000.)]
        self.sides[op['sd'] - 1].cast_shadow(self.LineString(ends[::-1] if op['rev'] else ends))

    def cut(self, op):
        self.sides[op['sd'] - 1].cut_at_point(self.Point(self.at(op['x'], op['off'] / 1000.)))

    def merge(self, op):
        self.sides[op['sd'] - 1].merge_shaded_areas()

    def reset(self, op):
        """Give a segment a new collection that covers it all."""
        from pvfactors.geometry.base import ShadeCollection
        side = self.sides[op['sd'] - 1]
        seg, n, j = side.list_segments[op['j'] - 1], len(side.list_segments), op['j']
        coords = [self.at((j - 1) * self.G / n), self.at(j * self.G / n)]
        col = ShadeCollection.from_linestring_coords(coords, shaded=bool(op['sh']), normal_vector=seg.n_vector,
                                                     param_names=list(GNAMES))
        if op['sh']:
            seg.shaded_collection = col
            del seg.illum_collection
        else:
            seg.illum_collection = col
            del seg.shaded_collection

    def refill(self, op):
        """Give a segment new collections, the stretch from a to b of it in the shade, made in one of several ways."""
        from pvfactors.geometry.base import ShadeCollection, PVSurface
        side = self.sides[op['sd'] - 1]
        seg, n, j = side.list_segments[op['j'] - 1], len(side.list_segments), op['j']
        nv, ends = seg.n_vector, ((j - 1) * self.G // n, j * self.G // n)
        a, b = (min(max(op[k], ends[0]), ends[1]) for k in 'ab')
        dark = [(a, b)] if a < b else []
        lit = [(p, q) for p, q in ((ends[0], a), (b, ends[1])) if p < q] if dark else [ends]

        def line(p, q):
            return self.LineString([self.at(p), self.at(q)])

        def made(parts, others, shaded):
            names = list(GNAMES)
            if op['way'] == 0 and parts:                  # from surfaces
                return ShadeCollection([PVSurface(coords=line(*p).coords, normal_vector=nv, param_names=names, **short(
                    dict(shaded=shaded), {'shaded': False}, p)) for p in parts], param_names=names)
            if op['way'] == 1 and parts:                  # one first, the others in its direction
                col = ShadeCollection.from_linestring_coords(line(*parts[0]).coords, shaded, normal_vector=nv, param_names=names)
                for p in parts[1:]:
                    col.add_linestring(line(*p))
                return col
            if op['way'] == 2 or not parts:               # one after the other
                col = ShadeCollection(shaded=shaded, param_names=names)
                for k, p in enumerate(parts):
                    if k:
                        col.add_pvsurface(PVSurface(coords=line(*p).coords, normal_vector=nv, shaded=shaded, param_names=names))
                    else:
                        col.add_linestring(line(*p), normal_vector=nv)
                return col
            col = ShadeCollection.from_linestring_coords(line(*ends).coords, shaded, normal_vector=nv, param_names=names)
            for p in others:                              # all but what is not
                col.remove_linestring(line(*p))
            return col
        seg.illum_collection = made(lit, dark, False)
        seg.shaded_collection = made(dark, lit, True)

    def put(self, params, on, sd=0, j=0, sh=0):
        """Put values on parameters: on all of it, or on a side, a segment or a collection."""
        if on == 'whole' and self.whole is not None:
            self.whole.update_params(params)
        else:
            for side in self.sides if on == 'whole' else [self.sides[sd - 1]]:
                x = side if on in ('whole', 'side') else side.list_segments[j - 1]
                if on == 'col':
                    x = x.shaded_collection if sh else x.illum_collection
                x.update_params(params)

    def see(self):
        place, out = {}, []
        for sd, side in enumerate(self.sides):
            segs = []
            for j, seg in enumerate(side.list_segments):
                cols = []
                for sh, col in enumerate((seg.illum_collection, seg.shaded_collection)):
                    cols.append([])
                    for k, x in enumerate(col.list_surfaces):
                        place[id(x)] = [sd + 1, j + 1, sh, k + 1]
                        c = list(x.coords)
                        cols[-1].append({'g': encs([c[0][0], c[0][1], c[-1][0], c[-1][1], x.length]), 'k': len(c),
                                         'nv': encs([float(v) for v in x.n_vector]), 'sh': int(bool(x.shaded)),
                                         'pn': sorted(x.param_names), 'pk': sorted(x.params),
                                         'v': opt(x.params.get('a'), 0)})
                segs.append({'s': cols, 'len': encs([seg.length, seg.shaded_length]), 'n': [int(seg.n_surfaces)],
                             'nv': encs([float(v) for v in seg.n_vector])})
            out.append({'segs': segs, 'len': encs([side.length, side.shaded_length]), 'n': [int(side.n_surfaces)]})
        for sd, side in enumerate(self.sides):
            for j, seg in enumerate(side.list_segments):
                out[sd]['segs'][j]['all'] = [place.get(id(x), []) for x in seg.all_surfaces]
            out[sd]['all'] = [place.get(id(x), []) for x in side.all_surfaces]
            ok = all(x.params.get('a') is not None for x in side.all_surfaces)
            out[sd]['avg'] = encs([side.get_param_weighted('a'), side.get_param_ww('a')]) if ok else []
            out[sd]['ixs'] = len(side.surface_indices)
        rows = [] if self.whole is None else [place.get(id(x), []) for x in self.whole.all_surfaces]
        return out, rows, self.extent()

    def extent(self):
        """Where it begins and ends; for a row, where it is highest and lowest, too."""
        x = self.whole if self.whole is not None else self.sides[0]
        if self.kind == 'side':
            return []
        pts = list(x.boundary) + ([x.highest_point, x.lowest_point] if self.whole is not None else [])
        return [encs([p.x, p.y]) for p in pts]
