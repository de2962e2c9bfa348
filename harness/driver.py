"""Replays behaviours generated from the specification into the real code and records, as
ndjson events, what a user could observe.  usage: driver.py SCENARIOS TRACE SHARD NSHARDS"""
import copy
import json
import sys
import traceback
from session import *                                # noqa: F401,F403
import session as S
import planar
from pvfactors.run import run_timeseries_engine, run_parallel_engine
from pvfactors.report import ExampleReportBuilder


def num(x):
    return S.enc(x)


class Runner(object):
    def __init__(self, out):
        self.out = out
        self.eng, self.lent = {}, {}

    def emit(self, ev):
        self.out.write(json.dumps(ev, separators=(',', ':')) + '\n')

    # ---- the caller's objects: shared within a scenario, and watched
    def lend(self, key, make):
        if key not in self.lent:
            obj = make()
            self.lent[key] = (obj, copy.deepcopy(obj))
        return self.lent[key][0]

    def params_of(self, lay):
        return self.lend('lay' + json.dumps(lay, sort_keys=True), lambda: S.lay_params(lay))

    def columns_of(self, rows, form):
        return self.lend('cols' + json.dumps([rows, form], sort_keys=True),
                         lambda: S.present(S.columns(rows), form))

    def clean(self):
        return int(all(S.unchanged(a, b) for a, b in self.lent.values()))

    # ---- actions
    def do_new(self, op):
        pa = S.OrderedPVArray.init_from_dict(self.params_of(op['lay']), param_names=op.get('pn') or None)
        if op.get('up'):
            pa.y_ground = op['up'] / 1000.   # the same array on higher or lower ground
        kw = {}
        if op['fr'] >= 0:
            kw['fast_mode_pvrow_index'] = op['fr']
        if op['fs'] >= 0:
            kw['fast_mode_segment_index'] = op['fs']
        if op.get('rho'):
            eng = S.PVEngine.with_rho_initialization(pa, S.make_vf(op['mod']), S.make_model(op['mod']), **kw)
        else:
            eng = S.PVEngine(pa, **dict(kw, **S.engine_parts(op['mod'], op['lay']['w'])))
        self.eng[op['e']] = eng
        return dict(op)

    def do_fit(self, op):
        if op['form'][0] == 'direct':
            eng = self.eng[op['e']]
            if op['form'][1] == 'dict':
                eng.pvarray = S.array_of_scalars(eng.pvarray, op['rows'][0], self.lend)
            else:
                S.fit_array(eng.pvarray, self.columns_of(op['rows'], op['form']))
            return dict(op)
        S.fit_engine(self.eng[op['e']], self.columns_of(op['rows'], op['form']))
        return dict(op)

    def do_run(self, op):
        """The functional interface: serial (nproc 0) or parallel."""
        c = self.columns_of(op['rows'], op['form'])
        mod = op['mod']
        key = json.dumps(mod, sort_keys=True)
        kw = dict(S.own_classes(op),
                  irradiance_model_params=self.lend('mod' + key, lambda: S.model_params(mod)),
                  vf_calculator_params=self.lend('vf' + key, lambda: S.vf_params(mod)), ghi=c['ghi'])
        if op['fr'] >= 0:
            kw['fast_mode_pvrow_index'] = op['fr']
        if op['fs'] >= 0:
            kw['fast_mode_segment_index'] = op['fs']
        kw = S.short(kw, dict(ghi=None, n_processes=2, irradiance_model_params={}, vf_calculator_params={},
                              cls_irradiance=S.HybridPerezOrdered), key)
        args = [self.params_of(op['lay'])] + [c[k] for k in S.FIT_ORDER]
        builder = ExampleReportBuilder if op['b'] == 'ex' else S.VecBuilder
        if op.get('d'):
            builder = S.SlowBuilder([round(x['t'] / 10., 6) for x in op['rows']], op['d'])
        if op['nproc'] == 0:
            rep = run_timeseries_engine(builder.build, *args, **kw)
        else:
            rep = run_parallel_engine(builder, *args, **dict(kw, **S.short(dict(n_processes=op['nproc']), dict(n_processes=2), key)))
        if op['b'] == 'ex':
            cols = [rep[k] for k in ('qinc_front', 'qinc_back', 'iso_front', 'iso_back')]
            rep = [{'ex': S.encs(x)} for x in zip(*cols)] if len({len(x) for x in cols}) == 1 else []
        return dict(op, rep=rep)

    def do_full(self, op):
        self.eng[op['e']].run_full_mode()
        return dict(op)

    def do_fast(self, op):
        kw = {}
        if op['r'] >= 0:
            kw['pvrow_index'] = op['r']
        if op['s'] >= 0:
            kw['segment_index'] = op['s']
        self.eng[op['e']].run_fast_mode(**kw)
        return dict(op)

    def do_upd(self, op):
        """Set a parameter on a part of the array: v at the first timestep, st more at every other one."""
        pa = self.eng[op['e']].pvarray
        value = float(op['v']) if op['st'] == 0 else op['v'] + op['st'] * np.arange(pa.n_states, dtype=float)
        S.target(pa, op['tg']).update_params({op['name']: value})
        return dict(op)

    def do_hand(self, op):
        """A side assembled by hand, of segments of any length made of any number of surfaces."""
        side, parts = S.hand_side(op['segs'])
        agg = [S.aggregate(c, part, ['u1'], 0, static=False) for c, part in parts]
        agg2 = [S.aggregate(c, part, ['u1'], 1, static=False) for c, part in parts]
        return dict(op, agg=[agg, agg2])

    def do_ground(self, op):
        return dict(op, o=S.ground_by_hand(op))

    def do_geom(self, op):
        self.eng[op['e']] = S.Static(op)
        return self.static(op)

    def do_gop(self, op):
        getattr(self.eng[op['e']], op['do'])(op)
        return self.static(op)

    def static(self, op):
        geom = self.eng[op['e']]
        geom.see()                                    # looking changes nothing
        if op['v'] >= 0:
            geom.put({'a': float(op['v'])}, *op['to'])
        sides, whole, extent = geom.see()
        return dict(op, sides=sides, whole=whole, extent=extent)

    def do_halo(self, op):
        err, shares = 0, []
        try:
            shares = [float(S.calculate_circumsolar_shading(p / 100., **S.short({'model': op['m']}, {'model': 'uniform_disk'}, p))) for p in op['p']]
        except S.PVFactorsError:
            err = 1
        return dict(op, s=S.encs(shares), err=err)

    def do_bell(self, op):
        kw = S.short(dict(mu=op['mu'] / 100., sigma=op['sg'] / 100.), dict(mu=0., sigma=1.))
        x = np.array(op['x'], dtype=float) / 100.
        return dict(op, s=S.encs([float(S.gaussian(v, **kw)) for v in x] if op['form'] else S.gaussian(x, **kw)))

    def do_band(self, op):
        angles = np.array(op['a'], dtype=float) / 100.
        band = op['b'] / 100.
        if op['form']:
            shares = [float(S.calculate_horizon_band_shading(a, band)) for a in angles]
        else:
            shares = self.lend(str(angles), lambda: angles)
            shares = S.calculate_horizon_band_shading(shares, band)
        return dict(op, s=S.encs(shares))

    def do_loss(self, op):
        return dict(op, v=S.encs(S.losses(op)))

    def do_behind(self, op):
        return dict(op, s=num(S.behind(op)))

    def do_plane(self, op):
        return planar.answer(op)

    def do_sky(self, op):
        args = S.sky_args(op['rows'], op['form'], self.lend)
        df = S.perez_diffuse_luminance(*args)
        o = [[S.encs(df[cols].values[i]) for cols in S.SKY_COLUMNS] for i in range(len(df))]
        echo = [S.encs(x) for x in df[['solar_zenith', 'solar_azimuth', 'surface_tilt', 'surface_azimuth', 'dni', 'dhi']].values]
        return dict(op, n=len(df), o=o, echo=echo, when=[[int(x.dayofyear), int(x.hour * 60 + x.minute)] for x in df.index])

    def do_obs(self, op):
        eng = self.eng[op['e']]
        pa = eng.pvarray
        t = op['t'] - 1
        hs = S.handles(pa)
        ev = dict(op)
        for what in op['what']:
            getattr(self, 'see_' + what)(ev, eng, pa, hs, t)
        return ev

    def do_pair(self, op):
        t = op['t'] - 1
        v, w = [S.vec(self.eng[op[k]].pvarray, S.handles(self.eng[op[k]].pvarray), t, lean=True) for k in ('e', 'f')]
        return dict(op, v=v, w=w)

    # ---- projections
    def see_base(self, ev, eng, pa, hs, t):
        ev['ids'] = S.ids_of(hs)
        ev['idx'] = [int(s.index) for _, s in hs]
        ev['geo'] = S.geo_at(hs, t)

    def see_rows(self, ev, eng, pa, hs, t):
        nv = []
        for i, s in hs:
            if i[0] != 'pv':
                nv.append([0, 1])
            else:
                v = np.asarray(s.n_vector, dtype=float)
                nv.append([num(S.val(v[0], t)), num(S.val(v[1], t))])
        ev['nv'] = nv
        ev['flag'] = int(bool(np.asarray(pa.has_direct_shading)[t]))

        def pt(p):
            return [num(S.val(p.x, t)), num(S.val(p.y, t))]

        rows = []
        for row in pa.ts_pvrows:
            fc = row.full_pvrow_coords
            rows.append({
                'full': pt(fc.b1) + pt(fc.b2), 'low': pt(fc.lowest_point), 'high': pt(row.highest_point),
                'shl': [num(S.val(row.front.shaded_length, t)), num(S.val(row.back.shaded_length, t))],
                'seg': [[pt(seg.coords.b1) + pt(seg.coords.b2) for seg in side.list_segments]
                        for side in (row.front, row.back)]})
        ev['rows'] = rows

    def see_gnd(self, ev, eng, pa, hs, t):
        g = pa.ts_ground
        ev['gsx'] = [[num(S.val(e.b1.x, t)), num(S.val(e.b2.x, t))] for e in g.shadow_elements]
        ev['gix'] = [[num(S.val(e.b1.x, t)), num(S.val(e.b2.x, t))] for e in g.illum_elements]
        ev['gndlen'] = [num(S.val(g.length, t)), num(S.val(g.shaded_length, t))]
        ev['cutx'] = [num(S.val(c.x, t)) for c in g.cut_point_coords]
        by = {id(s): list(i) for i, s in hs}
        ev['sides'] = [[[by[id(s)] for s in g.ts_surfaces_side_of_cut_point(sd, k)] for sd in ('left', 'right')]
                       for k in range(len(pa.ts_pvrows))]
        ev['nonpt'] = [[num(s.length) for s in g.non_point_illum_surfaces_at(t)],
                       [num(s.length) for s in g.non_point_shaded_surfaces_at(t)]]

    def see_F(self, ev, eng, pa, hs, t):
        ev['F'] = S.matrix_at(pa.ts_vf_matrix, hs, t)

    def see_A(self, ev, eng, pa, hs, t):
        ev['A'] = S.matrix_at(pa.ts_vf_aoi_matrix, hs, t)

    def see_par(self, ev, eng, pa, hs, t):
        names = ['direct', 'rho', 'inv_rho', 'direct_absorbed']
        if isinstance(eng.irradiance, S.HybridPerezOrdered):
            names += ['circumsolar', 'horizon', 'circumsolar_absorbed', 'horizon_absorbed']
        ev['par'] = {n: S.param_at(hs, n, t) for n in names}
        if isinstance(eng.irradiance, S.HybridPerezOrdered):
            # the band before shading and the part of it that is hidden [%], on the backs
            ev['band'] = [[S.opt(s.params.get(n), t) for n in ('horizon_unshaded', 'horizon_shd_pct')] for _, s in hs]

    def see_res(self, ev, eng, pa, hs, t):
        names = [('q0', 'q0'), ('qinc', 'qinc'), ('isotropic', 'iso'), ('reflection', 'refl'), ('qabs', 'qabs')]
        for n, k in names:
            ev[k] = [num(S.val(s.params[n], t)) if s.params.get(n) is not None else num(float('nan')) for _, s in hs]
        allnames = [n for n, _ in names] + ['view_factors']
        ev['has'] = [[n for n in allnames if s.params.get(n) is not None] for _, s in hs]

    def see_vec(self, ev, eng, pa, hs, t):
        ev['v'] = S.vec(pa, hs, t)
        ev['has'] = S.carried(hs)

    def see_agg(self, ev, eng, pa, hs, t):
        names = ['u1', 'u2', 'rho', 'direct'] + [n for n in ('qinc', 'qabs') if all(S.has(s, n) for _, s in hs)]
        ev['uv'] = {n: [S.opt(s.params.get(n), t) for _, s in hs] for n in names}
        g = pa.ts_ground
        ev['gp'] = {n: [S.opt(d.get(n), t) for d in (g.illum_params, g.shaded_params)] for n in ('u1', 'u2')}
        ev['ge'] = {n: [[S.opt(x.params.get(n), t) for x in els] for els in (g.illum_elements, g.shadow_elements)]
                    for n in ('u1', 'u2')}
        ev['agg'] = [S.aggregate(c, part, names, t) for c, part in S.parts(pa)]
        ev['sagg'] = [S.aggregate(c, part, names, t, static=True) for c, part in S.snapshot_parts(pa, t)]

    def see_snap(self, ev, eng, pa, hs, t):
        names = ['u1', 'rho', 'direct'] + (['qinc'] if all(S.has(s, 'qinc') for _, s in hs) else [])
        others = range(pa.n_states)
        before = [S.vec(pa, hs, k, lean=True) for k in others]
        geo = [S.geo_at(hs, k) for k in others]
        upd = [[S.opt(s.params.get(n), t) for n in names] for _, s in hs]
        ev['names'] = names
        ev['tv'] = upd
        ev['gp'] = {n: [S.opt(d.get(n), t) for d in (pa.ts_ground.illum_params, pa.ts_ground.shaded_params)] for n in names}
        ev['snap'] = [S.snap_row(row.at(t), row, t, names) for row in pa.ts_pvrows]
        ev['gsnap'] = [S.snap_ground(pa.ts_ground, t, m, c, names) for m in (1, 0) for c in (1, 0)]
        # what is done to a snapshot stays there
        ev['own'] = [S.owned(x) for x in [row.at(t) for row in pa.ts_pvrows] + [
            pa.ts_ground.at(t, merge_if_flag_overlap=m, with_cut_points=c) for m in (True, False) for c in (True, False)]]
        for row in pa.ts_pvrows:
            S.poke(row.at(t))
        S.poke(pa.ts_ground.at(t))
        S.poke(pa.ts_ground.at(t, with_cut_points=False))
        after = [S.vec(pa, hs, k, lean=True) for k in others]
        ev['same'] = int(before == after and geo == [S.geo_at(hs, k) for k in others]
                         and upd == [[S.opt(s.params.get(n), t) for n in names] for _, s in hs])

    def see_link(self, ev, eng, pa, hs, t):
        """Everything the code reports by surface number, as it is numbered there."""
        by = {id(s): list(i) for i, s in hs}
        ev['listed'] = [by.get(id(s), []) for s in pa.all_ts_surfaces]
        ev['tsix'] = [int(i) for i in pa.ts_surface_indices]
        ev['count'] = [int(pa.n_ts_surfaces), sum(int(r.n_ts_surfaces) for r in pa.ts_pvrows) + int(pa.ts_ground.n_ts_surfaces)]
        irr, rho, invrho, total = [np.asarray(m) for m in eng.irradiance.get_full_ts_modeling_vectors(pa)]
        ev['mv'] = {'irr': S.encs(irr[:, t]), 'rho': S.encs(rho[:, t]), 'inv': S.encs(invrho[:, t]), 'tot': S.encs(total[:, t]),
                    'inc': S.encs(eng.irradiance.get_summed_components(pa, absorbed=False)[:, t]),
                    'abs': S.encs(eng.irradiance.get_summed_components(pa, absorbed=True)[:, t])}
        ev['tot'] = S.param_at(hs, 'total_perez', t)
        # a snapshot surface: where it belongs, its place and its number
        rows, numbers = [], []
        for i, row in enumerate(pa.ts_pvrows):
            snap = row.at(t)
            for sd, side in ((1, snap.front), (2, snap.back)):
                for j, seg in enumerate(side.list_segments):
                    for sh, col in ((0, seg.illum_collection), (1, seg.shaded_collection)):
                        rows += [{'on': ['pv', i + 1, sd, j + 1, sh], 's': S.snap_surface(x, [])} for x in col.list_surfaces]
                        numbers.append(S.numbers(col, col.list_surfaces))
                    numbers.append(S.numbers(seg, seg.all_surfaces))
                numbers.append(S.numbers(side, side.all_surfaces))
            numbers.append(S.numbers(snap, snap.all_surfaces))
        gnd = []
        for merge in (False, True):
            ground = pa.ts_ground.at(t, merge_if_flag_overlap=merge)
            seg, = ground.list_segments
            numbers += [S.numbers(x, ground.all_surfaces) for x in (ground, seg)]
            gnd.append([{'on': [kd, 0, 0, 0, sh], 's': S.snap_surface(x, [])}
                        for kd, sh, col in (('gi', 0, seg.illum_collection), ('gs', 1, seg.shaded_collection))
                        for x in col.list_surfaces])
        ev['shown'] = [rows] + gnd
        ev['numbers'] = numbers

    def see_draw(self, ev, eng, pa, hs, t):
        cut, merge, num_ = ev['how']
        ev['d'] = S.drawing(lambda ax: pa.plot_at_idx(
            t, ax, **S.short(dict(merge_if_flag_overlap=bool(merge), with_cut_points=bool(cut), with_surface_index=bool(num_)),
                             S.SHOW_DEFAULTS, t)))
        parts = [(['gnd'], lambda ax: pa.ts_ground.plot_at_idx(
            t, ax, color_shaded=S.COLORS[3], color_illum=S.COLORS[2],
            **S.short(dict(merge_if_flag_overlap=bool(merge), with_cut_points=bool(cut)), S.SHOW_DEFAULTS, t)))]
        for i, row in enumerate(pa.ts_pvrows):
            parts.append((['row', i + 1], lambda ax, row=row: row.plot_at_idx(
                t, ax, **S.short(dict(with_surface_index=bool(num_)), S.SHOW_DEFAULTS, i))))
            for sd, side in ((1, row.front), (2, row.back)):
                parts.append((['side', i + 1, sd], lambda ax, side=side: side.plot_at_idx(t, ax)))
                for j, seg in enumerate(side.list_segments):
                    parts.append((['seg', i + 1, sd, j + 1], lambda ax, seg=seg: seg.plot_at_idx(
                        t, ax, color_shaded=S.COLORS[1], color_illum=S.COLORS[0])))
        for k, (c, s) in enumerate(hs):
            parts.append((['sf', k + 1], lambda ax, c=c, s=s: s.plot_at_idx(
                t, ax, S.COLORS[c[4] + (0 if c[0] == 'pv' else 2)])))
        # some of the parts, others each time
        ev['parts'] = [dict(S.drawing(f, lean=True), on=on) for k, (on, f) in enumerate(parts) if (k + t + ev['col']) % 4 == 0]

    def see_rawF(self, ev, eng, pa, hs, t):
        ev['rawF'] = S.encm(np.asarray(pa.ts_vf_matrix)[:, :, t])
        ev['rawA'] = S.encm(np.asarray(pa.ts_vf_aoi_matrix)[:, :, t])

    def see_fast(self, ev, eng, pa, hs, t):
        fvf, feach, ftr = [], [], []
        nsh = len(pa.ts_ground.shadow_elements)
        for _, s in hs:
            vf = s.params.get('view_factors')
            if vf is None:
                fvf.append([]), feach.append([]), ftr.append([])
                continue
            g = [num(S.val(vf[k], t)) for k in ('to_gnd_shaded', 'to_gnd_illum', 'to_gnd_total', 'to_pvrow_total',
                                                'to_pvrow_shaded', 'to_pvrow_illum', 'to_sky')]
            fvf.append(g)
            each = vf['to_each_gnd_shadow']
            feach.append([num(S.val(np.asarray(each)[k], t)) for k in range(nsh)])
            ftr.append([num(S.val(s.params[k], t)) for k in (
                'reflection_gnd_shaded', 'reflection_gnd_illum', 'reflection_pvrow_shaded',
                'reflection_pvrow_illum', 'sky_term')])
        ev['fvf'], ev['feach'], ev['ftr'] = fvf, feach, ftr

    # ---- a scenario
    def scenario(self, sc):
        self.eng, self.lent = {}, {}
        self.emit({'op': 'scen', 'sid': sc['sid']})
        for op in sc['ops']:
            try:
                ev = getattr(self, 'do_' + op['op'])(op)
            except Exception as err:                  # the code (or the projection) raised
                self.emit({'op': 'raised', 'e': op.get('e', ''), 'during': op['op'],
                           'err': '%s: %s' % (type(err).__name__, str(err)[:200]),
                           'where': [f.name for f in traceback.extract_tb(err.__traceback__)][-3:]})
                return
            ev['clean'] = self.clean()
            self.emit(ev)


def main():
    src, dst, shard, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    with open(dst, 'w') as out:
        r = Runner(out)
        for k, line in enumerate(open(src)):
            if k % n == shard:
                r.scenario(json.loads(line))
        r.emit({'op': 'end'})


if __name__ == '__main__':
    main()
