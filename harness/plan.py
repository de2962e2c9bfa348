"""What each check runs. n = (scenarios in quick, in thorough)."""


def tr(mix, quick, thorough, **kw):
    return dict(kind='trace', mix=mix, n=(quick, thorough), **kw)


def model(module, cfg, **kw):
    return dict(kind='model', module=module, cfg=cfg, **kw)


PLAN = {
    'P01': dict(stages=[tr('P01', 240, 4000)],
                require=['P01.row', 'P01.low', 'P01.segment', 'P01.tile', 'P01.normal', 'P01.place'],
                corrupt=['geo', 'nv', 'rows']),
    'P02': dict(stages=[tr('P02', 240, 4000), model('MC_Rays.tla', ('MC_Shade_quick.cfg', 'MC_Shade_deep.cfg'))],
                require=['P02.front', 'P02.back', 'P02.flag', 'P02.length', 'P02.place'],
                corrupt=['rows.0.shl', 'flag']),
    'P03': dict(stages=[tr('P03', 240, 4000), model('MC_Rays.tla', ('MC_Shade_quick.cfg', 'MC_Shade_deep.cfg'))],
                require=['P03.shadow', 'P03.length', 'P03.place'], corrupt=['gsx', 'geo']),
    'P04': dict(stages=[tr('P04', 240, 4000), model('MC_GroundZones.tla', 'MC_GroundZones.cfg')],
                require=['P04.total', 'P04.shaded', 'P04.adjacent', 'P04.cut', 'P04.zone', 'P04.sides', 'P04.nonpoint',
                         'P04.hand_zone', 'P04.hand_sides', 'P04.hand_length', 'P04.hand_shown',
                         'P04.hand_beside', 'P04.hand_points', 'P04.hand_mean'],
                corrupt=['gix', 'gndlen', 'cutx', 'nonpt', 'o.0.gs|ground', 'o.0.len|ground', 'o.0.shown|ground']),
    'P05': dict(stages=[tr('P05', 200, 2400), model('MC_Rays.tla', ('MC_Rays_quick.cfg', 'MC_Rays_deep.cfg'))],
                require=['P05.pair', 'P05.sky', 'P05.empty'], corrupt=['F']),
    'P06': dict(stages=[tr('P06', 200, 2400)],
                require=['P06.sum', 'P06.range', 'P06.reciprocal', 'P06.self', 'P06.empty'], corrupt=['F']),
    'P07': dict(stages=[tr('P07', 200, 2400)],
                require=['P07.balance', 'P07.reflect', 'P07.isotropic', 'P07.reflection'],
                corrupt=['qinc', 'q0', 'iso', 'refl']),
    'P08': dict(stages=[tr('P08', 96, 1200)],
                require=['P08.qabs_aoi', 'P08.qabs', 'P08.wedge'], corrupt=['A', 'qabs']),
    'P09': dict(stages=[tr('P09', 200, 3000)],
                require=['P09.direct', 'P09.circumsolar', 'P09.horizon', 'P09.direct_absorbed', 'P09.rho', 'P09.band'],
                corrupt=['par.direct', 'par.horizon', 'par.rho']),
    'P10': dict(stages=[tr('P10', 200, 2400)],
                require=['P10.qinc', 'P10.viewfactors', 'P10.breakdown', 'P10.results'],
                corrupt=['qinc', 'fvf', 'ftr']),
    'P11': dict(stages=[tr('P11', 320, 5000)],
                require=['P11.rho', 'P11.inv_rho', 'P11.loss', 'P11.absorbed', 'P11.reflected'],
                corrupt=['par.rho', 'par.inv_rho', 'q0']),
    'P12': dict(stages=[tr('P12', 240, 3000)],
                require=['P12.fit', 'P12.full', 'P12.F', 'P12.A', 'P12.fast', 'P12.res-full', 'P12.res-fast', 'P12.results'],
                corrupt=['v.fit', 'v.full', 'v.res', 'v.F']),
    'P13': dict(stages=[tr('P13', 160, 2400), tr('P13all', 108, 2160), model('MC_Session.tla', ('MC_Session_quick.cfg', 'MC_Session_deep.cfg'))],
                require=['P13.fit', 'P13.full', 'P13.F', 'P13.A', 'P13.fast', 'P13.res-full', 'P13.res-fast', 'P13.results'],
                corrupt=['v.fit', 'v.full', 'v.res', 'v.F']),
    'P14': dict(stages=[tr('P14', 140, 2000), tr('P14all', 96, 1920), model('MC_Parallel.tla', 'MC_Parallel.cfg')],
                require=['P14.count', 'P14.classes', 'P14.example', 'P14.fit', 'P14.full', 'P14.F', 'P14.A', 'P14.fast', 'P14.res-full', 'P14.res-fast', 'P14.ex', 'P14.results'],
                corrupt=['rep|run']),
    'P15': dict(stages=[tr('P15', 240, 3000)],
                require=['P15.fit', 'P15.full', 'P15.F', 'P15.A', 'P15.fast', 'P15.res-full', 'P15.res-fast',
                         'P15.mirror', 'P15.mirror_edge', 'P15.mirror_full', 'P15.mirror_length'],
                corrupt=['v.fit', 'v.full', 'v.res', 'w.res|pair']),
    'P16': dict(stages=[tr('P16', 200, 2400)],
                require=['P16.segment', 'P16.listing', 'P16.row', 'P16.untouched', 'P16.ground_cut', 'P16.ground_whole',
                         'P16.ground_cut_merged', 'P16.ground_whole_merged', 'P16.names', 'P16.names_ground', 'P16.own'],
                corrupt=['snap.0.sides.0.segs.0.s', 'gsnap.0.sh', 'gsnap.1.sh', 'gsnap.0.il', 'same', 'own.0']),
    'P17': dict(stages=[tr('P17', 200, 2400)],
                require=['P17.update', 'P17.ground', 'P17.average', 'P17.length', 'P17.snapshot_average', 'P17.assembled'],
                corrupt=['uv.u1', 'agg', 'sagg', 'gp.u1', 'agg|hand']),
    'P18': dict(stages=[tr('P18', 500, 6000), tr('P18all', 2000, 13824), model('MC_StaticGeom.tla', 'MC_StaticGeom.cfg')],
                require=['P18.cover', 'P18.line', 'P18.length', 'P18.normal', 'P18.names', 'P18.flag', 'P18.ends', 'P18.cut',
                         'P18.merged', 'P18.listing', 'P18.whole', 'P18.extent', 'P18.value', 'P18.apart', 'P18.average'],
                corrupt=['sides.0.segs.0.s.0.0.g|gop', 'sides.0.len|gop', 'sides.0.segs.0.n|gop']),
    'P19': dict(stages=[tr('P19', 200, 2400)],
                require=['P19.indices', 'P19.stable', 'P19.list', 'P19.vectors', 'P19.matrix', 'P19.aoi_matrix', 'P19.results',
                         'P19.snapshot', 'P19.ground_snapshot', 'P19.merged_snapshot', 'P19.parts'],
                corrupt=['idx', 'mv.irr', 'mv.rho', 'rawF', 'shown.0.0.s.ix', 'shown.1.0.s.ix', 'tsix', 'numbers.0.l']),
    'P20': dict(stages=[tr('P20', 240, 3000)],
                require=['P20.inputs', 'P20.fit', 'P20.full', 'P20.F', 'P20.A', 'P20.fast', 'P20.res-full', 'P20.res-fast', 'P20.results'],
                corrupt=['clean', 'v.fit', 'v.full']),
    'P21': dict(stages=[tr('P21', 240, 3000)],
                require=['P21.geometry', 'P21.fit', 'P21.full', 'P21.F', 'P21.A', 'P21.fast', 'P21.res-full', 'P21.res-fast', 'P21.results'],
                corrupt=['v.fit', 'v.full', 'v.res', 'v.F']),
    'P22': dict(stages=[tr('P22', 400, 8000)],
                require=['P22.disk', 'P22.gaussian', 'P22.range', 'P22.monotone', 'P22.symmetric', 'P22.band', 'P22.unknown',
                         'P22.behind', 'P22.alone', 'P22.density'],
                corrupt=['s|halo', 's|band', 's|behind', 's|bell']),
    'P23': dict(stages=[tr('P23', 800, 20000)],
                require=['P23.echo', 'P23.viewfactors', 'P23.circumsolar', 'P23.horizon', 'P23.isotropic', 'P23.halo',
                         'P23.product', 'P23.total', 'P23.night'],
                corrupt=['o.0.0|sky', 'o.0.1|sky', 'o.0.2|sky', 'echo|sky']),
    'P24': dict(stages=[tr('P24', 120, 1500)],
                require=['P24.modules', 'P24.ground', 'P24.ground_cut', 'P24.ground_merged', 'P24.ends', 'P24.marks',
                         'P24.numbers', 'P24.frame', 'P24.parts'],
                corrupt=['d.lines.0.g', 'd.lines.0.c', 'd.xlim', 'd.lab', 'parts.0.lines.0.g']),
    'P25': dict(stages=[tr('P25', 450, 6000)],
                require=['P25.nothing', 'P25.split', 'P25.untouched', 'P25.trimmed', 'P25.contains', 'P25.parallel', 'P25.missed',
                         'P25.met', 'P25.projected', 'P25.alike', 'P25.apart', 'P25.line', 'P25.never'],
                corrupt=['o.0|plane', 'is|plane', 'x|plane', 'ans.0|plane', 'seen.0.l|plane', 'seen.0.hi|plane']),
}

NOTES = {}
NOT_APPLICABLE = {}
