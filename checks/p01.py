"""P01: a parallel operation returns, over all ranks, exactly the serial result."""
from checks import common as C
from sim.harness import Scenario, Skip

PROPERTY = 'P01'
RULE = 'One evaluation is one simulated job: a drawn source grid, selection geometries and request executed on one rank ' \
       'and on n ranks under a drawn schedule, the rank pieces assembled and compared element by element.'
REAL = ['ocgis (all modules, one copy per rank)', 'numpy', 'netCDF4/HDF5', 'shapely/GEOS', 'fiona/GDAL']
STUB = ['mpi4py (simulated communicators, requests, collectives)', 'clock', 'process scheduler']
QUICK = {'runs': 400, 'time': 420}
THOROUGH = {'runs': 20000, 'time': 3000}


def draw_request(ctx, g, kinds=('box', 'poly', 'point', 'multi')):
    ch = ctx.ch
    kw = {}
    ngeom = ch.pick('ngeom', (1, 0, 1, 2, 3))
    geoms = C.draw_geoms(ch, g, ngeom, kinds) if ngeom else []
    if ngeom:
        kw['geom'] = C.geoms_for_ops(geoms)
        kw['spatial_operation'] = ch.pick('sop', ('intersects', 'clip'))
        if ch.flag('allow_empty', 0.2):
            kw['allow_empty'] = True
    if ch.flag('snippet', 0.1):
        kw['snippet'] = True
    elif g['nt'] > 1 and ch.flag('tr', 0.25):
        kw['time_region'] = {'month': sorted(set(1 + ch.choose(4, 'mon') for _ in range(2)))}
    if g['nlev'] > 1 and ch.flag('lr', 0.25):
        kw['level_range'] = [4.0, 17.0]
    return kw, geoms


def op(rc, path, kw):
    import ocgis
    rd = ocgis.RequestDataset(uri=path, variable=kw.get('variable'))
    k = {a: b for a, b in kw.items() if a != 'variable'}
    ops = ocgis.OcgOperations(dataset=rd, **k)
    try:
        ret = ops.execute()
    except (ocgis.exc.ExtentError, ocgis.exc.EmptySubsetError) as e:
        return ('empty', type(e).__name__)
    return ('ok', C.snap_coll(ret))


def compare_colls(ctx, ref, outs, tol=0.0):
    kinds = set(o[0] for o in outs)
    if ref[0] == 'empty':
        ctx.require('empty' in kinds, 'empty-not-reported', 'serial run raises an empty-subset error, ranks return {}'.format(outs))
        ctx.probes['empty_subset'] += 1
        return
    ctx.require(kinds == {'ok'}, 'spurious-empty', lambda: 'serial run returns data, some rank raises: {}'.format(
        [o if o[0] != 'ok' else 'ok' for o in outs]))
    outs = [o[1] for o in outs]
    ref = ref[1]
    n_nonempty = 0
    for ugid in ref:
        for fname, rf in ref[ugid].items():
            pieces = [(r, o[ugid][fname]) for r, o in enumerate(outs) if ugid in o and fname in o[ugid]]
            live = [(r, p) for r, p in pieces if not p['empty']]
            if rf['empty']:
                ctx.require(not live, 'data-from-nothing', 'field {} of geometry {} is empty in serial, ranks {} hold data'.format(
                    fname, ugid, [r for r, _ in live]))
                continue
            n_nonempty = max(n_nonempty, len(live))
            ctx.require(live, 'lost-field', lambda: 'field {} of geometry {}: no rank holds it; ranks hold {}'.format(
                fname, ugid, [{u: {f: 'empty' if s['empty'] else 'data' for f, s in d.items()} for u, d in o.items()} for o in outs]))
            for nm, rv in rf['vars'].items():
                try:
                    got = C.assemble([(r, p['vars'].get(nm)) for r, p in live], what=nm)
                except C.Mismatch as e:
                    ctx.violate('bad-partition', 'geometry {}: {}'.format(ugid, e))
                d = C.compare_var(nm, C.norm_serial(rv), got, tol)
                ctx.require(d is None, 'result-differs', 'geometry {} field {} {}'.format(ugid, fname, d))
            for r, p in live:
                ctx.require(set(p['vars']) == set(rf['vars']), 'variables-differ', 'rank {}: {} / {}'.format(
                    r, sorted(p['vars']), sorted(rf['vars'])))
                ctx.require(p['data'] == rf['data'], 'tags-differ', 'rank {}: {} / {}'.format(r, p['data'], rf['data']))
    if 1 < n_nonempty:
        ctx.probes['spread_over_ranks'] += 1
    if n_nonempty < len(outs):
        ctx.probes['some_rank_empty'] += 1


def ops_subset(ctx):
    ch = ctx.ch
    n = ctx.draw_size(SIZES)
    g = C.draw_grid(ch)
    path = ctx.path('src.nc')
    C.write_grid_nc(path, g)
    kw, geoms = draw_request(ctx, g)
    ctx.param('request', {k: v for k, v in kw.items() if k != 'geom'})
    ctx.param('grid', {k: g[k] for k in ('ny', 'nx', 'nt', 'nlev', 'curvi', 'bounds', 'fmt', 'mask')})
    ref = ctx.serial(lambda rc: op(rc, path, kw))
    out = ctx.parallel(n, lambda rc: op(rc, path, kw), what='OcgOperations.execute')
    compare_colls(ctx, ref, out.results)


SIZES = (2, 3, 4, 5, 8)
SCENARIOS = [Scenario('ops_subset', ops_subset, sizes=SIZES)]
