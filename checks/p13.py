"""P13: spatial averages, unions and quantities reduced over the ranks equal the one-rank (and the numpy) result."""
import numpy as np
from shapely.ops import unary_union

from checks import common as C
from sim.harness import Scenario, Skip

PROPERTY = 'P13'
RULE = 'One evaluation is one simulated job: spatial averages of drawn grids and selection geometries, unions with averaged ' \
       'variables, or global reductions, executed on one and on n ranks and compared with each other and with numpy/shapely.'
REAL = ['ocgis (all modules, one copy per rank)', 'numpy', 'netCDF4/HDF5', 'shapely/GEOS', 'fiona/GDAL']
STUB = ['mpi4py (simulated communicators, requests, collectives)', 'clock', 'process scheduler']
QUICK = {'runs': 1400, 'time': 420}
THOROUGH = {'runs': 40000, 'time': 3000}
SIZES = (2, 3, 4, 5, 8)


def groups_of(g, a, kw):
    """Lists of time indices of every temporal group, in the order of the output."""
    if kw['calc_grouping'] == 'all':
        return [list(range(g['nt']))]
    import cftime
    months = [d.month for d in cftime.num2date(a['t'], g['tunits'], g['calendar'])]
    return [[i for i, m in enumerate(months) if m == k] for k in sorted(set(months))]


def statistic(x, groups, func):
    f = {'mean': lambda v: v.mean(axis=0), 'max': lambda v: v.max(axis=0)}[func]
    out = [f(x[idx]) for idx in groups]
    return np.ma.array([np.ma.getdata(o) for o in out], mask=[np.ma.getmaskarray(o) for o in out])


def reference_average(g, poly, clip, kw=None):
    """(data of every variable averaged over the selection with the cells' areas, union of the selected geometries)"""
    a = C.grid_arrays(g)
    cc = C.cells(g)
    sel = C.intersects_mask(g, poly)
    w = np.zeros(sel.shape)
    parts = []
    for j, i in zip(*np.nonzero(sel)):
        geom = cc[j, i].intersection(poly) if clip else cc[j, i]
        w[j, i] = geom.area if geom.area > 0 else 1.0
        parts.append(geom)
    out = []
    for d, m in a['data']:
        calc = (kw or {}).get('calc')
        if calc:
            gr, func = groups_of(g, a, kw), calc[0]['func']
        if calc and kw.get('calc_raw'):
            x = statistic(np.ma.array(d.astype('f8'), mask=m), gr, func)
            d, m = np.ma.getdata(x), np.ma.getmaskarray(x)
            # The spatial aggregate of a raw statistic is not weighted with the areas (documented in the base calculation).
            w = np.ones(sel.shape)
        ww = np.where(m | ~sel, 0.0, w)
        tot = ww.sum(axis=(-2, -1))
        with np.errstate(invalid='ignore', divide='ignore'):
            v, m = np.where(tot > 0, (d.astype('f8') * ww).sum(axis=(-2, -1)) / np.where(tot > 0, tot, 1), 0.0), tot == 0
        if calc and not kw.get('calc_raw'):
            x = statistic(np.ma.array(v, mask=m), gr, func)
            v, m = np.ma.getdata(x), np.ma.getmaskarray(x)
        out.append((v, m))
    return out, unary_union(parts) if parts else None


def op_average(rc, path, kw):
    import ocgis
    ops = ocgis.OcgOperations(dataset=ocgis.RequestDataset(uri=path), aggregate=True, **kw)
    try:
        ret = ops.execute()
    except (ocgis.exc.ExtentError, ocgis.exc.EmptySubsetError) as e:
        return ('empty', type(e).__name__)
    out = {}
    for ugid, cont in ret.children.items():
        for f in cont.children.values():
            s = C.snap_field(f)
            s['geomval'] = None if s['empty'] or f.geom is None else list(f.geom.get_value().flat)
            s['geomname'] = None if s['empty'] or f.geom is None else f.geom.name
            s['gid'] = None if s['empty'] or f.geom is None or f.geom.ugid is None else f.geom.ugid.get_value().tolist()
            out[(ugid, f.name)] = s
    return ('ok', out)


def average(ctx):
    ch = ctx.ch
    n = ctx.draw_size(SIZES)
    g = C.draw_grid(ch, max_n=8)
    if ch.flag('maskt', 0.25):
        g['maskt'] = 0.4
    path = ctx.path('src.nc')
    C.write_grid_nc(path, g)
    kinds = ch.pick('kinds', (('box', 'poly'), ('box',), ('box', 'poly', 'point'), ('multi', 'box')))
    geoms = C.draw_geoms(ch, g, ch.pick('ngeom', (1, 1, 2, 3)), kinds)
    kw = {'geom': C.geoms_for_ops(geoms), 'spatial_operation': ch.pick('sop', ('intersects', 'clip')), 'allow_empty': True}
    calc = g['nt'] > 1 and ch.flag('calc', 0.3)
    if calc:
        kw['calc'] = [{'func': ch.pick('func', ('mean', 'max')), 'name': 'stat'}]
        kw['calc_grouping'] = ch.pick('grp', (['month'], 'all'))
        if ch.flag('raw', 0.4):
            kw['calc_raw'] = True
    ctx.param('request', {k: v for k, v in kw.items() if k != 'geom'})
    ctx.param('grid', {k: g.get(k) for k in ('ny', 'nx', 'nt', 'nlev', 'curvi', 'bounds', 'fmt', 'mask', 'maskt', 'nvar', 'dtype')})
    ref = ctx.serial(lambda rc: op_average(rc, path, kw))
    tol = 2e-5 if g['dtype'] == 'f4' else 1e-9
    if ref[0] == 'ok':
        judge_reference(ctx, g, geoms, kw, ref[1], calc, tol)
    out = ctx.parallel(n, lambda rc: op_average(rc, path, kw), what='OcgOperations.execute(aggregate=True)')
    kinds = set(o[0] for o in out.results)
    if ref[0] != 'ok':
        ctx.require('ok' not in kinds, 'empty-not-reported', '{}'.format(kinds))
        return
    ctx.require(kinds == {'ok'}, 'spurious-empty', '{}'.format([o if o[0] != 'ok' else 'ok' for o in out.results]))
    for key, rs in ref[1].items():
        live = [o[1][key] for o in out.results if key in o[1] and not o[1][key]['empty']]
        if rs['empty']:
            ctx.require(not live, 'data-from-nothing', 'geometry {}: empty in serial'.format(key))
            continue
        ctx.require(len(live) == 1, 'average-not-on-one-rank', 'geometry {}: {} ranks hold the average'.format(key, len(live)))
        ps = live[0]
        ctx.require(ps['data'] == rs['data'] and set(ps['vars']) == set(rs['vars']), 'variables-differ', '{} / {}'.format(
            sorted(rs['vars']), sorted(ps['vars'])))
        ctx.require(ps['gid'] == rs['gid'], 'gid-differs', '{} / {}'.format(rs['gid'], ps['gid']))
        for nm, rv in rs['vars'].items():
            pv = ps['vars'][nm]
            # Coordinates of the cells stay with the ranks which had the cells.
            if nm == rs['geomname'] or set(d for d, _ in zip(rv['dims'], rv['dims'])) & {'lat', 'lon', 'y', 'x', 'rows', 'cols'}:
                continue
            try:
                got = C.assemble([(0, pv)], what=nm)
            except C.Mismatch as e:
                ctx.violate('bad-partition', 'geometry {}: {}'.format(key, e))
            d = C.compare_var(nm, C.norm_serial(rv), got, tol)
            ctx.require(d is None, 'average-differs', 'geometry {} {}'.format(key, d))
        for a, b in zip(rs['geomval'], ps['geomval']):
            ctx.require(same_geom(a, b), 'union-differs', 'geometry {}: {} / {}'.format(key, a.wkt[:300], b.wkt[:300]))
    ctx.probes['averages compared'] += 1


def judge_reference(ctx, g, geoms, kw, ref, calc, tol):
    for (ugid, _), s in ref.items():
        poly = dict(geoms)[int(ugid)]
        want, union = reference_average(g, poly, kw['spatial_operation'] == 'clip', kw)
        if s['empty']:
            ctx.require(union is None, 'reference', 'geometry {} selects cells but the result is empty'.format(ugid))
            continue
        if union is None or poly.geom_type == 'Point' and kw['spatial_operation'] == 'clip':
            continue
        if g['bounds']:
            ctx.require(same_geom(union, s['geomval'][0]), 'union-wrong', 'geometry {}: {} expected {}'.format(
                ugid, s['geomval'][0].wkt[:300], union.wkt[:300]))
        for k in range(g['nvar']):
            names = [C.VNAMES[k]] if not calc else ['stat' if g['nvar'] == 1 else 'stat_' + C.VNAMES[k]]
            v = s['vars'][names[0]]
            m = np.zeros(v['value'].shape, dtype=bool) if v['mask'] is None else v['mask']
            wv, wm = want[k]
            ctx.require(np.array_equal(m.reshape(wm.shape), wm), 'average-mask', 'geometry {} variable {}: mask {} expected {}'.format(
                ugid, C.VNAMES[k], m.astype(int).tolist(), wm.astype(int).tolist()))
            got = v['value'].reshape(wv.shape)
            ctx.require(np.allclose(got[~wm], wv[~wm], rtol=max(tol, 1e-6), atol=0), 'average-wrong',
                        'geometry {} variable {}: {} expected {}'.format(ugid, C.VNAMES[k], got.tolist(), wv.tolist()))
            ctx.probes['averages against numpy'] += 1


def same_geom(a, b):
    if a.is_empty or b.is_empty:
        return a.is_empty == b.is_empty
    if a.area == 0 or b.area == 0:
        return a.equals(b) or a.symmetric_difference(b).is_empty or a.hausdorff_distance(b) < 1e-9
    return a.symmetric_difference(b).area < 1e-7 * max(a.area, b.area)


def unioned(ctx):
    """get_unioned on geometries scattered over the ranks, with variables to average and an arbitrary root."""
    ch = ctx.ch
    n = ctx.draw_size(SIZES)
    r = np.random.RandomState(ch.choose(1 << 20, 'rs'))
    cnt = ch.rng_int('count', 1, 12)
    kind = ctx.param('kind', ch.pick('kind', ('box', 'overlap', 'point', 'multi')))
    g = {'x0': 0., 'y0': 0., 'dx': 1., 'dy': 1., 'nx': 10, 'ny': 10}
    geoms = []
    for k in range(cnt):
        x, y = r.rand(2) * 10
        if kind == 'point':
            geoms.append(C.Point(x, y))
        elif kind == 'multi':
            from shapely.geometry import MultiPolygon
            geoms.append(MultiPolygon([C.box(3 * k, 0, 3 * k + 1 + r.rand(), 1), C.box(3 * k, 5, 3 * k + 1, 6 + r.rand())]))
        elif kind == 'box':
            geoms.append(C.box(2 * k, 0, 2 * k + 1 + r.rand(), 1 + r.rand()))
        else:
            geoms.append(C.box(x, y, x + 1 + 2 * r.rand(), y + 1 + 2 * r.rand()))
    gmask = r.rand(cnt) < 0.3 if ch.flag('gmask', 0.4) else None
    if gmask is not None and gmask.all():
        gmask[0] = False
    vs = {}
    for k in range(ch.rng_int('nv', 0, 3)):
        nt = ch.pick('nt', (0, 1, 3))
        shape = ((nt,) if nt else ()) + (cnt,)
        m = r.rand(*shape) < 0.35 if ch.flag('vmask', 0.5) else None
        vs['v{}'.format(k)] = (nt, np.round(r.rand(*shape) * 100, 3), m)
    ctx.param('vars', {k: v[1].shape for k, v in vs.items()})
    rootsel = ch.choose(100, 'root')
    min_el = 1

    def prog(rc):
        import ocgis
        from ocgis import vm
        from ocgis.vmachine.mpi import OcgDist, variable_collection_scatter
        dist = OcgDist(size=rc.size)
        dist.create_dimension('ngeom', cnt, dist=True)
        for nt in sorted(set(v[0] for v in vs.values()) - {0}):
            dist.create_dimension('t{}'.format(nt), nt)
        dist.update_dimension_bounds(min_elements=min_el)
        field = None
        if vm.rank == 0:
            arr = np.empty(cnt, dtype=object)
            arr[:] = geoms if kind != 'multi' else None
            for i, x in enumerate(geoms):
                arr[i] = x
            gv = ocgis.GeometryVariable(name='geom', value=arr, dimensions='ngeom', mask=gmask)
            field = ocgis.Field(geom=gv)
            for nm, (nt, a, m) in vs.items():
                mm = m
                if gmask is not None:
                    mm = (np.zeros(a.shape, dtype=bool) if m is None else m) | gmask
                field.add_variable(ocgis.Variable(name=nm, value=a.copy(), mask=None if mm is None else mm.copy(),
                                                  dimensions=(['t{}'.format(nt)] if nt else []) + ['ngeom']), is_data=True)
        field = variable_collection_scatter(field, dist)
        with vm.scoped_by_emptyable('live', field):
            if vm.is_null:
                return None
            root = rootsel % vm.size
            gv = field['geom']
            before = C.snap_field(field)
            if vs:
                ret = gv.get_unioned(spatial_average=sorted(vs), root=root)
            else:
                ret = gv.get_unioned(root=root)
            out = None
            if ret is not None:
                out = (ret.get_value()[0], {k: C.snap_var(ret.parent[k]) for k in vs})
            same = compare_snaps(before, C.snap_field(field))
            return vm.rank == root, out, same

    want = unary_union([x for i, x in enumerate(geoms) if gmask is None or not gmask[i]])
    area = np.array([x.area or 1.0 for x in geoms])

    def judge(tag, results):
        for res in results:
            if res is None:
                continue
            isroot, out, same = res
            ctx.require((out is not None) == isroot, 'root', '{}: only the root returns the union'.format(tag))
            ctx.require(same is None, 'source-changed', lambda: '{}: {}'.format(tag, same))
            if out is None:
                continue
            u, dv = out
            ctx.require(same_geom(want, u), 'union-wrong', '{}: {} expected {}'.format(tag, u.wkt[:300], want.wkt[:300]))
            for nm, (nt, a, m) in vs.items():
                mm = np.zeros(a.shape, dtype=bool) if m is None else m
                if gmask is not None:
                    mm = mm | gmask
                w = np.where(mm, 0., area)
                tot = w.sum(axis=-1)
                ref = (a * w).sum(axis=-1) / np.where(tot > 0, tot, 1)
                gm = dv[nm]['mask']
                gm = np.zeros(dv[nm]['value'].shape, dtype=bool) if gm is None else gm
                ctx.require(np.array_equal(gm.ravel(), np.atleast_1d(tot == 0).ravel()), 'average-mask', '{} {}: mask {} expected {}'.format(
                    tag, nm, gm.ravel().astype(int).tolist(), np.atleast_1d(tot == 0).astype(int).tolist()))
                k = ~gm.ravel()
                ctx.require(np.allclose(dv[nm]['value'].ravel()[k], np.atleast_1d(ref).ravel()[k], rtol=1e-9), 'average-wrong',
                            '{} {}: {} expected {}'.format(tag, nm, dv[nm]['value'].ravel().tolist(), np.atleast_1d(ref).tolist()))
                ctx.probes['unioned averages'] += 1

    judge('serial', [ctx.serial(prog)])
    out = ctx.parallel(n, prog, what='get_unioned')
    judge('parallel', out.results)


def compare_snaps(a, b):
    for nm, va in a['vars'].items():
        vb = b['vars'].get(nm)
        if vb is None:
            return '{} disappeared'.format(nm)
        for k in ('dims', 'local', 'global', 'attrs'):
            if va[k] != vb[k]:
                return '{} {}: {} / {}'.format(nm, k, va[k], vb[k])
        for k in ('value', 'mask'):
            if (va[k] is None) != (vb[k] is None) and k == 'value':
                return '{} {} allocated on one side'.format(nm, k)
            if va[k] is not None and vb[k] is not None and not C.eq_arrays(va[k], vb[k]):
                return '{} {} changed'.format(nm, k)
    return None


def reductions(ctx):
    """Extents, shapes, masks, wrapped state, geometry type and string lengths over all ranks."""
    ch = ctx.ch
    n = ctx.draw_size(SIZES)
    g = C.draw_grid(ch, max_n=9)
    # Longitudes around the prime meridian and the date line.
    g['x0'] = ch.pick('xx0', (-100.0, 100.0, -10.0, 165.0, 170.0, 300.0, -179.0, 5.0, -5.0))
    g['dx'] = ch.pick('dxx', (2.0, 5.0, 40.0))
    path = ctx.path('src.nc')
    C.write_grid_nc(path, g)
    geoms = C.draw_geoms(ch, g, 1, kinds=('box', 'poly', 'multi'))
    sub = ch.flag('sub', 0.5)
    abst = ch.flag('abst', 0.5)
    load = ch.flag('mask', 0.4)
    r = np.random.RandomState(ch.choose(1 << 20, 'rs'))
    strs = [''.join('abcdefghij'[:1 + r.randint(9)]) for _ in range(20)]
    ctx.param('grid', {k: g[k] for k in ('ny', 'nx', 'x0', 'dx', 'curvi', 'bounds', 'mask')})
    ctx.param('how', (sub, abst, load))

    def prog(rc):
        import ocgis
        from ocgis import vm
        f = ocgis.RequestDataset(path, variable='tas').get()
        out = {}
        with vm.scoped_by_emptyable('live', f):
            if vm.is_null:
                return ('null', None)
            if load:
                f.grid.set_mask(C.snap_var(f['tas'])['value'].reshape(-1, *f.grid.shape)[0] % 3 == 1) \
                    if f['tas'].dimension_names[-2:] == ('lat', 'lon') else None
            grid = f.grid
            try:
                if sub:
                    from ocgis.exc import EmptySubsetError
                    try:
                        grid = grid.get_intersects(geoms[0][1], optimized_bbox_subset=False)
                    except EmptySubsetError:
                        return ('empty', None)
                with vm.scoped_by_emptyable('sub', grid):
                    if vm.is_null:
                        return ('null', None)
                    out['extent'] = tuple(float(x) for x in grid.extent_global)
                    out['shape'] = tuple(int(x) for x in grid.shape_global)
                    out['has_mask'] = bool(grid.has_mask_global)
                    out['masked'] = bool(grid.has_masked_values_global)
                    out['wrapped'] = str(grid.wrapped_state)
                    out['field wrapped'] = str(grid.parent.wrapped_state)
                    if abst:
                        grid.parent.set_abstraction_geom()
                        m = grid.get_mask()
                        anyvalid = vm.gather(m is None or not m.all())
                        if vm.bcast(None if anyvalid is None else any(anyvalid)):
                            out['geom_type'] = grid.parent.geom.geom_type_global
                        out['geom wrapped'] = str(grid.parent.geom.wrapped_state)
                    ln = len(grid.dimensions[0])
                    lo = grid.dimensions[0].bounds_local[0] if grid.dimensions[0].dist else 0
                    s = ocgis.Variable(name='s', value=np.array(strs[lo:lo + ln], dtype=object), dimensions=grid.dimensions[0], dtype=str)
                    s.set_string_max_length_global()
                    out['string'] = int(s.string_max_length_global)
                    return ('ok', out)
            except NotImplementedError as e:
                return ('skip', str(e))

    ref = ctx.serial(prog)
    if ref[0] == 'skip':
        raise Skip(ref[1])
    out = ctx.parallel(n, prog, what='global reductions')
    live = [(i, o[1]) for i, o in enumerate(out.results) if o[0] == 'ok']
    bnd = [x for c in C.cells(g).flat for x in (c.bounds[0], c.bounds[2])]
    mixed = min(bnd) < 0 and max(bnd) > 180
    if ref[0] == 'empty':
        ctx.require(not live, 'empty-differs', 'empty in serial, data on ranks {}'.format([i for i, _ in live]))
        return
    ctx.require(live, 'empty-differs', 'data in serial, {}'.format(out.results))
    for i, o in live:
        for k in ref[1]:
            if k == 'geom wrapped' and mixed:
                # Geometries on both sides: whichever comes first decides, also in serial.
                continue
            a, b = ref[1][k], o[k]
            ok = np.allclose(a, b, rtol=0, atol=1e-9) if k == 'extent' else a == b
            ctx.require(ok, 'reduction-differs', '{}: {} in serial, {} on rank {} (all ranks: {})'.format(
                k, a, b, i, [x[k] for _, x in live]))
        ctx.probes['reductions'] += 1


SCENARIOS = [Scenario('average', average, weight=2, sizes=SIZES), Scenario('unioned', unioned, weight=2, sizes=SIZES),
             Scenario('reductions', reductions, weight=2, sizes=SIZES)]
