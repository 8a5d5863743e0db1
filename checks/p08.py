"""P08: an operation does not depend on the history of the process and leaves its arguments and the environment alone."""
import copy
import datetime
import os
import re

import numpy as np

from checks import common as C
from checks import opslib as O
from sim import seams
from sim.harness import Scenario, Skip
from sim.kernel import HarnessError

PROPERTY = 'P08'
RULE = 'One evaluation is one history: a drawn sequence of operations in one process which share sources, request objects, ' \
       'fields, geometries and other arguments, some of them disturbed (a library error, an exception out of the progress ' \
       'callback, an impossible request). Each undisturbed operation must return what it returns in a fresh process; after ' \
       'each operation the arguments and the environment must be as they were. Per-geometry runs compare the result for each ' \
       'geometry with the result of a request for it alone.'
REAL = ['ocgis (all modules)', 'numpy', 'netCDF4/HDF5', 'shapely/GEOS', 'fiona/GDAL']
STUB = ['clock']
QUICK = {'runs': 1500, 'time': 420}
THOROUGH = {'runs': 40000, 'time': 3000}


class Interrupted(Exception):
    pass


def Callback(at=None):
    """Progress of an operation; may raise in the middle of it."""
    n = [0]

    def callback(percent, message):
        n[0] += 1
        if at is not None and n[0] == at + 1:
            raise Interrupted('stop')

    callback.n = n
    return callback


# -- state of the process ------------------------------------------------------------------------------------------------

def environment():
    import ocgis
    import logging
    import warnings
    env = ocgis.env
    out = {}
    for k, v in sorted(env.__dict__.items()):
        if hasattr(v, 'env_name'):
            x = v.value
            out['env.' + k] = repr(x) if isinstance(x, (str, bool, int, float, type(None))) else type(x).__name__ + str(getattr(x, 'proj4', ''))
        elif k == 'ops':
            out['env.ops'] = repr(v)
    vm = ocgis.vm
    out['vm'] = (vm.current_comm_name, sorted(map(str, vm._subcomms)) if hasattr(vm, '_subcomms') else None, vm.size, vm.rank)
    out['np.err'] = sorted(np.geterr().items())
    out['cwd'] = os.getcwd()
    out['environ'] = sorted((k, v) for k, v in os.environ.items())
    out['showwarning'] = getattr(warnings.showwarning, '__module__', '')
    out['log'] = (ocgis.util.logging_ocgis.ocgis_lh.null, ocgis.util.logging_ocgis.ocgis_lh.callback is None)
    return out


# -- arguments ----------------------------------------------------------------------------------------------------------

def snap_arg(x):
    """An argument as plain data. Loads data; called in a copy of the process."""
    import ocgis
    from ocgis.variable.geom import GeometryVariable
    if isinstance(x, ocgis.Field):
        # Coordinates are set up on first access.
        touch(x)
        return ('field', plain(snap_f(x)), sorted(x.keys()),
                sorted((t, sorted(n)) for t, n in x._tags.items() if n), plain_map(x.dimension_map.as_dict()), x.regrid_source,
                x.grid_abstraction if hasattr(x, 'grid_abstraction') else None, sorted((d, len(v)) for d, v in x.dimensions.items()))
    if isinstance(x, ocgis.RequestDataset):
        # What the request object reports, and what it gives.
        f = x.get()
        touch(f)
        return ('rd', x.uri, x.variable, x.time_range, x.time_region, x.level_range, x.field_name, str(x.units), str(x.conform_units_to),
                plain_map(x.dimension_map.as_dict()), snap_arg(x.crs), plain(snap_f(f)))
    if isinstance(x, GeometryVariable):
        return ('gvar', plain(C.snap_var(x)), None if x.ugid is None else C.snap_var(x.ugid), snap_arg(x.crs))
    if isinstance(x, dict):
        return {k: snap_arg(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [snap_arg(v) for v in x]
    if hasattr(x, 'geom_type'):
        return ('geom', x.wkt)
    if hasattr(x, 'proj4'):
        return ('crs', type(x).__name__, x.proj4)
    if isinstance(x, ocgis.GeomCabinetIterator):
        return ('gci', [(r['geom'].wkt, sorted((k, str(v)) for k, v in r['properties'].items())) for r in plain_gci(x)])
    if callable(x):
        return 'callable'
    return x


def snap_f(f):
    touch(f)
    return C.snap_field(f)


def plain(s):
    """Without values under a mask; no mask and a mask of nothing are the same."""
    s = O.mask_values(s)
    if isinstance(s, dict):
        if s.get('mask') is not None and isinstance(s['mask'], np.ndarray) and not s['mask'].any():
            s = dict(s, mask=None)
        return {k: plain(v) if isinstance(v, dict) else v for k, v in s.items()}
    return s


def plain_map(d):
    """Without empty entries, which are added by asking for them."""
    if isinstance(d, dict):
        d = {str(k): plain_map(v) for k, v in d.items()}
        return {k: v for k, v in d.items() if v not in (None, {}, [])}
    return list(d) if isinstance(d, (list, tuple)) else d if isinstance(d, (str, int, float, bool, type(None))) else str(d)


def touch(f):
    for n in ('time', 'level', 'realization', 'x', 'y', 'grid', 'geom', 'crs'):
        v = getattr(f, n)
        for w in (v, getattr(v, 'x', None), getattr(v, 'y', None)):
            getattr(w, 'bounds', None)


def plain_gci(x):
    if x.as_field:
        return [{'geom': f.geom.get_value().flatten()[0], 'properties': {'as': 'field'}} for f in x]
    return list(x)


class Case(object):
    """A recipe of shared arguments."""

    def __init__(self, ctx):
        ch = ctx.ch
        self.ctx = ctx
        self.g = g = C.draw_grid(ch, max_n=5)
        if ch.flag('wide', 0.2):
            # Most of the globe, in domains of their own.
            g.update(curvi=False, x0=ch.pick('wx0', (-20.0, 5.0, -170.0)), dx=60.0, nx=max(g['nx'], 4))
        self.path = ctx.path('src.nc')
        C.write_grid_nc(self.path, g)
        self.geoms = C.draw_geoms(ch, g, ch.rng_int('ngeom', 1, 3), ('box', 'poly', 'point', 'multi'))
        if ch.flag('far', 0.25):
            # A geometry outside of the source.
            self.geoms.insert(ch.choose(len(self.geoms) + 1, 'farpos'), (30, C.box(g['x0'] + 61.3, -40.2, g['x0'] + 63.7, -38.4)))
        if ch.flag('shift', 0.2):
            # In the other longitude domain.
            from shapely.affinity import translate
            self.geoms = [(u, translate(p, 360.0 if p.centroid.x < 0 else 0.0)) for u, p in self.geoms]
        self.shp = None
        if all(p.geom_type == self.geoms[0][1].geom_type for _, p in self.geoms):
            self.shp = ctx.path('sel.shp')
            C.write_shp(self.shp, [p for _, p in self.geoms], [dict(UGID=u, NAME='g{}'.format(u)) for u, _ in self.geoms])
        # Cells as polygons, in a file of their own.
        self.vpath = ctx.path('cells.shp')
        polys = list(C.cells(g).flat)[:12]
        C.write_shp(self.vpath, polys, [dict(CID=i + 1, NAME='c{}'.format(i), VAL=i * 1.5) for i in range(len(polys))])
        self.loaded = ch.flag('loaded', 0.3)
        self.noprops = ch.flag('noprops', 0.2)

    def build(self):
        import ocgis
        a = {}
        a['rd'] = ocgis.RequestDataset(self.path)
        a['field'] = ocgis.RequestDataset(self.path).get()
        # Attributes of coordinates and bounds are set by the first access.
        touch(a['field'])
        if self.loaded:
            a['field'].load()
        a['vrd'] = ocgis.RequestDataset(self.vpath, driver='vector')
        a['vfield'] = ocgis.RequestDataset(self.vpath, driver='vector').get()
        a['geoms'] = C.geoms_for_ops(self.geoms)
        if self.noprops:
            for x in a['geoms']:
                x.pop('properties')
        a['geom'] = self.geoms[0][1]
        if self.shp:
            a['gci'] = ocgis.GeomCabinetIterator(path=self.shp)
            a['gfield'] = ocgis.RequestDataset(self.shp, driver='vector').get()
            a['gfield'].geom.set_ugid(a['gfield']['UGID'])
        gv = ocgis.GeometryVariable(name='sel', value=[p for _, p in self.geoms], dimensions='dsel', crs=ocgis.crs.WGS84())
        gv.set_ugid(ocgis.Variable(name='UGID', value=[u for u, _ in self.geoms], dimensions='dsel'))
        a['gvar'] = gv
        a['calc'] = [{'func': 'mean', 'name': 'stat'}, {'func': 'max', 'name': 'top'}]
        a['calc_grouping'] = ['month']
        a['calc_kwds'] = [{'func': 'threshold', 'name': 'stat', 'kwds': {'threshold': 10005.0, 'operation': 'gt'}}]
        a['time_region'] = {'month': [1, 2], 'year': None}
        a['level_range'] = [4.0, 17.0]
        a['crs'] = ocgis.crs.CoordinateReferenceSystem(epsg=2163)
        a['opts'] = {'data_model': 'NETCDF4'}
        a['slice'] = [None, [0, 1], None, [0, 1], None]
        return a


def draw_request(case):
    """kwargs with '@name' for shared arguments"""
    ch, g = case.ctx.ch, case.g
    kw = {'dataset': ch.pick('ds', ('@rd', '@field', '@rd', 'path', '@field', '@vrd', '@vfield'))}
    fmt = kw['output_format'] = ch.pick('fmt', ('ocgis', 'ocgis', 'ocgis', 'nc', 'csv', 'csv-shp', 'shp', 'geojson'))
    sel = ch.pick('sel', ('none', '@geoms', '@geoms', '@geom', '@gvar') + (('@gci', '@gfield', 'shp') if case.shp else ()))
    if sel != 'none':
        kw['geom'] = case.shp if sel == 'shp' else sel
        kw['spatial_operation'] = ch.pick('sop', ('intersects', 'clip'))
        if ch.flag('agg', 0.25):
            kw['aggregate'] = True
        if ch.flag('aggsel', 0.2) or (fmt == 'nc' and len(case.geoms) > 1):
            kw['agg_selection'] = True
        if ch.flag('allow_empty', 0.4):
            kw['allow_empty'] = True
        if sel in ('@gci', 'shp') and ch.flag('uid', 0.2):
            kw['geom_select_uid'] = [case.geoms[-1][0]]
        if ch.flag('obs', 0.1):
            kw['optimized_bbox_subset'] = True
        if ch.flag('sw', 0.15):
            kw['search_radius_mult'] = 1.5
    elif ch.flag('slice', 0.15):
        kw['slice'] = '@slice'
    if ch.flag('wrap', 0.2):
        kw['spatial_wrapping'] = ch.pick('wrapto', ('wrap', 'unwrap'))
    elif ch.flag('reorder', 0.1):
        kw['spatial_wrapping'] = 'wrap'
        kw['spatial_reorder'] = True
    if ch.flag('vw', 0.15):
        kw['vector_wrap'] = False
    if ch.flag('calc', 0.25):
        kw['calc'] = ch.pick('calck', ('@calc', '@calc_kwds'))
        kw['calc_grouping'] = '@calc_grouping'
        if ch.flag('calc_raw', 0.2):
            kw['calc_raw'] = True
    elif ch.flag('expr', 0.1):
        kw['calc'] = 'stat=tas*2'
    elif ch.flag('snippet', 0.15):
        kw['snippet'] = True
    if 'snippet' not in kw and ch.flag('tr', 0.15):
        kw['time_region'] = '@time_region'
    if g['nlev'] > 1 and ch.flag('lr', 0.2):
        kw['level_range'] = '@level_range'
    if ch.flag('ocrs', 0.15) and fmt != 'geojson':
        kw['output_crs'] = '@crs'
    if ch.flag('conform', 0.12):
        kw['conform_units_to'] = 'celsius'
    if ch.flag('abs', 0.15):
        kw['abstraction'] = 'point'
    if fmt == 'nc' and ch.flag('dm', 0.3):
        kw['output_format_options'] = '@opts'
    if fmt in ('csv', 'csv-shp', 'shp', 'geojson') and ch.flag('melted', 0.4):
        kw['melted'] = True
    if not g['curvi'] and not g['bounds'] and ch.flag('interp', 0.2):
        kw['interpolate_spatial_bounds'] = True
    if ch.flag('nounits', 0.05):
        kw['format_time'] = False
    if kw['dataset'][:2] == '@v':
        # No time, levels, grid.
        for k in ('slice', 'calc', 'calc_grouping', 'calc_raw', 'snippet', 'time_region', 'level_range', 'conform_units_to', 'abstraction',
                  'interpolate_spatial_bounds', 'optimized_bbox_subset', 'spatial_reorder', 'aggregate', 'output_format_options',
                  'search_radius_mult', 'format_time'):
            kw.pop(k, None)
        if fmt in ('nc', 'csv-shp'):
            kw['output_format'] = 'shp'
    return kw


def resolve(kw, args, case):
    import ocgis
    out = {}
    for k, v in kw.items():
        if isinstance(v, str) and v.startswith('@'):
            v = args[v[1:]]
        elif k == 'dataset':
            v = ocgis.RequestDataset(case.path)
        out[k] = v
    return out


FIELD_OPS = ('slice', 'write nc', 'write csv', 'grid subset', 'subset', 'wrap copy', 'time subset', 'get', 'unwrap copy', 'geom subset', 'abstraction',
             'melted', 'crs copy', 'iter', 'netcdf attrs', 'rename copy', 'change copy', 'bounds copy')


def run_field_op(name, args, case, outdir):
    """Operations on the shared field itself."""
    import ocgis
    f = args['field']
    geom = case.geoms[0][1]
    try:
        if name == 'slice':
            d = f.data_variables[0].dimensions
            return ('ok', plain(snap_f(f[{d[-1].name: slice(0, 1)}])))
        if name.startswith('write'):
            fmt = name.split()[1]
            kw = {'driver': 'csv'} if fmt == 'csv' else {}
            f.write(os.path.join(outdir, 'f.' + fmt), **kw)
            return ('ok', None)
        if name == 'grid subset':
            r = f.grid.get_intersects(geom)
            return ('ok', plain(snap_f(r.parent)))
        if name == 'subset':
            ss = ocgis.spatial.spatial_subset.SpatialSubsetOperation(f)
            r = ss.get_spatial_subset('clip', geom, geom_crs=f.crs)
            return ('ok', plain(snap_f(r)))
        if name == 'geom subset':
            sel = args.get('gfield', args['gvar'])
            ss = ocgis.spatial.spatial_subset.SpatialSubsetOperation(f)
            r = ss.get_spatial_subset('intersects', geom, geom_crs=ocgis.crs.WGS84())
            return ('ok', plain(snap_f(r)))
        if name in ('wrap copy', 'unwrap copy'):
            r = f.deepcopy()
            (r.wrap if name[0] == 'w' else r.unwrap)()
            return ('ok', plain(snap_f(r)))
        if name == 'crs copy':
            r = f.deepcopy()
            r.update_crs(args['crs'])
            return ('ok', plain(snap_f(r)))
        if name == 'rename copy':
            r = f.copy()
            for d in sorted(r.dimensions):
                r.rename_dimension(d, d + '_new')
            r.data_variables[0].set_name('other')
            return ('ok', sorted(r.dimensions) + sorted(r.keys()))
        if name == 'change copy':
            r = f.copy()
            v = r.data_variables[0]
            v.attrs['note'] = 'changed'
            v.set_mask(np.ones(v.shape, dtype=bool))
            v.set_value(np.zeros(v.shape, dtype=v.dtype))
            r.add_variable(ocgis.Variable(name='more', value=np.arange(3.0), dimensions='dmore'))
            r.remove_variable(r.time)
            return ('ok', plain(snap_f(r)))
        if name == 'bounds copy':
            r = f.copy()
            if not r.grid.has_bounds and min(r.grid.shape) > 1:
                r.grid.set_extrapolated_bounds('xb_', 'yb_', 'db_')
            r.grid.remove_bounds()
            r.grid.reorder()
            return ('ok', plain(snap_f(r)))
        if name == 'time subset':
            t = f.time.value_datetime
            r = f.get_field_slice({'time': slice(0, 1)})
            r2 = f.time.get_between(t[0], t[-1])
            return ('ok', (plain(snap_f(r)), r2.shape, [str(x) for x in t]))
        if name == 'get':
            return ('ok', plain(snap_f(args['rd'].get())))
        if name == 'abstraction':
            r = f.copy()
            r.set_abstraction_geom()
            return ('ok', [str(x) for x in r.geom.get_value().flat])
        if name == 'melted':
            return ('ok', [sorted((k, str(v)) for k, v in x[1].items()) for x in f.iter(melted=True)][:50])
        if name == 'iter':
            return ('ok', [sorted((k, str(v)) for k, v in x[1].items()) for x in f.iter()][:50])
        if name == 'netcdf attrs':
            return ('ok', str(f.data_variables[0].attrs))
    except (ocgis.exc.ExtentError, ocgis.exc.EmptySubsetError, ocgis.exc.EmptyIterationError) as e:
        return ('rejected', type(e).__name__)
    raise HarnessError(name)


def run_step(step, args, case, outdir, extra=None):
    import ocgis
    if step[0] == 'field':
        return run_field_op(step[1], args, case, outdir)
    if step[0] == 'other':
        return step[1].run(outdir)
    k = resolve(step[1], args, case)
    k.update(extra or {})
    if k['output_format'] != 'ocgis':
        k['dir_output'] = outdir
    try:
        ops = ocgis.OcgOperations(**k)
        ret = ops.execute()
    except (ocgis.exc.ExtentError, ocgis.exc.EmptySubsetError, ocgis.exc.EmptyIterationError) as e:
        return ('rejected', type(e).__name__)
    if k['output_format'] == 'ocgis':
        return ('ok', plain(C.snap_coll(ret)))
    return ('ok', ret.replace(outdir, '<out>') if isinstance(ret, str) else repr(type(ret)))


def skip_files(step):
    # A summary of the field, with entries added by first access.
    return ('.log', '_source_metadata.txt') if step[0] == 'ops' and step[1]['dataset'] in ('@field', '@vfield') else ('.log',)


def describe(step):
    return 'field {}'.format(step[1]) if step[0] == 'field' else step[1].name if step[0] == 'other' else \
        'ops {}'.format({k: v for k, v in step[1].items()})


def attempt(fn):
    try:
        return ('returned', fn())
    except Exception as e:
        if os.environ.get('OCGIS_DST_STDERR'):
            import traceback
            traceback.print_exc()
        return ('raised', type(e).__name__, re.sub(' at 0x[0-9a-f]+', '', str(e))[:300])


def in_copy(ctx, fn, what):
    code, res = ctx.subprocess(fn)
    if res is None or res[0] != 'ok':
        raise HarnessError('{}: {} {}'.format(what, code, res))
    return res[1]


def history(ctx):
    def program(rc):
        ch = ctx.ch
        case = Case(ctx)
        n = ch.rng_int('nsteps', 2, 5)
        steps = []
        for i in range(n):
            kind = ch.pick('kind', ('ops', 'ops', 'ops', 'field', 'other'))
            if kind == 'ops':
                st = ('ops', draw_request(case))
            elif kind == 'field':
                st = ('field', ch.pick('fop', FIELD_OPS))
            else:
                st = ('other', O.draw_op(ctx, tag=str(i)))
            steps.append((st, ch.pick('disturb', ('none', 'none', 'none', 'callback', 'library', 'invalid'))))
        ctx.param('steps', [(describe(s), d) for s, d in steps])

        # Each operation in a process without history.
        refs = []
        for i, (st, dist) in enumerate(steps):
            d = ctx.path('ref{}'.format(i))
            os.mkdir(d)

            def fresh():
                cb = Callback()
                seams.lib_arm()
                args = case.build()
                lib0 = dict(seams.lib_counts)
                got = attempt(lambda: run_step(st, args, case, d, {'callback': cb} if st[0] == 'ops' else None))
                lib = {k: v - lib0.get(k, 0) for k, v in seams.lib_counts.items() if v > lib0.get(k, 0)}
                return got, cb.n[0], lib

            refs.append(in_copy(ctx, fresh, 'reference'))

        args = case.build()
        pristine = in_copy(ctx, lambda: snap_arg(case.build()), 'arguments')
        e0 = environment()
        done = []
        for i, (st, dist) in enumerate(steps):
            ref, ncalls, lib = refs[i]
            what = lambda: '{} ({}) after {}'.format(describe(st), dist, done)
            d = ctx.path('out{}'.format(i))
            os.mkdir(d)
            extra = {'callback': Callback()} if st[0] == 'ops' else None
            seams.lib_arm()
            if dist == 'callback' and st[0] == 'ops' and ncalls:
                # The exception is raised in the middle of the operation.
                extra = {'callback': Callback(ch.choose(ncalls, 'ncall'))}
                ctx.fired['interrupt'] += 1
            elif dist == 'library' and any(x in lib for x in LIB):
                c = ch.pick('fcall', [x for x in LIB if x in lib])
                seams.lib_arm(c, ch.choose(lib[c], 'nth'))
            elif dist == 'invalid' and st[0] == 'ops':
                extra.update(ch.pick('bad', BAD))
                ctx.fired['impossible request'] += 1
            elif dist != 'none':
                dist = 'none'
            got = attempt(lambda: run_step(st, args, case, d, extra))
            if dist == 'library' and seams.lib_plan['fired']:
                ctx.fired['{}:error'.format(c)] += 1
            left = ctx.storage.open_files()
            seams.lib_arm()
            if dist == 'none' or (dist == 'invalid' and got[0] == 'returned'):
                if dist == 'none':
                    df = O.diff(ref, got)
                    ctx.require(df is None, 'history-dependent', lambda: '{}: fresh process / here: {}'.format(what(), df))
                    if got[0] == 'returned':
                        df = O.diff_trees(ctx.path('ref{}'.format(i)), d, skip_ext=skip_files(st))
                        ctx.require(df is None, 'history-dependent', lambda: '{}: {}'.format(what(), df))
                        ctx.probes['ops equal' if st[0] == 'ops' else st[0] + ' equal'] += 1
                        ctx.probes[got[1][0]] += 1
                    else:
                        ctx.probes['raises ' + got[1]] += 1
                        ctx.params.setdefault('raises', []).append(got[1:])
            e1 = environment()
            df = O.diff(e0, e1)
            ctx.require(df is None, 'environment-changed', lambda: '{}: {}'.format(what(), df))
            now = in_copy(ctx, lambda: snap_arg(args), 'arguments')
            df = O.diff(pristine, now)
            ctx.require(df is None, 'arguments-changed', lambda: '{}: {}'.format(what(), df))
            done.append(describe(st) if dist == 'none' else '{} [{}: {}]'.format(describe(st), dist, got[1]))
            if dist != 'none' and got[0] == 'raised':
                ctx.probes['failed step'] += 1

    ctx.serial(program)


def per_geometry(ctx):
    """The result for one geometry does not depend on the others."""
    ch = ctx.ch

    def program(rc):
        case = Case(ctx)
        case.noprops = False
        if len(case.geoms) < 2:
            return Skip('one geometry')
        kw = draw_request(case)
        if kw['output_format'] not in ('ocgis', 'csv', 'shp'):
            kw['output_format'] = ch.pick('gfmt', ('ocgis', 'ocgis', 'csv', 'shp'))
        for k in ('slice', 'output_format_options', 'agg_selection', 'geom_select_uid'):
            kw.pop(k, None)
        fmt = kw['output_format']
        if kw.get('geom') in (None, '@geom'):
            kw['geom'] = '@geoms'
        kw.setdefault('spatial_operation', 'intersects')
        ctx.param('request', kw)

        def one(select, d):
            def f():
                os.mkdir(d)
                c = copy.copy(case)
                c.geoms = [case.geoms[i] for i in select]
                if case.shp:
                    c.shp = d + '.shp'
                    C.write_shp(c.shp, [p for _, p in c.geoms], [dict(UGID=u, NAME='g{}'.format(u)) for u, _ in c.geoms])
                k = dict(kw)
                if case.shp and k['geom'] == case.shp:
                    k['geom'] = c.shp
                return attempt(lambda: run_step(('ops', k), c.build(), c, d))
            return in_copy(ctx, f, 'request')

        n = len(case.geoms)
        alone = [one([i], ctx.path('alone{}'.format(i))) for i in range(n)]
        order = list(range(n))
        if ch.flag('reversed', 0.3):
            order.reverse()
        d = ctx.path('together')
        got = one(order, d)
        if any(a[0] != 'returned' or a[1][0] != 'ok' for a in alone):
            bad = [a for a in alone if a[0] != 'returned' or a[1][0] != 'ok']
            ctx.require(got[0] != 'returned' or got[1][0] != 'ok', 'failure-lost', lambda: '{} alone, together {}'.format(bad, got))
            ctx.probes['a geometry fails'] += 1
            return
        if got[0] == 'raised' and got[1] == 'GeometryTypeValidationError':
            return Skip('the format holds one type of geometry')
        ctx.require(got[0] == 'returned' and got[1][0] == 'ok', 'spurious-failure', lambda: 'each geometry alone is fine, together {}'.format(got))
        if fmt == 'ocgis':
            for i in order:
                u = case.geoms[i][0]
                ctx.require(u in got[1][1], 'geometry-lost', lambda: '{} not in {}'.format(u, list(got[1][1])))
                df = O.diff(alone[i][1][1][u], got[1][1][u])
                ctx.require(df is None, 'other-geometries-matter', lambda: 'geometry {} alone / among others: {}'.format(u, df))
            ctx.require(len(got[1][1]) == n, 'geometry-twice', lambda: '{}'.format(list(got[1][1])))
        else:
            t = records(d, fmt)
            for i in order:
                u = case.geoms[i][0]
                want = [r for r in records(ctx.path('alone{}'.format(i)), fmt)]
                have = [r for r in t if str(int(float(r.get('UGID') or -1))) == str(u)]
                df = O.diff(want, have)
                ctx.require(df is None, 'other-geometries-matter', lambda: 'geometry {} alone / among others: {}'.format(u, df))
        ctx.probes['together ' + fmt] += 1

    ret = ctx.serial(program)
    if isinstance(ret, Skip):
        raise ret


def number(v):
    # The type of a column is of the first record.
    try:
        return str(float(v))
    except (TypeError, ValueError):
        return str(v)


def records(d, fmt):
    path = os.path.join(d, 'ocgis_output', 'ocgis_output.' + fmt)
    with seams.paused():
        if not os.path.exists(path):
            # No records at all.
            return []
        if fmt == 'csv':
            import csv
            with open(path, newline='') as f:
                return [{k: number(v) for k, v in r.items()} for r in csv.DictReader(f)]
        import fiona
        with fiona.open(path) as f:
            return [dict({k: number(v) for k, v in r['properties'].items()}, geometry=str(r['geometry']['coordinates'])) for r in f]


LIB = ('nc_read', 'nc_write', 'nc_define', 'nc_attr', 'nc_open', 'vector_write', 'vector_open', 'vector_read')
BAD = ({'conform_units_to': 'seconds'}, {'calc': [{'func': 'divide', 'name': 'q', 'kwds': {'arr1': 'tas', 'arr2': 'missing'}}]},
       {'geom': [-170.0, -80.0, -169.5, -79.5], 'agg_selection': False}, {'time_range': [datetime.datetime(1801, 1, 1), datetime.datetime(1801, 2, 1)]},
       {'calc': 'stat=tas/missing'}, {'level_range': [900., 1000.]}, {'prefix': 'no/such/directory'}, {'calc': [{'func': 'nonsense', 'name': 'x'}]})

SCENARIOS = [Scenario('history', history, weight=2), Scenario('per_geometry', per_geometry)]
