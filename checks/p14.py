"""P14: lazily loaded data equals eagerly loaded data under any history of accesses, with and without read errors."""
import os

import numpy as np

from checks import common as C
from checks import opslib as O
from checks.p08 import plain, snap_f, touch
from sim import seams
from sim.harness import Scenario, Skip
from sim.kernel import HarnessError

PROPERTY = 'P14'
RULE = 'One evaluation is one drawn history of accesses (slices, copies, partial loads, subsets, renames, reorderings) on two ' \
       'pools of objects of one source, one loaded at the start and one never loaded but by the history, with read errors at ' \
       'drawn accesses of the second; all objects of both pools and the arrays of the raw file must agree.'
REAL = ['ocgis (all modules)', 'numpy', 'netCDF4/HDF5', 'shapely/GEOS', 'fiona/GDAL']
STUB = ['clock']
QUICK = {'runs': 2500, 'time': 420}
THOROUGH = {'runs': 80000, 'time': 3000}


# -- sources --------------------------------------------------------------------------------------------------------------

class Source(object):
    """A file on disk and its arrays: {variable: (values, mask or None, dimensions)}."""

    def __init__(self, ctx, strings=True):
        ch = ctx.ch
        self.ctx = ctx
        self.strings = strings
        self.kind = ch.pick('kind', ('nc', 'nc', 'nc', 'nc', 'multi', 'csv', 'shp'))
        getattr(self, 'make_' + self.kind)(ch)

    def make_nc(self, ch):
        g = self.g = C.draw_grid(ch, max_n=6)
        self.path = self.ctx.path('src.nc')
        C.write_grid_nc(self.path, g)
        r = np.random.RandomState(g['rseed'] & 0xffff)
        self.extra = ch.flag('extra', 0.6)
        self.opts = {}
        with seams.paused():
            ds = C._raw_nc(self.path, 'a', fmt=g['fmt'])
            if self.extra:
                v = ds.createVariable('packed', 'i2', ('time', 'lat', 'lon'), fill_value=np.int16(-32768))
                v.scale_factor = 0.5
                v.add_offset = 100.0
                v.units = 'K'
                v[:] = np.ma.array(np.round(r.rand(g['nt'], g['ny'], g['nx']) * 100) / 2 + 100, mask=r.rand(g['nt'], g['ny'], g['nx']) < 0.2)
                v = ds.createVariable('count', 'i4', ('lat', 'lon'))
                v.missing_value = np.int32(-7)
                a = r.randint(0, 50, (g['ny'], g['nx'])).astype('i4')
                a[r.rand(g['ny'], g['nx']) < 0.3] = -7
                v[:] = a
                v = ds.createVariable('valid', 'f4', ('time',))
                v.valid_range = np.array([0.2, 0.8], dtype='f4')
                v[:] = r.rand(g['nt'])
                v = ds.createVariable('height', 'f8', ())
                v[...] = 2.0
                ds.createDimension('nchar', 3)
                v = ds.createVariable('label', 'S1', ('lat', 'nchar'))
                v[:] = np.array([list('{:03d}'.format(i)) for i in range(g['ny'])], dtype='S1')
                v = ds.createVariable('flag', 'i1', ('lon', 'lat'))
                v[:] = r.randint(0, 2, (g['nx'], g['ny']))
                if g['fmt'] == 'NETCDF4' and self.strings:
                    v = ds.createVariable('name', str, ('lon',))
                    for i in range(g['nx']):
                        v[i] = 'n' * (i % 3 + 1)
            ds.close()
        if ch.flag('conform', 0.15):
            self.opts['conform_units_to'] = 'celsius'
            self.opts['variable'] = 'tas'
        elif ch.flag('renamed', 0.15):
            self.opts['variable'] = 'tas'
            self.opts['rename_variable'] = 'temperature'
        if ch.flag('trange', 0.15) and g['nt'] > 1:
            self.opts['time_subset_func'] = None
        if g['nlev'] > 1 and ch.flag('lr', 0.15):
            self.opts['level_range'] = [4.0, 17.0]
        if ch.flag('noformat', 0.1):
            self.opts['format_time'] = False
        self.opts.pop('time_subset_func', 0)
        if not g['curvi'] and ch.flag('interp', 0.15) and not g['bounds']:
            self.interp = True

    def make_multi(self, ch):
        import copy
        self.make_nc(ch)
        g = self.g
        self.opts.pop('variable', 0), self.opts.pop('rename_variable', 0), self.opts.pop('conform_units_to', 0)
        # The same grid at later times; the reader of several files wants classic ones.
        self.extra = False
        a = C.grid_arrays(g)
        self.path = []
        for i in range(2):
            h = copy.deepcopy(g)
            h['fmt'] = 'NETCDF3_CLASSIC' if g['fmt'].startswith('NETCDF3') else 'NETCDF4_CLASSIC'
            p = self.ctx.path('part{}.nc'.format(i))
            C.write_grid_nc(p, h)
            with seams.paused():
                ds = C._raw_nc(p, 'a', fmt=h['fmt'])
                if g['tbounds']:
                    # The library's class for times of several files needs them.
                    ds.variables['time_bnds'].units = g['tunits']
                    ds.variables['time_bnds'].calendar = g['calendar']
                ds.close()
            if i:
                with seams.paused():
                    ds = C._raw_nc(p, 'a', fmt=h['fmt'])
                    off = a['t'][-1] + a['t'][0]
                    ds.variables['time'][:] = a['t'] + off
                    if g['tbounds']:
                        ds.variables['time_bnds'][:] = a['tb'] + off
                    for n in C.VNAMES[:g['nvar']]:
                        ds.variables[n][:] = ds.variables[n][:] + 5000
                    ds.close()
            self.path.append(p)

    def make_csv(self, ch):
        self.g = None
        n = ch.rng_int('rows', 1, 7)
        self.path = self.ctx.path('src.csv')
        cols = [c for c in ('ID', 'NAME', 'VAL', 'X')[:ch.rng_int('cols', 1, 4)]]
        with open(self.path, 'w', newline='') as f:
            f.write(','.join(cols) + '\n')
            for i in range(n):
                f.write(','.join('{}{}'.format(c.lower(), i * 10 + j) for j, c in enumerate(cols)) + '\n')
        self.opts = {}

    def make_shp(self, ch):
        self.g = None
        n = ch.rng_int('rows', 1, 7)
        self.path = self.ctx.path('src.shp')
        polys = [C.box(-100 + 2 * i, 20, -99 + 2 * i, 21 + 0.25 * i) for i in range(n)]
        C.write_shp(self.path, polys, [dict(CID=i + 3, VAL=1.5 * i, NAME='n{:02d}'.format(i)) for i in range(n)])
        self.opts = {'driver': 'vector'}

    def open(self):
        import ocgis
        f = ocgis.RequestDataset(self.path, **self.opts).get()
        return f

    def arrays(self):
        """What the file holds, read without ocgis, all at once."""
        out = {}
        if self.kind == 'csv':
            rows = C.read_csv(self.path)
            for j, c in enumerate(rows[0]):
                out[c] = (np.array([r[j] for r in rows[1:]], dtype=object), None, ('n_records',))
        elif self.kind == 'shp':
            meta, recs = C.read_shp(self.path)
            for c in meta[1]:
                out[c] = (np.array([r[1][c] for r in recs]), None, ('ocgis_ngeom',))
            geoms = np.empty(len(recs), dtype=object)
            for i, r in enumerate(recs):
                geoms[i] = r[0]
            out['ocgis_polygon'] = out['geom'] = (geoms, None, ('ocgis_ngeom',))
        else:
            with seams.paused():
                paths = self.path if isinstance(self.path, list) else [self.path]
                parts = []
                for p in paths:
                    ds = seams.state['RealDataset'](p)
                    ds.set_always_mask(False)
                    d = {}
                    for n, v in ds.variables.items():
                        a = v[...]
                        m = None
                        if isinstance(a, np.ma.MaskedArray):
                            m = np.array(np.ma.getmaskarray(a))
                            a = a.data
                        d[n] = (np.array(a), m, tuple(v.dimensions))
                    ds.close()
                    parts.append(d)
            out = parts[0]
            if len(parts) > 1:
                for n, (a, m, dims) in list(out.items()):
                    if 'time' in dims:
                        ax = dims.index('time')
                        ms = [np.zeros(p[n][0].shape, bool) if p[n][1] is None else p[n][1] for p in parts]
                        out[n] = (np.concatenate([p[n][0] for p in parts], axis=ax), np.concatenate(ms, axis=ax), dims)
        return out


# -- the history -----------------------------------------------------------------------------------------------------------

class Handle(object):
    def __init__(self, obj, idx=None, names=None, over=None, moved=()):
        self.obj = obj
        self.idx = idx  # {dimension: positions in the source} or None when the numpy model does not follow
        self.names = names or {}  # {present name: name in the source}
        self.over = over or {}  # {present name: replaced values}
        self.moved = set(moved)  # variables which are no longer as in the source

    def derive(self, obj, idx=None):
        return Handle(obj, idx, dict(self.names), dict(self.over), self.moved)


def data_names(obj):
    from ocgis.variable.crs import AbstractCRS
    return [n for n, v in obj.items() if not isinstance(v, AbstractCRS)]


def sized(obj):
    return {n: len(d) for n, d in obj.dimensions.items() if len(d) > 0}


def draw_slice(ch, n, tricky=True):
    """A slice of n elements as a plain description."""
    kind = ch.pick('skind', ('range', 'range', 'int', 'from', 'all', 'list', 'mask', 'ints'))
    a = ch.choose(n, 'a')
    b = a + 1 + ch.choose(n - a, 'b')
    if kind == 'int':
        return ('int', a)
    if kind == 'range':
        return ('slice', a, b)
    if kind == 'from':
        return ('slice', a, None) if a else ('slice', None, None)
    if kind == 'all':
        return ('slice', None, None)
    keep = [i for i in range(n) if ch.flag('keep', 0.6)] or [a]
    if kind == 'mask':
        return ('mask', n, keep)
    return (kind, keep)


def make_slice(d):
    k = d[0]
    if k == 'int':
        return d[1]
    if k == 'slice':
        return slice(d[1], d[2])
    if k == 'mask':
        m = np.zeros(d[1], dtype=bool)
        m[d[2]] = True
        return m
    return list(d[1]) if k == 'list' else np.array(d[1])


def positions(d, n):
    k = d[0]
    r = np.arange(n)
    if k == 'int':
        return r[d[1]:d[1] + 1]
    if k == 'slice':
        return r[d[1]:d[2]]
    return r[d[2]] if k == 'mask' else r[list(d[1])]


def values(v):
    return plain(C.snap_var(v))


GRID_STEPS = ('gridval', 'gridmask', 'extent', 'subset', 'clip', 'reorder', 'wrap', 'unwrap', 'geom', 'vertices')
TIME_STEPS = ('tvals', 'tbetween', 'tregion', 'tbounds', 'tnum')
STEPS = ('slice', 'slice', 'slice', 'fslice', 'vslice', 'vslice', 'copy', 'vcopy', 'deepcopy', 'value', 'value', 'value', 'mask', 'mask', 'masked',
         'bounds', 'loadv', 'loadf', 'cascade', 'meta', 'setval', 'addmask', 'rename', 'iter', 'extract', 'add', 'remove', 'renamedim', 'between', 'conform')


def draw_step(ch, src, pool):
    """What to do next, as plain data; sizes are taken from the loaded objects."""
    i = ch.choose(len(pool), 'handle')
    h = pool[i]
    kinds = STEPS
    if src.g is not None:
        kinds = kinds + GRID_STEPS + TIME_STEPS
    elif src.kind == 'shp':
        kinds = kinds + ('vgeom', 'vsub')
    k = ch.pick('step', kinds)
    s = {'step': k, 'on': i}
    names = data_names(h.obj)
    sizes = sized(h.obj)
    if not names or not sizes:
        return None
    s['var'] = ch.pick('var', names)
    v = h.obj[s['var']]
    if k == 'fslice':
        sizes = {d: n for d, n in sizes.items() if not d.endswith('_r') and (src.g is None or not src.g['curvi'] or d not in ('lat', 'lon'))}
        if src.g is None or not sizes:
            return None
    if k in ('slice', 'fslice'):
        dims = [d for d in sizes if ch.flag('dim', 0.5)] or [ch.pick('dim1', sorted(sizes))]
        s['slc'] = {d: draw_slice(ch, sizes[d]) for d in dims}
    elif k == 'vslice':
        if v.ndim == 0:
            return None
        s['slc'] = [draw_slice(ch, n) for n in v.shape]
    elif k in ('subset', 'clip'):
        g = src.g
        s['poly'] = C.draw_geoms(ch, g, 1, ('box', 'poly', 'point'))[0][1]
    elif k == 'setval':
        if v.ndim == 0 or v.dtype is None or np.dtype(v.dtype if not hasattr(v.dtype, 'dtype') else object).kind != 'f' or s['var'] in AXES:
            return None
        s['seed'] = ch.choose(1000, 'vseed')
    elif k == 'addmask':
        if v.ndim == 0 or s['var'] in AXES or v.has_bounds or s['var'].endswith('_bnds') or src.g is None:
            return None
        s['seed'] = ch.choose(1000, 'vseed')
    elif k == 'rename':
        if s['var'] in AXES or s['var'].endswith('_bnds') or src.kind == 'shp' and v.__class__.__name__ == 'GeometryVariable':
            return None
        s['new'] = s['var'] + '_r'
    elif k == 'between':
        if v.ndim != 1 or s['var'] not in ('lat', 'lon', 'lev'):
            return None
        q = sorted(float(x) for x in v.get_value())
        a, b = sorted((ch.choose(len(q), 'q0'), ch.choose(len(q), 'q1')))
        s['range'] = (q[a] - 0.3, q[b] + 0.3)
    elif k == 'renamedim':
        s['dim'] = ch.pick('rdim', sorted(sizes))
        if s['dim'] in ('bnds', 'nv', 'nchar'):
            return None
    elif k in ('tbetween', 'tregion'):
        s['lo'] = ch.choose(8, 'lo')
        s['hi'] = s['lo'] + ch.choose(4, 'hi')
    elif k == 'conform':
        if s['var'] not in ('tas', 'packed') or v.units != 'K':
            return None
    return s


IN_PLACE = ('setval', 'addmask', 'rename', 'add', 'remove', 'vertices', 'loadf', 'cascade')
STANDARD = {'time': 'time', 'lev': 'level', 'lat': 'y', 'lon': 'x'}
AXES = ('height', 'time', 'lat', 'lon', 'lev', 'time_bnds', 'lat_bnds', 'lon_bnds', 'lev_bnds')


def apply_step(s, pool):
    """Do it; returns (observation, [new handles]). Changes of the pool itself come last."""
    import ocgis
    h = pool[s['on']]
    f = h.obj
    k = s['step']
    v = f[s['var']]
    new = []
    obs = None

    def index(slc):
        if h.idx is None:
            return None
        return {d: (h.idx[d][positions(slc[d], len(h.idx[d]))] if d in slc else h.idx[d]) for d in h.idx}

    if k in ('slice', 'fslice'):
        slc = {d: make_slice(x) for d, x in s['slc'].items()}
        if k == 'slice':
            r = f[slc]
        else:
            # Dimensions of axes go by their standard names.
            r = f.get_field_slice({STANDARD.get(d, d): x for d, x in slc.items()})
        new.append(h.derive(r, index(s['slc'])))
    elif k == 'vslice':
        r = v[tuple(make_slice(x) for x in s['slc'])] if v.ndim > 1 else v[make_slice(s['slc'][0])]
        new.append(h.derive(r.parent, index(dict(zip(v.dimension_names, s['slc'])))))
    elif k == 'copy':
        new.append(h.derive(f.copy(), h.idx))
    elif k == 'vcopy':
        new.append(h.derive(v.copy().parent, h.idx))
    elif k == 'deepcopy':
        new.append(h.derive(v.deepcopy().parent, h.idx))
    elif k == 'extract':
        r = f.copy()[s['var']].extract()
        obs = values(r)
        if r.has_bounds:
            obs = (obs, values(r.bounds))
    elif k == 'value':
        obs = plain({'value': np.array(v.get_value()) if v.get_value() is not None else None, 'mask': v.get_mask()})
    elif k == 'mask':
        m = v.get_mask()
        obs = plain({'mask': None if m is None else np.array(m)})
    elif k == 'masked':
        m = v.get_masked_value()
        obs = plain({'value': None if m is None else np.array(m.data), 'mask': None if m is None else np.array(np.ma.getmaskarray(m))})
    elif k == 'bounds':
        obs = None if not v.has_bounds else values(v.bounds)
    elif k == 'loadv':
        v.load()
    elif k == 'cascade':
        v.load(cascade=True)
    elif k == 'loadf':
        f.load()
    elif k == 'meta':
        obs = (v.shape, v.ndim, str(getattr(v.dtype, 'dtype', v.dtype)), v.has_bounds, v.has_dimensions, v.size, v.units, v.is_empty)
    elif k == 'iter':
        obs = [sorted((a, str(b)) for a, b in rec.items() if not hasattr(b, 'geom_type')) for _, rec in zip(range(50), v.get_iter())] \
            if v.ndim and v.dtype is not None and not s['var'].endswith('_bnds') else None
        obs = str(obs)
    elif k == 'setval':
        val = np.random.RandomState(s['seed']).randint(0, 100, v.shape).astype(v.dtype) + 0.5
        v.get_mask()
        v.set_value(val)
        h.over[s['var']] = val
        h.moved.add(s['var'])
    elif k == 'addmask':
        m = np.random.RandomState(s['seed']).rand(*v.shape) < 0.3
        v.set_mask(m, update=True)
        h.moved.add(s['var'])
    elif k == 'rename':
        v.set_name(s['new'])
        h.names[s['new']] = h.names.pop(s['var'], s['var'])
        if s['var'] in h.moved:
            h.moved.add(s['new'])
    elif k == 'add':
        n = 'added{}'.format(len(f))
        f.add_variable(ocgis.Variable(name=n, value=np.arange(float(v.shape[0])), dimensions=v.dimensions[0]) if v.ndim else ocgis.Variable(name=n))
        h.moved.add(n)
    elif k == 'remove':
        if len(f) > 2 and s['var'] not in AXES and not s['var'].endswith('_bnds') and v.__class__.__name__ != 'GeometryVariable':
            f.remove_variable(v)
    elif k == 'renamedim':
        r = f.copy()
        r.rename_dimension(s['dim'], s['dim'] + '_r')
        idx = None if h.idx is None else {(d + '_r' if d == s['dim'] else d): x for d, x in h.idx.items()}
        new.append(h.derive(r, idx))
    elif k == 'between':
        r = v.get_between(*s['range'])
        new.append(h.derive(r.parent))
    elif k == 'conform':
        r = f.copy()
        r[s['var']].cfunits_conform('celsius')
        x = h.derive(r, h.idx)
        x.moved.add(s['var'])
        new.append(x)
    elif k == 'vgeom':
        obs = values(f.geom)
    elif k == 'vsub':
        new.append(h.derive(f.geom.get_intersects(C.box(-98.4, 20.1, -93.2, 20.6)).parent))
    elif k in GRID_STEPS:
        return apply_grid(s, h, f)
    elif k in TIME_STEPS:
        return apply_time(s, h, f)
    return obs, new


def apply_grid(s, h, f):
    k = s['step']
    g = getattr(f, 'grid', None)
    if g is None:
        return None, []
    if k == 'gridval':
        return np.array(g.get_value_stacked()), []
    if k == 'gridmask':
        m = g.get_mask()
        return plain({'mask': None if m is None else np.array(m)}), []
    if k == 'extent':
        return tuple(float(x) for x in g.extent_global), []
    if k == 'vertices':
        g.set_extrapolated_bounds('xb_', 'yb_', 'bd_') if not g.has_bounds and min(g.shape) > 1 else None
        h.idx = None
        return None, []
    if k in ('subset', 'clip'):
        r = (g.get_intersects if k == 'subset' or not g.has_bounds else g.get_intersection)(s['poly'])
        return None, [h.derive(r.parent)]
    if k == 'reorder':
        r = f.copy()
        r.grid.reorder()
        return None, [h.derive(r)]
    if k in ('wrap', 'unwrap'):
        r = f.deepcopy() if hasattr(f, 'deepcopy') else f.copy()
        getattr(r, k)()
        return None, [h.derive(r)]
    if k == 'geom':
        return values(g.get_abstraction_geometry()), []


def apply_time(s, h, f):
    k = s['step']
    t = getattr(f, 'time', None)
    if t is None:
        return None, []
    if k == 'tnum':
        return plain({'value': np.array(t.value_numtime.data)}), []
    if k == 'tvals':
        return [str(x) for x in t.value_datetime], []
    if k == 'tbounds':
        return None if not t.has_bounds else [str(x) for x in t.bounds.value_datetime.flatten()], []
    v = t.value_datetime
    if k == 'tbetween':
        lo, hi = v[min(s['lo'], len(v) - 1)], v[min(s['hi'], len(v) - 1)]
        return None, [h.derive(t.get_between(lo, hi).parent)]
    if k == 'tregion':
        return None, [h.derive(t.get_time_region({'month': sorted({v[min(s['lo'], len(v) - 1)].month, v[min(s['hi'], len(v) - 1)].month})}).parent)]


def attempt(fn):
    try:
        return ('ok', fn())
    except HarnessError:
        raise
    except Exception as e:
        if os.environ.get('OCGIS_DST_STDERR'):
            import traceback
            traceback.print_exc()
        return ('raised', type(e).__name__, str(e)[:300])


def whole(h, g):
    """All of an object as plain data; loads it."""
    return plain(C.snap_field(h.obj) if g is None else snap_f(h.obj))


def against_arrays(h, arrays):
    """None or how the object differs from the arrays of the file."""
    if h.idx is None:
        return None
    for n, v in h.obj.items():
        s = h.names.get(n, n)
        if n in h.moved or s in h.moved or s not in arrays or not hasattr(v, 'get_value'):
            continue
        a, m, dims = arrays[s]
        if v.get_value() is None:
            continue
        cur = list(h.idx)
        base = [d if d in h.idx else d + '_r' for d in dims]
        if any(d not in h.idx and d[:-2] in h.idx for d in base):
            base = dims
        want = a
        wm = np.zeros(a.shape, bool) if m is None else m
        for ax, d in enumerate(dims):
            key = next((x for x in cur if x == d or strip(x) == d), None)
            if key is None:
                continue
            want = np.take(want, h.idx[key], axis=ax)
            wm = np.take(wm, h.idx[key], axis=ax)
        got = np.asarray(v.get_value())
        gm = v.get_mask()
        gm = np.zeros(got.shape, bool) if gm is None else np.asarray(gm)
        if got.shape != want.shape:
            return '{}: shape {} but {} in the file'.format(n, got.shape, want.shape)
        if not np.array_equal(gm, wm):
            return '{}: mask {} but {} in the file'.format(n, gm.astype(int).tolist(), wm.astype(int).tolist())
        if not C.eq_arrays(got[~gm] if got.dtype != object or got.ndim else got, want[~wm] if got.dtype != object or got.ndim else want):
            return '{}: values {} but {} in the file'.format(n, C._show(got), C._show(want))
    return None


def strip(n):
    while n.endswith('_r'):
        n = n[:-2]
    return n


def history(ctx):
    def program(rc):
        ch = ctx.ch
        src = Source(ctx)
        ctx.param('source', (src.kind, src.opts))
        arrays = src.arrays()
        faults = ch.flag('faults', 0.6)
        eager, lazy = [], []
        for pool in (eager, lazy):
            f = src.open()
            if src.g is not None:
                touch(f)
            if pool is eager:
                f.load()
            idx = {n: np.arange(len(d)) for n, d in f.dimensions.items()}
            if 'level_range' in src.opts:
                idx = None
            h = Handle(f, idx)
            if 'conform_units_to' in src.opts:
                h.moved.add('tas')
            if 'rename_variable' in src.opts:
                h.names['temperature'] = 'tas'
            pool.append(h)
        log = []
        for _ in range(ch.rng_int('length', 2, 9)):
            s = draw_step(ch, src, eager)
            if s is None:
                continue
            want = attempt(lambda: apply_step(s, eager))
            text = '{} after {}'.format(show(s), log)
            if want[0] == 'raised':
                # Not an access ocgis supports; it may have been done in part.
                got = attempt(lambda: apply_step(s, lazy))
                ctx.require(got[:2] == want[:2], 'lazy-differs', lambda: '{}: loaded {}, lazy {}'.format(text, want, got))
                ctx.probes['unsupported {} {}'.format(s['step'], want[1])] += 1
                if s['step'] in IN_PLACE:
                    return
                continue
            got = None
            if faults and ch.flag('fault', 0.4):
                text, got = disturb(ctx, s, lazy, text, src.kind)
            got = got or attempt(lambda: apply_step(s, lazy))
            ctx.require(got[0] == 'ok', 'lazy-raises', lambda: '{}: loaded {}, lazy {}'.format(text, str(want)[:200], got))
            d = O.diff(want[1][0], got[1][0], 'observed')
            ctx.require(d is None, 'lazy-differs', lambda: '{}: {} (loaded / lazy)'.format(text, d))
            eager.extend(want[1][1])
            lazy.extend(got[1][1])
            log.append(show(s))
            ctx.probes[s['step']] += 1
        ctx.param('history', log)
        order = list(range(len(lazy)))
        if ch.flag('backwards', 0.5):
            order.reverse()
        for i in order:
            a, b = eager[i], lazy[i]
            text = 'object {} after {}'.format(i, log)
            ctx.require(set(a.obj.keys()) == set(b.obj.keys()), 'lazy-differs', lambda: '{}: {} / {}'.format(text, sorted(a.obj), sorted(b.obj)))
            wa, wb = attempt(lambda: whole(a, src.g)), attempt(lambda: whole(b, src.g))
            if wa[0] == 'raised':
                # Not an object ocgis can describe.
                ctx.require(wb[:2] == wa[:2], 'lazy-differs', lambda: '{}: loaded {}, lazy {}'.format(text, wa, wb))
                ctx.probes['unsupported object {}'.format(wa[1])] += 1
                continue
            ctx.require(wb[0] == 'ok', 'lazy-raises', lambda: '{}: loaded fine, lazy {}'.format(text, wb))
            d = O.diff(wa[1], wb[1], 'field')
            ctx.require(d is None, 'lazy-differs', lambda: '{}: {} (loaded / lazy)'.format(text, d))
            for p, x in (('lazy', b), ('loaded', a)):
                d = against_arrays(x, arrays)
                ctx.require(d is None, 'not-the-source', lambda: '{} ({}): {}'.format(text, p, d))
        ctx.probes['source ' + src.kind] += 1
        ctx.probes['objects {}'.format(min(len(lazy), 8))] += 1

    r = ctx.serial(program)
    if r is not None:
        raise Skip(r)


def disturb(ctx, s, lazy, text, kind):
    """The same access with a read error, first."""
    st, ch = ctx.storage, ctx.ch
    call = ch.pick('call', {'csv': ('open_r', 'read'), 'shp': ('vector_open',)}.get(kind, ('nc_read', 'nc_read', 'nc_open', 'nc_close')))
    nth = ch.pick('nth', (0, 0, 0, 1, 1, 2, 3))
    st.rearm_reset()
    if call in ('open_r', 'read'):
        st.arm(call, nth, 'fail', err=5, count=1, filt='.csv')
    else:
        seams.lib_arm(call, nth)
    got = attempt(lambda: apply_step(s, lazy))
    fired = dict(st.disarm()) if call in ('open_r', 'read') else ({call + ':error': seams.lib_plan['fired']} if seams.lib_plan['fired'] else {})
    fired = {k: v for k, v in fired.items() if v}
    seams.lib_arm()
    ctx.fired.update(fired)
    if got[0] == 'raised':
        ctx.require(fired, 'lazy-raises', lambda: '{}: {}'.format(text, got))
        ctx.probes['read error'] += 1
        return text + ' [before: {}]'.format(got), None
    if fired:
        ctx.probes['error survived'] += 1
    return text, got


def show(s):
    return ' '.join('{}={}'.format(k, v if not hasattr(v, 'wkt') else 'geometry') if k != 'step' else v for k, v in s.items())


# -- ranks ----------------------------------------------------------------------------------------------------------------

def ranks(ctx):
    """Ranks load different variables at different times; slices of the distributed objects are collective."""
    ch = ctx.ch
    n = ctx.draw_size(SIZES)

    def make(rc):
        # Strings have their length looked up collectively; the HDF5 library of the one process does not bear them opened twice.
        src = Source(ctx, strings=False)
        src.opts.pop('level_range', 0)
        return src, src.arrays()

    src, arrays = ctx.serial(make)
    ctx.param('source', (src.kind, src.opts))
    moved = {'tas'} if 'conform_units_to' in src.opts else set()
    back = {'tas': 'temperature'} if 'rename_variable' in src.opts else {}
    names = sorted(k for k, (a, m, d) in arrays.items() if d and k not in moved and k not in back)
    if src.kind == 'shp':
        names = [x for x in names if x not in ('geom', 'ocgis_polygon')]
    sizes = {}
    for a, m, d in arrays.values():
        sizes.update(zip(d, a.shape))
    drop = {'noslice': ('bnds', 'nv', 'nchar')}
    pool = [{d: np.arange(k) for d, k in sizes.items()}]
    steps = []
    for _ in range(ch.rng_int('length', 1, 6)):
        k = ch.pick('step', ('load', 'load', 'slice', 'slice', 'copy'))
        i = ch.choose(len(pool), 'on')
        if k == 'load':
            steps.append((k, i, [[(ch.pick('how', ('value', 'mask', 'load', 'bounds', 'all')), ch.pick('name', names)) for _ in range(ch.choose(3, 'loads'))]
                                 for _ in range(n)]))
        elif k == 'copy':
            steps.append((k, i))
            pool.append(pool[i])
        else:
            nm = ch.pick('name', names)
            dims = arrays[nm][2]
            slc = []
            for d in dims:
                if d in drop['noslice']:
                    slc.append(('slice', None, None))
                    continue
                # Integers and lists are not accepted for distributed dimensions.
                m = len(pool[i][d])
                a = ch.choose(m, 'a')
                b = a + 1 + ch.choose(m - a, 'b')
                slc.append(('slice', a, b) if ch.flag('cut', 0.6) else ('slice', None, None))
            steps.append((k, i, nm, slc))
            idx = dict(pool[i])
            for d, s in zip(dims, slc):
                idx[d] = idx[d][positions(s, len(idx[d]))]
            pool.append(idx)
    ctx.param('history', steps)

    def prog(rc):
        from ocgis import vm
        f = src.open()
        objs = [f]
        for s in steps:
            o = objs[s[1]]
            if s[0] == 'load':
                if not o.is_empty:
                    for how, nm in s[2][rc.rank]:
                        v = o[nm]
                        if how == 'all':
                            v.load(cascade=True)
                        elif how == 'bounds':
                            v.bounds is None or v.bounds.get_value()
                        else:
                            {'value': v.get_value, 'mask': v.get_mask, 'load': v.load}[how]()
            elif s[0] == 'copy':
                objs.append(o.copy())
            else:
                with vm.scoped_by_emptyable('slice', o):
                    if not vm.is_null:
                        o = o[s[2]].get_distributed_slice([make_slice(x) for x in s[3]]).parent
                objs.append(o)
        return [None if o.is_empty else {k: C.snap_var(v) for k, v in o.items() if hasattr(v, 'get_value')} for o in objs]

    r = ctx.parallel(n, prog, what='a history of accesses on ranks')
    for i, idx in enumerate(pool):
        snaps = [x[i] for x in r.results]
        text = 'object {} after {}'.format(i, steps)
        ctx.probes['ranks holding data {}'.format(sum(s is not None for s in snaps))] += 1
        for nm in names:
            a, m, dims = arrays[nm]
            m = np.zeros(a.shape, bool) if m is None else m
            for ax, d in enumerate(dims):
                a, m = np.take(a, idx[d], axis=ax), np.take(m, idx[d], axis=ax)
            missing = [k for k, s in enumerate(snaps) if s is not None and nm not in s]
            ctx.require(not missing, 'variable-lost', lambda: '{}: {} is not on ranks {}'.format(text, nm, missing))
            try:
                got = C.assemble([(k, s[nm]) for k, s in enumerate(snaps) if s is not None], what='{}: {}'.format(text, nm))
            except C.Mismatch as e:
                ctx.violate('not-the-source', str(e))
            ctx.require(got is not None, 'data-lost', lambda: '{}: {} is held by no rank'.format(text, nm))
            ctx.require(tuple(got['shape']) == a.shape, 'not-the-source', lambda: '{}: {} has shape {} but {} in the file'.format(text, nm, got['shape'], a.shape))
            ctx.require(np.array_equal(got['mask'], m), 'not-the-source', lambda: '{}: {} has mask {} but {} in the file'.format(
                text, nm, got['mask'].astype(int).tolist(), m.astype(int).tolist()))
            ctx.require(C.eq_arrays(got['value'][~m], a[~m]), 'not-the-source', lambda: '{}: {} is {} but {} in the file'.format(
                text, nm, C._show(got['value']), C._show(a)))
    ctx.probes['rank source ' + src.kind] += 1


SIZES = (2, 3, 4, 5)
SCENARIOS = [Scenario('history', history, weight=4), Scenario('ranks', ranks, weight=1, sizes=SIZES)]
