"""Drawn operations shared by the checks of storage faults, reruns and histories.

An operation is drawn once (its sources are written to the scratch directory) and may then be run any number of times, each
time into a directory of its own. It returns plain data; ``diff`` compares two results and ``diff_trees`` two output directories.
"""
import os
import re

import numpy as np

from checks import common as C
from checks import p01, p03
from sim import seams


class Op(object):
    def __init__(self, name, run, sources=(), writes=False, params=None):
        self.name = name
        self.run = run  # run(outdir) -> plain data
        self.sources = list(sources)
        self.writes = writes
        self.params = params or {}


# -- comparison ---------------------------------------------------------------------------------------------------------

def diff(a, b, where='', subs=()):
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return '{}: {} / {}'.format(where, repr(a)[:200], repr(b)[:200])
    if isinstance(a, dict):
        if list(sorted(map(str, a))) != list(sorted(map(str, b))):
            return '{}: keys {} / {}'.format(where, sorted(map(str, a)), sorted(map(str, b)))
        for k in a:
            d = diff(a[k], b[k], where + '/' + str(k), subs)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '{}: lengths {} / {}: {} / {}'.format(where, len(a), len(b), repr(a)[:200], repr(b)[:200])
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '{}[{}]'.format(where, i), subs)
            if d:
                return d
        return None
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype or not C.eq_arrays(a, b):
            return '{}: {} {} / {} {}'.format(where, a.dtype, C._show(a), b.dtype, C._show(b))
        return None
    if isinstance(a, str):
        for x, y in subs:
            a = a.replace(x, y)
            b = b.replace(x, y)
    if isinstance(a, float) and a != a and b != b:
        return None
    if a is b or a == b:
        return None
    return '{}: {} / {}'.format(where, repr(a)[:200], repr(b)[:200])


def mask_values(s):
    """Values under a mask are not part of the result."""
    if isinstance(s, dict):
        if 'value' in s and 'mask' in s and isinstance(s['value'], np.ndarray) and isinstance(s['mask'], np.ndarray) \
                and s['mask'].any():
            s = dict(s)
            v = s['value'].copy()
            v[s['mask']] = None if v.dtype == object else np.zeros(1, dtype=v.dtype)[0]
            s['value'] = v
        return {k: mask_values(v) for k, v in s.items()}
    return s


def diff_trees(ra, rb, only=None, skip_ext=('.log',)):
    """None or how the files below two directories differ; order of records included, time stamps excluded."""
    fa = [f for f in p03.list_files(ra) if not f.endswith(skip_ext)]
    fb = [f for f in p03.list_files(rb) if not f.endswith(skip_ext)]
    if fa != fb:
        return 'files {} / {}'.format(fa, fb)
    for f in fa:
        d = diff_file(os.path.join(ra, f), os.path.join(rb, f), ra, rb)
        if d:
            return '{}: {}'.format(f, d)


def diff_file(pa, pb, ra, rb):
    ext = os.path.splitext(pa)[1]
    with seams.paused():
        with open(pa, 'rb') as x, open(pb, 'rb') as y:
            a, b = x.read(), y.read()
    if a == b:
        return None
    try:
        if ext == '.nc':
            return C.diff_nc(C.read_nc(pa), C.read_nc(pb))
        if ext in ('.shp', '.json', '.geojson'):
            va, vb = p03.vec_rows(pa), p03.vec_rows(pb)
            return None if va == vb else 'records {} / {}'.format(str(va)[:300], str(vb)[:300])
        if ext == '.dbf':
            # The header holds the date.
            a, b = a[:1] + a[4:], b[:1] + b[4:]
        a, b = [re.sub(b' at 0x[0-9a-f]+', b'', x.replace(r.encode(), b'<out>')) for x, r in ((a, ra), (b, rb))]
        la, lb = p03.meta_lines(a), p03.meta_lines(b)
        if la != lb:
            return 'contents {} / {}'.format([l for l in la if l not in lb][:4] or la[-2:], [l for l in lb if l not in la][:4] or lb[-2:])
    except Exception as e:
        return 'cannot be read: {}: {}'.format(type(e).__name__, str(e)[:300])
    return None


# -- operations ---------------------------------------------------------------------------------------------------------

def request(ctx, fmts, tag, g=None, multi=True, max_n=5):
    """OcgOperations on one or two sources."""
    import ocgis
    ch = ctx.ch
    g = g or C.draw_grid(ch, max_n=max_n)
    path = ctx.path('src{}.nc'.format(tag))
    C.write_grid_nc(path, g)
    fmt = ch.pick('fmt', fmts)
    if fmt == 'ocgis':
        kw, geoms = p01.draw_request(ctx, g)
        if g['nt'] > 1 and 'snippet' not in kw and ch.flag('calc', 0.3):
            kw['calc'] = [{'func': ch.pick('func', ('mean', 'max', 'std')), 'name': 'stat'}]
            kw['calc_grouping'] = ch.pick('grp', (['month'], ['year'], 'all'))
        if ch.flag('aggregate', 0.25):
            kw['aggregate'] = True
    else:
        kw, geoms = p03.draw_write_request(ctx, g, (fmt,))
    sources = [path]
    geomfile = None
    if fmt == 'nc':
        geoms = geoms[:1]
    if geoms and ch.flag('geomfile', 0.35) and all(p.geom_type == geoms[0][1].geom_type for _, p in geoms):
        # The selection geometries come from a file.
        geomfile = ctx.path('sel{}.shp'.format(tag))
        C.write_shp(geomfile, [p for _, p in geoms], [dict(UGID=u, NAME='g{}'.format(u)) for u, _ in geoms])
        kw = dict(kw)
        kw['geom'] = geomfile
        if ch.flag('uid', 0.4):
            kw['geom_select_uid'] = [geoms[-1][0]]
        sources.append(geomfile)

    def run(outdir):
        rd = ocgis.RequestDataset(uri=path)
        k = dict(kw)
        if fmt != 'ocgis':
            k['dir_output'] = outdir
        ops = ocgis.OcgOperations(dataset=rd, **k)
        try:
            ret = ops.execute()
        except (ocgis.exc.ExtentError, ocgis.exc.EmptySubsetError, ocgis.exc.EmptyIterationError) as e:
            return ('rejected', type(e).__name__)
        if fmt == 'ocgis':
            return ('ok', mask_values(C.snap_coll(ret)))
        return ('ok', ret.replace(outdir, '<out>') if isinstance(ret, str) else repr(type(ret)))

    return Op('ops ' + fmt + (' geomfile' if geomfile else ''), run, sources, writes=fmt != 'ocgis',
              params={k: v for k, v in kw.items() if k != 'geom'})


def field_write(ctx, tag, fmts=('nc', 'csv', 'shp')):
    import ocgis
    ch = ctx.ch
    g = C.draw_grid(ch, max_n=5, allow_wrap=False)
    vector = ch.flag('vsrc', 0.3)
    if vector:
        path = ctx.path('src{}.shp'.format(tag))
        C.write_shp(path, [C.box(-100 + i, 20, -99.5 + i, 21 + 0.1 * i) for i in range(ch.rng_int('nrec', 1, 6))])
        sources = [path]
    else:
        path = ctx.path('src{}.nc'.format(tag))
        C.write_grid_nc(path, g)
        sources = [path]
    fmt = ch.pick('ofmt', fmts)
    ncf = 'NETCDF4' if vector else ch.pick('ncfmt', ('NETCDF4', 'NETCDF3_CLASSIC', 'NETCDF4_CLASSIC'))
    load = ch.flag('load', 0.3)

    def run(outdir):
        rd = ocgis.RequestDataset(path, driver='vector') if vector else ocgis.RequestDataset(path)
        f = rd.get()
        if load:
            f.load()
        out = os.path.join(outdir, 'out.' + fmt)
        try:
            if fmt == 'nc':
                f.write(out, dataset_kwargs={'format': ncf})
            elif fmt == 'csv':
                f.write(out, driver='csv')
            else:
                if f.geom is None:
                    f.set_abstraction_geom()
                f.write(out, driver='vector')
        except ocgis.exc.EmptyIterationError:
            return ('rejected', 'EmptyIterationError')
        return ('ok', None)

    return Op('field.write {} {}'.format('vector' if vector else 'grid', fmt), run, sources, writes=True, params={'nc': ncf, 'load': load})


def vc_write(ctx, tag):
    """A collection that lives in memory."""
    from checks import p04
    ch = ctx.ch
    r = np.random.RandomState(ch.choose(1 << 20, 'rs'))
    dims = [('d{}'.format(i), ch.rng_int('dl', 1, 5), False) for i in range(ch.rng_int('nd', 1, 3))]
    kids = ch.choose(2, 'kids')

    def draw():
        vs = p04.draw_vars(ch, dims, r)
        for k, (vd, a, m, at, b) in list(vs.items()):
            if a.dtype == object and len(vd) > 1:
                a = np.arange(a.size, dtype='f8').reshape(a.shape)
            if a.dtype == object:
                m = None
                a = np.array([str(x) for x in a], dtype=object)
            vs[k] = (vd, a, m, at, b)
        return vs

    top = draw()
    kv = [draw() for _ in range(kids)]

    def run(outdir):
        vc = p04.build_vc(dims, top, strings=True)
        for i, k in enumerate(kv):
            c = p04.build_vc(dims, k, strings=True)
            c.set_name('kid{}'.format(i))
            vc.add_child(c)
        vc.write(os.path.join(outdir, 'vc.nc'))
        return ('ok', None)

    return Op('vc.write', run, [], writes=True)


def load_grid(ctx, tag):
    """Metadata, slices and full loads of one or several netCDF files."""
    import ocgis
    ch = ctx.ch
    g = C.draw_grid(ch, max_n=6)
    multi = ch.flag('multi', 0.3)
    if multi:
        g['tunits'] = 'days since 2000-01-01'
    n = 2 if multi else 1
    paths = []
    for i in range(n):
        p = ctx.path('src{}_{}.nc'.format(tag, i))
        gg = dict(g)
        gg['fmt'] = 'NETCDF4_CLASSIC' if multi else g['fmt']
        if multi:
            gg['tbounds'] = False
        C.write_grid_nc(p, gg)
        paths.append(p)
    r = np.random.RandomState(ch.choose(1 << 20, 'rs'))
    slices = []
    for _ in range(ch.choose(3, 'nsl')):
        s = {}
        for d, ln in (('time', g['nt'] * n), ('lat', g['ny']), ('lon', g['nx'])):
            if r.rand() < 0.5:
                a = r.randint(ln)
                s[d] = slice(int(a), int(a + 1 + r.randint(ln - a)))
        if s:
            slices.append(s)
    inspect = ch.flag('inspect', 0.3)

    def run(outdir):
        rd = ocgis.RequestDataset(paths if multi else paths[0])
        out = []
        if inspect:
            out.append(rd.driver.get_dump_report())
        f = rd.get()
        for s in slices:
            out.append(mask_values(C.snap_field(f[s])))
        out.append(mask_values(C.snap_field(f)))
        if f.time is not None:
            out.append([str(x) for x in f.time.value_datetime])
        return ('ok', out)

    return Op('load grid' + (' multifile' if multi else ''), run, paths)


def load_table(ctx, tag):
    """A vector or CSV source."""
    import ocgis
    ch = ctx.ch
    n = ch.rng_int('nrec', 1, 7)
    kind = ch.pick('table', ('shp', 'csv'))
    if kind == 'shp':
        path = ctx.path('tab{}.shp'.format(tag))
        C.write_shp(path, [C.box(-100 + i, 20, -99.5 + i, 21 + 0.1 * i) for i in range(n)])
    else:
        path = ctx.path('tab{}.csv'.format(tag))
        with seams.paused():
            with open(path, 'w') as f:
                f.write('A,B,C\n' + ''.join('{},{},{}\n'.format(i, i * 1.5, 'w{}'.format(i)) for i in range(n)))
    single = ch.flag('single', 0.4)

    def run(outdir):
        rd = ocgis.RequestDataset(path, driver='vector' if kind == 'shp' else 'csv')
        out = []
        f = rd.get()
        if single:
            v = f['VAL' if kind == 'shp' else 'B']
            out.append(np.array(v.get_value()).astype(str).tolist())
        for v in f.values():
            if hasattr(v, 'get_value') and not v.__class__.__module__.endswith('crs'):
                a = v.get_value()
                out.append((v.name, [getattr(x, 'wkt', str(x)) for x in a.flat], None if v.get_mask() is None else v.get_mask().tolist()))
        return ('ok', out)

    return Op('load ' + kind, run, [path])


def geom_table(ctx, tag):
    """Selection geometries iterated from a file."""
    import ocgis
    ch = ctx.ch
    n = ch.rng_int('nrec', 1, 7)
    path = ctx.path('geo{}.shp'.format(tag))
    C.write_shp(path, [C.box(-100 + i, 20, -99.5 + i, 21 + 0.1 * i) for i in range(n)])
    uid = sorted(set(1 + ch.choose(n, 'u') for _ in range(2))) if ch.flag('uids', 0.5) else None

    def run(outdir):
        out = []
        for row in ocgis.GeomCabinetIterator(path=path, select_uid=uid):
            out.append((row['geom'].wkt, {k: str(v) for k, v in row['properties'].items()}))
        return ('ok', (out, len(ocgis.GeomCabinetIterator(path=path, select_uid=uid))))

    return Op('geom cabinet', run, [path])


def tiled(ctx, tag):
    import ocgis
    ch = ctx.ch
    g = C.draw_grid(ch, max_n=5, allow_2d=False, allow_wrap=False)
    g['nlev'] = 0
    g['nvar'] = 1
    g['fmt'] = 'NETCDF4'
    g['mask'] = 0.0
    path = ctx.path('src{}.nc'.format(tag))
    C.write_grid_nc(path, g)
    td = ch.rng_int('tile', 1, 3)
    opt = ch.flag('opt', 0.5)

    def run(outdir):
        from ocgis.util.large_array import compute
        rd = ocgis.RequestDataset(path, 'tas')
        ops = ocgis.OcgOperations(dataset=rd, calc=[{'func': 'mean', 'name': 'stat'}], calc_grouping=['month'],
                                  output_format='nc', dir_output=outdir, prefix='out')
        ret = compute(ops, td, use_optimizations=opt)
        return ('ok', ret.replace(outdir, '<out>'))

    return Op('tiled computation', run, [path], writes=True)


def dimension_map_io(ctx, tag):
    """Metadata and dimension map to and from disk."""
    import ocgis
    ch = ctx.ch
    g = C.draw_grid(ch, max_n=4)
    path = ctx.path('src{}.nc'.format(tag))
    C.write_grid_nc(path, g)

    def run(outdir):
        from ocgis.driver.dimension_map import DimensionMap
        rd = ocgis.RequestDataset(path)
        p = os.path.join(outdir, 'dmap.json')
        rd.dimension_map.to_file(p) if hasattr(rd.dimension_map, 'to_file') else None
        if os.path.exists(p):
            d = DimensionMap.from_file(p)
            return ('ok', str(d.as_dict()))
        return ('ok', str(rd.dimension_map.as_dict()))

    return Op('dimension map', run, [path], writes=True)


KINDS = (('ops', 6), ('field_write', 3), ('vc_write', 2), ('load_grid', 3), ('load_table', 2), ('geom_table', 1), ('tiled', 1))


def draw_op(ctx, tag='', kinds=KINDS, fmts=('ocgis', 'nc', 'csv', 'csv-shp', 'shp', 'geojson')):
    names = [k for k, w in kinds for _ in range(w)]
    k = ctx.ch.pick('opkind', names)
    if k == 'ops':
        return request(ctx, fmts, tag)
    return globals()[k](ctx, tag)
