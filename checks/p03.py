"""P03: files written in parallel equal the files written in serial and are complete when the call returns."""
import collections
import csv
import io
import os

import numpy as np

from checks import common as C
from checks import p01
from sim import seams
from sim.harness import Scenario, Skip

PROPERTY = 'P03'
RULE = 'One evaluation is one simulated job of n ranks that writes files, compared file by file with a one-rank run.'
REAL = p01.REAL
STUB = p01.STUB
QUICK = {'runs': 1300, 'time': 420}
THOROUGH = {'runs': 20000, 'time': 3000}
SIZES = (2, 3, 4, 5)


# -- comparison of output trees ------------------------------------------------------------------------------------------

def norm_text(b, subs):
    for k, v in subs:
        b = b.replace(k.encode(), v.encode())
    return b


def group_rows(rows, gid):
    """Rows as a multiset that does not depend on their order or on the naming of the geometry identifiers ``gid``."""
    by = collections.defaultdict(list)
    for r in rows:
        key = tuple(r.get(g) for g in gid + ('UGID', 'DID'))
        by[key].append(tuple(sorted((k, v) for k, v in r.items() if k not in gid)))
    return collections.Counter(tuple(sorted(v)) for v in by.values())


def csv_rows(b):
    rd = csv.DictReader(io.StringIO(b.decode()))
    rows = [dict(r) for r in rd]
    for r in rows:
        for k in list(r):
            if k in ('LB_TIME', 'UB_TIME') or k is None:
                pass
            try:
                r[k] = repr(float('{:.9g}'.format(float(r[k]))))
            except (TypeError, ValueError):
                pass
    return rd.fieldnames, rows


def compare_csv(a, b, gid=('GID',)):
    fa, ra = csv_rows(a)
    fb, rb = csv_rows(b)
    if fa != fb:
        return 'headers {} / {}'.format(fa, fb)
    if len(ra) != len(rb):
        return '{} records in serial, {} in parallel'.format(len(ra), len(rb))
    ga, gb = group_rows(ra, gid), group_rows(rb, gid)
    if ga != gb:
        d1, d2 = list((ga - gb).elements())[:2], list((gb - ga).elements())[:2]
        return 'records differ: only in serial {}; only in parallel {}'.format(str(d1)[:700], str(d2)[:700])


def vec_rows(path):
    meta, recs = C.read_shp(path)
    rows = []
    for g, p in recs:
        d = {k: (repr(float('{:.9g}'.format(v))) if isinstance(v, float) else str(v)) for k, v in p.items()}
        if g is not None:
            d['geom'] = np.round(g.area, 7), g.geom_type, tuple(np.round(g.bounds, 7)), np.round(g.length, 7)
        rows.append(d)
    return meta, rows


def compare_vec(a, b, gid=('GID',)):
    ma, ra = vec_rows(a)
    mb, rb = vec_rows(b)
    if ma != mb:
        return 'schema {} / {}'.format(ma, mb)
    if len(ra) != len(rb):
        return '{} records in serial, {} in parallel'.format(len(ra), len(rb))
    ga, gb = group_rows(ra, gid), group_rows(rb, gid)
    if ga != gb:
        d1, d2 = list((ga - gb).elements())[:2], list((gb - ga).elements())[:2]
        return 'records differ: only in serial {}; only in parallel {}'.format(str(d1)[:700], str(d2)[:700])


def list_files(root):
    out = []
    with seams.paused():
        for d, dn, fn in os.walk(root):
            dn.sort()
            if 'logs' in dn:
                dn.remove('logs')
            for f in sorted(fn):
                out.append(os.path.relpath(os.path.join(d, f), root))
    return sorted(out)


def compare_trees(ctx, ra, rb, subs_a, subs_b, tol=0.0, gid=('GID',), kind=''):
    fa, fb = list_files(ra), list_files(rb)
    ctx.require(fa == fb, 'files-differ', lambda: 'files {} in serial, {} in parallel'.format(fa, fb))
    for f in fa:
        pa, pb = os.path.join(ra, f), os.path.join(rb, f)
        ext = os.path.splitext(f)[1]
        try:
            if ext == '.nc':
                d = C.diff_nc(C.read_nc(pa), C.read_nc(pb), tol=tol)
            elif ext in ('.shp', '.json'):
                d = compare_vec(pa, pb, gid)
            elif ext in ('.dbf', '.shx', '.cpg'):
                d = None  # read with the .shp file
            else:
                with seams.paused():
                    with open(pa, 'rb') as x, open(pb, 'rb') as y:
                        a, b = x.read(), y.read()
                a, b = norm_text(a, subs_a), norm_text(b, subs_b)
                if ext == '.csv' and not f.endswith('_did.csv'):
                    d = compare_csv(a, b, gid)
                elif ext == '.prj' or f.endswith('_did.csv'):
                    d = None if a == b else 'contents {} / {}'.format(a[:300], b[:300])
                else:
                    la, lb = meta_lines(a), meta_lines(b)
                    d = None if la == lb else 'contents {} / {}'.format([l for l in la if l not in lb][:5],
                                                                        [l for l in lb if l not in la][:5])
        except Exception as e:
            d = 'cannot be read: {}: {}'.format(type(e).__name__, str(e)[:300])
        ctx.require(d is None, 'contents-differ', lambda: '{}: {}'.format(f, d))
        ctx.probes['file ' + ext] += 1


def same_order(ctx, da, db):
    """Two jobs that differ in the schedule only leave the records in the same order."""
    for f in list_files(da):
        pa, pb = os.path.join(da, f), os.path.join(db, f)
        if f.endswith('.csv') and not f.endswith('_did.csv'):
            a, b = C.read_csv(pa), C.read_csv(pb)
        elif f.endswith('.shp'):
            a, b = vec_rows(pa)[1], vec_rows(pb)[1]
        else:
            continue
        ctx.require(a == b, 'schedule-dependent', lambda: '{}: records of two runs of the same job differ: {}'.format(
            f, [(x, y) for x, y in zip(a, b) if x != y][:2] or (len(a), len(b))))
        ctx.probes['order compared'] += 1


def meta_lines(b):
    """Lines without time stamps."""
    out = []
    for l in b.decode('utf8', 'replace').splitlines():
        if 'Generated (UTC)' in l:
            continue
        out.append(l)
    return out


def tree_now(root):
    out = []
    for d, dn, fn in os.walk(root):
        if 'logs' in dn:
            dn.remove('logs')
        for f in fn:
            p = os.path.join(d, f)
            with open(p, 'rb') as x:
                out.append((os.path.relpath(p, root), x.read()))
    return dict(out)


# -- operations ---------------------------------------------------------------------------------------------------------

FORMATS = ('nc', 'csv', 'csv-shp', 'shp', 'geojson')


def draw_write_request(ctx, g, fmts=FORMATS):
    ch = ctx.ch
    # One file holds geometries of one type.
    kw, geoms = p01.draw_request(ctx, g, kinds=ch.pick('kinds', (('box',), ('box', 'poly'), ('point',), ('multi', 'box'))))
    fmt = ctx.param('fmt', ch.pick('ofmt', fmts))
    kw['output_format'] = fmt
    if fmt == 'nc':
        if 'geom' in kw:
            kw['spatial_operation'] = 'intersects'
            kw['geom'] = kw['geom'][:1]
    kw['prefix'] = 'out'
    if ch.flag('noaux', 0.2):
        kw['add_auxiliary_files'] = False
    if fmt in ('csv', 'shp', 'csv-shp', 'geojson') and ch.flag('melted', 0.3):
        kw['melted'] = True
    if g['nt'] > 1 and 'snippet' not in kw and ch.flag('calc', 0.3):
        kw['calc'] = [{'func': ch.pick('func', ('mean', 'max', 'std')), 'name': 'stat'}]
        kw['calc_grouping'] = ch.pick('grp', (['month'], ['year'], ['month', 'year'], 'all'))
    return kw, geoms


def op_write(rc, path, kw, outdir, check_now=True):
    import ocgis
    from sim import seams
    if isinstance(path, str):
        rd = ocgis.RequestDataset(uri=path)
    else:
        rd = [ocgis.RequestDataset(uri=p, field_name='f{}'.format(i)) for i, p in enumerate(path)]
    ops = ocgis.OcgOperations(dataset=rd, dir_output=outdir, **kw)
    try:
        ret = ops.execute()
    except (ocgis.exc.ExtentError, ocgis.exc.EmptySubsetError) as e:
        return ('empty', type(e).__name__, None)
    except ocgis.exc.EmptyIterationError:
        return ('masked', None, None)
    except ocgis.exc.OcgException as e:
        # Another rank reports the failure.
        if type(e) is ocgis.exc.OcgException and ('EmptyIterationError' in str(e)):
            return ('masked', None, None)
        if type(e) is ocgis.exc.OcgException and ('ExtentError' in str(e) or 'EmptySubsetError' in str(e)):
            return ('empty', None, None)
        raise
    # What this rank sees at the moment the call returns.
    seams.state['io_yield'] = False
    try:
        seen = tree_now(outdir)
    finally:
        seams.state['io_yield'] = True
    return ('ok', os.path.relpath(ret, outdir) if isinstance(ret, str) else repr(type(ret)), seen)


def ops_write(ctx):
    ch = ctx.ch
    n = ctx.draw_size(SIZES)
    g = C.draw_grid(ch, max_n=6)
    path = ctx.path('src.nc')
    C.write_grid_nc(path, g)
    kw, geoms = draw_write_request(ctx, g)
    ctx.param('request', {k: v for k, v in kw.items() if k != 'geom'})
    ctx.param('grid', {k: g[k] for k in ('ny', 'nx', 'nt', 'nlev', 'curvi', 'bounds', 'fmt', 'mask')})
    run_and_compare(ctx, n, path, kw)


def run_and_compare(ctx, n, path, kw):
    da, db = ctx.path('serial'), ctx.path('parallel')
    os.mkdir(da)
    os.mkdir(db)
    ref = ctx.serial(lambda rc: op_write(rc, path, kw, da))
    out = ctx.parallel(n, lambda rc: op_write(rc, path, kw, db), what='OcgOperations.execute')
    kinds = set(r[0] for r in out.results)
    if ref[0] != 'ok':
        ctx.require('ok' not in kinds, 'empty-not-reported', 'the serial run fails ({}), ranks report {}'.format(ref[0], [r[0] for r in out.results]))
        ctx.probes[ref[0]] += 1
        return
    ctx.require(kinds == {'ok'}, 'spurious-empty', 'serial run writes data, ranks report {}'.format([r[:2] for r in out.results]))
    for r, o in enumerate(out.results):
        ctx.require(o[1] == ref[1], 'return-differs', 'rank {} returns {} instead of {}'.format(r, o[1], ref[1]))
    final = tree_now(db)
    for r, o in enumerate(out.results):
        late = sorted(k for k in final if o[2].get(k) != final[k])
        ctx.require(not late, 'incomplete-on-return', 'files changed after the call had returned on rank {}: {}'.format(r, late))
    compare_trees(ctx, da, db, [(da, '<out>')], [(db, '<out>')], gid=('GID',))
    ctx.probes['compared ' + kw['output_format']] += 1
    if kw['output_format'] != 'nc' and ctx.ch.flag('again', 0.35):
        dc = ctx.path('again')
        os.mkdir(dc)
        ctx.parallel(n, lambda rc: op_write(rc, path, kw, dc), what='OcgOperations.execute')
        same_order(ctx, db, dc)



# -- collections and fields -----------------------------------------------------------------------------------------------

def vc_write(ctx):
    """A scattered collection with groups, strings, masks, unlimited dimensions."""
    from checks import p04
    ch = ctx.ch
    n = ctx.draw_size(SIZES)
    r = np.random.RandomState(ch.choose(1 << 20, 'rs'))
    nd = ch.rng_int('nd', 1, 3)
    which = ch.choose(nd, 'distdim')
    dims = []
    for i in range(nd):
        ln = ch.pick('dl', (1, 2, 3, 5, 8, 13)) if i == which else ch.rng_int('dls', 1, 4)
        dims.append(('d{}'.format(i), ln, i == which))
    fmt = ctx.param('fmt', ch.pick('fmt', ('NETCDF4', 'NETCDF4', 'NETCDF3_CLASSIC', 'NETCDF4_CLASSIC')))
    kids = ch.choose(3, 'kids') if fmt == 'NETCDF4' else 0

    def draw(tag):
        vs = p04.draw_vars(ch, dims, r)
        for k, (vd, a, m, at, b) in list(vs.items()):
            if a.dtype == object and len(vd) > 1:
                a = np.arange(a.size, dtype='f8').reshape(a.shape)
            if a.dtype == 'i8' and fmt != 'NETCDF4':
                a = a.astype('i4')
            if a.dtype == object:
                m = None
                a = np.array([str(x) * (1 + (i % 3)) for i, x in enumerate(a)], dtype=object)
            vs[k] = (vd, a, m, at, b)
        return vs

    top = draw('top')
    kvs = [draw('kid{}'.format(i)) for i in range(kids)]
    nested = kids == 2 and ch.flag('nested', 0.5)
    vkw = {}
    if ch.flag('fixed', 0.4):
        vkw['unlimited_to_fixedsize'] = True
    if fmt != 'NETCDF3_CLASSIC' and ch.flag('zlib', 0.3):
        vkw['zlib'] = True
    explicit = ch.flag('explicit', 0.3)
    ctx.param('dims', dims)
    ctx.param('vars', {k: (v[0], str(v[1].dtype), v[2] is not None, v[4] is not None) for k, v in top.items()})
    ctx.param('how', (kids, nested, sorted(vkw), explicit))
    groups = [[None]] + [[None, 'kid0']] * (kids > 0) + ([[None, 'kid0', 'kid1']] if nested else [[None, 'kid1']]) * (kids > 1)

    def prog(rc, path):
        import ocgis
        from ocgis import vm
        from ocgis.constants import MPIWriteMode
        from ocgis.vmachine.mpi import OcgDist, variable_collection_scatter
        dist = OcgDist(size=rc.size)
        for g in groups:
            for nm, ln, d in dims:
                dist.create_dimension(nm, ln, dist=d, group=g)
        dist.update_dimension_bounds()
        vc = None
        if vm.rank == 0:
            vc = p04.build_vc(dims, top, strings=True)
            par = vc
            for i, kv in enumerate(kvs):
                c = p04.build_vc(dims, kv, strings=True)
                c.set_name('kid{}'.format(i))
                par.add_child(c)
                if nested:
                    par = c
        svc = variable_collection_scatter(vc, dist)
        with vm.scoped_by_emptyable('w', svc):
            if not vm.is_null:
                if explicit and vm.size > 1:
                    for wm in (MPIWriteMode.TEMPLATE, MPIWriteMode.FILL):
                        svc.write(path, write_mode=wm, dataset_kwargs={'format': fmt}, variable_kwargs=vkw)
                else:
                    svc.write(path, dataset_kwargs={'format': fmt}, variable_kwargs=vkw)
                seams.state['io_yield'] = False
                try:
                    with open(path, 'rb') as f:
                        return ('ok', f.read())
                finally:
                    seams.state['io_yield'] = True
        return ('null', None)

    pa, pb = ctx.path('serial.nc'), ctx.path('parallel.nc')
    ctx.serial(lambda rc: prog(rc, pa))
    out = ctx.parallel(n, lambda rc: prog(rc, pb), what='VariableCollection.write')
    with seams.paused():
        with open(pb, 'rb') as f:
            final = f.read()
    for i, o in enumerate(out.results):
        if o[0] == 'ok':
            ctx.require(o[1] == final, 'incomplete-on-return', 'rank {} returned before the file was complete'.format(i))
    d = C.diff_nc(C.read_nc(pa), C.read_nc(pb))
    ctx.require(d is None, 'contents-differ', lambda: str(d))
    ctx.probes['groups' if kids else 'flat'] += 1
    if sum(o[0] == 'ok' for o in out.results) > 1:
        ctx.probes['spread'] += 1


def field_write(ctx):
    """A field read from a netCDF or vector source and written with any driver."""
    ch = ctx.ch
    n = ctx.draw_size(SIZES)
    vector = ctx.param('vector_source', ch.flag('vsrc', 0.3))
    g = C.draw_grid(ch, max_n=6, allow_wrap=False)
    if vector:
        path = ctx.path('src.shp')
        k = ch.rng_int('nrec', 1, 9)
        C.write_shp(path, [g_ for _, g_ in C.draw_geoms(ch, g, 1, kinds=('box',))] * 1 + [
            C.box(-100 + i, 20, -99.5 + i, 21 + 0.1 * i) for i in range(k - 1)])
    else:
        path = ctx.path('src.nc')
        C.write_grid_nc(path, g)
    fmt = ctx.param('fmt', ch.pick('ofmt', ('nc', 'csv', 'shp') if not vector else ('csv', 'shp', 'nc')))
    # Identifiers of vector sources are 64-bit.
    ncf = ctx.param('nc', 'NETCDF4' if vector else ch.pick('ncfmt', ('NETCDF4', 'NETCDF3_CLASSIC', 'NETCDF4_CLASSIC')))
    fixed = ch.flag('fixed', 0.3)
    load = ch.flag('load', 0.3)
    part = ch.flag('part', 0.4)
    r = np.random.RandomState(ch.choose(1 << 20, 'rs'))
    twice = ch.flag('twice', 0.25)
    ctx.param('grid', {k: g[k] for k in ('ny', 'nx', 'nt', 'nlev', 'curvi', 'bounds', 'fmt', 'mask')})
    ctx.param('how', (fixed, load, part, twice))
    frac = sorted(r.rand(2))

    def prog(rc, d):
        import ocgis
        from ocgis import vm
        os_path = os.path.join(d, 'out.' + fmt)
        rd = ocgis.RequestDataset(path, driver='vector') if vector else ocgis.RequestDataset(path)
        f = rd.get()
        if part:
            target = f.geom if vector else f['tas']
            with vm.scoped_by_emptyable('s', f):
                if not vm.is_null:
                    ln = len(target.dimensions[-1]) if not target.dimensions[-1].dist else target.dimensions[-1].size_global \
                        if hasattr(target.dimensions[-1], 'size_global') else None
                    if ln is None:
                        b = target.dimensions[-1].bounds_global
                        ln = b[1] - b[0]
                    lo = min(int(frac[0] * ln), ln - 1)
                    hi = max(lo + 1, int(np.ceil(frac[1] * ln)))
                    slc = [slice(None)] * (target.ndim - 1) + [slice(lo, hi)]
                    f = target.get_distributed_slice(slc).parent
        with vm.scoped_by_emptyable('w', f):
            if not vm.is_null:
                if load:
                    f.load()
                try:
                    for _ in range(2 if twice else 1):
                        if fmt == 'nc':
                            kw = {'unlimited_to_fixedsize': True} if fixed else {}
                            f.write(os_path, dataset_kwargs={'format': ncf}, variable_kwargs=kw)
                        elif fmt == 'csv':
                            f.write(os_path, driver='csv')
                        else:
                            if f.geom is None:
                                f.set_abstraction_geom()
                            f.write(os_path, driver='vector')
                except ocgis.exc.EmptyIterationError:
                    return ('masked', None)
                seams.state['io_yield'] = False
                try:
                    return ('ok', tree_now(d))
                finally:
                    seams.state['io_yield'] = True
        return ('null', None)

    da, db = ctx.path('serial'), ctx.path('parallel')
    os.mkdir(da)
    os.mkdir(db)
    ref = ctx.serial(lambda rc: prog(rc, da))
    if ref[0] == 'masked':
        raise Skip('all data is masked')
    out = ctx.parallel(n, lambda rc: prog(rc, db), what='Field.write')
    final = tree_now(db)
    for i, o in enumerate(out.results):
        if o[0] == 'ok':
            late = sorted(k for k in final if o[1].get(k) != final[k])
            ctx.require(not late, 'incomplete-on-return', 'files changed after the call had returned on rank {}: {}'.format(i, late))
    compare_trees(ctx, da, db, [], [])
    if fmt != 'nc' and ch.flag('again', 0.35):
        dc = ctx.path('again')
        os.mkdir(dc)
        ctx.parallel(n, lambda rc: prog(rc, dc), what='Field.write')
        same_order(ctx, db, dc)
    ctx.probes['field ' + ('vector' if vector else 'gridded') + ' ' + fmt] += 1


SCENARIOS = [Scenario('ops_write', ops_write, weight=3, sizes=SIZES), Scenario('vc_write', vc_write, weight=1, sizes=SIZES),
             Scenario('field_write', field_write, weight=1, sizes=SIZES)]
