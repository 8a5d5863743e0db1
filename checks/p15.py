"""P15: what is written is what is returned, and what was written is read back."""
import collections
import os

import numpy as np

from checks import common as C
from checks import p01, p03, p04
from sim import seams
from sim.harness import Scenario, Skip

PROPERTY = 'P15'
RULE = 'One evaluation is one drawn request, collection or field that is written by a job of n ranks; the files are read with ' \
       'independent readers and compared with the object in memory or the plain data it was built from, and read again by ' \
       'ocgis on m ranks.'
REAL = p01.REAL
STUB = p01.STUB
QUICK = {'runs': 1000, 'time': 420}
THOROUGH = {'runs': 20000, 'time': 3000}
SIZES = (1, 2, 3, 4)
TABLES = ('csv', 'csv-shp', 'shp', 'geojson')


# -- requests -----------------------------------------------------------------------------------------------------------

def draw_request(ctx, g, fmt):
    ch = ctx.ch
    kw, geoms = p03.draw_write_request(ctx, g, (fmt,))
    if geoms and ch.flag('aggregate', 0.25):
        kw['aggregate'] = True
    return kw, geoms


def when(v):
    return None if v is None else str(v).replace('T', ' ')[:19]


def expected(rc, paths, kw):
    """The request on one rank, kept in memory: ('ok', [record], [snapshots]) with a record for every element."""
    import ocgis
    k = {a: b for a, b in kw.items() if a not in ('output_format', 'prefix', 'add_auxiliary_files', 'melted')}
    rds = [ocgis.RequestDataset(uri=p, field_name='f{}'.format(i)) for i, p in enumerate(paths)]
    ops = ocgis.OcgOperations(dataset=rds if len(rds) > 1 else ocgis.RequestDataset(uri=paths[0]), output_format='ocgis', **k)
    try:
        ret = ops.execute()
    except (ocgis.exc.ExtentError, ocgis.exc.EmptySubsetError) as e:
        return ('empty', type(e).__name__)
    rows = []
    snaps = {}
    for ugid, cont in ret.children.items():
        for f in cont.children.values():
            if f.is_empty:
                continue
            snaps[(ugid, f.name)] = C.snap_field(f)
            rows.extend(field_rows(f, ugid))
    return ('ok', rows, snaps)


def field_rows(f, ugid):
    names = [v.name for v in f.data_variables]
    if not names:
        return []
    if f.geom is None:
        f.set_abstraction_geom()
    geom = f.geom
    gval = None if geom is None else geom.get_value()
    gmask = None if geom is None else geom.get_mask()
    lead = f[names[0]]
    dims = [d.name for d in lead.dimensions]

    def at(dn, idx):
        return tuple(idx[dims.index(d)] for d in dn if d in dims)

    time = None
    if f.time is not None:
        tb = f.time.bounds
        time = (list(f.time.dimension_names), np.asarray(f.time.value_datetime), None if tb is None else np.asarray(tb.value_datetime))
    level = None
    if f.level is not None:
        lb = f.level.bounds
        level = (list(f.level.dimension_names), f.level.get_value(), None if lb is None else lb.get_value())
    vals = [(n, [d.name for d in f[n].dimensions], f[n].get_value(), f[n].get_mask()) for n in names]
    out = []
    for idx in np.ndindex(*lead.shape):
        r = {'UGID': ugid, 'DID': f.uid, 'field': f.name, 'values': collections.OrderedDict()}
        if time is not None:
            i = at(time[0], idx)
            r['TIME'] = when(time[1][i])
            if time[2] is not None:
                r['LB_TIME'], r['UB_TIME'] = [when(time[2][i + (k,)]) for k in (0, 1)]
        if level is not None:
            i = at(level[0], idx)
            r['LEVEL'] = float(level[1][i])
            if level[2] is not None:
                r['LB_LEVEL'], r['UB_LEVEL'] = [float(level[2][i + (k,)]) for k in (0, 1)]
        for n, dn, a, m in vals:
            i = at(dn, idx)
            r['values'][n] = None if m is not None and m[i] else a[i].item()
        if gval is not None:
            i = at([d.name for d in geom.dimensions], idx)
            r['geom'] = gval[i]
            if gmask is not None and gmask[i]:
                continue
        out.append(r)
    return out


# -- the records of the files -------------------------------------------------------------------------------------------

def num(v):
    return '{:.9g}'.format(float(v))


STD = ('TIME', 'LB_TIME', 'UB_TIME', 'LEVEL', 'LB_LEVEL', 'UB_LEVEL')


def record_key(r, has):
    """Identifiers and coordinates of a record from a file or from memory."""
    out = []
    for h in ('UGID', 'DID'):
        if h in has:
            out.append((h, None if r.get(h) in (None, '') else int(r[h])))
    for h in STD:
        if h in has:
            v = r.get(h)
            out.append((h, None if v in (None, '') else when(v) if 'TIME' in h else num(v)))
    return tuple(out)


def value_key(names, vals):
    return tuple((n, None if v in (None, '') else num(v)) for n, v in zip(names, vals))


def same_geom(a, b):
    if a is None or b is None:
        return a is b
    if a.is_empty or b.is_empty:
        return a.is_empty == b.is_empty
    if a.geom_type.replace('Multi', '') != b.geom_type.replace('Multi', ''):
        return False
    if a.area == 0 or b.area == 0:
        return a.hausdorff_distance(b) < 1e-6
    if a.is_valid and b.is_valid:
        return a.symmetric_difference(b).area < 1e-6 * max(a.area, b.area)
    # The rounded coordinates of a file may make rings touch themselves.
    return abs(a.area - b.area) < 1e-6 * max(a.area, b.area) and a.boundary.hausdorff_distance(b.boundary) < 1e-6


def check_records(ctx, what, rows, got, headers, melted, geometry):
    """rows: expected; got: [(geometry or None, {header: value})]."""
    names = list(rows[0]['values']) if rows else []
    has = [h for h in ('UGID', 'DID') + STD if h in headers]
    # Columns for every coordinate there is.
    for h in STD:
        there = any(h in r for r in rows)
        ctx.require(there == (h in headers), 'column', '{}: column {} {}'.format(what, h, 'is missing' if there else 'is unexpected'))
    if any(r['UGID'] is not None for r in rows):
        ctx.require('UGID' in headers, 'column', '{}: column UGID is missing'.format(what))
    want = collections.defaultdict(list)
    for r in rows:
        vs = list(r['values'].values())
        need = all(v is not None for v in vs)
        recs = [(value_key([n], [v]), v is not None and need) for n, v in r['values'].items()] if melted else [(value_key(names, vs), need)]
        for vk, nd in recs:
            want[record_key(r, has), vk].append([r.get('geom'), nd, False])
    if not melted:
        ctx.require(all(n[:10] in headers or n in headers for n in names), 'column', '{}: columns {} for variables {}'.format(what, headers, names))
    for geom, p in got:
        if melted:
            vk = value_key([p['VARIABLE']], [p['VALUE']])
        else:
            vk = value_key(names, [p[n if n in headers else n[:10]] for n in names])
        k = record_key(p, has)
        cand = want.get((k, vk), [])
        hit = None
        for c in cand:
            if not c[2] and (not geometry or same_geom(c[0], geom)):
                hit = c
                break
        ctx.require(hit is not None, 'wrong-record', lambda: '{}: record {} {} {} is not an element of the result ({})'.format(
            what, k, vk, None if geom is None else geom.wkt[:200],
            'geometries {}'.format([(c[0].wkt[:200], c[2]) for c in cand]) if cand and geometry else 'already written' if cand else
            'expected e.g. {}'.format([w for w in want if w[0] == k][:2] or list(want)[:2])))
        hit[2] = True
        if 'YEAR' in p and p.get('TIME') not in (None, ''):
            t = when(p['TIME'])
            ymd = tuple(int(float(p[c])) for c in ('YEAR', 'MONTH', 'DAY') if p.get(c) not in (None, ''))
            ctx.require(ymd == tuple(int(x) for x in t[:10].split('-'))[:len(ymd)], 'calendar-columns', '{}: {} for {}'.format(what, ymd, t))
    lost = [(k, c[0]) for k, cs in want.items() for c in cs if c[1] and not c[2]]
    ctx.require(not lost, 'lost-record', lambda: '{}: {} elements of the result are in no record, e.g. {} {}'.format(
        what, len(lost), lost[0][0], None if lost[0][1] is None else lost[0][1].wkt[:200]))
    ctx.probes['records compared'] += len(got)


def check_selection_file(ctx, path, rows, geoms):
    meta, recs = C.read_shp(path)
    seen = collections.Counter(int(p['UGID']) for _, p in recs)
    known = dict(geoms)
    for u, c in seen.items():
        ctx.require(c == 1, 'selection-repeated', '{}: geometry {} appears {} times'.format(os.path.basename(path), u, c))
    for g, p in recs:
        u = int(p['UGID'])
        ctx.require(u in known and same_geom(known[u], g), 'selection-geometry', lambda: '{}: geometry {} is {}'.format(
            os.path.basename(path), u, g.wkt[:200]))
        ctx.require(p.get('NAME') == 'g{}'.format(u), 'selection-properties', lambda: '{}: geometry {} has properties {}'.format(
            os.path.basename(path), u, p))
    lost = sorted(set(r['UGID'] for r in rows) - set(seen))
    ctx.require(not lost, 'selection-lost', '{}: geometries {} are missing, there are {}'.format(os.path.basename(path), lost, sorted(seen)))
    ctx.probes['selection geometries'] += len(recs)


def check_table(ctx, d, fmt, rows, geoms, kw):
    melted = bool(kw.get('melted'))
    sub = d if kw.get('add_auxiliary_files') is False else os.path.join(d, 'out')
    if fmt in ('csv', 'csv-shp'):
        lines = C.read_csv(os.path.join(sub, 'out.csv'))
        headers = lines[0]
        got = [(None, dict(zip(headers, l))) for l in lines[1:]]
        ctx.require(all(len(l) == len(headers) for l in lines), 'ragged-table', 'lines of different lengths')
        with_geom = False
        if fmt == 'csv-shp' and not kw.get('aggregate'):
            _, recs = C.read_shp(os.path.join(sub, 'shp', 'out_gid.shp'))
            ids = {}
            cols = [h for h in ('DID', 'GID', 'UGID') if h in headers]
            if 'DID' not in cols and len(set(p.get('DID') for _, p in recs)) > 1:
                # Records of calculations do not identify their dataset.
                recs = []
            for g, p in recs:
                i = tuple(p.get(h) for h in cols)
                ctx.require(i not in ids, 'identifier-repeated', 'out_gid.shp: {} {} appear twice'.format(cols, i))
                ids[i] = g
            new = []
            for _, p in got:
                i = tuple(int(p[h]) if p.get(h) not in (None, '') else None for h in cols)
                ctx.require(not ids or i in ids, 'identifier-dangling', 'out.csv: no geometry with {} {}; there are {}'.format(cols, i, sorted(ids, key=str)[:6]))
                new.append((ids.get(i), p))
            got = new
            with_geom = bool(ids)
        check_records(ctx, fmt, rows, got, headers, melted, with_geom)
    else:
        meta, got = C.read_shp(os.path.join(sub, 'out.shp' if fmt == 'shp' else 'out.json'))
        check_records(ctx, fmt, rows, got, list(meta[1]), melted, True)
    if geoms:
        p = {'csv-shp': os.path.join('shp', 'out_ugid.shp'), 'shp': 'out_ugid.shp', 'geojson': 'out_ugid.shp'}.get(fmt)
        if p is not None:
            check_selection_file(ctx, os.path.join(sub, p), rows, geoms)
    ctx.probes['table ' + fmt] += 1


def tables(ctx):
    """Requests written as tables and vector files."""
    ch = ctx.ch
    n = ctx.draw_size(SIZES)
    fmt = ctx.param('fmt', ch.pick('fmt15', TABLES))
    g = C.draw_grid(ch, max_n=5)
    paths = [ctx.path('src.nc')]
    C.write_grid_nc(paths[0], g)
    if fmt != 'geojson' and ch.flag('two', 0.25):
        g2 = dict(g, rseed=g['rseed'] + 1, mask=0.3 - g['mask'])
        paths.append(ctx.path('src2.nc'))
        C.write_grid_nc(paths[1], g2)
    kw, geoms = draw_request(ctx, g, fmt)
    if 'calc' in kw and len(paths) > 1:
        kw['calc'] = [{'func': 'mean', 'name': 'stat'}]
    ctx.param('request', {k: v for k, v in kw.items() if k != 'geom'})
    ctx.param('grid', {k: g[k] for k in ('ny', 'nx', 'nt', 'nlev', 'curvi', 'bounds', 'fmt', 'mask', 'nvar', 'dtype', 'calendar', 'tbounds')})
    ctx.param('sources', len(paths))
    ref = ctx.serial(lambda rc: expected(rc, paths, kw))
    d = ctx.path('out')
    os.mkdir(d)
    out = ctx.parallel(n, lambda rc: p03.op_write(rc, paths[0] if len(paths) == 1 else paths, kw, d), what='OcgOperations.execute')
    kinds = set(r[0] for r in out.results)
    if ref[0] != 'ok' or not any(all(v is not None for v in r['values'].values()) for r in ref[1]):
        # Records without any masked variable are written.
        ctx.probes['nothing selected'] += 1
        return
    if kinds == {'masked'}:
        full = set((r['UGID'], r['field']) for r in ref[1] if all(v is not None for v in r['values'].values()))
        if full != set(ref[2]):
            # The data of some geometry or dataset is all masked, which is refused with an error.
            ctx.probes['masked data refused'] += 1
            return
    ctx.require(kinds == {'ok'}, 'not-written', lambda: 'there is data to write, ranks report {}'.format([r[:2] for r in out.results]))
    check_table(ctx, d, fmt, ref[1], geoms, kw)


def check_variable(ctx, what, s, rv):
    """A variable of a netCDF file against the variable in memory."""
    ctx.require(tuple(rv['dims']) == tuple(s['dims']), 'dimensions', '{}: {} in memory, {} in the file'.format(what, s['dims'], rv['dims']))
    if s['value'] is None:
        return
    a = np.asarray(s['value'])
    m = np.zeros(a.shape, dtype=bool) if s['mask'] is None else s['mask']
    raw = rv['raw']
    if a.dtype == object or raw.dtype.kind in 'SU':
        return
    ctx.require(str(a.dtype) == rv['dtype'], 'dtype', '{}: {} in memory, {} in the file'.format(what, a.dtype, rv['dtype']))
    fill = rv['attrs'].get('_FillValue')
    ctx.require(raw.shape == a.shape, 'shape', '{}: {} in memory, {} in the file'.format(what, a.shape, raw.shape))
    if m.any():
        ctx.require(fill is not None, 'fill-value', '{}: masked values but no fill value'.format(what))
    if fill is not None:
        fm = np.isnan(raw) if isinstance(fill, float) and fill != fill else raw == np.dtype(rv['dtype']).type(fill)
        ctx.require(np.array_equal(fm, m), 'mask', '{}: mask {} in memory, {} in the file'.format(what, m.astype(int).tolist(), fm.astype(int).tolist()))
    ctx.require(C.eq_arrays(a[~m], raw[~m]), 'values', '{}: {} in memory, {} in the file'.format(what, C._show(a), C._show(raw)))


def op_read(rc, path):
    import ocgis
    rd = ocgis.RequestDataset(path)
    f = rd.get()
    return C.snap_field(f)


def reread(ctx, m, path, vs, what):
    """ocgis on m ranks reads what the objects in memory hold."""
    out = ctx.parallel(m, lambda rc: op_read(rc, path), what='reading ' + what)
    for nm, s in vs.items():
        try:
            got = C.assemble([(r, p['vars'].get(nm)) for r, p in enumerate(out.results) if not p['empty']], what=nm)
        except C.Mismatch as e:
            ctx.violate('read-partition', '{}: {}'.format(what, e))
        ctx.require(got is not None, 'read-lost', '{}: {} is not read'.format(what, nm))
        ref = C.norm_serial(s)
        if ref is not None and ref['value'] is not None and ref['value'].dtype == object:
            continue
        d = C.compare_var(nm, ref, got)
        ctx.require(d is None, 'read-differs', '{}: in memory / read: {}'.format(what, d))
        if ref is not None and ref['value'] is not None:
            ctx.require(got['value'].dtype == ref['value'].dtype, 'read-dtype', '{}: {}: {} / {}'.format(what, nm, ref['value'].dtype, got['value'].dtype))
    ctx.probes['read on {} ranks'.format(m)] += 1


def arrays(ctx):
    """Requests written to netCDF."""
    ch = ctx.ch
    n = ctx.draw_size(SIZES)
    g = C.draw_grid(ch, max_n=5)
    path = ctx.path('src.nc')
    a = C.write_grid_nc(path, g)
    packed = None
    if ch.flag('packed', 0.35):
        r = np.random.RandomState(ch.choose(1 << 20, 'rs'))
        dims = ('time',) + (('lev',) if g['nlev'] else ()) + ('lat', 'lon')
        packed = np.arange(int(np.prod(a['shape']))).reshape(a['shape']) * 0.5 + 100.
        pm = r.rand(*a['shape']) < 0.25 if ch.flag('pmask', 0.6) else np.zeros(a['shape'], dtype=bool)
        with seams.paused():
            ds = C._raw_nc(path, 'a')
            v = ds.createVariable('pk', 'i2', dims, fill_value=np.int16(-999))
            v.scale_factor = 0.5
            v.add_offset = 100.
            v.units = 'K'
            v[:] = np.ma.array(packed, mask=pm)
            ds.close()
        ctx.probes['packed'] += 1
    kw, geoms = draw_request(ctx, g, 'nc')
    agg = bool(kw.get('aggregate'))
    if packed is not None:
        kw['aggregate'] = agg = False
        kw.pop('calc', None)
        kw.pop('calc_grouping', None)
    options = {}
    if ch.flag('fixed', 0.25):
        options['unlimited_to_fixedsize'] = True
    if ch.flag('zlib', 0.25) and g['fmt'] != 'NETCDF3_CLASSIC':
        options['variable_kwargs'] = {'zlib': True, 'complevel': 2}
    if ch.flag('model', 0.25):
        options['data_model'] = ch.pick('dm', ('NETCDF4', 'NETCDF4_CLASSIC')) if 'variable_kwargs' in options else \
            ch.pick('dm', ('NETCDF4', 'NETCDF3_CLASSIC', 'NETCDF4_CLASSIC'))
    if options:
        kw['output_format_options'] = options
    ctx.param('request', {k: v for k, v in kw.items() if k != 'geom'})
    ctx.param('grid', {k: g[k] for k in ('ny', 'nx', 'nt', 'nlev', 'curvi', 'bounds', 'fmt', 'mask', 'nvar', 'dtype', 'calendar', 'tbounds')})
    k2 = {k: v for k, v in kw.items() if k != 'output_format_options'}
    ref = ctx.serial(lambda rc: expected(rc, [path], k2))
    d = ctx.path('out')
    os.mkdir(d)
    out = ctx.parallel(n, lambda rc: p03.op_write(rc, path, kw, d), what='OcgOperations.execute')
    kinds = set(r[0] for r in out.results)
    if ref[0] != 'ok' or not ref[2]:
        ctx.probes['nothing selected'] += 1
        return
    ctx.require(kinds == {'ok'}, 'not-written', 'there is data to write, ranks report {}'.format([r[:2] for r in out.results]))
    ret = os.path.join(d, 'out.nc') if kw.get('add_auxiliary_files') is False else os.path.join(d, 'out', 'out.nc')
    f = C.read_nc(ret)
    if agg:
        check_series(ctx, f, ref, geoms)
        return
    snap = list(ref[2].values())[0]
    for nm, s in snap['vars'].items():
        if s['empty'] or nm == 'ocgis_geom' or s['value'] is not None and s['value'].dtype == object:
            continue
        ctx.require(nm in f['vars'], 'lost-variable', '{} is not in the file'.format(nm))
        rv = f['vars'][nm]
        check_variable(ctx, nm, s, rv)
        for k, v in s['attrs'].items():
            if k in ('_FillValue', 'missing_value') or nm in snap['bounds'].values():
                # Bounds have the attributes of the coordinate.
                continue
            ctx.require(k in rv['attrs'] and C.attrs_equal({k: v}, {k: rv['attrs'][k]}), 'attributes', '{}: {}={!r} in memory, file has {}'.format(
                nm, k, v, rv['attrs']))
    for v, b in snap['bounds'].items():
        if b in snap['vars'] and not snap['vars'][v]['empty']:
            at = f['vars'][v]['attrs']
            ctx.require(b in (at.get('bounds'), at.get('climatology')), 'bounds', '{}: bounds {} in memory, attributes in the file {}'.format(v, b, at))
    unl = [k for k, (ln, u) in f['dims'].items() if u]
    if options.get('unlimited_to_fixedsize'):
        ctx.require(not unl, 'unlimited', 'dimensions {} stay unlimited'.format(unl))
    if packed is not None and not geoms and 'snippet' not in kw and 'time_region' not in kw and 'level_range' not in kw:
        rv = f['vars']['pk']
        check_variable(ctx, 'pk (source)', {'dims': rv['dims'], 'value': packed, 'mask': pm}, rv)
        ctx.probes['packed values'] += 1
    reread(ctx, ch.pick('m', (1, 1, 2, 3)), ret, {k: s for k, s in snap['vars'].items() if k in snap['data'] or k in ('lat', 'lon', 'time', 'lev')
                                            if not s['empty'] and s['value'] is not None}, 'the output file')
    ctx.probes['netcdf'] += 1


def check_series(ctx, f, ref, geoms):
    """Aggregated data of all geometries in one file."""
    order = []
    for (ugid, _), snap in ref[2].items():
        order.append(ugid)
    if len(order) != len(geoms):
        ctx.probes['series without some geometries'] += 1
        return
    ids = f['vars'].get('UGID')
    ctx.require(ids is not None, 'lost-variable', 'UGID is not in the file, there are {}'.format(sorted(f['vars'])))
    ctx.require(sorted(ids['raw'].tolist()) == sorted(order), 'selection-repeated', 'identifiers {} for {}'.format(ids['raw'].tolist(), order))
    gd = ids['dims'][0]
    for (ugid, _), snap in ref[2].items():
        i = ids['raw'].tolist().index(ugid)
        for nm in snap['data']:
            s = snap['vars'][nm]
            rv = f['vars'].get(nm)
            ctx.require(rv is not None, 'lost-variable', '{} is not in the file'.format(nm))
            sl = tuple(slice(i, i + 1) if d == gd else slice(None) for d in rv['dims'])
            s = dict(s, dims=rv['dims'])
            check_variable(ctx, '{} of geometry {}'.format(nm, ugid), s, dict(rv, raw=rv['raw'][sl]))
    ctx.probes['series'] += 1


def bounds_mask(b, m):
    """Bounds are masked with the values."""
    return None if m is None else np.repeat(m[:, None], b.shape[1], axis=1)


# -- collections --------------------------------------------------------------------------------------------------------

def collection(ctx):
    """Collections built from plain data: groups, strings, masks, fill values, unlimited dimensions."""
    ch = ctx.ch
    n = ctx.draw_size(SIZES)
    r = np.random.RandomState(ch.choose(1 << 20, 'rs'))
    nd = ch.rng_int('nd', 1, 3)
    which = ch.choose(nd, 'distdim')
    dims = []
    for i in range(nd):
        ln = ch.pick('dl', (1, 2, 3, 5, 8)) if i == which else ch.rng_int('dls', 1, 4)
        dims.append(('d{}'.format(i), ln, i == which))
    fmt = ctx.param('fmt', ch.pick('fmt', ('NETCDF4', 'NETCDF4', 'NETCDF3_CLASSIC', 'NETCDF4_CLASSIC')))
    kids = ch.choose(3, 'kids') if fmt == 'NETCDF4' else 0
    unlim = None
    if n == 1 and ch.flag('unlim', 0.4):
        unlim = dims[0][0]

    def draw():
        vs = p04.draw_vars(ch, dims, r)
        for k, (vd, a, m, at, b) in list(vs.items()):
            if a.dtype == object and len(vd) > 1:
                a = np.arange(a.size, dtype='f8').reshape(a.shape)
            if a.dtype == 'i8' and fmt != 'NETCDF4':
                a = a.astype('i4')
            if unlim in vd:
                if fmt != 'NETCDF4' and a.ndim > 1:
                    vd = [unlim] + [x for x in vd if x != unlim]
                    a = a.reshape([dict((x[0], x[1]) for x in dims)[y] for y in vd])
                    m = None if m is None else m.reshape(a.shape)
            if a.dtype == object:
                m = None
                a = np.array([str(x) * (1 + (i % 3)) for i, x in enumerate(a)], dtype=object)
            at = dict(at)
            fill = None
            if a.dtype != object and vd and ch.flag('fill', 0.3):
                fill = {'f': -777.25, 'i': -7}[a.dtype.kind]
            if ch.flag('attrs', 0.3):
                at['list'] = (1.5, 2.5)
                at['flag'] = np.int32(3).item()
            vs[k] = (vd, a, m, at, b, fill)
        return vs

    top = draw()
    kvs = [draw() for _ in range(kids)]
    nested = kids == 2 and ch.flag('nested', 0.5)
    vkw = {}
    if ch.flag('fixed', 0.3):
        vkw['unlimited_to_fixedsize'] = True
    if fmt != 'NETCDF3_CLASSIC' and ch.flag('zlib', 0.3):
        vkw['zlib'] = True
    ctx.param('dims', dims)
    ctx.param('unlimited', unlim)
    ctx.param('vars', {k: (v[0], str(v[1].dtype), v[2] is not None, v[4] is not None, v[5]) for k, v in top.items()})
    ctx.param('how', (kids, nested, sorted(vkw)))
    groups = [[None]] + [[None, 'kid0']] * (kids > 0) + ([[None, 'kid0', 'kid1']] if nested else [[None, 'kid1']]) * (kids > 1)
    path = ctx.path('out.nc')

    def build(vs):
        import ocgis
        vc = ocgis.VariableCollection(attrs={'title': 'vc', 'number': 4})
        for nm, ln, _ in dims:
            vc.add_dimension(ocgis.Dimension(nm, size=None, size_current=ln) if nm == unlim else ocgis.Dimension(nm, ln))
        for nm, (vd, a, m, at, b, fill) in vs.items():
            if not vd:
                vc.add_variable(ocgis.Variable(name=nm, attrs=dict(at)))
                continue
            kw = {'dtype': str} if a.dtype == object else {}
            if fill is not None:
                kw['fill_value'] = fill
            dd = [vc.dimensions[x] for x in vd]
            v = ocgis.Variable(name=nm, value=a.copy(), dimensions=dd, mask=None if m is None else m.copy(), attrs=dict(at), **kw)
            if b is not None:
                v.set_bounds(ocgis.Variable(name=nm + '_bnds', value=b.copy(), dimensions=[dd[0], 'bnds']))
            vc.add_variable(v, force=True)
        return vc

    def prog(rc):
        from ocgis import vm
        from ocgis.vmachine.mpi import OcgDist, variable_collection_scatter
        vc = None
        if vm.rank == 0:
            vc = build(top)
            par = vc
            for i, kv in enumerate(kvs):
                c = build(kv)
                c.set_name('kid{}'.format(i))
                par.add_child(c)
                if nested:
                    par = c
        if rc.size > 1:
            dist = OcgDist(size=rc.size)
            for gr in groups:
                for nm, ln, d in dims:
                    dist.create_dimension(nm, ln, dist=d, group=gr)
            dist.update_dimension_bounds()
            vc = variable_collection_scatter(vc, dist)
        with vm.scoped_by_emptyable('w', vc):
            if not vm.is_null:
                vc.write(path, dataset_kwargs={'format': fmt}, variable_kwargs=vkw)

    ctx.parallel(n, prog, what='VariableCollection.write')
    f = C.read_nc(path)
    targets = [('/', f, top)]
    if kids:
        k0 = f['groups'].get('kid0')
        ctx.require(k0 is not None, 'lost-group', 'groups {}'.format(sorted(f['groups'])))
        targets.append(('/kid0', k0, kvs[0]))
    if kids > 1:
        par = k0 if nested else f
        ctx.require('kid1' in par['groups'], 'lost-group', 'groups {}'.format(sorted(par['groups'])))
        targets.append(('/kid1', par['groups']['kid1'], kvs[1]))
    for where, fg, vs in targets:
        ctx.require(fg['attrs'].get('title') == 'vc' and fg['attrs'].get('number') == 4, 'attributes', '{}: {}'.format(where, fg['attrs']))
        used = set(x for v in vs.values() for x in v[0])
        for nm, ln, _ in dims:
            if nm in used:
                have = fg['dims'].get(nm)
                ctx.require(have == (ln, nm == unlim and 'unlimited_to_fixedsize' not in vkw), 'dimension-size',
                            '{}: dimension {} is {} for length {}, unlimited {}'.format(where, nm, have, ln, unlim))
        for nm, (vd, a, m, at, b, fill) in vs.items():
            ctx.require(nm in fg['vars'], 'lost-variable', '{}: {} is missing'.format(where, nm))
            rv = fg['vars'][nm]
            ctx.require(all(k in rv['attrs'] and rv['attrs'][k] == v for k, v in at.items()), 'attributes', '{} {}: {} expected {}'.format(
                where, nm, rv['attrs'], at))
            extra = set(rv['attrs']) - set(at) - {'_FillValue', 'bounds', 'missing_value'}
            ctx.require(not extra, 'attributes', '{} {}: unexpected {}'.format(where, nm, extra))
            if not vd:
                continue
            if a.dtype == object:
                raw = rv['raw']
                got = [str(x) for x in raw.flat] if raw.dtype == object else [b''.join(x).decode().rstrip('\x00 ') if raw.dtype.kind == 'S' else
                                                                              ''.join(x) for x in raw.reshape(len(a), -1).tolist()]
                ctx.require(got == a.tolist(), 'values', '{} {}: {} expected {}'.format(where, nm, got, a.tolist()))
                ctx.probes['strings'] += 1
                continue
            check_variable(ctx, where + ' ' + nm, {'dims': tuple(vd), 'value': a, 'mask': m}, rv)
            if fill is not None and m is not None and m.any():
                ctx.require(rv['attrs'].get('_FillValue') == fill, 'fill-value', '{} {}: {} expected {}'.format(where, nm, rv['attrs'].get('_FillValue'), fill))
            if b is not None:
                ctx.require(rv['attrs'].get('bounds') == nm + '_bnds' and nm + '_bnds' in fg['vars'], 'bounds', '{} {}: {}'.format(where, nm, rv['attrs']))
                check_variable(ctx, where + ' ' + nm + '_bnds', {'dims': fg['vars'][nm + '_bnds']['dims'], 'value': b, 'mask': bounds_mask(b, m)}, fg['vars'][nm + '_bnds'])
    ctx.probes['collections'] += 1

    # The file as ocgis reads it.
    def back(rc):
        import ocgis
        from ocgis.variable.base import VariableCollection
        vc = VariableCollection.read(path)
        out = {}
        for where, names in [('/', []), ('/kid0', ['kid0']), ('/kid1', ['kid0', 'kid1'] if nested else ['kid1'])][:kids + 1]:
            x = vc
            for nm in names:
                x = x.children[nm]
            out[where] = {v.name: C.snap_var(v) for v in x.values()}, C.plain_attrs(x.attrs), {
                v.name: None if v.is_empty or not v.dimensions or v.dtype == object else v.fill_value for v in x.values()}
        return out

    m = ch.pick('m', (1, 1, 2, 3))
    out = ctx.parallel(m, back, what='VariableCollection.read')
    for where, fg, vs in targets:
        for nm, (vd, a, mm, at, b, fill) in vs.items():
            for rk, o in enumerate(out.results):
                s = o[where][0].get(nm)
                ctx.require(s is not None, 'read-lost', '{}: {} is not read'.format(where, nm))
                ctx.require(all(s['attrs'].get(k) == v for k, v in at.items()), 'read-attributes', '{} {}: {} expected {}'.format(where, nm, s['attrs'], at))
                if fill is not None and not s['empty'] and mm is not None and mm.any():
                    ctx.require(o[where][2][nm] == fill, 'read-fill-value', '{} {}: {} expected {}'.format(where, nm, o[where][2][nm], fill))
            if not vd:
                continue
            for nm2, a2, m2 in [(nm, a, mm)] + ([(nm + '_bnds', b, bounds_mask(b, mm))] if b is not None else []):
                try:
                    got = C.assemble([(rk, o[where][0].get(nm2)) for rk, o in enumerate(out.results)], what=nm2)
                except C.Mismatch as e:
                    ctx.violate('read-partition', '{}: {}'.format(where, e))
                ctx.require(got is not None and got['value'] is not None, 'read-lost', '{}: {}'.format(where, nm2))
                if a2.dtype == object:
                    # Strings of a fixed length are read as characters.
                    continue
                wm = np.zeros(a2.shape, dtype=bool) if m2 is None else m2
                ctx.require(got['value'].shape == a2.shape and (a2.dtype == object or got['value'].dtype == a2.dtype), 'read-dtype',
                            '{} {}: {} {} expected {} {}'.format(where, nm2, got['value'].dtype, got['value'].shape, a2.dtype, a2.shape))
                ctx.require(np.array_equal(got['mask'], wm), 'read-mask', '{} {}: {} expected {}'.format(where, nm2, got['mask'].astype(int).tolist(), wm.astype(int).tolist()))
                ctx.require(C.eq_arrays(got['value'][~wm], a2[~wm]), 'read-values', '{} {}: {} expected {}'.format(where, nm2, C._show(got['value']), C._show(a2)))
    ctx.probes['collections read on {}'.format(m)] += 1


# -- vector sources -----------------------------------------------------------------------------------------------------

def vectors(ctx):
    """Vector sources written as tables, vector files or netCDF and read again."""
    ch = ctx.ch
    n = ctx.draw_size(SIZES)
    r = np.random.RandomState(ch.choose(1 << 20, 'rs'))
    k = ch.rng_int('nrec', 1, 8)
    kind = ctx.param('kind', ch.pick('gk', ('box', 'point', 'poly', 'line', 'mixed', 'hole')))
    geoms = []
    for i in range(k):
        x, y = -100 + 3 * i + r.rand(), 20 + 10 * r.rand()
        t = kind if kind != 'mixed' else ('box', 'multi')[r.randint(2)]
        if t == 'point':
            geoms.append(C.Point(x, y))
        elif t == 'box':
            geoms.append(C.box(x, y, x + 1, y + 1 + r.rand()))
        elif t == 'poly':
            geoms.append(C.Polygon([(x, y), (x + 1.3, y + .1), (x + .7, y + 1.2), (x + .2, y + .8)]))
        elif t == 'hole':
            geoms.append(C.Polygon([(x, y), (x + 2, y), (x + 2, y + 2), (x, y + 2)], [[(x + .5, y + .5), (x + 1, y + .5), (x + 1, y + 1)]]))
        elif t == 'line':
            from shapely.geometry import LineString
            geoms.append(LineString([(x, y), (x + .5, y + 1), (x + 1, y)]))
        else:
            geoms.append(C.MultiPolygon([C.box(x, y, x + .5, y + 1), C.box(x + 1, y, x + 1.5, y + 1 + r.rand())]))
    props = [collections.OrderedDict([('CODE', int(r.randint(1, 9999))), ('VAL', float(np.round(r.rand() * 1000, 4))), ('NAME', 'n{:02d}'.format(int(r.randint(99)))),
                                      ('OTHER', int(i))]) for i in range(k)]
    # Missing attributes. Missing integers are masked, missing floats are not a number.
    nulls = set()
    if ch.flag('nulls', 0.4):
        # Nothing but records with missing attributes is refused as empty.
        for i in range(1, k):
            for nm in ('CODE', 'VAL'):
                if r.rand() < 0.25:
                    props[i][nm] = None
                    nulls.add(i)
    src = ctx.path('src.shp')
    C.write_shp(src, geoms, props)
    fmt = ctx.param('fmt', ch.pick('ofmt', ('shp', 'csv', 'nc') + (('ops-shp',) if kind != 'line' else ())))
    load = ch.flag('load', 0.3)
    sel = None
    if ch.flag('slice', 0.3) and n == 1:
        sel = sorted(set(int(r.randint(k)) for _ in range(3)) | ({0} if nulls else set()))
    ctx.param('how', (k, load, sel, sorted(nulls)))
    d = ctx.path('out')
    os.mkdir(d)
    path = os.path.join(d, 'out.' + fmt.replace('ops-', ''))

    def prog(rc):
        import ocgis
        from ocgis import vm
        rd = ocgis.RequestDataset(src, driver='vector')
        if fmt.startswith('ops-'):
            ocgis.OcgOperations(dataset=rd, output_format=fmt[4:], prefix='out', dir_output=d, add_auxiliary_files=False).execute()
            return
        f = rd.get()
        if sel is not None:
            f = f[{f.geom.dimensions[0].name: np.array(sel)}]
        with vm.scoped_by_emptyable('w', f):
            if not vm.is_null:
                if load:
                    f.load()
                f.write(path, driver={'shp': 'vector', 'csv': 'csv', 'nc': 'netcdf'}[fmt])

    if fmt.startswith('ops-'):
        sel = None
    ctx.parallel(n, prog, what='writing a vector source')
    idx = list(range(k)) if sel is None else sel
    names = list(props[0])
    if fmt.endswith('shp'):
        meta, recs = C.read_shp(path) if os.path.exists(path) or not nulls else (None, [])
        idx = written(ctx, idx, [p['OTHER'] for _, p in recs], props)
        for i, (g, p) in zip(idx, recs):
            ctx.require(same_geom(geoms[i], g), 'geometry', 'record {}: {} expected {}'.format(i, g.wkt[:300], geoms[i].wkt[:300]))
            check_props(ctx, i, p, props[i])
    elif fmt.endswith('csv'):
        lines = C.read_csv(path)
        idx = written(ctx, idx, [l[lines[0].index('OTHER')] for l in lines[1:]], props)
        for i, l in zip(idx, lines[1:]):
            check_props(ctx, i, dict(zip(lines[0], l)), props[i])
    else:
        f = C.read_nc(path)
        for nm in names:
            ctx.require(nm in f['vars'], 'lost-variable', '{} is not in the file: {}'.format(nm, sorted(f['vars'])))
            raw = f['vars'][nm]['raw']
            if nulls and raw.dtype.kind in 'fi':
                fill = f['vars'][nm]['attrs'].get('_FillValue')
                raw = np.array([None if x == fill else x for x in raw.tolist()] + [None], dtype=object)[:-1]
            if raw.dtype.kind == 'S':
                raw = np.array([b''.join(x).decode().rstrip('\x00 ') for x in raw.reshape(len(raw), -1).tolist()])
            ctx.require(len(raw) == len(idx), 'record-count', '{}: {} elements for {}'.format(nm, len(raw), len(idx)))
            for i, v in zip(idx, raw.tolist()):
                check_props(ctx, i, {nm: v}, {nm: props[i][nm]})
    ctx.probes['vector ' + fmt] += 1
    if nulls:
        ctx.probes['missing attributes'] += 1
    if fmt.endswith('shp') and idx:
        def back(rc):
            import ocgis
            f = ocgis.RequestDataset(path, driver='vector').get()
            return C.snap_field(f)

        m = ch.pick('m', (1, 2, 3))
        out = ctx.parallel(m, back, what='reading a vector file')
        pieces = {}
        for nm in names + ['ocgis_geom']:
            try:
                pieces[nm] = C.assemble([(rk, o['vars'].get(nm)) for rk, o in enumerate(out.results) if not o['empty']], what=nm)
            except C.Mismatch as e:
                ctx.violate('read-partition', str(e))
            ctx.require(pieces[nm] is not None and pieces[nm]['value'].shape == (len(idx),), 'read-lost', '{}'.format(nm))
        for j, i in enumerate(idx):
            ctx.require(same_geom(geoms[i], pieces['ocgis_geom']['value'][j]), 'geometry', 'record {} read: {}'.format(i, pieces['ocgis_geom']['value'][j].wkt[:300]))
            check_props(ctx, i, {nm: None if pieces[nm]['mask'][j] else pieces[nm]['value'][j] for nm in names}, props[i])
        ctx.probes['vectors read on {}'.format(m)] += 1


def written(ctx, idx, got, props):
    """The source records in a file. Those with missing attributes may be left out."""
    got = [int(x) for x in got]
    ctx.require(got == [i for i in idx if i in got], 'record-count', 'records {} expected {}'.format(got, idx))
    lost = [i for i in idx if i not in got and None not in props[i].values()]
    ctx.require(not lost, 'record-count', 'records {} of {} are missing'.format(lost, idx))
    return got


def check_props(ctx, i, got, want):
    for k, v in want.items():
        ctx.require(k in got, 'column', 'record {}: no column {} in {}'.format(i, k, sorted(got)))
        if v is None:
            ctx.require(got[k] in (None, '') or got[k] != got[k] or got[k] == 'nan', 'property', 'record {}: {} is {!r}, expected none'.format(i, k, got[k]))
            continue
        try:
            ok = abs(float(got[k]) - v) < 1e-9 * max(1, abs(v)) if not isinstance(v, str) else str(got[k]) == v
        except (TypeError, ValueError):
            ok = False
        ctx.require(ok, 'property', 'record {}: {} is {!r}, expected {!r}'.format(i, k, got[k], v))


SCENARIOS = [Scenario('tables', tables, weight=4, sizes=SIZES), Scenario('arrays', arrays, weight=3, sizes=SIZES),
             Scenario('collection', collection, weight=2, sizes=SIZES), Scenario('vectors', vectors, weight=1, sizes=SIZES)]
