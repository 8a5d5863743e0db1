"""P10: chunks of a destination grid cover it once, come with the source cells they need, and go back to their places."""
import os

import numpy as np

from checks import common as C
from sim import seams
from sim.harness import Scenario, Skip
from sim.kernel import HarnessError

PROPERTY = 'P10'
RULE = 'One evaluation chunks one drawn destination grid with one drawn source grid on a drawn number of ranks under a seeded ' \
       'schedule, checks every chunk file and the index file against the two grids, merges made-up weight files and inserts ' \
       'made-up data (some of it after an injected library error), and compares the results with the cells of the two grids.'
REAL = ['ocgis (all modules)', 'numpy', 'netCDF4/HDF5', 'shapely/GEOS']
STUB = ['MPI (simulated ranks)', 'clock', 'ESMF (weight files are made by the check)']
QUICK = {'runs': 1200, 'time': 420}
THOROUGH = {'runs': 30000, 'time': 3000}
SIZES = (1, 1, 2, 3, 4, 5)


def draw_pair(ch):
    d = C.draw_grid(ch, max_n=12, min_n=1, allow_wrap=True)
    d['nlev'] = 0
    d['nt'] = ch.rng_int('dnt', 1, 3)
    if not d['bounds']:
        d['nx'], d['ny'] = max(d['nx'], 2), max(d['ny'], 2)
    s = C.draw_grid(ch, max_n=9, min_n=1)
    s['nlev'] = 0
    s['dx'] = ch.pick('sdx', (1.3, 2.0, 4.7))
    s['dy'] = ch.pick('sdy', (1.1, 2.0, 3.3))
    cover = ch.pick('cover', ('over', 'over', 'over', 'over', 'over', 'part', 'inside'))
    w, h = d['dx'] * d['nx'], d['dy'] * d['ny']
    if cover == 'over':
        m = ch.pick('margin', (1.0, 3.0, 12.0))
        s['x0'], s['y0'] = d['x0'] - d['dx'] / 2 - m + 0.13, d['y0'] - d['dy'] / 2 - m + 0.17
        s['nx'], s['ny'] = int((w + 2 * m) / s['dx']) + 1, int((h + 2 * m) / s['dy']) + 1
    elif cover == 'part':
        s['x0'], s['y0'] = d['x0'] + ch.pick('offx', (-3.1, 0.0, 4.3)), d['y0'] + ch.pick('offy', (-2.7, 0.0, 3.9))
    else:
        s['x0'], s['y0'] = d['x0'] + 0.11, d['y0'] + 0.07
        s['nx'], s['ny'] = max(1, int(w / s['dx'] / 2)), max(1, int(h / s['dy'] / 2))
    s['nx'], s['ny'] = max(2, min(s['nx'], 24)), max(2, min(s['ny'], 24))
    return s, d, cover


def boxes(g):
    """Cells as bounds (or the points themselves): arrays minx, miny, maxx, maxy of the shape of the grid."""
    a = C.grid_arrays(g)
    if g['curvi']:
        if g['bounds']:
            return a['Xc'].min(-1), a['Yc'].min(-1), a['Xc'].max(-1), a['Yc'].max(-1)
        return a['X'], a['Y'], a['X'], a['Y']
    if g['bounds']:
        y0, x0 = np.meshgrid(a['yb'].min(1), a['xb'].min(1), indexing='ij')
        y1, x1 = np.meshgrid(a['yb'].max(1), a['xb'].max(1), indexing='ij')
        return x0, y0, x1, y1
    y, x = np.meshgrid(a['y'], a['x'], indexing='ij')
    return x, y, x, y


def coords(g):
    a = C.grid_arrays(g)
    if g['curvi']:
        return {'lat': a['Y'], 'lon': a['X'], 'lat_bnds': a['Yc'], 'lon_bnds': a['Xc']}
    return {'lat': a['y'], 'lon': a['x'], 'lat_bnds': a['yb'], 'lon_bnds': a['xb']}


def chunks(ctx):
    ch = ctx.ch
    n = ctx.draw_size(SIZES)
    s, d, cover = draw_pair(ch)
    # Grids are distributed with two elements a rank or more. Grids without cells on a rank are refused.
    n = max(1, min(n, max(s['nx'], s['ny']) // 2, max(d['nx'], d['ny']) // 2))
    shift = 0.0
    if ch.flag('domain', 0.15) and d['x0'] < -50 and not s['curvi']:
        # The same place in the other longitude domain.
        shift = 360.0
    split = (ch.rng_int('splity', 1, min(4, d['ny'])), ch.rng_int('splitx', 1, min(4, d['nx'])))
    if split == (1, 1):
        if d['nx'] > 1:
            split = (1, 2)
        elif d['ny'] > 1:
            split = (2, 1)
        else:
            raise Skip('one cell')
    kw = {}
    buf = ch.pick('buffer', (None, None, 0.5, 2.0, 7.5))
    if buf is not None:
        kw['buffer_value'] = buf
    kw['optimized_bbox_subset'] = ch.pick('obs', ('auto', True, False))
    kw['eager'] = ch.flag('eager', 0.7)
    ab = ch.pick('abstraction', (None, None, 'point'))
    aux = ch.flag('aux', 0.3)
    src_kind = ch.pick('srckind', ('rd', 'field', 'grid'))
    ctx.param('source', {k: s[k] for k in ('nx', 'ny', 'x0', 'y0', 'dx', 'dy', 'bounds', 'curvi', 'ydesc')})
    ctx.param('destination', {k: d[k] for k in ('nx', 'ny', 'x0', 'y0', 'dx', 'dy', 'bounds', 'curvi', 'ydesc')})
    ctx.param('chunks', (split, kw, ab, src_kind, cover, shift))
    sp, dp, wd = ctx.path('src.nc'), ctx.path('dst.nc'), ctx.path('wd')
    os.mkdir(wd)
    g = dict(s, x0=s['x0'] + shift)
    C.write_grid_nc(sp, g)
    C.write_grid_nc(dp, d)

    kw['filemode'] = 'WITHAUX' if aux else 'BASIC'
    paths, esmf = {'wd': wd}, {'regrid_method': 'CONSERVE'}

    def build():
        import ocgis
        from ocgis.spatial.grid_chunker import GridChunker
        o = {'grid_abstraction': ab} if ab else {}
        a, b = ocgis.RequestDataset(sp, **o), ocgis.RequestDataset(dp, **o)
        if src_kind == 'field':
            a, b = a.create_field(), b.create_field()
        elif src_kind == 'grid':
            a, b = a.create_field().grid, b.create_field().grid
        return GridChunker(a, b, split, paths=paths, esmf_kwargs=esmf, **kw)

    def prog(rc):
        gs = build()
        bv = gs.buffer_value
        ob = gs.optimized_bbox_subset
        gs.write_chunks()
        return bv, ob

    # The chunks on one rank; one without any source is an error.
    pl = ctx.serial(lambda rc: (lambda gs: (list(gs.iter_dst_grid_slices()), gs.buffer_value, gs.optimized_bbox_subset))(build()))
    for x in pl[0]:
        if not needed(s, d, x['lat'], x['lon'], pl[1], ab, pl[2]).any():
            raise Skip('a chunk has no source')
    r = ctx.parallel(n, prog, what='write_chunks')
    bv = r.results[0][0]
    ctx.require(all(x == r.results[0] for x in r.results), 'ranks-disagree', lambda: 'buffers {}'.format(r.results))
    if buf is None and not s['curvi'] and not d['curvi'] and min(s['nx'], s['ny'], d['nx'], d['ny']) > 1:
        want = 2 * min(max(s['dx'], s['dy']), max(d['dx'], d['dy']))
        ctx.require(abs(bv - want) < 1e-9, 'buffer', lambda: 'buffer {} but twice the higher resolution is {}'.format(bv, want))
    ctx.require(abs(bv - pl[1]) < 0.05 and r.results[0][1] == pl[2], 'ranks-disagree', lambda: 'serial {}, parallel {}'.format(pl[1:], r.results))
    places = check_chunks(ctx, s, g, d, wd, split, bv, ab, shift, r.results[0][1])
    ctx.require([x[2:] for x in places] == [(x['lat'], x['lon']) for x in pl[0]], 'other-chunks', lambda: 'serial {}, parallel {}'.format(pl[0], places))
    ctx.require(paths == {'wd': wd} and esmf == {'regrid_method': 'CONSERVE'}, 'arguments-changed', lambda: '{} {}'.format(paths, esmf))
    left = ctx.serial(defaults)
    ctx.require('wd' not in left, 'defaults-changed', lambda: 'the default paths are {} after chunking'.format(left))
    merge(ctx, build, s, d, wd, places, aux)
    insert(ctx, d, dp, wd, places)
    ctx.probes['cover ' + cover] += 1
    ctx.probes['chunks {}'.format(min(len(places), 16))] += 1


def defaults(rc):
    from ocgis.constants import GridChunkerConstants
    return dict(GridChunkerConstants.DEFAULT_PATHS)


def needed(s, d, dy, dx, bv, ab, ob):
    """Which source cells overlap the chunk with its buffer; the optimized subset goes by the centers."""
    sb = boxes(dict(s, bounds=s['bounds'] and ab != 'point' and not ob))
    db = boxes(d)
    ext = (db[0][dy, dx].min() - bv, db[1][dy, dx].min() - bv, db[2][dy, dx].max() + bv, db[3][dy, dx].max() + bv)
    e = 1e-6
    return (sb[0] < ext[2] - e) & (sb[2] > ext[0] + e) & (sb[1] < ext[3] - e) & (sb[3] > ext[1] + e)


def check_chunks(ctx, s, g, d, wd, split, bv, ab, shift, ob):
    """Files against grids; returns [(source rows, source columns, destination rows, destination columns)]."""
    files = {x: C.read_nc(os.path.join(wd, x)) for x in sorted(os.listdir(wd))}
    idx = files.get('01-split_index.nc')
    ctx.require(idx is not None, 'no-index', 'there is no index file: {}'.format(sorted(files)))
    v = idx['vars']
    att = v['grid_chunker_index']['attrs']
    ctx.require(tuple(att['src_grid_shape']) == (s['ny'], s['nx']) and tuple(att['dst_grid_shape']) == (d['ny'], d['nx']), 'grid-shape', lambda: '{}'.format(att))
    names = {k: text(v[k]['raw']) for k in ('source_filename', 'destination_filename', 'weights_filename')}
    n = len(names['source_filename'])
    cover = np.zeros((d['ny'], d['nx']), dtype=int)
    places = []
    for i in range(n):
        p = [tuple(int(x) for x in v[k]['raw'][i]) for k in ('src_y_bounds', 'src_x_bounds', 'dst_y_bounds', 'dst_x_bounds')]
        sy, sx, dy, dx = [slice(*x) for x in p]
        places.append((sy, sx, dy, dx))
        text_ = 'chunk {} at {}'.format(i + 1, p)
        for q, (size, nm) in zip(p, ((s['ny'], 'source y'), (s['nx'], 'source x'), (d['ny'], 'destination y'), (d['nx'], 'destination x'))):
            ctx.require(0 <= q[0] < q[1] <= size, 'bad-bounds', lambda: '{}: {} of {}'.format(text_, nm, size))
        cover[dy, dx] += 1
        ctx.require(names['destination_filename'][i] in files and names['source_filename'][i] in files, 'file-missing', lambda: '{}: {} not in {}'.format(
            text_, (names['destination_filename'][i], names['source_filename'][i]), sorted(files)))
        for nm, grid, ys, xs in ((names['destination_filename'][i], d, dy, dx), (names['source_filename'][i], g, sy, sx)):
            same_piece(ctx, '{}: {}'.format(text_, nm), files[nm], grid, ys, xs, None if grid is d else needed(s, d, dy, dx, bv, ab, ob)[ys, xs])
        # The source has all cells which overlap the chunk and its surroundings.
        need = needed(s, d, dy, dx, bv, ab, ob)
        have = np.zeros(need.shape, dtype=bool)
        have[sy, sx] = True
        miss = np.argwhere(need & ~have)
        ctx.require(len(miss) == 0, 'source-incomplete', lambda: '{}: cells {} of the source overlap the chunk with its buffer of {}'.format(
            text_, miss.tolist()[:8], bv))
        ctx.require(need.any(), 'chunk-without-source', text_)
        # ... and is not the whole of it for nothing.
        rows, cols = np.where(need.any(1))[0], np.where(need.any(0))[0]
        if not s['curvi']:
            extra = (max(0, rows[0] - sy.start - 1), max(0, sy.stop - rows[-1] - 2), max(0, cols[0] - sx.start - 1), max(0, sx.stop - cols[-1] - 2))
            ctx.require(not any(extra), 'source-excess', lambda: '{}: rows and columns around {} are not asked for'.format(text_, extra))
    ctx.require((cover == 1).all(), 'not-a-partition', lambda: 'destination cells are in so many chunks: {}'.format(cover.tolist()))
    want = split[0] * split[1]
    ctx.require(n <= want, 'too-many-chunks', '{} of {}'.format(n, want))
    ctx.require(n == want, 'too-few-chunks', '{} of {}'.format(n, want))
    return places


def text(a):
    if a.dtype.kind in 'S' and a.ndim == 2:
        return [b''.join(x).decode().strip('\x00 ') for x in a]
    return [str(x) for x in a]


def same_piece(ctx, what, f, g, ys, xs, need=None):
    v = f['vars']
    for nm, a in coords(g).items():
        if nm.endswith('_bnds') and not g['bounds']:
            continue
        ctx.require(nm in v, 'coordinate-lost', lambda: '{}: no {} in {}'.format(what, nm, sorted(v)))
        a = a[ys, xs] if g['curvi'] else (a[ys] if nm.startswith('lat') else a[xs])
        ctx.require(C.eq_arrays(np.asarray(v[nm]['raw']), a, tol=1e-9), 'wrong-piece', lambda: '{}: {} is {} but {}'.format(
            what, nm, C._show(v[nm]['raw']), C._show(a)))
    arr = C.grid_arrays(g)
    for nm, (a, m) in zip(C.VNAMES, arr['data']):
        ctx.require(nm in v, 'variable-lost', lambda: '{}: no {} in {}'.format(what, nm, sorted(v)))
        a, m = a[:, ys, xs], m[:, ys, xs]
        got, gm = value_mask(v[nm])
        if need is not None and got.shape == a.shape:
            # Others may be masked.
            m = m | ~need & gm
        ctx.require(got.shape == a.shape and np.array_equal(gm, m) and np.array_equal(got[~m], a[~m]), 'wrong-piece', lambda: '{}: {} is {} but {}'.format(
            what, nm, C._show(got), C._show(a)))


def value_mask(x):
    a = np.asarray(x['raw'])
    f = x['attrs'].get('_FillValue')
    return a, np.zeros(a.shape, dtype=bool) if f is None else a == np.asarray(f).astype(a.dtype)


# -- weights --------------------------------------------------------------------------------------------------------------

def disturbed(ctx, fn, what, again=None):
    """Run it, maybe with a library error first: the error is reported or without effect."""
    ch = ctx.ch
    if ch.flag('disturb', 0.3):
        call, nth = ch.pick('call', ('nc_open', 'nc_read', 'nc_write', 'nc_define', 'nc_sync', 'nc_close')), ch.choose(12, 'nth')

        def program(rc):
            seams.lib_arm(call, nth)
            try:
                try:
                    fn()
                    r = ('ok',)
                except HarnessError:
                    raise
                except Exception as e:
                    r = ('raised', type(e).__name__, str(e)[:200])
                return r, seams.lib_plan['fired']
            finally:
                seams.lib_arm()

        r, fired = ctx.serial(program)
        if r[0] == 'raised':
            ctx.require(fired, 'raises', lambda: '{}: {}'.format(what, r))
            ctx.probes['failed ' + what] += 1
            if again:
                again()
        if fired:
            ctx.fired.update({call + ':error': fired})
        if r[0] == 'ok':
            ctx.probes['error survived' if fired else 'no error'] += 1
            return
    ctx.serial(lambda rc: fn())


def merge(ctx, build, s, d, wd, places, aux):
    ch = ctx.ch
    sidx = np.arange(1, s['ny'] * s['nx'] + 1).reshape(s['ny'], s['nx'])
    didx = np.arange(1, d['ny'] * d['nx'] + 1).reshape(d['ny'], d['nx'])
    r = np.random.RandomState(ch.choose(1 << 16, 'wseed'))
    want = []
    written = 0
    fmt = ch.pick('wfmt', ('NETCDF4', 'NETCDF3_CLASSIC', 'NETCDF3_64BIT_OFFSET'))
    some = ch.flag('someweights', 0.25)
    with seams.paused():
        for i, (sy, sx, dy, dx) in enumerate(places):
            if some and r.rand() < 0.4:
                continue
            ls, ld = sidx[sy, sx].flatten(), didx[dy, dx].flatten()
            k = r.randint(0, 7) if some else r.randint(1, 7)
            row, col = r.randint(1, ld.size + 1, k), r.randint(1, ls.size + 1, k)
            w = r.rand(k)
            ds = C._raw_nc(os.path.join(wd, 'esmf_weights_{}.nc'.format(i + 1)), 'w', fmt=fmt)
            ds.createDimension('n_s', k if k else None)
            for nm, t, a in (('row', 'i4', row), ('col', 'i4', col), ('S', 'f8', w)):
                v = ds.createVariable(nm, t, ('n_s',))
                if k:
                    v[:] = a
            if aux and not written:
                ds.createDimension('n_a', 3)
                v = ds.createVariable('area_a', 'f8', ('n_a',))
                v[:] = (1.5, 2.5, 3.5)
                v.units = 'square radians'
                ds.title = 'made up'
            ds.close()
            written += 1
            want.extend(zip(ld[row - 1].tolist(), ls[col - 1].tolist(), w.tolist()))
    if not want:
        return
    out = ctx.path('merged.nc')
    if ch.flag('strict', 0.3):
        missing = written < len(places)

        def strict(rc):
            try:
                build().create_merged_weight_file(out, strict=True)
            except IOError as e:
                return str(e)

        e = ctx.serial(strict)
        ctx.require((e is not None) == missing, 'strict', lambda: '{} of {} weight files and {}'.format(written, len(places), e))
        ctx.probes['strict' if e is None else 'strict refused'] += 1
    disturbed(ctx, lambda: build().create_merged_weight_file(out), 'merge')
    f = C.read_nc(out)
    if aux:
        a = f['vars'].get('area_a')
        ctx.require(a is not None and a['raw'].tolist() == [1.5, 2.5, 3.5] and a['attrs'].get('units') == 'square radians' and f['attrs'].get('title') == 'made up',
                    'auxiliary-lost', lambda: '{} {}'.format(a, f['attrs']))
    f = f['vars']
    ctx.require(set(f) == {'row', 'col', 'S'} | ({'area_a'} if aux else set()), 'other-variables', lambda: str(sorted(f)))
    got = [tuple(x) for x in zip(*[np.asarray(f[nm]['raw']).tolist() for nm in ('row', 'col', 'S')])]
    ctx.require(got == want, 'wrong-weights', lambda: 'merged weights (row, column, weight) are {} but {}'.format(got[:40], want[:40]))
    ctx.require(all(np.asarray(f[nm]['raw']).size == len(want) for nm in ('row', 'col', 'S')), 'wrong-weights', 'sizes')
    ctx.probes['merged'] += 1


def insert(ctx, d, dp, wd, places):
    ch = ctx.ch
    if not ch.flag('insert', 0.6):
        return
    nm = 'tas'
    nt = d['nt']
    new = (np.arange(nt * d['ny'] * d['nx'], dtype=float).reshape(nt, d['ny'], d['nx']) + 0.5).astype(d['dtype'])
    mask = np.zeros(new.shape, dtype=bool)
    if ch.flag('missing', 0.4):
        mask = np.random.RandomState(ch.choose(1 << 16, 'mseed')).rand(*new.shape) < 0.3
    flat = ch.flag('flat', 0.3)
    if flat:
        nm, new, mask = 'flat', new[0], mask[0]
    sel = [nm] if d['nvar'] > 1 or flat else ch.pick('select', (None, [nm]))
    # The data may come with another fill value.
    fill = ch.pick('fill', (1e20, -999.0, None))
    with seams.paused():
        if flat:
            ds = C._raw_nc(dp, 'a')
            ds.createVariable('flat', new.dtype, ds.variables['tas'].dimensions[1:], fill_value=1e20)[:] = 0.0
            ds.close()
        for i, (sy, sx, dy, dx) in enumerate(places):
            ds = C._raw_nc(os.path.join(wd, 'split_dst_{}.nc'.format(i + 1)), 'a')
            dims = ds.variables['tas'].dimensions
            if flat:
                v = ds.createVariable('flat', new.dtype, dims[1:], fill_value=fill)
            elif fill is not None:
                # As regridded by another program.
                ds.renameVariable('tas', 'old')
                v = ds.createVariable('tas', new.dtype, dims, fill_value=fill)
            else:
                v = ds.variables['tas']
            v[:] = np.ma.array(new[..., dy, dx], mask=mask[..., dy, dx])
            ds.close()
    import shutil

    before = C.read_nc(dp)
    keep = ctx.path('keep.nc')
    shutil.copy(dp, keep)

    def fn():
        from ocgis.spatial.grid_chunker import GridChunker
        GridChunker.insert_weighted(os.path.join(wd, '01-split_index.nc'), wd, dp, data_variables=sel or 'auto')

    disturbed(ctx, fn, 'insert')
    after = C.read_nc(dp)
    got, gm = value_mask(after['vars'][nm])
    ctx.require(np.array_equal(gm, mask) and np.array_equal(got[~mask], new[~mask]), 'wrong-insert', lambda: '{} is {} (mask {}) but {} (mask {})'.format(
        nm, C._show(got), gm.astype(int).tolist(), C._show(new), mask.astype(int).tolist()))
    ctx.probes['inserted masked'] += bool(mask.any())
    for f in (before, after):
        f['vars'].pop(nm)
    df = C.diff_nc(before, after)
    ctx.require(df is None, 'insert-changes-more', lambda: str(df))
    ctx.probes['inserted'] += 1


SCENARIOS = [Scenario('chunks', chunks, sizes=SIZES)]
