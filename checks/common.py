"""Builders, snapshots and readers shared by the checks. Raw netCDF4/fiona/numpy only; ocgis enters through the ranks."""
import csv
import os

import numpy as np
from shapely.geometry import MultiPolygon, Point, Polygon, box, mapping

from sim import seams


def _raw_nc(path, mode='w', fmt='NETCDF4'):
    D = seams.state.get('RealDataset')
    return D(path, mode, format=fmt)


# -- cases ------------------------------------------------------------------------------------------------------------

def draw_grid(ch, max_n=9, min_n=1, allow_2d=True, allow_wrap=True):
    """A gridded source as plain data."""
    g = {}
    g['ny'] = ch.rng_int('ny', min_n, max_n)
    g['nx'] = ch.rng_int('nx', min_n, max_n)
    g['nt'] = ch.rng_int('nt', 1, 5)
    g['nlev'] = ch.pick('nlev', (0, 0, 1, 3))
    g['curvi'] = bool(allow_2d and ch.flag('curvi', 0.25))
    # The resolution of a single cell is only known from its bounds.
    g['bounds'] = not ch.flag('nobounds', 0.25) or g['ny'] * g['nx'] == 1
    g['ydesc'] = ch.flag('ydesc', 0.3)
    g['x0'] = ch.pick('x0', (-100.0, 100.0, -10.0) if allow_wrap else (-100.0,))
    g['y0'] = 20.0
    g['dx'] = ch.pick('dx', (2.0, 5.0))
    g['dy'] = ch.pick('dy', (2.0, 3.0))
    g['mask'] = ch.pick('maskp', (0.0, 0.0, 0.3))
    g['nvar'] = ch.pick('nvar', (1, 1, 2))
    g['dtype'] = ch.pick('dtype', ('f4', 'f8', 'f8'))
    g['tbounds'] = ch.flag('tbounds', 0.4)
    g['calendar'] = ch.pick('calendar', ('standard', 'noleap', '360_day'))
    g['tunits'] = ch.pick('tunits', ('days since 2000-01-01', 'hours since 1990-01-01'))
    g['rseed'] = ch.choose(1 << 20, 'rseed')
    g['fmt'] = ch.pick('fmt', ('NETCDF4', 'NETCDF4', 'NETCDF3_CLASSIC', 'NETCDF4_CLASSIC'))
    g['dist'] = 'auto'
    return g


def grid_arrays(g):
    """Everything the source file holds, as numpy arrays; the independent reference."""
    r = np.random.RandomState(g['rseed'] % (2 ** 31))
    ny, nx, nt, nl = g['ny'], g['nx'], g['nt'], g['nlev']
    y = g['y0'] + g['dy'] * np.arange(ny, dtype=float)
    x = g['x0'] + g['dx'] * np.arange(nx, dtype=float)
    yb = np.stack([y - g['dy'] / 2, y + g['dy'] / 2], axis=1)
    xb = np.stack([x - g['dx'] / 2, x + g['dx'] / 2], axis=1)
    if g['ydesc']:
        y = y[::-1].copy()
        yb = yb[::-1, ::-1].copy()
    out = {'y': y, 'x': x, 'yb': yb, 'xb': xb}
    if g['curvi']:
        Y, X = np.meshgrid(y, x, indexing='ij')
        out['Y'] = Y + 0.01 * np.arange(nx)[None, :]
        out['X'] = X + 0.01 * np.arange(ny)[:, None]
        c = np.zeros((ny, nx, 4))
        d = np.zeros((ny, nx, 4))
        s = 1 if not g['ydesc'] else -1
        for k, (a, b) in enumerate(((-1, -1), (-1, 1), (1, 1), (1, -1))):
            c[:, :, k] = out['Y'] + s * a * g['dy'] / 2.
            d[:, :, k] = out['X'] + b * g['dx'] / 2.
        out['Yc'] = c
        out['Xc'] = d
    step = 1.0 if g['tunits'].startswith('days') else 24.0
    out['t'] = (np.arange(nt) + 0.5) * step * 20.0
    out['tb'] = np.stack([np.arange(nt) * step * 20.0, (np.arange(nt) + 1) * step * 20.0], axis=1)
    if nl:
        out['lev'] = 10.0 * np.arange(nl) + 5.0
        out['levb'] = np.stack([10.0 * np.arange(nl), 10.0 * np.arange(nl) + 10.0], axis=1)
    shape = (nt,) + ((nl,) if nl else ()) + (ny, nx)
    out['shape'] = shape
    out['data'] = []
    for v in range(g['nvar']):
        a = np.arange(int(np.prod(shape)), dtype=float).reshape(shape) + 10000.0 * (v + 1)
        m = np.zeros(shape, dtype=bool)
        if g['mask']:
            cell = r.rand(ny, nx) < g['mask']
            m[...] = cell
        if g.get('maskt'):
            # A mask of its own for every step.
            m |= r.rand(*shape) < g['maskt']
        out['data'].append((a.astype(g['dtype']), m))
    return out


def write_grid_nc(path, g):
    a = grid_arrays(g)
    with seams.paused():
        ds = _raw_nc(path, 'w', fmt=g.get('fmt', 'NETCDF4'))
        ds.history = 'source file'
        ds.createDimension('time', None if g.get('tunlim', True) else g['nt'])
        if g['nlev']:
            ds.createDimension('lev', g['nlev'])
        ds.createDimension('lat', g['ny'])
        ds.createDimension('lon', g['nx'])
        ds.createDimension('bnds', 2)
        t = ds.createVariable('time', 'f8', ('time',))
        t.units = g['tunits']
        t.calendar = g['calendar']
        t.axis = 'T'
        t[:] = a['t']
        if g['tbounds']:
            t.bounds = 'time_bnds'
            tb = ds.createVariable('time_bnds', 'f8', ('time', 'bnds'))
            tb[:] = a['tb']
        if g['nlev']:
            l = ds.createVariable('lev', 'f8', ('lev',))
            l.units = 'm'
            l.axis = 'Z'
            l.bounds = 'lev_bnds'
            l[:] = a['lev']
            lb = ds.createVariable('lev_bnds', 'f8', ('lev', 'bnds'))
            lb[:] = a['levb']
        if g['curvi']:
            ds.createDimension('nv', 4)
            for nm, dat, cor, u, ax, sn in (('lat', a['Y'], a['Yc'], 'degrees_north', 'Y', 'latitude'),
                                            ('lon', a['X'], a['Xc'], 'degrees_east', 'X', 'longitude')):
                v = ds.createVariable(nm, 'f8', ('lat', 'lon'))
                v.units = u
                v.axis = ax
                v.standard_name = sn
                if g['bounds']:
                    v.bounds = nm + '_bnds'
                    b = ds.createVariable(nm + '_bnds', 'f8', ('lat', 'lon', 'nv'))
                    b[:] = cor
                v[:] = dat
        else:
            for nm, dat, cor, u, ax, sn in (('lat', a['y'], a['yb'], 'degrees_north', 'Y', 'latitude'),
                                            ('lon', a['x'], a['xb'], 'degrees_east', 'X', 'longitude')):
                v = ds.createVariable(nm, 'f8', (nm,))
                v.units = u
                v.axis = ax
                v.standard_name = sn
                if g['bounds']:
                    v.bounds = nm + '_bnds'
                    b = ds.createVariable(nm + '_bnds', 'f8', (nm, 'bnds'))
                    b[:] = cor
                v[:] = dat
        dims = ('time',) + (('lev',) if g['nlev'] else ()) + ('lat', 'lon')
        for i, (d, m) in enumerate(a['data']):
            v = ds.createVariable(VNAMES[i], g['dtype'], dims, fill_value=np.dtype(g['dtype']).type(1e20))
            v.units = 'K'
            v.long_name = 'variable {}'.format(i)
            v[:] = np.ma.array(d, mask=m)
        ds.close()
    return a


VNAMES = ('tas', 'pr')


def draw_geoms(ch, g, n, kinds=('box', 'poly', 'point')):
    """Selection geometries within the extent of the grid; vertices are generic (never on cell edges or centres)."""
    out = []
    w = g['dx'] * g['nx']
    h = g['dy'] * g['ny']
    x0 = g['x0'] - g['dx'] / 2.
    y0 = g['y0'] - g['dy'] / 2.
    ugids = [1, 2, 5, 7, 11, 20]
    r = np.random.RandomState(ch.choose(1 << 20, 'gseed'))
    for i in range(n):
        kind = ch.pick('gkind', kinds)
        if kind == 'point':
            p = Point(x0 + w * (0.02 + 0.96 * r.rand()) + 0.00137, y0 + h * (0.02 + 0.96 * r.rand()) + 0.00119)
            out.append((ugids[i], p))
            continue
        if kind == 'multi':
            # Parts far from each other: ranks between them have nothing but masked cells.
            k = 2 + r.randint(2)
            parts = []
            for j in range(k):
                a, b = sorted((0.05 + 0.9 * r.rand(2)) / k)
                c, d = sorted(0.03 + 0.9 * r.rand(2))
                if r.rand() < 0.5:
                    a, b = j / float(k) + 0.011 / k, j / float(k) + 0.1 / k
                else:
                    a, b = j / float(k) + a, j / float(k) + max(b, a + 0.01 / k)
                parts.append((a, c, b, max(d, c + 0.02)))
            if ch.flag('gflip', 0.4):
                parts = [(c, a, d, b) for a, c, b, d in parts]
            out.append((ugids[i], MultiPolygon([box(x0 + w * a + .0013, y0 + h * c + .0017, x0 + w * b + .0013, y0 + h * d + .0017)
                                                for a, c, b, d in parts])))
            continue
        cx, cy = x0 + w * r.rand(), y0 + h * r.rand()
        rx, ry = (0.07 + 0.6 * r.rand()) * w, (0.07 + 0.6 * r.rand()) * h
        if kind == 'box':
            p = box(max(cx - rx, x0 + .0131), max(cy - ry, y0 + .0171), min(cx + rx, x0 + w - .0113), min(cy + ry, y0 + h - .0191))
        else:
            k = 3 + r.randint(4)
            th = np.sort(r.rand(k)) * 2 * np.pi
            pts = [(cx + rx * np.cos(a) + 0.0007, cy + ry * np.sin(a) + 0.0003) for a in th]
            p = Polygon(pts)
            if not p.is_valid or p.area < 1e-3:
                p = box(cx - rx, cy - ry, cx + rx, cy + ry)
        if p.area <= 0 or not p.is_valid:
            p = box(x0 + 0.0123, y0 + 0.0171, x0 + w * 0.7, y0 + h * 0.7)
        out.append((ugids[i], p))
    return out


def geoms_for_ops(geoms):
    return [{'geom': p, 'properties': {'UGID': u, 'NAME': 'g{}'.format(u)}} for u, p in geoms]


def cells(g):
    """(ny, nx) object array of reference cell polygons (or points without bounds)."""
    a = grid_arrays(g)
    out = np.empty((g['ny'], g['nx']), dtype=object)
    for j in range(g['ny']):
        for i in range(g['nx']):
            if g['curvi']:
                if g['bounds']:
                    out[j, i] = Polygon([(a['Xc'][j, i, k], a['Yc'][j, i, k]) for k in range(4)])
                else:
                    out[j, i] = Point(a['X'][j, i], a['Y'][j, i])
            elif g['bounds']:
                out[j, i] = box(a['xb'][i, 0], min(a['yb'][j]), a['xb'][i, 1], max(a['yb'][j]))
            else:
                out[j, i] = Point(a['x'][i], a['y'][j])
    return out


def intersects_mask(g, poly):
    """(ny, nx): True where the reference cell intersects the polygon."""
    cc = cells(g)
    out = np.zeros(cc.shape, dtype=bool)
    for j in range(cc.shape[0]):
        for i in range(cc.shape[1]):
            out[j, i] = cc[j, i].intersects(poly)
    return out


# -- vector files -------------------------------------------------------------------------------------------------------

def write_shp(path, polys, props=None, crs='+proj=longlat +R=6370997'):
    import fiona
    if props is None:
        props = [dict(UGID=i + 1, VAL=float(i) * 1.5, NAME='n{:03d}'.format(i)) for i in range(len(polys))]
    # Polygon files have polygons of several parts, too.
    kinds = sorted(set(g.geom_type for g in polys))
    schema = {'geometry': kinds[-1] if len(kinds) > 1 else kinds[0], 'properties': {}}
    for k in props[0]:
        v = next((q[k] for q in props if q[k] is not None), 0)
        schema['properties'][k] = {int: 'int:10', float: 'float:24.15', str: 'str:20'}[type(v)]
    with seams.paused():
        with fiona.open(path, 'w', driver='ESRI Shapefile', schema=schema,
                        crs={'proj': 'longlat', 'datum': 'WGS84', 'no_defs': True}) as f:
            for p, q in zip(polys, props):
                f.write({'geometry': mapping(p), 'properties': q})
    return props


# -- snapshots ----------------------------------------------------------------------------------------------------------

def plain_attrs(attrs):
    out = {}
    for k, v in attrs.items():
        if isinstance(v, np.ndarray):
            v = tuple(v.tolist())
        elif isinstance(v, np.generic):
            v = v.item()
        out[str(k)] = v
    return out


def snap_var(v, world=None):
    """A variable on this rank as plain data."""
    d = {'name': v.name, 'empty': bool(v.is_empty)}
    d['dims'] = tuple(dm.name for dm in v.dimensions)
    # Bounds are only maintained for distributed dimensions.
    d['local'] = tuple(tuple(int(b) for b in dm.bounds_local) if dm.dist else (0, len(dm)) for dm in v.dimensions)
    d['global'] = tuple(tuple(int(b) for b in dm.bounds_global) if dm.dist else (0, len(dm)) for dm in v.dimensions)
    d['len'] = tuple(len(dm) for dm in v.dimensions)
    d['dist'] = tuple(bool(dm.dist) for dm in v.dimensions)
    d['unlim'] = tuple(bool(dm.is_unlimited) for dm in v.dimensions)
    d['attrs'] = plain_attrs(v.attrs)
    if d['empty']:
        d['value'] = d['mask'] = None
        return d
    val = v.get_value()
    d['value'] = None if val is None else np.array(val, copy=True)
    m = v.get_mask()
    d['mask'] = None if m is None else np.array(m, copy=True)
    return d


def snap_field(f, skip_crs=True):
    out = {'name': f.name, 'empty': bool(f.is_empty), 'vars': {}}
    for nm, v in list(f.items()):
        if not hasattr(v, 'get_value') or not hasattr(v, 'dimensions'):
            continue
        if v.__class__.__module__.endswith('variable.crs'):
            continue
        out['vars'][nm] = snap_var(v)
    out['data'] = tuple(v.name for v in f.data_variables)
    out['attrs'] = plain_attrs(f.attrs)
    out['bounds'] = {}
    for nm, v in list(f.items()):
        b = getattr(v, '_bounds_name', None)
        if b is not None:
            out['bounds'][nm] = b
    c = f.crs
    out['crs'] = None if c is None else repr(sorted(getattr(c, 'proj4', '').split()))
    return out


def snap_coll(coll):
    """{ugid: {field name: snapshot}} of a spatial collection on this rank."""
    out = {}
    for ugid, cont in coll.children.items():
        d = out.setdefault(None if ugid is None else int(ugid), {})
        for f in cont.children.values():
            d[f.name] = snap_field(f)
    return out


class Mismatch(Exception):
    pass


def eq_arrays(a, b, tol=0.0):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object or a.dtype.kind in 'SU':
        for x, y in zip(a.flat, b.flat):
            if hasattr(x, 'geom_type') or hasattr(y, 'geom_type'):
                if (x is None) != (y is None):
                    return False
                if x is None:
                    continue
                if x.geom_type == y.geom_type and x.equals_exact(y, 1e-9):
                    continue
                if not (x.is_valid and y.is_valid):
                    return False
                if tol == 0 or x.geom_type.endswith('Point'):
                    if not x.equals(y):
                        return False
                elif x.symmetric_difference(y).area > max(tol, 1e-9) * max(x.area, 1e-9):
                    return False
            elif isinstance(x, np.ndarray):
                if not np.array_equal(x, y):
                    return False
            elif x != y:
                return False
        return True
    if tol:
        return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))
    if a.dtype.kind == 'f':
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


def assemble(pieces, what=''):
    """Global value and mask of a variable from the rank pieces; raises Mismatch on overlap, gap or disagreement."""
    live = [(r, p) for r, p in pieces if p is not None and not p['empty']]
    if not live:
        return None
    r0, p0 = live[0]
    for r, p in live:
        if p['dims'] != p0['dims']:
            raise Mismatch('{}: dimension names differ between ranks {} and {}: {} / {}'.format(what, r0, r, p0['dims'], p['dims']))
        if p['global'] != p0['global']:
            raise Mismatch('{}: global bounds differ between ranks {} and {}: {} / {}'.format(what, r0, r, p0['global'], p['global']))
        if p['value'] is not None and tuple(p['value'].shape) != tuple(b - a for a, b in p['local']):
            raise Mismatch('{}: rank {} holds shape {} but local bounds {}'.format(what, r, p['value'].shape, p['local']))
    shape = tuple(b - a for a, b in p0['global'])
    lo = tuple(a for a, b in p0['global'])
    if p0['value'] is None:
        return {'shape': shape, 'value': None, 'mask': None, 'dims': p0['dims'], 'attrs': p0['attrs']}
    dt = p0['value'].dtype
    if dt.kind in 'US':
        dt = object
    val = np.zeros(shape, dtype=dt)
    mask = np.zeros(shape, dtype=bool)
    cnt = np.zeros(shape, dtype=int)
    dist = any(p0['dist'])
    anymask = False
    for r, p in live:
        sl = tuple(slice(a - l, b - l) for (a, b), l in zip(p['local'], lo))
        if val[sl].shape != p['value'].shape:
            raise Mismatch('{}: rank {} local bounds {} outside global bounds {}'.format(what, r, p['local'], p['global']))
        if p['mask'] is not None:
            anymask = True
        pm = np.zeros(p['value'].shape, dtype=bool) if p['mask'] is None else p['mask']
        seen = cnt[sl] > 0
        if seen.any():
            if dist:
                raise Mismatch('{}: rank {} local bounds {} overlap another rank'.format(what, r, p['local']))
            same = eq_arrays(np.asarray(val[sl])[~pm & ~mask[sl]], np.asarray(p['value'])[~pm & ~mask[sl]]) and \
                bool(np.array_equal(mask[sl], pm))
            if not same:
                raise Mismatch('{}: replicated variable differs on rank {}'.format(what, r))
        val[sl] = p['value']
        mask[sl] = pm
        cnt[sl] += 1
    if (cnt == 0).any():
        raise Mismatch('{}: {} of {} elements are held by no rank (global bounds {}, local {})'.format(
            what, int((cnt == 0).sum()), cnt.size, p0['global'], [p['local'] for _, p in live]))
    return {'shape': shape, 'value': val, 'mask': mask, 'anymask': anymask, 'dims': p0['dims'], 'attrs': p0['attrs']}


def compare_var(name, ref, got, tol=0.0, mask_values=False):
    """None or a description of how the assembled variable differs from the serial one."""
    if (ref is None) != (got is None):
        return '{}: {} in serial but {} in parallel'.format(name, 'absent' if ref is None else 'present',
                                                         'absent' if got is None else 'present')
    if ref is None:
        return None
    if ref['dims'] != got['dims']:
        return '{}: dimensions {} in serial, {} in parallel'.format(name, ref['dims'], got['dims'])
    if tuple(ref['shape']) != tuple(got['shape']):
        return '{}: shape {} in serial, {} in parallel'.format(name, ref['shape'], got['shape'])
    if (ref['value'] is None) != (got['value'] is None):
        return '{}: value allocated only in {}'.format(name, 'serial' if got['value'] is None else 'parallel')
    if ref['value'] is None:
        return None
    if not np.array_equal(ref['mask'], got['mask']):
        return '{}: masks differ: serial {} parallel {}'.format(name, ref['mask'].astype(int).tolist(), got['mask'].astype(int).tolist())
    keep = ~ref['mask']
    if not eq_arrays(np.asarray(ref['value'])[keep], np.asarray(got['value'])[keep], tol):
        return '{}: values differ: serial {} parallel {}'.format(name, _show(ref['value']), _show(got['value']))
    return None


def _show(a):
    a = np.asarray(a)
    if a.dtype == object:
        return [getattr(x, 'wkt', x) for x in a.flat][:12]
    return a.tolist() if a.size <= 40 else str(a.ravel()[:40].tolist()) + '...'


def norm_serial(p):
    """A serial snapshot in the form ``assemble`` returns."""
    if p is None or p['empty']:
        return None
    if p['value'] is None:
        return {'shape': p['len'], 'value': None, 'mask': None, 'dims': p['dims'], 'attrs': p['attrs']}
    m = np.zeros(p['value'].shape, dtype=bool) if p['mask'] is None else p['mask']
    return {'shape': p['value'].shape, 'value': p['value'], 'mask': m, 'anymask': p['mask'] is not None, 'dims': p['dims'],
            'attrs': p['attrs']}


# -- raw readers --------------------------------------------------------------------------------------------------------

def read_nc(path):
    """Every dimension, variable, attribute of a netCDF file (groups recursively) as plain data."""
    with seams.paused():
        ds = _raw_nc(path, 'r')
        try:
            return _read_group(ds)
        finally:
            ds.close()


def _read_group(ds):
    out = {'dims': {}, 'vars': {}, 'attrs': {}, 'groups': {}}
    for n, d in ds.dimensions.items():
        out['dims'][n] = (len(d), bool(d.isunlimited()))
    for k in ds.ncattrs():
        out['attrs'][k] = _attr(ds.getncattr(k))
    for n, v in ds.variables.items():
        v.set_auto_mask(False)
        try:
            v.set_auto_scale(False)
        except Exception:
            pass
        raw = v[...] if v.ndim else np.array(v[...])
        at = {k: _attr(v.getncattr(k)) for k in v.ncattrs()}
        out['vars'][n] = {'dims': tuple(v.dimensions), 'dtype': str(v.dtype), 'raw': np.array(raw), 'attrs': at}
    for n, gr in ds.groups.items():
        out['groups'][n] = _read_group(gr)
    return out


def _attr(v):
    if isinstance(v, np.ndarray):
        return tuple(v.tolist())
    if isinstance(v, np.generic):
        return v.item()
    return v


def diff_nc(ref, got, ignore_attrs=('history', 'creation_date'), tol=0.0, where='/', order=True):
    if ref['dims'] != got['dims']:
        return '{} dimensions: {} / {}'.format(where, ref['dims'], got['dims'])
    ra = {k: v for k, v in ref['attrs'].items() if k not in ignore_attrs}
    ga = {k: v for k, v in got['attrs'].items() if k not in ignore_attrs}
    if ra != ga:
        return '{} attributes: {} / {}'.format(where, ra, ga)
    if set(ref['vars']) != set(got['vars']):
        return '{} variables: {} / {}'.format(where, sorted(ref['vars']), sorted(got['vars']))
    for n, rv in ref['vars'].items():
        gv = got['vars'][n]
        for k in ('dims', 'dtype'):
            if rv[k] != gv[k]:
                return '{}{} {}: {} / {}'.format(where, n, k, rv[k], gv[k])
        if not attrs_equal(rv['attrs'], gv['attrs']):
            return '{}{} attributes: {} / {}'.format(where, n, rv['attrs'], gv['attrs'])
        if not eq_arrays(rv['raw'], gv['raw'], tol):
            return '{}{} values: {} / {}'.format(where, n, _show(rv['raw']), _show(gv['raw']))
    if set(ref['groups']) != set(got['groups']):
        return '{} groups: {} / {}'.format(where, sorted(ref['groups']), sorted(got['groups']))
    for n in ref['groups']:
        d = diff_nc(ref['groups'][n], got['groups'][n], ignore_attrs, tol, where + n + '/')
        if d:
            return d
    return None


def attrs_equal(a, b):
    if set(a) != set(b):
        return False
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, float) and isinstance(y, float) and x != x and y != y:
            continue
        if x != y:
            return False
    return True


def read_csv(path):
    with seams.paused():
        with open(path, newline='') as f:
            rows = list(csv.reader(f))
    return rows


def read_shp(path):
    import fiona
    from shapely.geometry import shape
    with seams.paused():
        with fiona.open(path) as src:
            recs = [(shape(r['geometry']) if r['geometry'] is not None else None, dict(r['properties'])) for r in src]
            meta = (src.schema['geometry'], dict(src.schema['properties']))
    return meta, recs


def diff_records(ref, got, ordered=True, tol=1e-9):
    if len(ref) != len(got):
        return '{} records in serial, {} in parallel'.format(len(ref), len(got))

    def key(r):
        return (sorted((k, str(v)) for k, v in r[1].items()), r[0].wkb if r[0] is not None else b'')

    if not ordered:
        ref = sorted(ref, key=key)
        got = sorted(got, key=key)
    for i, (a, b) in enumerate(zip(ref, got)):
        if a[1] != b[1]:
            return 'record {}: {} / {}'.format(i, a[1], b[1])
        if (a[0] is None) != (b[0] is None):
            return 'record {}: geometry missing'.format(i)
        if a[0] is not None and not (a[0].equals(b[0]) or a[0].equals_exact(b[0], tol) or
                                    a[0].symmetric_difference(b[0]).area < tol):
            return 'record {}: geometry {} / {}'.format(i, a[0].wkt[:200], b[0].wkt[:200])
    return None


def tree(root, skip=()):
    """{relative path: bytes or None for directories} below root."""
    out = {}
    with seams.paused():
        for d, dn, fn in os.walk(root):
            for x in dn:
                out[os.path.relpath(os.path.join(d, x), root)] = None
            for x in fn:
                p = os.path.join(d, x)
                with open(p, 'rb') as f:
                    out[os.path.relpath(p, root)] = f.read()
    return out
