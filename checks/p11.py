"""P11: polygons converted to unstructured form on ranks, written and read again are the polygons they were made of."""
import os

import numpy as np
from shapely.geometry import MultiPolygon, Point, Polygon, box
from shapely.ops import unary_union

from checks import common as C
from sim import seams
from sim.harness import Scenario, Skip

PROPERTY = 'P11'
RULE = 'One evaluation converts drawn polygons (shared nodes, several parts, holes, many nodes) or points held by a drawn number of ' \
       'ranks to unstructured form under a seeded schedule, writes a UGRID or ESMF file, and decodes the objects of all ranks and the ' \
       'file independently; or it reads a drawn mesh on ranks, selects elements, reduces the nodes and writes them.'
REAL = ['ocgis (all modules)', 'numpy', 'netCDF4/HDF5', 'shapely/GEOS', 'fiona/GDAL']
STUB = ['MPI (simulated ranks)', 'clock']
QUICK = {'runs': 1600, 'time': 420}
THOROUGH = {'runs': 40000, 'time': 3000}
SIZES = (1, 2, 2, 3, 4, 5)


# -- polygons --------------------------------------------------------------------------------------------------------------

def draw_polygons(ch, n, multi, holes, many):
    """Polygons on a lattice, some with common nodes."""
    r = np.random.RandomState(ch.choose(1 << 20, 'pseed'))
    k = int(np.ceil(np.sqrt(n))) + 1
    out = []

    def cell(i, j, kind):
        x, y = -100.0 + 3.0 * i, 20.0 + 2.5 * j
        a, b, c, d = (x, y), (x + 3.0, y), (x + 3.0, y + 2.5), (x, y + 2.5)
        if kind == 'tri':
            p = [a, b, c] if r.rand() < 0.5 else [a, c, d]
        elif kind == 'penta':
            p = [a, b, (x + 3.0, y + 1.5), (x + 1.5, y + 2.5), d]
        elif kind == 'hole':
            return Polygon([a, b, c, d], [[(x + 1, y + .5), (x + 2, y + .5), (x + 2, y + 1.5), (x + 1, y + 1.5)]])
        elif kind == 'many':
            t = np.linspace(0, 2 * np.pi, 14)[:-1]
            return Polygon(np.column_stack((x + 1.5 + 1.4 * np.cos(t), y + 1.2 + 1.1 * np.sin(t))))
        else:
            p = [a, b, c, d]
        s = r.randint(len(p))
        p = p[s:] + p[:s]
        if r.rand() < 0.4:
            p = p[::-1]
        return Polygon(p)

    kinds = ['quad', 'tri', 'penta'] + (['hole'] if holes else []) + (['many'] if many else [])
    for m in range(n):
        i, j = m % k, m // k
        kind = kinds[r.randint(len(kinds))]
        p = cell(i, j, kind)
        if multi and r.rand() < 0.4 and kind not in ('hole',):
            p = MultiPolygon([p] + [cell(i + 40 + 2 * q, j + 40, 'quad' if r.rand() < .5 else 'tri') for q in range(1 + r.randint(2))])
        out.append(p)
    return out


def same_shape(a, b, split):
    """The same parts in the same order; for split geometries the same area."""
    if b is None or a is None:
        return a is b
    if split:
        # Buffers, because GEOS fails for edges which nearly coincide.
        total = sum(p.area for p in parts(b))
        b = unary_union([p.buffer(1e-7) for p in parts(b)])
        return abs(total - a.area) < 1e-9 and b.contains(a) and a.buffer(2e-7).contains(b)
    if isinstance(a, Point):
        return a.equals(b)
    pa, pb = parts(a), parts(b)
    return len(pa) == len(pb) and all(x.normalize().equals_exact(y.normalize(), 1e-9) for x, y in zip(pa, pb))


def parts(g):
    return list(g.geoms) if hasattr(g, 'geoms') else [g]


def same_all(ctx, what, got, want, split):
    ctx.require(len(got) == len(want), 'element-count', lambda: '{}: {} elements but {}'.format(what, len(got), len(want)))
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.require(same_shape(w, g, split), 'other-polygon', lambda: '{}: element {} is {} but {}'.format(what, i, wkt(g), wkt(w)))


def wkt(g):
    return None if g is None else g.wkt[:300]


# -- files -----------------------------------------------------------------------------------------------------------------

def polygons_of(index, x, y, start, brk):
    out = []
    for idx in index:
        idx = np.asarray(idx).astype(int)
        ps = [[]]
        for v in idx.tolist():
            if brk is not None and v == brk:
                ps.append([])
            else:
                k = v - start
                if not 0 <= k < len(x):
                    raise IndexError('node {} of {} (start {})'.format(v, len(x), start))
                ps[-1].append((x[k], y[k]))
        ps = [Polygon(p) for p in ps]
        out.append(ps[0] if brk is None else MultiPolygon(ps))
    return out


def decode(path, driver):
    """Polygons, values and the number of nodes in a file."""
    f = C.read_nc(path)
    v = f['vars']
    if driver == 'netcdf-esmf-unstruct':
        e = v['elementConn']
        n = np.asarray(v['numElementConn']['raw']).astype(int)
        xy = np.asarray(v['nodeCoords']['raw'])
        start, brk = e['attrs'].get('start_index', 1), e['attrs'].get('polygon_break_value')
        conn = np.asarray(e['raw'])
        if conn.ndim == 2:
            index = [row[:k] for row, k in zip(conn, n)]
        else:
            if n.sum() != len(conn):
                raise IndexError('{} connections but {}'.format(len(conn), n.sum()))
            index = np.split(conn, np.cumsum(n)[:-1])
        return polygons_of(index, xy[:, 0], xy[:, 1], start, brk), v, len(xy), xy
    host = [a for a in v.values() if a['attrs'].get('cf_role') == 'mesh_topology']
    if len(host) != 1:
        raise IndexError('{} mesh topologies'.format(len(host)))
    host = host[0]['attrs']
    xn, yn = host['node_coordinates'].split(' ')[:2]
    e = v[host['face_node_connectivity']]
    x, y = np.asarray(v[xn]['raw']), np.asarray(v[yn]['raw'])
    brk = e['attrs'].get('multi_break_value')
    return polygons_of(list(e['raw']), x, y, e['attrs'].get('start_index', 0), brk), v, len(x), np.column_stack((x, y))


def unique_nodes(geoms):
    s = set()
    for g in geoms:
        for p in parts(g):
            s.update((round(a, 9), round(b, 9)) for a, b in list(p.exterior.coords)[:-1])
    return s


# -- conversion ------------------------------------------------------------------------------------------------------------

def distributed_field(geoms, pop, mask, crs):
    """A field with the geometries of this rank."""
    import ocgis
    from ocgis.vmachine.mpi import OcgDist
    dist = OcgDist()
    dist.create_dimension('n_geom', len(geoms), dist=True)
    dist.update_dimension_bounds()
    dim = dist.get_dimension('n_geom')
    if dim.is_empty:
        return ocgis.Field(is_empty=True)
    lo, hi = dim.bounds_local
    value = np.empty(hi - lo, dtype=object)
    for i in range(lo, hi):
        value[i - lo] = geoms[i]
    kw = {} if mask is None else {'mask': mask[lo:hi]}
    geom = ocgis.GeometryVariable(name='geom', value=value, dimensions=dim, crs=crs, **kw)
    var = ocgis.Variable('pop', value=pop[lo:hi], dimensions=dim)
    field = ocgis.Field(geom=geom, variables=[var], is_data='pop', crs=crs)
    return field


def convert(ctx):
    ch = ctx.ch
    n = ctx.draw_size(SIZES)
    npoly = ch.rng_int('npoly', 1, 3 if n == 1 else 6) + 2 * n
    kind = ch.pick('kind', ('polygon', 'polygon', 'polygon', 'point'))
    multi, holes, many = ch.flag('multi', 0.4), ch.flag('holes', 0.25), ch.flag('many', 0.3)
    kw = {'pack': ch.flag('pack', 0.6)}
    if ch.flag('start1', 0.35):
        kw['start_index'] = 1
    if kind == 'polygon':
        geoms = draw_polygons(ch, npoly, multi, holes, many)
        if holes:
            kw['split_interiors'] = True
        if many and ch.flag('threshold', 0.6):
            kw['node_threshold'] = 10
        if ch.flag('repeat', 0.15):
            kw['repeat_last_node'] = True
    else:
        r = np.random.RandomState(ch.choose(1 << 16, 'ptseed'))
        geoms = [Point(-100 + 20 * a, 30 + 10 * b) for a, b in r.rand(npoly, 2)]
    split = 'split_interiors' in kw or 'node_threshold' in kw
    driver = ch.pick('driver', ('netcdf-ugrid', 'netcdf-esmf-unstruct')) if kind == 'polygon' else 'netcdf-ugrid'
    pop = np.arange(len(geoms)) * 1.5 + 0.25
    src = ch.pick('src', ('memory', 'memory', 'shp'))
    crsname = ch.pick('crs', ('Spherical', 'WGS84'))
    if src == 'shp':
        C.write_shp(ctx.path('in.shp'), geoms)
        kw['use_geometry_iterator'] = ch.flag('iterator', 0.4)
    ctx.param('geometries', [g.wkt[:80] for g in geoms][:6])
    ctx.param('options', (kw, driver, src, crsname, len(geoms)))
    out = ctx.path('out.nc')
    write = ch.flag('write', 0.8) and kind == 'polygon'

    def prog(rc):
        import ocgis
        from ocgis import vm
        crs = getattr(ocgis.crs, crsname)()
        if src == 'shp':
            field = ocgis.RequestDataset(ctx.path('in.shp')).get()
        else:
            field = distributed_field(geoms, pop, None, crs)
        ret = None
        with vm.scoped_by_emptyable('convert', field):
            if not vm.is_null:
                if not kw.get('use_geometry_iterator'):
                    field.geom.load()
                gc = field.geom.convert_to(**kw)
                before = [g for g in gc.iter_geometries(with_index=False)]
                again = gc.convert_to().get_value().tolist()
                extra = gc.start_index, gc.packed
                nodes = np.column_stack((gc.x.get_value(), gc.y.get_value()))
                data = np.asarray(gc.parent['pop' if src == 'memory' else 'UGID'].get_value())
                if write:
                    gc.parent.write(out, driver=driver)
                after = [g for g in gc.iter_geometries(with_index=False)]
                ret = before, after, again, nodes, data, extra
        return ret

    same = ctx.serial(prog)
    want_data = pop if src == 'memory' else np.arange(len(geoms)) + 1
    same_all(ctx, 'converted on one rank', same[0], geoms, split)
    if write:
        check_file(ctx, 'written on one rank', out, driver, geoms, split, want_data, src, kw)
        os.remove(out)
    r = ctx.parallel(n, prog, what='conversion')
    live = [x for x in r.results if x is not None]
    for j, what in enumerate(('converted', 'after writing', 'converted back')):
        same_all(ctx, '{} on {} ranks'.format(what, n), [g for x in live for g in x[j]], geoms, split)
    got = np.concatenate([x[4] for x in live])
    ctx.require(C.eq_arrays(got, want_data), 'other-data', lambda: '{} but {}'.format(got, want_data))
    if kind == 'polygon' and kw['pack'] and not split:
        lo = 0
        for x in live:
            hi = lo + len(x[0])
            u = unique_nodes(geoms[lo:hi])
            ctx.require(len(x[3]) == len(u), 'not-packed', lambda: '{} nodes for {} places'.format(len(x[3]), len(u)))
            lo = hi
    if write:
        check_file(ctx, 'written on {} ranks'.format(n), out, driver, geoms, split, want_data, src, kw)
        read_back(ctx, out, driver, geoms, split, want_data, src)
        ctx.probes['written ' + driver] += 1
    ctx.probes['{} {}{}'.format(kind, src, ' split' if split else '')] += 1


def check_file(ctx, what, path, driver, geoms, split, data, src, kw):
    try:
        got, v, nn, xy = decode(path, driver)
    except (IndexError, KeyError, ValueError) as e:
        ctx.violate('bad-mesh', '{}: {} {}'.format(what, type(e).__name__, e))
    same_all(ctx, what, got, geoms, split)
    nm = 'pop' if src == 'memory' else 'UGID'
    ctx.require(nm in v and C.eq_arrays(np.asarray(v[nm]['raw']), data), 'other-data', lambda: '{}: {}'.format(what, v.get(nm)))


def read_back(ctx, path, driver, geoms, split, data, src):
    m = ctx.ch.pick('mranks', (1, 2, 3))

    def prog(rc):
        import ocgis
        from ocgis import vm
        field = ocgis.RequestDataset(path, driver=driver).get()
        ret = None
        with vm.scoped_by_emptyable('read', field):
            if not vm.is_null:
                grid = field.grid
                ret = [g for g in grid.iter_geometries(with_index=False)], np.asarray(field['pop' if src == 'memory' else 'UGID'].get_value())
                two = [g for g in grid.iter_geometries(with_index=False)]
                ret += (two,)
        return ret

    # A file with one vector for the nodes of all elements is not read correctly on several ranks (see known_findings.json).
    esmf = driver == 'netcdf-esmf-unstruct' and m > 1
    r = ctx.parallel(m, prog, what='reading ESMF' if esmf else 'reading')
    live = [x for x in r.results if x is not None]
    for j in (0, 2):
        same_all(ctx, 'read {}on {} ranks'.format('from ESMF ' if esmf else '', m), [g for x in live for g in x[j]], geoms, split)
    got = np.concatenate([x[1] for x in live])
    ctx.require(C.eq_arrays(got, data), 'other-data', lambda: 'read on {} ranks: {} but {}'.format(m, got, data))
    ctx.probes['read back'] += 1



# -- selections of a mesh --------------------------------------------------------------------------------------------------

def write_mesh(path, index, xy, start, data):
    import netCDF4
    with seams.paused():
        ds = netCDF4.Dataset(path, 'w')
        ds.createDimension('nodes', len(xy))
        ds.createDimension('faces', len(index))
        ds.createDimension('corners', index.shape[1])
        m = ds.createVariable('mesh', 'i4')
        m.setncatts({'cf_role': 'mesh_topology', 'topology_dimension': np.int32(2), 'node_coordinates': 'node_x node_y',
                     'face_node_connectivity': 'face_nodes'})
        c = ds.createVariable('face_nodes', 'i4', ('faces', 'corners'))
        c.setncatts({'cf_role': 'face_node_connectivity', 'start_index': np.int32(start)})
        c[:] = index + start
        for i, nm in enumerate(('node_x', 'node_y')):
            v = ds.createVariable(nm, 'f8', ('nodes',))
            v.standard_name = ('longitude', 'latitude')[i]
            v.units = ('degrees_east', 'degrees_north')[i]
            v[:] = xy[:, i]
        v = ds.createVariable('flux', 'f8', ('faces',))
        v.setncatts({'mesh': 'mesh', 'location': 'face'})
        v[:] = data
        ds.close()


def select(ctx):
    """Elements of a mesh selected on ranks, with their nodes only, written and decoded."""
    ch = ctx.ch
    n = ctx.draw_size(SIZES)
    nx = ch.rng_int('nx', 2, 5)
    ny = ch.rng_int('ny', 1, 4) + n
    start = ch.pick('start', (0, 1))
    tri = ch.flag('triangles', 0.4)
    r = np.random.RandomState(ch.choose(1 << 16, 'meshseed'))
    xs, ys = -100 + 3.0 * np.arange(nx + 1), 20 + 2.0 * np.arange(ny + 1)
    xy = np.array([(x, y) for y in ys for x in xs])
    perm = np.arange(len(xy)) if ch.flag('ordered', 0.3) else r.permutation(len(xy))
    place = np.empty(len(xy), dtype=int)
    place[perm] = np.arange(len(xy))
    xy = xy[perm]
    index = []
    for j in range(ny):
        for i in range(nx):
            a = j * (nx + 1) + i
            q = [a, a + 1, a + nx + 2, a + nx + 1]
            index += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]] if tri else [q]
    index = place[np.array(index)]
    if ch.flag('shuffled', 0.4):
        index = index[r.permutation(len(index))]
    data = np.arange(len(index)) * 2.5 + 1
    src, out = ctx.path('mesh.nc'), ctx.path('out.nc')
    write_mesh(src, index, xy, start, data)
    faces = [Polygon(xy[i]) for i in index]
    how = ch.pick('how', ('box', 'box', 'slice', 'operations'))
    if how == 'slice':
        a = ch.rng_int('lo', 0, len(index) - 2)
        b = ch.rng_int('hi', a + 1, len(index))
        want = list(range(a, b))
        sel = slice(a, b)
    else:
        x0 = xs[0] - 1 + r.rand() * 3 * nx
        y0 = ys[0] - 1 + r.rand() * 2 * ny
        sel = box(x0, y0, x0 + 0.7 + r.rand() * 2 * nx, y0 + 0.7 + r.rand() * 2 * ny)
        want = [i for i, f in enumerate(faces) if f.intersects(sel)]
    if not want:
        raise Skip('nothing selected')
    driver = 'netcdf-ugrid'
    ctx.param('selection', (how, str(sel)[:120], want[:20], driver, len(index), start, tri))

    def prog(rc):
        import ocgis
        from ocgis import vm
        from ocgis.variable.crs import Spherical
        field = ocgis.RequestDataset(src, driver='netcdf-ugrid', crs=Spherical()).get()
        cindex = np.array(field.grid.cindex.get_value()) if not field.is_empty else None
        if how == 'operations':
            from ocgis.spatial.spatial_subset import SpatialSubsetOperation
            sub = SpatialSubsetOperation(field).get_spatial_subset(
                'intersects', ocgis.GeometryVariable.from_shapely(sel, crs=Spherical(), is_bbox=True), optimized_bbox_subset=False)
        else:
            with vm.scoped_by_emptyable('field', field):
                if vm.is_null:
                    sub = None
                elif how == 'slice':
                    sub = field.grid.get_distributed_slice(sel).parent
                else:
                    sub = field.grid.get_intersects(sel).parent
        if sub is None:
            sub = ocgis.Field(is_empty=True)
        same = cindex is None or np.array_equal(cindex, field.grid.cindex.get_value())
        ret = None
        with vm.scoped_by_emptyable('sub', sub):
            if not vm.is_null:
                v = np.asarray(sub['flux'].get_value())
                g = [x for x in sub.grid.iter_geometries(with_index=False)]
                reduced = sub.grid.reduce_global().parent
                reduced.write(out, driver=driver)
                ret = g, v, [x for x in sub.grid.iter_geometries(with_index=False)]
        return ret, same

    for what, run in (('on one rank', lambda: [ctx.serial(prog)]), ('on {} ranks'.format(n), lambda: ctx.parallel(n, prog, what='selection').results)):
        res = run()
        ctx.require(all(x[1] for x in res), 'changed-source', what)
        live = [x[0] for x in res if x[0] is not None]
        for j in (0, 2):
            same_all(ctx, 'selected ' + what, [g for x in live for g in x[j]], [faces[i] for i in want], False)
        got = np.concatenate([x[1] for x in live])
        ctx.require(C.eq_arrays(got, data[want]), 'other-data', lambda: '{}: {} but {}'.format(what, got, data[want]))
        try:
            polys, v, nn, nodes = decode(out, driver)
        except (IndexError, KeyError, ValueError) as e:
            ctx.violate('bad-mesh', 'selection {}: {} {}'.format(what, type(e).__name__, e))
        same_all(ctx, 'written ' + what, polys, [faces[i] for i in want], False)
        ctx.require(C.eq_arrays(np.asarray(v['flux']['raw']), data[want]), 'other-data', 'written ' + what)
        used = len(np.unique(index[want]))
        ctx.require(nn == used, 'node-count', lambda: '{}: {} nodes for {} in use'.format(what, nn, used))
        os.remove(out)
    ctx.probes['selected {} {}'.format(how, driver)] += 1


SCENARIOS = [Scenario('convert', convert, weight=3, sizes=SIZES), Scenario('select', select, weight=2, sizes=SIZES)]
