"""P04: distributing, scattering, gathering, slicing and redistributing lose nothing."""
import numpy as np

from checks import common as C
from sim import seams
from sim.harness import Scenario, Skip

PROPERTY = 'P04'
RULE = 'One evaluation is one simulated job of n ranks over drawn dimensions, variables and a drawn sequence of scatter, ' \
       'distributed slice, redistribution and gather steps, compared with numpy indexing of the undistributed arrays.'
REAL = ['ocgis (all modules, one copy per rank)', 'numpy', 'netCDF4/HDF5']
STUB = ['mpi4py (simulated communicators, requests, collectives)', 'clock', 'process scheduler']
QUICK = {'runs': 5000, 'time': 420}
THOROUGH = {'runs': 60000, 'time': 3000}
SIZES = (2, 3, 4, 5, 8)


# -- bounds arithmetic --------------------------------------------------------------------------------------------------

def partition(ctx):
    ch = ctx.ch
    n = ctx.draw_size((2, 3, 4, 5, 8))
    length = ctx.param('length', ch.pick('len', (1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 23, 40, 64, 101)))
    other = ch.rng_int('other', 1, 12)
    mine = ch.pick('min', (2, 2, 1, 3, 5))
    osize = ctx.param('dist_size', ch.pick('dsize', (None, 1, 2, 6, 13)))
    second = ch.flag('second', 0.3)
    fancy = ch.flag('fancy', 0.5)
    grp = ch.pick('grp', (None, ['g1'], ['g1', 'g2']))

    def prog(rc):
        import ocgis
        from ocgis.vmachine.mpi import OcgDist, create_nd_slices, get_optimal_splits, get_global_to_local_slice
        size = osize or rc.size
        d = OcgDist(size=size)
        src = np.arange(length) * 3 + 1 if fancy else (4, 4 + length)
        d.create_dimension('a', length, dist=True, src_idx=src, group=None if grp is None else list(grp))
        d.create_dimension('b', other, dist=second, group=None if grp is None else list(grp))
        d.update_dimension_bounds(min_elements=mine)
        out = []
        for r in range(size):
            g = d.get_group(None if grp is None else list(grp), rank=r)['dimensions']
            out.append([(x.name, bool(x.dist), bool(x.is_empty), len(x), tuple(x.bounds_local), tuple(x.bounds_global),
                         None if x._src_idx is None else (tuple(int(i) for i in x._src_idx) if not fancy or x.name == 'b'
                                                          else tuple(x._src_idx.tolist())))
                        for x in g.values()])
        empt = d.get_empty_ranks(group=None if grp is None else list(grp))
        shape = (length, other)
        sl = create_nd_slices(get_optimal_splits(size, shape), shape)
        qs = []
        for (a, b) in queries:
            qs.append([get_global_to_local_slice((a, b), tuple(bl)) for bl in bounds_q])
        return out, tuple(empt), [[(s.start, s.stop, s.step) if isinstance(s, slice) else np.array(s).tolist() for s in x] for x in sl], qs

    r = np.random.RandomState(ch.choose(1 << 16, 'q'))
    queries = [tuple(sorted((int(r.randint(0, length + 1)), int(r.randint(0, length + 3))))) for _ in range(6)]
    queries = [(a, b) for a, b in queries if a < b]
    bounds_q = [tuple(sorted((int(r.randint(0, length + 1)), int(r.randint(0, length + 1))))) for _ in range(5)]
    bounds_q = [(a, b) for a, b in bounds_q if a < b]
    o = ctx.parallel(n, prog, what='OcgDist')
    first = o.results[0]
    for k, x in enumerate(o.results):
        ctx.require(x == first, 'ranks-disagree', 'rank {} computes a different distribution: {} / {}'.format(k, x, first))
    out, empt, sl, qs = first
    size = len(out)
    chosen = [x[0] for x in out[0] if x[1]]
    ctx.require(len(chosen) == 1, 'distributed-dimensions', 'distributed: {}'.format(chosen))
    dn = chosen[0]
    total = {'a': length, 'b': other}[dn]
    ctx.require(total == (max(length, other) if second else length), 'distributed-dimensions', 'not the longest: {}'.format(dn))
    pos = 0
    nonempty = 0
    lens = []
    for rk in range(size):
        for (nm, dist, empty, ln, bl, bg, src) in out[rk]:
            full = {'a': length, 'b': other}[nm]
            if nm != dn:
                ctx.require(ln == full and not empty, 'undistributed-changed', 'rank {} {}: {}'.format(rk, nm, ln))
                continue
            if empty:
                ctx.require(rk in empt and ln == 0, 'empty-rank', 'rank {} not reported as empty'.format(rk))
                continue
            ctx.require(rk not in empt, 'empty-rank', 'rank {} reported as empty'.format(rk))
            nonempty += 1
            lens.append(ln)
            ctx.require(bl == (pos, pos + ln) and ln > 0, 'not-a-partition', 'length {} over {} ranks: rank {} has {} (length {}), expected to start at {}'.format(
                total, size, rk, bl, ln, pos))
            ctx.require(bg == (0, total), 'global-bounds', 'rank {}: {} of {}'.format(rk, bg, total))
            if nm == 'a':
                want = tuple(int(i) for i in (np.arange(length) * 3 + 1)[bl[0]:bl[1]]) if fancy else (4 + bl[0], 4 + bl[1])
                ctx.require(src == want, 'source-index', 'rank {}: {} expected {}'.format(rk, src, want))
            pos += ln
    ctx.require(pos == total, 'not-a-partition', 'length {} over {} ranks: {} elements distributed'.format(total, size, pos))
    ctx.require(max(lens) - min(lens) <= max(1, mine), 'unbalanced', 'local lengths {}'.format(lens))
    if size > 1 and nonempty > 1:
        ctx.require(min(lens) >= mine, 'min-elements', 'local lengths {} with a minimum of {}'.format(lens, mine))
    cnt = np.zeros((length, other), dtype=int)
    for s in sl:
        cnt[tuple(slice(*q) if isinstance(q, tuple) else q for q in s)] += 1
    ctx.require((cnt == 1).all(), 'slices-not-a-partition', 'create_nd_slices for {}: {}'.format((length, other), sl))
    for (a, b), row in zip(queries, qs):
        for (lo, hi), got in zip(bounds_q, row):
            x0, x1 = max(a, lo), min(b, hi)
            want = None if x0 >= x1 else (x0 - lo, x1 - lo)
            ctx.require(got == want, 'global-to-local', 'global {} on local {}: {} expected {}'.format((a, b), (lo, hi), got, want))


# -- scatter, slice, gather -----------------------------------------------------------------------------------------------

def draw_vars(ch, dims, r):
    """{name: (dims, array, mask, attrs, bounds)}"""
    names = [d[0] for d in dims]
    out = {}
    k = ch.rng_int('nvars', 1, 4)
    for i in range(k):
        if i == 0:
            vd = list(names)
        else:
            vd = [n for n in names if r.rand() < 0.6] or [names[0]]
        if r.rand() < 0.3:
            vd = vd[::-1]
        shape = tuple(dict((d[0], d[1]) for d in dims)[n] for n in vd)
        dt = ch.pick('dt', ('f8', 'f4', 'i4', 'i8', 'O'))
        a = (np.arange(int(np.prod(shape))) + 100 * (i + 1)).reshape(shape)
        if dt == 'O':
            a = np.array(['s{}'.format(v) for v in a.flat], dtype=object).reshape(shape)
        else:
            a = a.astype(dt)
        m = None
        if ch.flag('vmask', 0.4):
            m = r.rand(*shape) < 0.35
        b = None
        if len(vd) == 1 and dt == 'f8' and ch.flag('vbounds', 0.5):
            b = np.stack([a - 0.5, a + 0.5], axis=1)
        out['v{}'.format(i)] = (vd, a, m, {'units': 'K{}'.format(i), 'n': i}, b)
    if ch.flag('scalar', 0.3):
        out['sc'] = ([], np.array(7.0), None, {'grid_mapping_name': 'x'}, None)
    return out


def build_vc(dims, vs, strings=False):
    import ocgis
    vc = ocgis.VariableCollection(attrs={'title': 'vc'})
    for n, ln, _ in dims:
        vc.add_dimension(ocgis.Dimension(n, ln))
    for nm, (vd, a, m, at, b) in vs.items():
        if not vd:
            vc.add_variable(ocgis.Variable(name=nm, attrs=dict(at)))
            continue
        v = ocgis.Variable(name=nm, value=a.copy(), dimensions=list(vd), mask=None if m is None else m.copy(), attrs=dict(at),
                           **({'dtype': str} if strings and a.dtype == object else {}))
        if b is not None:
            v.set_bounds(ocgis.Variable(name=nm + '_bnds', value=b.copy(), dimensions=[vd[0], 'bnds']))
        vc.add_variable(v, force=True)
    return vc


class Model(object):
    """Indices of the original arrays that are left along each dimension."""

    def __init__(self, dims):
        self.idx = {n: np.arange(ln) for n, ln, _ in dims}

    def arr(self, vd, a):
        return a[np.ix_(*[self.idx[n] for n in vd])] if vd else a


def check_pieces(ctx, what, snaps, vs, model):
    """snaps: per rank {var: snapshot} or None for an empty rank."""
    for nm, (vd, a, m, at, b) in vs.items():
        for r, s in enumerate(snaps):
            if s is not None:
                ctx.require(nm in s, 'variable-lost', '{}: rank {} has no {}'.format(what, r, nm))
                ctx.require(all(s[nm]['attrs'].get(k) == v for k, v in at.items()), 'attributes-lost', '{}: rank {} {}: {}'.format(
                    what, r, nm, s[nm]['attrs']))
        if not vd:
            continue
        for nm2, vd2, a2, m2 in [(nm, vd, a, m)] + ([(nm + '_bnds', [vd[0], 'bnds'], b, None)] if b is not None else []):
            try:
                got = C.assemble([(r, s.get(nm2)) for r, s in enumerate(snaps) if s is not None], what='{}: {}'.format(what, nm2))
            except C.Mismatch as e:
                ctx.violate('bad-partition', str(e))
            if nm2 == nm:
                want, wm = model.arr(vd, a), (model.arr(vd, m) if m is not None else np.zeros(model.arr(vd, a).shape, dtype=bool))
            else:
                want = a2[model.idx[vd[0]]]
                wm = None
            ctx.require(got is not None, 'data-lost', '{}: {} is held by no rank'.format(what, nm2))
            ctx.require(tuple(got['shape']) == want.shape, 'shape', '{}: {} {} expected {}'.format(what, nm2, got['shape'], want.shape))
            if wm is not None:
                ctx.require(np.array_equal(got['mask'], wm), 'mask', '{}: {} mask {} expected {}'.format(
                    what, nm2, got['mask'].astype(int).tolist(), wm.astype(int).tolist()))
            else:
                wm = got['mask']
            ctx.require(C.eq_arrays(got['value'][~wm], want[~wm]), 'values', '{}: {} {} expected {}'.format(
                what, nm2, C._show(got['value']), C._show(want)))
            ctx.require(got['value'].dtype == want.dtype or want.dtype == object, 'dtype', '{}: {} {} expected {}'.format(
                what, nm2, got['value'].dtype, want.dtype))


def check_gathered(ctx, what, res, nm, vs, model):
    vd, a, m, at, b = vs[nm]
    holders = [r for r, s in enumerate(res) if s is not None and s.get('g') is not None]
    ctx.require(len(holders) == 1, 'gather-root', '{}: gathered on ranks {}'.format(what, holders))
    s = res[holders[0]]['g']
    want = model.arr(vd, a)
    wm = model.arr(vd, m) if m is not None else np.zeros(want.shape, dtype=bool)
    ctx.require(s['value'].shape == want.shape, 'gather-shape', '{}: {} expected {}'.format(what, s['value'].shape, want.shape))
    gm = s['mask'] if s['mask'] is not None else np.zeros(want.shape, dtype=bool)
    ctx.require(np.array_equal(gm, wm), 'gather-mask', '{}: {} expected {}'.format(what, gm.astype(int).tolist(), wm.astype(int).tolist()))
    ctx.require(C.eq_arrays(s['value'][~wm], want[~wm]), 'gather-values', '{}: {} expected {}'.format(what, C._show(s['value']), C._show(want)))
    ctx.require(s['attrs'] == at or b is not None and all(s['attrs'][k] == v for k, v in at.items()), 'gather-attrs', '{}'.format(s['attrs']))
    ctx.require(not any(s['dist']), 'gather-dist', '{}: gathered variable still distributed'.format(what))
    if b is not None:
        gb = res[holders[0]]['gb']
        ctx.require(gb is not None and C.eq_arrays(gb, b[model.idx[vd[0]]]), 'gather-bounds', '{}: {} expected {}'.format(
            what, None if gb is None else gb.tolist(), b[model.idx[vd[0]]].tolist()))


def draw_slice_ops(ch, r, dims, k):
    """Global selections. Each is {dim: ('slice', a, b) | ('mask', [...])} drawn as fractions so that they fit any length."""
    ops = []
    for _ in range(k):
        op = {}
        for n, ln, d in dims:
            kind = ch.pick('slk', ('none', 'slice', 'mask'))
            if kind == 'slice':
                a, b = sorted(r.rand(2))
                op[n] = ('slice', a, b)
            elif kind == 'mask':
                op[n] = ('mask', int(r.randint(1 << 30)), ch.pick('keep', (0.5, 0.9, 0.15)))
        ops.append(op)
    return ops


def resolve(op, model):
    """Concrete global indices for the current lengths; never selects nothing."""
    out = {}
    for n, s in op.items():
        ln = len(model.idx[n])
        if s[0] == 'slice':
            a = min(int(s[1] * ln), ln - 1)
            b = max(a + 1, int(np.ceil(s[2] * ln)))
            out[n] = ('slice', a, b)
        else:
            m = np.random.RandomState(s[1] % (2 ** 31)).rand(ln) < s[2]
            if not m.any():
                m[s[1] % ln] = True
            out[n] = ('mask', m)
    return out


def scatter_gather(ctx):
    ch = ctx.ch
    n = ctx.draw_size(SIZES)
    r = np.random.RandomState(ch.choose(1 << 20, 'rs'))
    nd = ch.rng_int('nd', 1, 3)
    which = ch.choose(nd, 'distdim')
    dims = []
    for i in range(nd):
        ln = ch.pick('dl', (1, 2, 3, 4, 6, 9, 13, 17)) if i == which else ch.rng_int('dls', 1, 4)
        dims.append(('d{}'.format(i), ln, i == which))
    vs = draw_vars(ch, dims, r)
    ctx.param('dims', dims)
    ctx.param('vars', {k: (v[0], str(v[1].dtype), v[2] is not None, v[4] is not None) for k, v in vs.items()})
    ops = draw_slice_ops(ch, r, dims, ch.rng_int('nops', 0, 3))
    gnames = [k for k, v in vs.items() if v[0]]
    gname = gnames[ch.choose(len(gnames), 'gn')]
    partial = ch.flag('partial_dist', 0.3)
    with_child = ch.flag('child', 0.25)
    ctx.param('gather', gname)
    # The variable that carries the slices has every dimension.
    models = [Model(dims)]
    concrete = []
    for op in ops:
        m = models[-1]
        c = resolve(op, m)
        m2 = Model(dims)
        m2.idx = dict(m.idx)
        for dn, s in c.items():
            m2.idx[dn] = m.idx[dn][s[1]:s[2]] if s[0] == 'slice' else m.idx[dn][s[1]]
        models.append(m2)
        concrete.append(c)
    ctx.param('ops', [{k: (v if v[0] == 'slice' else ('mask', v[1].astype(int).tolist())) for k, v in c.items()} for c in concrete])
    order = vs['v0'][0]
    dname = dims[which][0]

    def snap(vc):
        return None if vc.is_empty else {k: C.snap_var(v) for k, v in vc.items()}

    def prog(rc):
        import ocgis
        from ocgis import vm
        from ocgis.vmachine.mpi import OcgDist, variable_collection_scatter, variable_gather
        dist = OcgDist(size=rc.size)
        for nm, ln, d in dims:
            if d or not partial:
                dist.create_dimension(nm, ln, dist=d)
                if with_child:
                    # The distribution describes the group as well.
                    dist.create_dimension(nm, ln, dist=d, group=[None, 'kid'])
        if any(v[4] is not None for v in vs.values()) and not partial:
            dist.create_dimension('bnds', 2)
        dist.update_dimension_bounds()
        out = []
        if vm.rank == 0:
            vc = build_vc(dims, vs)
            if with_child:
                c = build_vc(dims, {'v0': vs['v0']})
                c.set_name('kid')
                vc.add_child(c)
        else:
            vc = None
        svc = variable_collection_scatter(vc, dist) if not with_child else None
        if with_child:
            svc = variable_collection_scatter(vc, dist)
        if rc.rank == 0:
            # The source of the scatter is not modified.
            out.append({k: C.snap_var(v) for k, v in vc.items()})
        else:
            out.append(None)
        out.append(snap(svc))
        kid = None
        if with_child:
            kid = (sorted(svc.children), snap(svc.children['kid']) if 'kid' in svc.children else None)
        cur = svc['v0']
        for c in concrete:
            with vm.scoped_by_emptyable('slice', cur):
                if not vm.is_null:
                    slc = []
                    for dn in order:
                        s = c.get(dn)
                        if s is None:
                            slc.append(slice(None))
                        elif s[0] == 'slice':
                            slc.append(slice(s[1], s[2]))
                        elif dn == dname:
                            lo, hi = cur.dimensions_dict[dn].bounds_local
                            slc.append(s[1][lo:hi].copy())
                        else:
                            slc.append(s[1].copy())
                    cur = cur.get_distributed_slice(slc)
            out.append(snap(cur.parent))
        res = None
        with vm.scoped_by_emptyable('gather', cur):
            if not vm.is_null:
                tg = cur.parent[gname]
                g = variable_gather(tg)
                if g is not None:
                    res = {'g': C.snap_var(g), 'gb': None if not g.has_bounds else np.array(g.bounds.get_value())}
                else:
                    res = {'g': None}
        out.append(kid)
        out.append(snap(cur.parent))  # gathering does not modify the pieces
        out.append(res)
        return out

    o = ctx.parallel(n, prog, what='scatter/slice/gather')
    m0 = models[0]
    check_pieces(ctx, 'source after scatter', [o.results[0][0]], vs, m0)
    for i, m in enumerate(models):
        snaps = [x[1 + i] for x in o.results]
        check_pieces(ctx, 'after scatter' if i == 0 else 'after slice {}'.format(i), snaps, vs, m)
        if any(s is None for s in snaps):
            ctx.probes['empty_ranks'] += 1
        if sum(s is not None for s in snaps) > 1:
            ctx.probes['spread'] += 1
    if with_child:
        kids = [x[-3] for x in o.results]
        ctx.require(all(k[0] == ['kid'] for k in kids), 'group-lost', 'groups after scatter: {}'.format([k[0] for k in kids]))
        check_pieces(ctx, 'group after scatter', [k[1] for k in kids], {'v0': vs['v0']}, m0)
    check_pieces(ctx, 'after gather', [x[-2] for x in o.results], vs, models[-1])
    check_gathered(ctx, 'gather of ' + gname, [x[-1] for x in o.results], gname, vs, models[-1])


# -- redistribution ---------------------------------------------------------------------------------------------------------

def redistribute(ctx):
    ch = ctx.ch
    n = ctx.draw_size(SIZES)
    ln = ctx.param('length', ch.pick('dl', (2, 3, 5, 8, 12, 19, 30)))
    w = ch.rng_int('w', 1, 3)
    r = np.random.RandomState(ch.choose(1 << 20, 'rs'))
    a1 = np.arange(ln) * 10 + 3
    a2 = np.arange(ln * w).reshape(ln, w) + 0.5
    m2 = r.rand(ln, w) < 0.3 if ch.flag('mask', 0.4) else np.zeros((ln, w), dtype=bool)
    path = ctx.path('r.nc')
    with seams.paused():
        ds = C._raw_nc(path, 'w')
        ds.createDimension('d', ln)
        ds.createDimension('w', w)
        v = ds.createVariable('a1', 'i4', ('d',))
        v[:] = a1
        v = ds.createVariable('a2', 'f8', ('d', 'w'), fill_value=1e20)
        v[:] = np.ma.array(a2, mask=m2)
        v = ds.createVariable('other', 'f8', ('w',))
        v[:] = np.arange(w)
        ds.close()
    how = ctx.param('how', ch.pick('how', ('mask', 'slice', 'local')))
    preload = ch.choose(4, 'preload')
    ctx.param('preload', preload)
    if how == 'slice':
        x, y = sorted(r.rand(2))
        a = min(int(x * ln), ln - 1)
        b = max(a + 1, int(np.ceil(y * ln)))
        keep = np.zeros(ln, dtype=bool)
        keep[a:b] = True
    else:
        keep = r.rand(ln) < ch.pick('keep', (0.6, 0.2, 0.95))
        if not keep.any():
            keep[r.randint(ln)] = True
    ctx.param('keep', keep.astype(int).tolist())

    def prog(rc):
        import ocgis
        from ocgis import vm
        from ocgis.vmachine.mpi import redistribute_by_src_idx, variable_gather
        rd = ocgis.RequestDataset(path, variable='a2')
        rd.metadata['dimensions']['d']['dist'] = True
        f = rd.create_field()
        if not f.is_empty and preload & 1:
            f['a2'].load()
        if not f.is_empty and preload & 2:
            f['a1'].load()
        was_empty = f.is_empty
        v = f['a1']
        if how == 'local':
            # The variable keeps everything, only the dimension handed over is subset (as the tests do).
            d = None
            if not f.is_empty:
                lo, hi = v.dimensions[0].bounds_local
                k = np.where(keep[lo:hi])[0]
                if len(k):
                    d = v[k].dimensions[0]
            redistribute_by_src_idx(v, 'd', d)
        else:
            with vm.scoped_by_emptyable('slice', v):
                if not vm.is_null:
                    lo, hi = v.dimensions[0].bounds_local
                    v = v.get_distributed_slice([slice(a, b)] if how == 'slice' else [keep[lo:hi]])
            d = None if v.is_empty else v.dimensions_dict['d']
            redistribute_by_src_idx(v, 'd', d)
        p = v.parent
        out = [None, None]
        if not p.is_empty:
            out[0] = {k: C.snap_var(p[k]) for k in ('a1', 'a2', 'other')}
        with vm.scoped_by_emptyable('g', v):
            if not vm.is_null:
                g = variable_gather(p['a2'])
                if g is not None:
                    out[1] = {'g': C.snap_var(g), 'gb': None}
        return out

    o = ctx.parallel(n, prog, what='redistribute_by_src_idx')
    vs = {'a1': (['d'], a1, None, {}, None), 'a2': (['d', 'w'], a2, m2, {}, None), 'other': (['w'], np.arange(w, dtype=float), None, {}, None)}
    m = Model([('d', ln, True), ('w', w, False)])
    m.idx['d'] = np.where(keep)[0]
    snaps = [x[0] for x in o.results]
    vs1 = {k: (v[0], v[1].astype('i4') if k == 'a1' else v[1]) + v[2:] for k, v in vs.items()}
    check_pieces(ctx, 'after redistribution', snaps, vs1, m)
    nz = [len(s['a1']['value']) for s in snaps if s is not None]
    ctx.require(max(nz) - min(nz) <= 2, 'unbalanced', 'local sizes after redistribution {}'.format(nz))
    holders = [x[1] for x in o.results]
    check_gathered(ctx, 'gather after redistribution', holders, 'a2', {'a2': vs['a2'][:3] + (holders_attrs(holders),) + (None,)}, m)
    ctx.probes['redistributed'] += 1


def holders_attrs(h):
    for x in h:
        if x is not None:
            return x['g']['attrs']
    return {}


SCENARIOS = [Scenario('partition', partition, weight=1, sizes=SIZES), Scenario('scatter_gather', scatter_gather, weight=3, sizes=SIZES),
             Scenario('redistribute', redistribute, weight=2, sizes=SIZES)]
