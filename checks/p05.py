"""P05: parallel coordinate reindexing and global identifiers."""
import numpy as np

from checks import common as C
from sim.harness import Scenario

PROPERTY = 'P05'
RULE = 'One evaluation is one simulated job of n ranks over drawn index arrays, compared with numpy on the concatenated arrays.'
REAL = ['ocgis (all modules, one copy per rank)', 'numpy']
STUB = ['mpi4py (simulated communicators, requests, collectives)', 'clock', 'process scheduler']
QUICK = {'runs': 2500, 'time': 420}
THOROUGH = {'runs': 60000, 'time': 3000}
SIZES = (2, 3, 4, 5, 8)


def draw_arrays(ctx, n, allow_float=False):
    ch = ctx.ch
    r = np.random.RandomState(ch.choose(1 << 20, 'rs'))
    style = ctx.param('style', ch.pick('style', ('mesh', 'random', 'blocks', 'same', 'spread')))
    dt = ch.pick('dt', ('i4', 'i4', 'i8') + (('f8',) if allow_float else ()))
    hi = ch.pick('hi', (3, 10, 25, 60))
    nd = ch.pick('ndim', (1, 2))
    arrs = []
    for k in range(n):
        ln = ch.pick('ln', (1, 2, 4, 7))
        if style == 'mesh':
            # Neighbouring ranks share a few coordinates.
            a = k * hi // 2 + r.randint(0, hi, size=ln * 4)
        elif style == 'random':
            a = r.randint(0, hi * n, size=ln * 4)
        elif style == 'blocks':
            a = k * hi + r.randint(0, hi, size=ln * 4)
        elif style == 'same':
            a = r.randint(0, hi, size=ln * 4)
        else:
            # Values from far apart, so that every rank's range covers every other's.
            a = np.concatenate([r.randint(0, 4, size=ln * 2), hi * n + r.randint(0, 4, size=ln * 2)])
        a = a.astype(dt)
        if dt == 'f8':
            a = a + 0.25
        arrs.append(a.reshape(-1, 4) if nd == 2 else a)
    # Data never sits on all ranks: the others are outside of the communicator.
    live = [k for k in range(n) if not ch.flag('dead', 0.15)]
    if not live:
        live = [0]
    ctx.param('live', live)
    ctx.param('arrays', [arrs[k].tolist() for k in live])
    return arrs, live


def unique_global(ctx):
    n = ctx.draw_size(SIZES)
    arrs, live = draw_arrays(ctx, n, True)

    def prog(rc):
        from ocgis import vm
        from ocgis.util.helpers import create_unique_global_array
        with vm.scoped('live', live):
            if vm.is_null:
                return None
            a = arrs[rc.rank].copy()
            ret = create_unique_global_array(a)
            return np.array(ret), np.array_equal(a, arrs[rc.rank])

    o = ctx.parallel(n, prog, what='create_unique_global_array')
    got = [o.results[k] for k in live]
    ctx.require(all(g[1] for g in got), 'argument-changed', 'the input array was modified')
    allu = np.concatenate([g[0] for g in got])
    want = np.unique(np.concatenate([arrs[k].ravel() for k in live]))
    ctx.require(len(np.unique(allu)) == len(allu), 'duplicate', 'values held more than once: {}'.format([g[0].tolist() for g in got]))
    ctx.require(np.array_equal(np.sort(allu), want), 'values', '{} expected {}'.format(np.sort(allu).tolist(), want.tolist()))
    for k, g in zip(live, got):
        ctx.require(np.isin(g[0], arrs[k]).all(), 'foreign-value', 'rank {} holds values it was not given: {}'.format(k, g[0].tolist()))


def reindex(ctx):
    ch = ctx.ch
    n = ctx.draw_size(SIZES)
    arrs, live = draw_arrays(ctx, n)
    start = ctx.param('start', ch.pick('start', (0, 1)))
    as_var = ch.flag('as_var', 0.5)
    repeat = ch.pick('repeat', (1, 1, 2))

    def prog(rc):
        import ocgis
        from ocgis import vm
        from ocgis.spatial.geomc import reduce_reindex_coordinate_index
        with vm.scoped('live', live):
            if vm.is_null:
                return None
            out = []
            a = arrs[rc.rank].copy()
            for _ in range(repeat):
                arg = a
                if as_var:
                    arg = ocgis.Variable(name='ci', value=a.copy(), dimensions=['e', 'n'][:a.ndim])
                new, u = reduce_reindex_coordinate_index(arg, start_index=start)
                out.append((np.array(new), np.array(u)))
            return out, np.array_equal(a, arrs[rc.rank])

    o = ctx.parallel(n, prog, what='reduce_reindex_coordinate_index')
    for it in range(repeat):
        got = [o.results[k][0][it] for k in live]
        ctx.require(all(o.results[k][1] for k in live), 'argument-changed', 'the input array was modified')
        U = np.concatenate([g[1] for g in got])
        want = np.unique(np.concatenate([arrs[k].ravel() for k in live]))
        ctx.require(len(np.unique(U)) == len(U) and np.array_equal(np.sort(U), want), 'reduced-list', '{} expected {}'.format(
            [g[1].tolist() for g in got], want.tolist()))
        for k, (new, u) in zip(live, got):
            ctx.require(new.shape == arrs[k].shape, 'shape', 'rank {}: {} expected {}'.format(k, new.shape, arrs[k].shape))
            i = new.astype(int) - start
            ctx.require(i.min() >= 0 and i.max() < len(U), 'index-range', 'rank {}: {} outside of {} entries'.format(k, new.tolist(), len(U)))
            ctx.require(np.array_equal(U[i], arrs[k]), 'wrong-reference', 'rank {}: indices {} refer to {} expected {}'.format(
                k, new.tolist(), U[i].tolist(), arrs[k].tolist()))
        if any(len(g[1]) == 0 for g in got):
            ctx.probes['rank_without_unique'] += 1


def global_ids(ctx):
    ch = ctx.ch
    n = ctx.draw_size(SIZES)
    live = [k for k in range(n) if not ch.flag('dead', 0.15)] or [0]
    lens = [ch.pick('len', (1, 2, 3, 5)) for _ in range(n)]
    w = ch.pick('w', (0, 0, 2))
    start = ch.pick('start', (1, 0, 10))
    zero = [ch.flag('zero', 0.25) for _ in range(n)]
    ctx.param('live', live)
    ctx.param('lens', lens)

    def prog(rc):
        import ocgis
        from ocgis import vm
        from ocgis.util.helpers import arange_from_dimension
        from ocgis.variable.dimension import create_distributed_dimension
        with vm.scoped('live', live):
            if vm.is_null:
                return None
            ln = lens[rc.rank]
            dims = [create_distributed_dimension(ln, name='d')]
            shape = (ln,)
            if w:
                dims.append(ocgis.Dimension('w', w))
                shape = (ln, w)
            v = ocgis.Variable(name='v', value=np.ones(shape), dimensions=dims)
            u = v.create_ugid_global('gid', start=start)
            rng = arange_from_dimension(dims[0], start=start)
            z = create_distributed_dimension(0 if zero[rc.rank] else ln, name='z')
            return (np.array(u.get_value()), np.array(rng), v.ugid is not None and v.ugid.name, tuple(dims[0].bounds_local),
                    tuple(dims[0].bounds_global), (bool(z.is_empty), len(z), tuple(z.bounds_local), tuple(z.bounds_global)))

    o = ctx.parallel(n, prog, what='create_ugid_global')
    p = q = zp = 0
    zt = sum(0 if zero[k] else lens[k] for k in live)
    tot = sum(lens[k] for k in live)
    for k in live:
        u, rng, nm, bl, bg, z = o.results[k]
        sz = lens[k] * (w or 1)
        ctx.require(np.array_equal(u.ravel(), np.arange(start + p, start + p + sz)), 'ugid', 'rank {}: {} expected from {}'.format(
            k, u.tolist(), start + p))
        ctx.require(nm == 'gid', 'ugid-link', 'rank {}: {}'.format(k, nm))
        ctx.require(np.array_equal(rng, np.arange(start + q, start + q + lens[k])), 'arange', 'rank {}: {} expected from {}'.format(
            k, rng.tolist(), start + q))
        ctx.require(bl == (q, q + lens[k]) and bg == (0, tot), 'bounds', 'rank {}: local {} global {}'.format(k, bl, bg))
        zl = 0 if zero[k] else lens[k]
        ctx.require(z[0] == (zl == 0) and z[1] == zl, 'zero-dimension', 'rank {}: {}'.format(k, z))
        if zl:
            ctx.require(z[2] == (zp, zp + zl) and z[3] == (0, zt), 'zero-dimension', 'rank {}: {} expected {} {}'.format(k, z, (zp, zp + zl), (0, zt)))
        p += sz
        q += lens[k]
        zp += zl


SCENARIOS = [Scenario('unique_global', unique_global, weight=2, sizes=SIZES), Scenario('reindex', reindex, weight=3, sizes=SIZES),
             Scenario('global_ids', global_ids, weight=1, sizes=SIZES)]
