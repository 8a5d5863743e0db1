"""P09: a computation done tile by tile leaves the file of the computation done at once."""
import datetime
import os

import numpy as np

from checks import common as C
from checks import p12
from sim import seams
from sim.harness import Scenario, Skip
from sim.kernel import HarnessError

PROPERTY = 'P09'
RULE = 'One evaluation is one drawn computation (calculation, grouping, selection, levels, time selection, tile size, with or ' \
       'without reuse of fields) executed at once and tile by tile; the files are compared and every write to the file is ' \
       'recorded. The faulted runs put a storage or library error at a drawn point of the tiled run.'
REAL = ['ocgis (all modules)', 'numpy', 'netCDF4/HDF5 (below the fault seam)', 'shapely/GEOS']
STUB = ['clock']
QUICK = {'runs': 900, 'time': 420}
THOROUGH = {'runs': 40000, 'time': 3000}

GROUPS = (['month'], ['year'], ['month', 'year'], 'all', [[12, 1, 2], [3, 4, 5]], [[3, 4, 5], 'unique'])


def draw_case(ctx):
    ch = ctx.ch
    g = C.draw_grid(ch, max_n=6, allow_wrap=False)
    g['nt'] = ch.rng_int('ntt', 1, 8)
    g['nvar'] = 1
    if ch.flag('maskt', 0.3):
        g['maskt'] = 0.2
    kw = {'output_format': 'nc', 'prefix': 'out'}
    kind = ch.pick('calc', ('stat', 'stat', 'stat', 'two', 'parm', 'expr', 'multi', 'window', 'none'))
    func = ch.pick('func', ('mean', 'max', 'min', 'std', 'sum', 'median'))
    if kind == 'stat':
        kw['calc'] = [{'func': func, 'name': 'stat'}]
    elif kind == 'two':
        kw['calc'] = [{'func': func, 'name': 'stat'}, {'func': 'max', 'name': 'top'}]
    elif kind == 'parm':
        kw['calc'] = [{'func': 'threshold', 'name': 'stat', 'kwds': {'threshold': 10005.0, 'operation': 'gt'}}]
    elif kind == 'expr':
        kw['calc'] = 'stat=tas*2+1'
    elif kind == 'multi':
        g['nvar'] = 2
        kw['calc'] = ch.pick('mexpr', ('stat=tas+pr*2', [{'func': 'divide', 'name': 'stat', 'kwds': {'arr1': 'tas', 'arr2': 'pr'}}]))
    elif kind == 'window':
        g['nt'] = max(g['nt'], 4)
        kw['calc'] = [{'func': 'moving_window', 'name': 'stat', 'kwds': {'k': 3, 'mode': ch.pick('wmode', ('same', 'valid')), 'operation': 'mean'}}]
    if kind in ('stat', 'two', 'parm'):
        kw['calc_grouping'] = ch.pick('grp', GROUPS)
    sel = ch.pick('sel', ('none', 'none', 'geom', 'two geoms'))
    if sel != 'none':
        geoms = C.draw_geoms(ch, g, 2 if sel == 'two geoms' else 1, ('box', 'poly'))
        kw['geom'] = C.geoms_for_ops(geoms)
        kw['spatial_operation'] = 'intersects'
        if sel == 'two geoms':
            kw['agg_selection'] = True
    if ch.flag('trange', 0.3):
        if ch.flag('region', 0.5):
            kw['time_region'] = {'month': sorted(set(1 + ch.choose(5, 'mon') for _ in range(2)))}
        else:
            kw['tsel'] = sorted([ch.choose(g['nt'], 't0'), ch.choose(g['nt'], 't1')])
    if g['nlev'] > 1 and ch.flag('lr', 0.3):
        kw['level_range'] = [4.0, 17.0]
    if ch.flag('noaux', 0.2):
        kw['add_auxiliary_files'] = False
    if sel == 'none' and ch.flag('slice', 0.2):
        kw['slice'] = [None, None, None] + [sorted([ch.choose(g[n], 's0'), 1 + ch.choose(g[n], 's1')]) for n in ('ny', 'nx')]
        if ch.flag('slicet', 0.4):
            kw['slice'][1] = sorted([ch.choose(g['nt'], 's0'), 1 + ch.choose(g['nt'], 's1')])
        if g['nlev'] > 1 and ch.flag('slicel', 0.5):
            kw['slice'][2] = [0, 1 + ch.choose(g['nlev'], 's1')]
        kw['slice'] = [s if s is None or s[1] > s[0] else [s[0], s[0] + 1] for s in kw['slice']]
    if not g['curvi'] and ch.flag('reorder', 0.1):
        g['x0'] = 350.0 if ch.flag('pm', 0.5) else 170.0
        g['nx'] = max(g['nx'], 4)
        g['dx'] = 5.0
        kw.pop('geom', 0), kw.pop('spatial_operation', 0), kw.pop('agg_selection', 0), kw.pop('slice', 0)
        kw['spatial_wrapping'] = 'wrap'
        kw['spatial_reorder'] = True
    if ch.flag('conform', 0.1):
        kw['conform_units_to'] = 'celsius'
    if not g['curvi'] and ch.flag('extrap', 0.1):
        kw['interpolate_spatial_bounds'] = True
    kw['callback'] = ch.flag('cb', 0.15)
    ctx.param('calc', kind)
    ctx.param('request', {k: v for k, v in kw.items() if k != 'geom'})
    return g, kw, ch.rng_int('tile', 1, 7), ch.flag('opt', 0.5)


def make_ops(path, g, kw, outdir, calls=None):
    import copy
    import ocgis
    k = {a: b for a, b in kw.items() if a not in ('callback', 'tsel')}
    k = {a: (b if a == 'geom' else copy.deepcopy(b)) for a, b in k.items()}
    names = ['tas', 'pr'][:g['nvar']]
    rd = ocgis.RequestDataset(uri=path, variable=names)
    if 'tsel' in kw:
        t = ocgis.RequestDataset(uri=path, variable=names).get().time.value_datetime
        k['time_range'] = [datetime.datetime(*x.timetuple()[:6]) for x in (t[kw['tsel'][0]], t[kw['tsel'][1]])]
    if kw['callback'] and calls is not None:
        k['callback'] = lambda p, m: calls.append(float(p))
    return ocgis.OcgOperations(dataset=rd, dir_output=outdir, **k)


def outcome(fn):
    import ocgis
    try:
        return ('ok', fn())
    except (ocgis.exc.ExtentError, ocgis.exc.EmptySubsetError) as e:
        return ('empty', type(e).__name__)


def setup(ctx):
    g, kw, td, opt = draw_case(ctx)
    path = ctx.path('src.nc')
    C.write_grid_nc(path, g)
    return path, g, kw, td, opt


def unsupported(e):
    # Not a computation ocgis supports.
    return 'at once: {}: {}'.format(type(e).__name__, str(e)[:400])


def run(ctx, program):
    r = ctx.serial(program)
    if r is not None:
        raise Skip(r)


def tiles(ctx):
    def program(rc):
        from ocgis import env
        from ocgis.util.large_array import compute
        path, g, kw, td, opt = setup(ctx)
        ctx.param('tile', (td, opt))
        for d in ('once', 'tiled', 'again'):
            os.mkdir(ctx.path(d))
        try:
            ref = outcome(lambda: make_ops(path, g, kw, ctx.path('once')).execute())
        except Exception as e:
            return unsupported(e)
        calls = []
        ops = make_ops(path, g, kw, ctx.path('tiled'), calls)
        cb = ops.callback
        log = seams.state['nc_log'] = []
        oc = env.OPTIMIZE_FOR_CALC
        try:
            got = outcome(lambda: compute(ops, td, use_optimizations=opt))
        finally:
            seams.state['nc_log'] = None
        what = 'tile size {}, optimizations {}, request {}'.format(td, opt, {k: v for k, v in kw.items() if k != 'geom'})
        ctx.require(env.OPTIMIZE_FOR_CALC is oc, 'environment-changed', what)
        ctx.require(got[0] == ref[0], 'outcome-differs', lambda: '{}: at once {}, tiled {}'.format(what, ref, got))
        ctx.probes[ref[0]] += 1
        if ref[0] != 'ok':
            return
        compare(ctx, ref[1], got[1], what)
        ctx.require(os.path.relpath(got[1], ctx.path('tiled')) == os.path.relpath(ref[1], ctx.path('once')), 'outcome-differs',
                    lambda: '{}: {} / {}'.format(what, got, ref))
        names = (['stat', 'top'] if ctx.params['calc'] == 'two' else ['stat']) if 'calc' in kw else ['tas']
        coverage(ctx, log, got[1], names, what)
        if cb is not None:
            ctx.require(calls and max(calls) <= 100.0001 and min(calls) >= 0, 'progress', lambda: '{}: {}'.format(what, calls))
        # The operations object is as it was: executing it once more gives the result at once.
        if ctx.ch.flag('again', 0.3):
            ctx.require(ops.callback is cb and ops.geom == ops.geom and ops.output_format == 'nc', 'arguments-changed',
                        lambda: '{}: callback {} / {}'.format(what, ops.callback, cb))
            ops.dir_output = ctx.path('again')
            r = outcome(ops.execute)
            ctx.require(r[0] == 'ok', 'arguments-changed', lambda: '{}: {}'.format(what, r))
            compare(ctx, ref[1], r[1], what + '; operations executed again')
        n = len([1 for x in log if x[1] in names])
        ctx.probes['tiles 1' if n == 1 else 'tiles 2-4' if n < 5 else 'tiles 5+'] += 1
        ctx.probes[ctx.params['calc']] += 1

    run(ctx, program)


def diff(a, b):
    """Compare what the files hold; which number stands for a masked element is not part of it."""
    a, b = C.read_nc(a), C.read_nc(b)
    for x in (a, b):
        for v in x['vars'].values():
            fv = v['attrs'].pop('_FillValue', None)
            v['attrs'].pop('missing_value', None)
            if v['raw'].dtype.kind == 'f':
                m = v['raw'] >= 9e36
                if fv is not None:
                    m |= v['raw'] == fv
                v['raw'] = np.where(m, np.nan, v['raw'])
    return C.diff_nc(a, b, tol=1e-12)


def compare(ctx, a, b, what):
    d = diff(a, b)
    ctx.require(d is None, 'file-differs', lambda: '{}: {}'.format(what, d))


def coverage(ctx, log, path, names, what):
    """Each element of the calculated variables is written exactly once after the template."""
    with seams.paused():
        ds = seams.state['RealDataset'](path)
        shapes = {n: ds.variables[n].shape for n in names}
        ds.close()
    # The writes of the template come before; data of it is not written but for requests without calculation.
    last = max([i for i, x in enumerate(log) if x[0] == 'open' and x[1] == 'a'] or [-1])
    ctx.require(last >= 0, 'coverage', what + ': the file was not opened for filling')
    for n in names:
        c = np.zeros(shapes[n], dtype=int)
        for x in log[last:]:
            if x[0] == 'set' and x[1] == n:
                c[x[2]] += 1
        ctx.require((c == 1).all(), 'coverage', lambda: '{}: variable {} writes per element: {}'.format(what, n, c.tolist()))


def faulted(ctx):
    def program(rc):
        from ocgis.util.large_array import compute
        st = ctx.storage
        path, g, kw, td, opt = setup(ctx)
        ctx.param('tile', (td, opt))
        for d in ('once', 'tiled', 'again', 'count'):
            os.mkdir(ctx.path(d))
        try:
            ref = outcome(lambda: make_ops(path, g, kw, ctx.path('once')).execute())
        except Exception as e:
            return unsupported(e)
        if ref[0] != 'ok':
            return 'empty'
        st.rearm_reset()
        seams.lib_arm()
        outcome(lambda: compute(make_ops(path, g, kw, ctx.path('count')), td, use_optimizations=opt))
        counts, lib = st.counts(), dict(seams.lib_counts)
        seams.lib_arm()
        # Errors of the file that is filled, mostly.
        if ctx.ch.flag('fill', 0.6) and lib.get('nc_write'):
            c, act, err, count = ctx.ch.pick('fillcall', ('nc_write', 'nc_sync', 'nc_close')), 'library', 5, 1
            n = max(0, lib[c] - 1 - ctx.ch.choose(min(lib[c], 12), 'back'))
        else:
            c, n, act, err, count = p12.draw_fault(ctx, counts, lib)
        ctx.param('fault', (c, n, act, err, count))
        what = 'tile size {}, optimizations {}, request {}; fault {} at {} number {}'.format(
            td, opt, {k: v for k, v in kw.items() if k != 'geom'}, (act, err, count), c, n)

        def disturbed():
            st.rearm_reset()
            if act == 'library':
                seams.lib_arm(c, n)
            else:
                st.arm(c, n, act, err=err, count=count)
            ops = []

            def attempt():
                ops.append(make_ops(path, g, kw, ctx.path('tiled')))
                return compute(ops[0], td, use_optimizations=opt)

            got = p12.attempt(attempt)
            fired, where = st.disarm(), st.fired_path()
            if act == 'library':
                if seams.lib_plan['fired']:
                    fired, where = {'{}:error'.format(c): 1}, seams.lib_plan['path'].lstrip('/')
                seams.lib_arm()
            failed = set(x.lstrip('/') for x in seams.state['lib_failed'])
            left = [x for x in st.open_files() if x[1].lstrip('/') not in failed]
            again = None
            if got[0] == 'raised' and not failed and ops:
                # The same operations object again, into a fresh place.
                ops[0].dir_output = ctx.path('again')
                again = p12.attempt(lambda: compute(ops[0], td, use_optimizations=opt))
            return got, fired, where, left, again

        code, res = ctx.subprocess(disturbed)
        if code is None:
            ctx.probes['library crash {}'.format(c)] += 1
            return
        if res is None or res[0] != 'ok':
            raise HarnessError('{}: {} {}'.format(what, code, res))
        got, fired, where, left, again = res[1]
        ctx.fired.update(fired)
        ctx.require(not left, 'file-left-open', lambda: '{}: {}; {}'.format(what, got, left))
        if got[0] == 'returned':
            d = diff(ref[1], got[1])
            if d is not None and act != 'library' and (act != 'short' or c == 'read') and p12.deaf(os.path.join(ctx.root, where), c, count):
                ctx.probes['not reported by the library'] += 1
                d = None
            ctx.require(d is None, 'holes', lambda: '{} in {}: compute returns normally but {}'.format(what, where, d))
            ctx.probes['survived' if fired else 'not reached'] += 1
        else:
            ctx.require(fired, 'spurious-error', lambda: '{}: {}'.format(what, got))
            ctx.probes['reported'] += 1
            if again is not None:
                ctx.require(again[0] == 'returned', 'later-run-fails', lambda: '{}: {}; later {}'.format(what, got, again))
                compare(ctx, ref[1], again[1], what + '; computed again')

    run(ctx, program)


SCENARIOS = [Scenario('tiles', tiles, weight=3), Scenario('faulted', faulted)]
