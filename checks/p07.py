"""P07: a failed or killed run never damages existing data and can be rerun."""
import os
import shutil

from checks import common as C
from checks import opslib as O
from checks import p01, p03
from checks.p12 import attempt, draw_fault
from sim import seams
from sim.harness import Scenario, Skip
from sim.kernel import HarnessError

PROPERTY = 'P07'
RULE = 'One evaluation is one request that writes into a directory with drawn contents, disturbed once by an error, a kill or a ' \
       'torn kill at a drawn file operation (on one rank or as a job of n ranks), followed by a rerun that is compared with an ' \
       'undisturbed run; existing files are compared byte by byte.'
REAL = p01.REAL + ['kernel file system below the fault seam']
STUB = p01.STUB
QUICK = {'runs': 1600, 'time': 420}
THOROUGH = {'runs': 40000, 'time': 3000}
FORMATS = ('nc', 'csv', 'csv-shp', 'shp', 'geojson')
MAIN = {'nc': '.nc', 'csv': '.csv', 'csv-shp': '.csv', 'shp': '.shp', 'geojson': '.json'}
KILLED = 77


def shapefile(ctx, stem):
    """The parts of somebody's valid shapefile."""
    p = ctx.path('theirs', 'x.shp')
    if not os.path.isdir(ctx.path('theirs')):
        os.mkdir(ctx.path('theirs'))
        C.write_shp(p, [C.box(1, 1, 2, 3)], [dict(UGID=900, NAME='theirs')])
    return {stem + x: open(p[:-4] + x, 'rb').read() for x in ('.shp', '.shx', '.dbf', '.prj', '.cpg') if os.path.exists(p[:-4] + x)}


def existing(ctx, d, files):
    """Files that are there before the run."""
    ch = ctx.ch
    out = {'keep.txt': b'precious\n', 'keep/old.nc': b'\x89HDF not really'}
    if ch.flag('neighbour', 0.5):
        out['out2/out.csv'] = b'another run'
    out.update(files)
    with seams.paused():
        for k, v in out.items():
            p = os.path.join(d, k)
            if not os.path.isdir(os.path.dirname(p)):
                os.makedirs(os.path.dirname(p))
            with open(p, 'wb') as f:
                f.write(v)
    return out


def draw_case(ctx):
    ch = ctx.ch
    g = C.draw_grid(ch, max_n=5)
    path = ctx.path('src.nc')
    C.write_grid_nc(path, g)
    kw, geoms = p03.draw_write_request(ctx, g, FORMATS)
    if kw['output_format'] == 'nc':
        geoms = geoms[:1]
    sources = [path]
    if geoms and ch.flag('geomfile', 0.3) and all(p.geom_type == geoms[0][1].geom_type for _, p in geoms):
        geomfile = ctx.path('sel.shp')
        C.write_shp(geomfile, [p for _, p in geoms], [dict(UGID=u, NAME='g{}'.format(u)) for u, _ in geoms])
        kw = dict(kw)
        kw['geom'] = geomfile
        sources += [geomfile[:-4] + x for x in ('.shp', '.dbf', '.shx', '.prj', '.cpg')]
    ctx.param('request', {k: v for k, v in kw.items() if k != 'geom'})
    ctx.param('grid', {k: g[k] for k in ('ny', 'nx', 'nt', 'nlev', 'curvi', 'fmt')})
    return path, kw, sources


def run(path, kw, outdir, overwrite):
    import ocgis
    ocgis.env.OVERWRITE = overwrite
    try:
        rd = ocgis.RequestDataset(uri=path)
        ret = ocgis.OcgOperations(dataset=rd, dir_output=outdir, **kw).execute()
    finally:
        ocgis.env.OVERWRITE = False
    return ret.replace(outdir, '<out>') if isinstance(ret, str) else None


def rejected(got):
    return got[0] == 'raised' and got[1] in ('ExtentError', 'EmptySubsetError', 'EmptyIterationError')


def only_new(tree, before):
    return {k: v for k, v in tree.items() if k not in before and v is not None}


def draw_kill(ctx, counts):
    ch = ctx.ch
    cl = [c for c in ('open_w', 'open_r', 'write', 'close_w', 'mkdir', 'unlink', 'truncate', 'rename') if counts.get(c)]
    w = []
    for c in cl:
        w += [c] * (5 if c == 'write' else 1)
    c = ch.pick('kclass', w)
    n = ch.choose(counts[c], 'nth')
    return c, n, ch.pick('kaction', ('kill', 'torn_kill')) if c == 'write' else 'kill', KILLED, 1


def relocate(text_dir, old, new):
    for dp, dn, fn in os.walk(text_dir):
        for f in fn:
            if f.endswith('.txt'):
                p = os.path.join(dp, f)
                with open(p, 'rb') as fh:
                    data = fh.read()
                if old.encode() in data:
                    with open(p, 'wb') as fh:
                        fh.write(data.replace(old.encode(), new.encode()))


def compare_output(ctx, ref, work, before, what):
    """The files the rerun left equal those of an undisturbed run; nothing else changed."""
    tmp = ctx.path('cmp')
    with seams.paused():
        shutil.copytree(work, tmp)
        for k in before:
            p = os.path.join(tmp, k)
            if os.path.exists(p) and not os.path.exists(os.path.join(ref, k)):
                os.remove(p)
        relocate(tmp, work, tmp)
    d = O.diff_trees(ref, tmp)
    if d is not None and work in d:
        d = d.replace(work, '<work>')
    with seams.paused():
        shutil.rmtree(tmp)
    ctx.require(d is None, 'rerun-differs', lambda: '{}: after the rerun: {}'.format(what, d))


def interrupted(ctx):
    ch = ctx.ch
    path, kw, sources = draw_case(ctx)
    aux = kw.get('add_auxiliary_files', True)
    overwrite = ch.flag('overwrite', 0.4)
    ref, probe, work = ctx.path('ref'), ctx.path('probe'), ctx.path('work')
    for d in (ref, probe, work):
        os.mkdir(d)
    r0 = ctx.serial(lambda rc: attempt(lambda: run(path, kw, ref, False)))
    if r0[:2] == ('raised', 'NotImplementedError'):
        raise Skip('not implemented: {}'.format(r0[2]))
    if rejected(r0):
        ref_ok = False
    else:
        ctx.require(r0[0] == 'returned', 'reference-failure', lambda: 'a valid request fails: {}'.format(r0))
        ref_ok = True
    made = p03.list_files(ref)
    files = {}
    clash = ch.flag('clash', 0.5)
    if clash and aux:
        files = {'out/out' + MAIN[kw['output_format']]: b'old', 'out/notes.txt': b'mine'}
    elif clash and ref_ok:
        main = [f for f in made if f.endswith(MAIN[kw['output_format']])]
        if ch.flag('second', 0.3):
            main = [f for f in made if f.endswith('.shp')] or main
        f = ch.pick('which', main or ['out.txt'])
        clash = bool(main)
        files = shapefile(ctx, f[:-4]) if f.endswith('.shp') and ch.flag('valid', 0.7) else {f: b'old'}
    elif clash:
        clash = False
    ctx.param('how', dict(aux=aux, overwrite=overwrite, clash=sorted(files)))
    before = existing(ctx, work, files)
    existing(ctx, probe, files) if ch.flag('x', 0.0) else None
    for k, v in before.items():
        p = os.path.join(probe, k)
        if not os.path.isdir(os.path.dirname(p)):
            os.makedirs(os.path.dirname(p))
        with open(p, 'wb') as f:
            f.write(v)
    srcs = C.tree(ctx.root)
    srcs = {k: v for k, v in srcs.items() if ctx.path(k) in sources}
    st = ctx.storage

    # The same run without a disturbance tells where disturbances may hit.
    st.rearm_reset()
    seams.lib_arm()
    p0 = ctx.serial(lambda rc: attempt(lambda: run(path, kw, probe, overwrite)))
    counts, lib = st.counts(), dict(seams.lib_counts)
    seams.lib_arm()
    refused = clash and not overwrite
    if refused:
        ctx.require(p0[0] == 'raised', 'overwrites', lambda: '{} existed and overwriting is not allowed, yet the request succeeds'.format(sorted(files)))
        now = C.tree(probe)
        ctx.require(only_new(now, before) == {} or not aux, 'refused-run-writes', lambda: 'files left: {}'.format(sorted(only_new(now, before))))
    kill = ch.flag('kill', 0.45)
    c, n, act, err, count = draw_kill(ctx, counts) if kill else draw_fault(ctx, counts, lib)
    ctx.param('fault', (c, n, act, err, count))
    st.rearm_reset()
    what = '{} of {}, fault {} at {} number {}'.format(kw['output_format'], 'one rank', (act, err, count), c, n)

    def disturbed():
        def program(rc):
            if act == 'library':
                seams.lib_arm(c, n)
            else:
                st.arm(c, n, act, err=err, count=count)
            got = attempt(lambda: run(path, kw, work, overwrite))
            fired, where = st.disarm(), st.fired_path()
            if act == 'library':
                if seams.lib_plan['fired']:
                    fired, where = {'{}:error'.format(c): 1}, seams.lib_plan['path']
                seams.lib_arm()
            mid = C.tree(work)
            # HDF5 keeps what it knows of files it failed to open or close.
            again = None if seams.state['lib_failed'] else attempt(lambda: run(path, kw, work, True))
            return got, fired, where, mid, again
        o = ctx.job(1, program, faults=False)
        if not o.ok:
            raise HarnessError(o.why())
        return o.results[0]

    code, res = ctx.subprocess(disturbed)
    killed = code == KILLED or code is None
    again = None
    if killed:
        ctx.fired['{}:{}'.format(c, act if code == KILLED else 'library crash')] += 1
        mid = C.tree(work)
        got = ('killed',)
    else:
        if res is None or res[0] != 'ok':
            raise HarnessError('{}: {} {}'.format(what, code, res))
        got, fired, where, mid, again = res[1]
        ctx.fired.update(fired)
    ctx.param('outcome', got[0] if got[0] != 'raised' else got[1:])
    what += ': ' + str(got)[:300]
    # Sources and unrelated files.
    now = {k: v for k, v in C.tree(ctx.root).items() if ctx.path(k) in sources}
    bad = sorted(k for k in srcs if now.get(k) != srcs[k])
    ctx.require(not bad, 'source-changed', lambda: '{}: sources {} changed'.format(what, bad))
    allowed = set() if not overwrite else set(k for k in files) | (set(k for k in before if k.startswith('out/')) if aux else set())
    bad = sorted(k for k, v in before.items() if k not in allowed and mid.get(k) != v)
    ctx.require(not bad, 'existing-file-changed', lambda: '{}: existing files {} changed or removed'.format(what, bad))
    if got[0] == 'raised' and aux and not refused:
        cleanup_failed = c == 'unlink' or (c == 'open_r' and os.path.splitext(where)[1] == '')
        untouched = {k: v for k, v in mid.items() if k.startswith('out/')} == {k: v for k, v in before.items() if k.startswith('out/')}
        ctx.require('out' not in mid or cleanup_failed or (untouched and files), 'output-directory-left', lambda: '{}: the output directory is still there: {}'.format(
            what, sorted(k for k in mid if k.startswith('out'))))
        ctx.probes['directory removed'] += 1
    if got[0] == 'returned':
        ctx.require(ref_ok and not refused, 'overwrites', lambda: '{}: succeeds though an undisturbed run does not'.format(what))
    if again is None:
        again = ctx.serial(lambda rc: attempt(lambda: run(path, kw, work, True)))
    if not ref_ok:
        ctx.require(again[0] == 'raised' and rejected(again), 'rerun-fails', lambda: '{}; the rerun: {}'.format(what, again))
        ctx.probes['rejected request'] += 1
        return
    ctx.require(again[0] == 'returned', 'rerun-fails', lambda: '{}; the rerun fails: {}'.format(what, again))
    compare_output(ctx, ref, work, before, what)
    now = C.tree(work)
    bad = sorted(k for k, v in before.items() if k not in files and now.get(k) != v)
    ctx.require(not bad, 'existing-file-changed', lambda: '{}: files {} changed by the rerun'.format(what, bad))
    ctx.probes['{} {} {}'.format(kw['output_format'], 'directory' if aux else 'plain', got[0])] += 1
    if refused:
        ctx.probes['refused'] += 1


def killed_job(ctx):
    """All ranks of a job die; another job, of any number of ranks, repeats the request."""
    ch = ctx.ch
    n = ctx.draw_size((2, 3, 4))
    m = ctx.param('again_ranks', ch.pick('m', (1, 2, 3, 5)))
    path, kw, sources = draw_case(ctx)
    aux = kw.get('add_auxiliary_files', True)
    ref, work = ctx.path('ref'), ctx.path('work')
    for d in (ref, work):
        os.mkdir(d)
    r0 = ctx.serial(lambda rc: attempt(lambda: run(path, kw, ref, False)))
    if r0[0] != 'returned':
        raise Skip('rejected: {}'.format(r0[1]))
    before = existing(ctx, work, {})
    srcs = {k: v for k, v in C.tree(ctx.root).items() if ctx.path(k) in sources}
    st = ctx.storage
    cls = ch.pick('kclass', ('write', 'write', 'write', 'open_w', 'close_w', 'mkdir', 'open_r'))
    nth = int(ch.choose({'write': 60, 'open_r': 60, 'mkdir': 1}.get(cls, 8), 'nth'))
    act = 'torn_kill' if cls == 'write' and ch.flag('torn', 0.5) else 'kill'
    ctx.param('fault', (cls, nth, act))

    def prog(rc):
        return attempt(lambda: run(path, kw, work, True))

    def doomed():
        st.rearm_reset()
        st.arm(cls, nth, act, err=KILLED, filt='/work/' if cls != 'open_r' else None)
        o = ctx.job(n, prog)
        st.disarm()
        return o.ok or o.why()

    code, res = ctx.subprocess(doomed)
    if code == KILLED:
        ctx.fired['{}:{} of {} ranks'.format(cls, act, n)] += 1
    what = '{} on {} ranks killed at {} {} ({})'.format(kw['output_format'], n, cls, nth, code)
    mid = C.tree(work)
    now = {k: v for k, v in C.tree(ctx.root).items() if ctx.path(k) in sources}
    ctx.require(now == srcs, 'source-changed', lambda: '{}: sources {} changed'.format(what, sorted(k for k in srcs if now.get(k) != srcs[k])))
    bad = sorted(k for k, v in before.items() if mid.get(k) != v)
    ctx.require(not bad, 'existing-file-changed', lambda: '{}: files {} changed'.format(what, bad))
    if code == KILLED and aux and ch.flag('refuse', 0.3) and 'out' in mid:
        r = ctx.serial(lambda rc: attempt(lambda: run(path, kw, work, False)))
        ctx.require(r[0] == 'raised' and C.tree(work) == mid, 'overwrites', lambda: '{}: a rerun without overwriting: {}'.format(what, r))
    o = ctx.parallel(m, prog, what='rerun')
    bad = [r for r in o.results if r[0] != 'returned']
    ctx.require(not bad, 'rerun-fails', lambda: '{}; the rerun on {} ranks: {}'.format(what, m, bad[0]))
    with seams.paused():
        for k in before:
            os.remove(os.path.join(work, k))
    p03.compare_trees(ctx, ref, work, [(ref, '<out>')], [(work, '<out>')])
    ctx.probes['killed job' if code == KILLED else 'not reached'] += 1


def failing_request(ctx):
    """A request that fails on every rank for a reason of its own removes its directory and nothing else."""
    from checks import p06
    ch = ctx.ch
    n = ctx.draw_size((1, 2, 3, 4))
    path, kw, sources = draw_case(ctx)
    kw = dict(kw)
    kw.pop('add_auxiliary_files', None)
    fault = ctx.param('fault', ch.pick('fault', ('badvar', 'far', 'level', 'badcalc')))
    g = {'x0': -100.0, 'y0': 20.0, 'dx': 2.0, 'dy': 2.0, 'nx': 1, 'ny': 1}
    ch2 = ch.flag('after_good', 0.0)
    if fault == 'badvar':
        kw['variable'] = 'no_such_variable'
    elif fault == 'far':
        kw.pop('allow_empty', None)
        far = {'geom': C.box(60.1, -60.2, 61.3, -59.1), 'properties': {'UGID': 77, 'NAME': 'far'}}
        if kw['output_format'] != 'nc' and isinstance(kw.get('geom'), list) and kw['geom'][0]['geom'].geom_type == 'Polygon':
            kw['geom'] = kw['geom'] + [far]
        else:
            kw['geom'] = [far]
    elif fault == 'level':
        kw.pop('snippet', None)
        kw.pop('allow_empty', None)
        kw['time_region'] = {'year': [1850]}
    else:
        kw['calc'] = [{'func': 'threshold', 'name': 'x', 'kwds': {'threshold': 'abc', 'operation': 'gt'}}]
        kw['calc_grouping'] = ['month']
    logs = ctx.param('file_logging', ch.flag('logs', 0.5))
    work = ctx.path('work')
    os.mkdir(work)
    overwrite = ch.flag('overwrite', 0.4)
    files = {'out/out.txt': b'old'} if overwrite and ch.flag('old', 0.5) else {}
    before = existing(ctx, work, files)

    def prog(rc):
        import ocgis
        k = dict(kw)
        v = k.pop('variable', None)
        ocgis.env.ENABLE_FILE_LOGGING = logs
        ocgis.env.OVERWRITE = overwrite
        try:
            def go():
                rd = ocgis.RequestDataset(uri=path, variable=v)
                ops = ocgis.OcgOperations(dataset=rd, dir_output=work, **k)
                return ('started', attempt(ops.execute))
            return attempt(go)
        finally:
            ocgis.env.ENABLE_FILE_LOGGING = False
            ocgis.env.OVERWRITE = False

    o = ctx.parallel(n, prog, what='request')
    started = [r[0] == 'returned' for r in o.results]
    failed = [not s or r[1][1][0] == 'raised' for s, r in zip(started, o.results)]
    ctx.require(all(failed) or not any(failed), 'outcomes-differ', lambda: 'ranks: {}'.format(o.results))
    after = C.tree(work)
    for k, v in before.items():
        if k in files and any(started):
            continue
        ctx.require(after.get(k) == v, 'existing-file-changed', lambda: '{} changed'.format(k))
    if all(failed) and any(started):
        left = sorted(k for k in after if k == 'out' or k.startswith('out/'))
        ctx.require(not left, 'output-directory-left', lambda: 'left behind: {} (ranks: {})'.format(left, [str(r)[:200] for r in o.results]))
        ctx.probes['removed after failure on {} ranks'.format(n)] += 1
    else:
        ctx.probes['not started' if not any(started) else 'succeeds'] += 1


def cli_workdir(ctx):
    """The command line tool removes the working directory it made, and no other one."""
    ch = ctx.ch
    n = ctx.draw_size((1, 2))
    g = C.draw_grid(ch, max_n=6, min_n=4, allow_2d=False, allow_wrap=False)
    g.update(bounds=True, nlev=0, mask=0.0, nvar=1)
    src, dst = ctx.path('s.nc'), ctx.path('d.nc')
    C.write_grid_nc(src, g)
    h = dict(g)
    h.update(nx=max(4, g['nx'] - 1), ny=max(4, g['ny'] - 1), x0=g['x0'] + .3, y0=g['y0'] + .3)
    C.write_grid_nc(dst, h)
    mode = ctx.param('mode', ch.pick('mode', ('chunks', 'subset')))
    given = ctx.param('given', ch.flag('given', 0.7))
    old = ctx.param('old', given and ch.flag('old', 0.6))
    persist = ctx.param('persist', ch.flag('persist', 0.3))
    work = ctx.path('work')
    os.mkdir(work)
    files = {'wd/mine.txt': b'mine', 'wd/deep/mine.nc': b'mine'} if old else {}
    before = existing(ctx, work, files)
    wd = os.path.join(work, 'wd')
    args = ['chunked-rwg', '-s', src, '-d', dst, '--no_genweights', '--no_merge']
    if given:
        args += ['--wd', wd]
    if mode == 'chunks':
        args += ['-n', '{},{}'.format(ch.rng_int('cy', 1, 2), 2)]
    else:
        args += ['--spatial_subset']
        if ch.flag('path', 0.6):
            args += ['--spatial_subset_path', os.path.join(work, 'sub.nc')]
    if persist:
        args += ['--persist']
    ctx.param('args', ' '.join(args[5:]).replace(ctx.root, ''))
    if n == 1 and ch.flag('fault', 0.4):
        st = ctx.storage
        cls = ch.pick('fclass', ('open_w', 'write'))
        nth = ch.choose(20, 'nth')
    else:
        cls = None

    def prog(rc):
        from ocgis.ocli import ocli

        return attempt(lambda: ocli.main(args=args, prog_name='ocli', standalone_mode=False))

    if cls:
        st.rearm_reset()
        st.arm(cls, nth, 'fail', err=28, count=-1)
    try:
        o = ctx.job(n, prog)
    finally:
        if cls:
            fired = st.disarm()
            ctx.fired.update(fired)
    after = C.tree(work)
    bad = sorted(k for k, v in before.items() if after.get(k) != v)
    ctx.require(not bad, 'existing-file-changed', lambda: 'arguments {}: files {} changed or removed ({})'.format(
        ' '.join(args), bad, [str(r)[:200] for r in o.results]))
    if not cls and not old:
        ok = [r for r in o.results if r != ('returned', 0)]
        ctx.require(not ok, 'tool-fails', lambda: 'arguments {}: {}'.format(' '.join(args), ok))
        if given and not persist:
            ctx.require('wd' not in after, 'working-directory-left', lambda: 'arguments {}'.format(' '.join(args)))
    ctx.probes['cli {} {}'.format(mode, 'ok' if o.results[0] == ('returned', 0) else 'error')] += 1


SCENARIOS = [Scenario('interrupted', interrupted, weight=6), Scenario('killed_job', killed_job, weight=2, sizes=(2, 3, 4)),
             Scenario('failing_request', failing_request, weight=2, sizes=(1, 2, 3, 4)), Scenario('cli_workdir', cli_workdir, weight=1, sizes=(1, 2))]
