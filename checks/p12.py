"""P12: storage errors are reported and open files are released."""
import os

from checks import common as C
from checks import opslib as O
from checks import p01
from sim import seams
from sim.harness import Scenario, Skip
from sim.kernel import HarnessError

PROPERTY = 'P12'
RULE = 'One evaluation is one operation run three times: undisturbed, with one storage fault at a drawn file operation (failed ' \
       'open, failed, short or partial read or write, full disk, failed close, mkdir, unlink), and again after the fault. The ' \
       'faulted run must raise or equal the undisturbed one, and leave no file open.'
REAL = ['ocgis (all modules)', 'numpy', 'netCDF4/HDF5', 'shapely/GEOS', 'fiona/GDAL', 'kernel file system below the fault seam']
STUB = ['clock']
QUICK = {'runs': 4000, 'time': 420}
THOROUGH = {'runs': 60000, 'time': 3000}

FAULTS = {'open_w': ('fail',), 'open_r': ('fail',), 'write': ('fail', 'fail', 'short', 'partial_fail'), 'read': ('fail', 'short'),
          'close_w': ('fail',), 'mkdir': ('fail',), 'unlink': ('fail',), 'truncate': ('fail',), 'fsync': ('fail',), 'rename': ('fail',)}
ERRNO = {'open_w': (28, 13, 5, 24), 'open_r': (5, 13, 24), 'write': (28, 5), 'read': (5,), 'close_w': (28, 5), 'mkdir': (28, 13),
         'unlink': (5, 13), 'truncate': (28, 5), 'fsync': (5,), 'rename': (5,)}


def draw_fault(ctx, counts, lib):
    ch = ctx.ch
    if lib and ch.flag('library', 0.4):
        c = ch.pick('fcall', sorted(lib))
        return c, ch.choose(lib[c], 'nth'), 'library', 5, 1
    cl = [c for c in FAULTS if counts.get(c)]
    if not cl:
        raise Skip('no file operation')
    weights = []
    for c in cl:
        weights += [c] * (3 if c in ('write', 'read') else 2 if c.startswith('open') or c == 'close_w' else 1)
    c = ch.pick('fclass', weights)
    n = ch.choose(counts[c], 'nth')
    act = ch.pick('action', FAULTS[c])
    err = ch.pick('errno', ERRNO[c])
    # A full disk stays full; a bad sector stays bad.
    count = -1 if (act == 'fail' and c in ('write', 'read') and ch.flag('sticky', 0.5)) else 1
    return c, n, act, err, count


VECTOR = ('.shp', '.dbf', '.shx', '.prj', '.cpg', '.json')


def deaf(path, cls, count):
    """Files of libraries that do not report all errors: GDAL's shapefiles, netCDF-3; HDF5 loses the error of a single write of
    a chunk it evicts."""
    if os.path.splitext(path)[1] in VECTOR:
        return True
    if not path.endswith('.nc') or cls == 'open_r':
        return False
    if cls in ('write', 'truncate') and count == 1:
        return True
    # netCDF-3 takes a short read for the end of the file and goes on with zeros.
    with seams.paused():
        try:
            with open(path, 'rb') as f:
                return f.read(3) in (b'CDF', b'')
        except OSError:
            return False


def attempt(fn):
    try:
        return ('returned', fn())
    except Exception as e:
        if os.environ.get('OCGIS_DST_STDERR'):
            import traceback
            traceback.print_exc()
        return ('raised', type(e).__name__, str(e)[:300])


def faulted(ctx):
    op = ctx.param('op', None)

    def program(rc):
        st = ctx.storage
        op = O.draw_op(ctx)
        ctx.param('op', op.name)
        ctx.param('request', op.params)
        dirs = {}
        for d in ('warm', 'ref', 'out', 'again'):
            dirs[d] = ctx.path(d)
            os.mkdir(dirs[d])
        srcs = dict((p, open(p, 'rb').read()) for p in op.sources)
        st.rearm_reset()
        seams.lib_arm()
        ref = op.run(dirs['ref'])
        counts = st.counts()
        lib = dict(seams.lib_counts)
        seams.lib_arm()
        left = st.open_files()
        ctx.require(not left, 'file-left-open', lambda: '{} leaves open: {}'.format(op.name, left))
        c, n, act, err, count = draw_fault(ctx, counts, lib)
        counts.update(lib)
        ctx.param('fault', (c, n, act, err, count))
        st.rearm_reset()

        def disturbed():
            if act == 'library':
                seams.lib_arm(c, n)
            else:
                st.arm(c, n, act, err=err, count=count)
            got = attempt(lambda: op.run(dirs['out']))
            fired, where = st.disarm(), st.fired_path()
            if act == 'library':
                if seams.lib_plan['fired']:
                    fired, where = {'{}:error'.format(c): 1}, seams.lib_plan['path'].lstrip('/')
                seams.lib_arm()
            failed = set(x.lstrip('/') for x in seams.state['lib_failed'])
            left = [x for x in st.open_files() if x[1].lstrip('/') not in failed]
            import gc
            gc.collect()
            stuck = [x for x in st.open_files() if x[1].lstrip('/') not in failed]
            # HDF5 keeps a file it failed to open or close, and what it knows of it, for the life of the process.
            again = None if failed else attempt(lambda: op.run(dirs['again']))
            return got, fired, where, left, stuck, again

        # Libraries may crash on an error of the storage; this is theirs.
        code, res = ctx.subprocess(disturbed)
        what = '{}; fault {} at {} number {} of {}'.format(op.name, (act, err, count), c, n, counts[c])
        if code is None:
            ctx.probes['library crash {}'.format(c)] += 1
            return
        if res is None or res[0] != 'ok':
            raise HarnessError('{}: {} {}'.format(what, code, res))
        got, fired, where, left, stuck, again = res[1]
        what += ' in ' + (where or 'no file')
        if 'multifile' in op.name:
            # netCDF4.MFDataset does not close the files it had opened when it fails on a later one.
            left = stuck
        ctx.fired.update(fired)
        ctx.param('outcome', got[0] if got[0] == 'returned' else got[1:])
        if got[0] == 'returned':
            d = O.diff(ref, got[1], 'result') or (O.diff_trees(dirs['ref'], dirs['out']) if op.writes else None)
            if d is not None and act != 'library' and (act != 'short' or c == 'read') and deaf(os.path.join(ctx.root, where), c, count):
                # The library ignores this error: nothing above it can know.
                ctx.probes['{} {} not reported by the library'.format(c, act)] += 1
                d = None
            ctx.require(d is None, 'silent-loss', lambda: '{}: the operation returns normally but {}'.format(what, d))
            ctx.probes['{} {} survived'.format(c, act) if fired else 'not reached'] += 1
        else:
            ctx.require(fired, 'spurious-error', lambda: '{}: raises {} though no fault fired'.format(what, got))
            ctx.probes['{} {} reported'.format(c, act)] += 1
        ctx.require(not left, 'file-left-open', lambda: '{}: {}; files left open: {}; after garbage collection: {}'.format(what, got, left, stuck))
        for p, b in srcs.items():
            with open(p, 'rb') as f:
                ctx.require(f.read() == b, 'source-changed', lambda: '{}: {} changed'.format(what, os.path.basename(p)))
        if again is None:
            again = attempt(lambda: op.run(dirs['again']))
        ctx.require(again[0] == 'returned', 'later-run-fails', lambda: '{}: {}; after the fault is gone the same operation raises {}'.format(what, got, again))
        d = O.diff(ref, again[1], 'result') or (O.diff_trees(dirs['ref'], dirs['again']) if op.writes else None)
        ctx.require(d is None, 'later-run-differs', lambda: '{}: {}; after the fault is gone the same operation differs: {}'.format(what, got, d))
        ctx.probes[op.name] += 1

    ctx.serial(program)


SCENARIOS = [Scenario('faulted', faulted)]
