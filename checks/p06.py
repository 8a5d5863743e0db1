"""P06: communicator scopes are restored, never leak, and refer to exactly their ranks."""
import importlib
import os

from checks import common as C
from checks import p01, p03
from sim.harness import RankCtx, Scenario

PROPERTY = 'P06'
RULE = 'One evaluation is one simulated job of n ranks running a drawn program of nested scopes, or operations and writes that ' \
       'succeed or fail at the top level or inside a scope of some ranks; the communicator state after every step is compared ' \
       'with a model.'
REAL = p01.REAL
STUB = p01.STUB
QUICK = {'runs': 1500, 'time': 420}
THOROUGH = {'runs': 40000, 'time': 3000}
SIZES = (2, 3, 4, 5)
SIZES1 = (1, 2, 3, 4, 5)


class Planned(Exception):
    pass


# -- drawn scope programs ---------------------------------------------------------------------------------------------

class Gen(object):
    """A program as nested lists; ``members`` are the world ranks that run a block."""

    def __init__(self, ch, n):
        self.ch = ch
        self.n = n
        self.count = 0
        self.budget = 14
        self.open = []

    def name(self):
        self.count += 1
        return 'scope{}'.format(self.count)

    def block(self, members, depth):
        ch = self.ch
        out = [('check',)]
        for _ in range(ch.rng_int('len', 1, 3)):
            if self.budget <= 0:
                break
            self.budget -= 1
            kinds = ['check', 'scope', 'scope', 'emptyable', 'persist', 'barrier', 'try', 'dup', 'foreign', 'visit']
            if depth > 3:
                kinds = ['check', 'barrier', 'dup']
            k = ch.pick('kind', kinds)
            if k == 'check':
                out.append(('check',))
            elif k in ('scope', 'emptyable', 'persist'):
                live = [m for m in members if not ch.flag('out', 0.35)]
                nm = self.name()
                self.open.append(nm)
                body = self.block(live, depth + 1) if live else []
                self.open.pop()
                out.append((k, nm, [members.index(m) for m in live], live, body))
            elif k == 'barrier':
                out.append(('barrier', ch.flag('first', 0.7), ch.flag('last', 0.7), self.block(members, depth + 1)))
            elif k == 'try':
                who = [m for m in members if ch.flag('raise', 0.6)] if ch.flag('some', 0.5) else list(members)
                out.append(('try', self.tryblock(members, depth + 1, who)))
            elif k == 'dup' and self.open:
                out.append(('dup', ch.pick('dupname', list(self.open)), [i for i in range(len(members)) if not ch.flag('out', 0.4)]))
            elif k == 'foreign':
                out.append(('foreign', ch.pick('how', ('get', 'free'))))
            elif k == 'visit':
                out.append(('visit',))
        out.append(('check',))
        return out

    def tryblock(self, members, depth, who):
        """A block that ends with an exception on the ranks ``who``, possibly out of nested scopes."""
        b = self.block(members, depth)
        if depth < 4 and self.ch.flag('deep', 0.6):
            k = self.ch.pick('wrap', ('scope', 'persist', 'emptyable'))
            live = [m for m in members if not self.ch.flag('out', 0.3)]
            nm = self.name()
            self.open.append(nm)
            body = self.tryblock(live, depth + 1, [w for w in who if w in live]) if live else []
            self.open.pop()
            if k == 'persist':
                k = 'scope'
            b.append((k, nm, [members.index(m) for m in live], live, body))
        else:
            b.append(('raise', list(who)))
        return b


class Interp(object):
    def __init__(self, rc, log):
        self.rc = rc
        self.log = log

    def expect(self, cond, what):
        if not cond:
            self.log.append(what)

    def check(self, vm, members, name, open_names):
        from ocgis.constants import MPIOps
        e = self.expect
        rc = self.rc
        me = rc.rank
        e(vm.current_comm_name == name, 'current communicator {!r} expected {!r}'.format(vm.current_comm_name, name))
        e(not vm.is_null, 'is_null inside of scope {!r}'.format(name))
        if vm.is_null:
            return
        e(vm.size == len(members), 'size {} in scope of ranks {}'.format(vm.size, members))
        e(vm.rank == members.index(me), 'rank {} of world rank {} in scope of ranks {}'.format(vm.rank, me, members))
        e(vm.rank_global == me and vm.size_global == rc.size, 'global rank {} size {}'.format(vm.rank_global, vm.size_global))
        e(list(vm.ranks) == list(range(len(members))), 'ranks {}'.format(list(vm.ranks)))
        g = vm.gather(vm.rank_global)
        if vm.rank == 0:
            e(list(g) == list(members), 'gather in scope of ranks {} returns {}'.format(members, g))
        b = vm.bcast(('from', vm.rank_global))
        e(b == ('from', members[0]), 'broadcast in scope of ranks {} returns {}'.format(members, b))
        s = vm.scatter([10 * m for m in members] if vm.rank == 0 else None)
        e(s == 10 * me, 'scatter in scope of ranks {} returns {} on world rank {}'.format(members, s, me))
        r = vm.reduce(me + 1, MPIOps.SUM)
        if vm.rank == 0:
            e(r == sum(m + 1 for m in members), 'reduce in scope of ranks {} returns {}'.format(members, r))
        for nm in open_names:
            try:
                vm.get_subcomm(nm)
            except Exception as x:
                e(False, 'communicator {} of an open scope is gone: {}'.format(nm, x))

    def run(self, block, members, name, open_names):
        import ocgis
        from ocgis import vm
        from ocgis.exc import SubcommAlreadyCreatedError, SubcommNotFoundError
        me = self.rc.rank
        for st in block:
            k = st[0]
            before = vm.current_comm_name
            if k == 'check':
                self.check(vm, members, name, open_names)
            elif k in ('scope', 'emptyable'):
                _, nm, local, live, body = st
                if k == 'scope':
                    cm = vm.scoped(nm, local)
                else:
                    cm = vm.scoped_by_emptyable(nm, ocgis.Field(name='e', is_empty=me not in live))
                with cm:
                    self.expect(vm.current_comm_name == nm, 'inside of {!r} the current communicator is {!r}'.format(nm, vm.current_comm_name))
                    self.expect(self.rc.size == 1 or vm.is_null == (me not in live), 'rank {} of scope {} of ranks {}: is_null {}'.format(me, nm, live, vm.is_null))
                    if me not in live:
                        if self.rc.size > 1:
                            self.expect(vm.rank is None and vm.size is None, 'rank outside of {} has rank {} size {}'.format(nm, vm.rank, vm.size))
                    else:
                        self.run(body, live, nm, open_names + [nm])
                self.gone(vm, nm)
            elif k == 'persist':
                _, nm, local, live, body = st
                vm.create_subcomm(nm, local, is_current=True, clobber=True)
                try:
                    if me in live:
                        self.run(body, live, nm, open_names + [nm])
                    with vm.scoped_by_name(name):
                        self.check(vm, members, name, open_names + [nm])
                    self.expect(vm.current_comm_name == nm, 'after scoped_by_name {!r} instead of {!r}'.format(vm.current_comm_name, nm))
                    # Replaces the communicator. Members of the old one may differ.
                    vm.set_comm(name)
                    vm.create_subcomm(nm, list(range(len(members))), is_current=True, clobber=True)
                    self.check(vm, members, nm, open_names + [nm])
                finally:
                    vm.set_comm(name)
                    vm.free_subcomm(name=nm)
                self.gone(vm, nm)
            elif k == 'barrier':
                with vm.scoped_barrier(first=st[1], last=st[2]):
                    self.run(st[3], members, name, open_names)
            elif k == 'try':
                try:
                    self.run(st[1], members, name, open_names)
                except Planned:
                    pass
                for nm in self.names_in(st[1]):
                    self.gone(vm, nm)
                self.check(vm, members, name, open_names)
            elif k == 'raise':
                if me in st[1]:
                    raise Planned()
            elif k == 'dup':
                try:
                    with vm.scoped(st[1], st[2]):
                        self.expect(False, 'scope {!r} opened twice'.format(st[1]))
                except SubcommAlreadyCreatedError:
                    pass
                self.check(vm, members, name, open_names)
            elif k == 'foreign':
                try:
                    vm.get_subcomm('nobody') if st[1] == 'get' else vm.free_subcomm(name='nobody')
                    if self.rc.size > 1 or st[1] == 'get':
                        self.expect(False, 'unknown communicator found')
                except SubcommNotFoundError:
                    pass
            elif k == 'visit':
                with vm.scoped_by_name(name):
                    self.check(vm, members, name, open_names)
            self.expect(vm.current_comm_name == before, 'statement {} changes the current communicator from {!r} to {!r}'.format(
                k, before, vm.current_comm_name))

    def names_in(self, block):
        out = []
        for st in block:
            if st[0] in ('scope', 'emptyable', 'persist'):
                out.append(st[1])
                out += self.names_in(st[4])
            elif st[0] == 'barrier':
                out += self.names_in(st[3])
            elif st[0] == 'try':
                out += self.names_in(st[1])
        return out

    def gone(self, vm, nm):
        from ocgis.exc import SubcommNotFoundError
        try:
            vm.get_subcomm(nm)
        except SubcommNotFoundError:
            return
        self.expect(False, 'communicator {!r} outlives its scope'.format(nm))


def leaks(ctx, out):
    l = out.job.leaked()
    ctx.require(not l, 'leaked-communicator', lambda: 'communicators (id, ranks, ranks that did not free it, created by): {}'.format(l))


def scope_programs(ctx):
    n = ctx.draw_size(SIZES1)
    prog = Gen(ctx.ch, n).block(list(range(n)), 0)
    ctx.param('program', prog)

    def program(rc):
        from ocgis import vm
        log = []
        it = Interp(rc, log)
        it.run(prog, list(range(rc.size)), None, [])
        for nm in it.names_in(prog):
            it.gone(vm, nm)
        it.expect(vm.current_comm_name is None, 'the program ends with communicator {!r}'.format(vm.current_comm_name))
        return log

    o = ctx.parallel(n, program, what='scope program')
    for r, log in enumerate(o.results):
        ctx.require(not log, 'wrong-scope', lambda: 'rank {}: {}'.format(r, '; '.join(log[:3])))
    leaks(ctx, o)
    for st in str(prog).split("('")[1:]:
        ctx.probes['stmt ' + st.split("'")[0]] += 1


# -- operations ---------------------------------------------------------------------------------------------------------

OPNAMES = ('FIELD_GET', 'FIELD_SUBSET', 'UGEOM_WRITE', 'NONSPATIAL_SUBSET', 'SPATIAL_AVERAGE')
OTHER = ('values', 'bounds normalization', 'return finalize', 'masked values', 'global mask', 'extent_global',
         'src_grid_subset', 'index write', 'global grid shape', 'weight file merge', 'insert weighted', 'subset reduce/write', 'user',
         'user2')


def state_now(vm):
    """The communicator in force and the names that are known."""
    from ocgis.constants import SubcommName
    from ocgis.exc import SubcommNotFoundError
    known = []
    for nm in [getattr(SubcommName, o, o) for o in OPNAMES] + list(OTHER):
        try:
            vm.get_subcomm(nm)
            known.append(str(nm))
        except SubcommNotFoundError:
            pass
    return vm.current_comm_name, tuple(known)


FAULTS = ('none', 'none', 'badvar', 'far', 'exists', 'badcalc', 'level', 'callback')


def breakage(ctx, g, kw, fault):
    """The request with something in it that fails on every rank."""
    kw = dict(kw)
    if fault == 'badvar':
        kw['variable'] = 'no_such_variable'
    elif fault == 'far':
        from shapely.geometry import box
        kw['geom'] = [{'geom': box(60.1, -60.2, 61.3, -59.1), 'properties': {'UGID': 1}}]
        kw.pop('allow_empty', None)
        if ctx.ch.flag('after_good', 0.5):
            kw['geom'] = C.geoms_for_ops(C.draw_geoms(ctx.ch, g, 1, ('box',))) + kw['geom']
            kw['geom'][-1]['properties'] = {'UGID': 77, 'NAME': 'far'}
    elif fault == 'level':
        kw['time_range'] = None
        kw.pop('snippet', None)
        kw['time_region'] = {'year': [1850]}
        kw.pop('allow_empty', None)
        kw.pop('time_range')
    elif fault == 'badcalc':
        kw['calc'] = [{'func': 'threshold', 'name': 'x', 'kwds': {'threshold': 'abc', 'operation': 'gt'}}]
        kw['calc_grouping'] = ['month']
    return kw


def run_op(rc, path, kw, outdir, scope):
    import ocgis
    from ocgis import vm
    before = state_now(vm)

    def inner():
        k = dict(kw)
        v = k.pop('variable', None)
        if outdir is not None:
            k['dir_output'] = outdir
        rd = ocgis.RequestDataset(uri=path, variable=v)
        ops = ocgis.OcgOperations(dataset=rd, **k)
        ret = ops.execute()
        return C.snap_coll(ret) if k.get('output_format', 'ocgis') == 'ocgis' else 'written'

    res = None
    inside = None
    try:
        if scope is None:
            res = ('ok', inner())
        else:
            with vm.scoped('user', scope):
                if not vm.is_null:
                    s0 = state_now(vm)
                    try:
                        res = ('ok', inner())
                    except Exception as e:
                        res = ('exc', type(e).__name__, str(e)[:200])
                    inside = (s0, state_now(vm))
                    # The scope still works.
                    g = vm.gather(rc.rank)
                    if vm.rank == 0 and list(g) != list(scope):
                        inside = inside + ('gather returns {}'.format(g),)
    except Exception as e:
        if res is None:
            res = ('exc', type(e).__name__, str(e)[:200])
    after = state_now(vm)
    g = vm.gather(rc.rank)
    if vm.rank == 0 and list(g) != list(range(rc.size)):
        after = after + ('gather returns {}'.format(g),)
    return res, before, after, inside


def ops_hygiene(ctx):
    ch = ctx.ch
    n = ctx.draw_size(SIZES)
    g = C.draw_grid(ch, max_n=6)
    path = ctx.path('src.nc')
    C.write_grid_nc(path, g)
    fmt = ctx.param('fmt', ch.pick('fmt', ('ocgis', 'ocgis', 'nc', 'csv', 'csv-shp', 'shp')))
    fault = ctx.param('fault', ch.pick('fault', FAULTS))
    if fmt == 'ocgis':
        kw, geoms = p01.draw_request(ctx, g)
        if fault != 'badcalc' and ch.flag('aggregate', 0.25):
            kw['aggregate'] = True
    else:
        kw, geoms = p03.draw_write_request(ctx, g, (fmt,))
    if fault == 'exists':
        if fmt == 'ocgis':
            fault = ctx.param('fault', 'none')
        else:
            kw['add_auxiliary_files'] = True
    if fault == 'callback':
        fault = ctx.param('fault', 'none')
    kw = breakage(ctx, g, kw, fault)
    scope = None
    if ch.flag('scoped', 0.5):
        scope = [r for r in range(n) if not ch.flag('outside', 0.4)] or [n - 1]
    ctx.param('scope', scope)
    ctx.param('request', {k: v for k, v in kw.items() if k != 'geom'})
    dirs = []
    for d in ('serial', 'parallel'):
        p = ctx.path(d)
        os.mkdir(p)
        if fault == 'exists':
            os.mkdir(os.path.join(p, 'out'))
        dirs.append(p if fmt != 'ocgis' else None)
    ref = ctx.serial(lambda rc: run_op(rc, path, kw, dirs[0], None))
    ctx.require(ref[1] == ref[2] and ref[2] == (None, ()), 'serial-state', 'before {} after {}'.format(ref[1], ref[2]))
    o = ctx.parallel(n, lambda rc: run_op(rc, path, kw, dirs[1], scope), what='operation')
    members = scope if scope is not None else list(range(n))
    for r, (res, before, after, inside) in enumerate(o.results):
        ctx.require(before == (None, ()), 'dirty-start', 'rank {} starts with {}'.format(r, before))
        ctx.require(after == (None, ()), 'state-left-behind', lambda: 'rank {}: communicator and names after the operation: {} (result {})'.format(
            r, after, str(res)[:300]))
        if scope is not None:
            if r in scope:
                ctx.require(inside[1] == inside[0] and len(inside) == 2, 'scope-state', lambda: 'rank {}: inside of the scope {} before, {} after the operation'.format(
                    r, inside[0], inside[1:]))
            else:
                ctx.require(res is None, 'work-outside-scope', 'rank {} is outside of the scope and returns {}'.format(r, res))
    got = [o.results[r][0] for r in members]
    if ref[0][0] == 'exc':
        ctx.require(any(x[0] == 'exc' for x in got), 'error-lost', lambda: 'serial raises {}, ranks return {}'.format(ref[0], str(got)[:300]))
        ctx.probes['failed ' + ref[0][1]] += 1
    else:
        bad = [x for x in got if x[0] == 'exc']
        ctx.require(not bad, 'spurious-error', lambda: 'serial succeeds, ranks {} raise {}'.format(members, bad))
        if fmt == 'ocgis':
            if not kw.get('aggregate'):
                p01.compare_colls(ctx, ref[0], got)
        else:
            p03.compare_trees(ctx, dirs[0], dirs[1], [(dirs[0], '<out>')], [(dirs[1], '<out>')])
        ctx.probes['succeeded ' + fmt] += 1
    if scope is not None:
        ctx.probes['in scope of {} of {}'.format(len(scope), n)] += 1
    leaks(ctx, o)


# -- everything else inside of a scope ------------------------------------------------------------------------------------

def within(fn):
    """A scenario of another property, run by the ranks of a scope instead of by all ranks."""
    def scenario(ctx):
        ch = ctx.ch
        orig = ctx.parallel
        ctx.draw_size = lambda sizes: ctx.param('nranks', ch.pick('nranks', (2, 3, 4)))

        def parallel(size, program, what='job', **kw):
            total = size + 1
            skip = ch.choose(total, 'skip')
            members = [r for r in range(total) if r != skip]
            ctx.param('members', members)

            def prog(rc):
                from ocgis import vm
                s0 = state_now(vm)
                ret = inside = None
                with vm.scoped('user', members):
                    if not vm.is_null:
                        i0 = state_now(vm)
                        ret = program(RankCtx(ctx, members.index(rc.rank), size))
                        inside = (i0, state_now(vm))
                return ret, s0, state_now(vm), inside

            o = orig(total, prog, what=what + ' within a scope of ranks {}'.format(members), **kw)
            for r, (ret, s0, s1, inside) in enumerate(o.results):
                ctx.require(s0 == s1 == (None, ()), 'state-left-behind', lambda: 'rank {}: {} became {}'.format(r, s0, s1))
                ctx.require(inside is None or inside[0] == inside[1], 'scope-state', lambda: 'rank {}: {}'.format(r, inside))
            leaks(ctx, o)
            o.results = [o.results[m][0] for m in members]
            return o

        ctx.parallel = parallel
        fn(ctx)
        ctx.probes['within a scope'] += 1
    return scenario


SCENARIOS = [Scenario('scope_programs', scope_programs, weight=6, sizes=SIZES1), Scenario('ops_hygiene', ops_hygiene, weight=4, sizes=SIZES)]
here = os.path.dirname(os.path.abspath(__file__))
for _m, _w in (('p01', 1), ('p03', 1), ('p04', 1), ('p05', 1), ('p13', 1)):
    _mod = importlib.import_module('checks.' + _m)
    for _s in _mod.SCENARIOS:
        SCENARIOS.append(Scenario('within_{}_{}'.format(_m, _s.name), within(_s.fn), weight=_w, sizes=SIZES1))
