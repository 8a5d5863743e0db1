"""Seeded search over simulated runs: fork one process per run, collect verdicts, minimise, write replay and evidence."""
import argparse
import collections
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH_BASE = os.environ.get('OCGIS_DST_SCRATCH', '/tmp/ocgis-dst')
RUN_WALL_LIMIT = 150.0


class Scenario(object):
    def __init__(self, name, fn, weight=1, sizes=(), wall=None):
        self.name = name
        self.fn = fn
        self.weight = weight
        self.sizes = tuple(sizes)


class RankCtx(object):
    def __init__(self, ctx, rank, size):
        self.ctx = ctx
        self.rank = rank
        self.size = size
        self.root = ctx.root


class Outcome(object):
    def __init__(self, kernel, job):
        self.kernel = kernel
        self.job = job
        self.results = [t.result for t in kernel.tasks]
        self.excs = [(t.rank, t.exc, t.tb) for t in kernel.tasks if t.exc is not None]
        self.aborted = kernel.aborted_by is not None
        self.stop_reason = getattr(kernel, 'stop_reason', None)
        self.finished = [t.done for t in kernel.tasks]

    @property
    def ok(self):
        return not self.excs and not self.aborted

    def why(self):
        if self.excs:
            r, e, tb = self.excs[0]
            return 'rank {} raised {}: {}\n{}'.format(r, type(e).__name__, str(e)[:300], short_tb(tb))
        return str(self.stop_reason)


def short_tb(tb, n=12):
    lines = [l for l in (tb or '').strip().splitlines()]
    out = []
    for i, l in enumerate(lines):
        if l.strip().startswith('File') and ('/sim/' in l or '/checks/' in l):
            continue
        out.append(l)
    return '\n'.join(out[-n:])


class Ctx(object):
    """What a scenario gets for one simulated run."""

    def __init__(self, chooser, root, seed):
        from sim import seams
        self.ch = chooser
        self.root = root
        self.seed = seed
        self.storage = seams.Storage(root)
        self.stats = collections.Counter()
        self.fired = collections.Counter()
        self.probes = collections.Counter()
        self.h = hashlib.blake2b(digest_size=12)
        self.sched_h = hashlib.blake2b(digest_size=12)
        self.sim_ns = 0
        self.traces = []
        self.params = {}
        self.real = set()
        self.swarm = None
        self.after_job = None

    # -- configuration -------------------------------------------------------------------------------------------
    def param(self, name, value):
        self.params[name] = value
        return value

    def draw_swarm(self):
        if self.swarm is None:
            c = self.ch
            self.swarm = dict(delay_prob=c.pick('cfg.delay', (0.0, 0.15, 0.6)),
                              rndv_prob=c.pick('cfg.rndv', (0.0, 0.3, 1.0)),
                              early_prob=c.pick('cfg.early', (0.0, 0.5, 1.0)),
                              stall_prob=c.pick('cfg.stall', (0.0, 0.02, 0.15)),
                              text_buffer=c.pick('cfg.tbuf', (8192, 256, 31)))
        return self.swarm

    def draw_size(self, sizes):
        return self.param('nranks', self.ch.pick('nranks', sizes))

    # -- jobs ----------------------------------------------------------------------------------------------------
    def job(self, size, program, worlds=None, faults=True, lazy_read=True, max_steps=400000, abort_on_exc=True, keep=False):
        from sim import kernel as K, simmpi, seams, worlds as W
        worlds = worlds or W.get_worlds(size)
        sw = self.draw_swarm() if (faults and size > 1) else dict(delay_prob=0.0, rndv_prob=0.0, early_prob=0.0,
                                                                  stall_prob=0.0)
        k = K.Kernel(self.ch, stall_prob=sw['stall_prob'], max_steps=max_steps, job_abort_on_exc=abort_on_exc)
        j = simmpi.Job(k, size, delay_prob=sw['delay_prob'], rndv_prob=sw['rndv_prob'], early_prob=sw['early_prob'],
                       lazy_read=lazy_read)
        k.job = j
        k.clock_hook = lambda kk: seams.set_clock(kk.now)
        k.now += self.sim_ns
        k.start = k.now
        seams.set_clock(k.now)
        seams.state['root'] = self.root
        seams.state['text_buffer'] = sw.get('text_buffer', 8192)

        def _mk(r):
            rc = RankCtx(self, r, size)

            def _fn():
                return program(rc)

            return _fn

        try:
            k.run([_mk(r) for r in range(size)], worlds)
        finally:
            self.h.update(k.h.digest())
            self.sched_h.update(k.sched_h.digest())
            self.sim_ns += k.now - k.start
            self.stats['steps'] += k.steps
            self.stats['switches'] += k.switches
            self.stats['jobs'] += 1
            for a, b in j.stats.items():
                self.stats['mpi.' + a] += b
            for a, b in k.fired.items():
                self.fired[a] += b
            self.traces.append(('job of {} rank(s), policy {}'.format(size, k.policy), k.trace))
        out = Outcome(k, j)
        for e in out.excs:
            if isinstance(e[1], K.HarnessError):
                raise e[1]
        if self.after_job is not None:
            self.after_job(out, size)
        return out

    def serial(self, program, **kw):
        """Run a valid program on one rank; the reference execution."""
        kw.setdefault('faults', False)
        o = self.job(1, program, **kw)
        if not o.ok:
            if o.excs and isinstance(o.excs[0][1], NotImplementedError):
                raise Skip('reference run: ' + o.why())
            self.violate('reference-failure', 'a valid request failed on one rank: ' + o.why())
        return o.results[0]

    def parallel(self, size, program, what='job', **kw):
        """Run on ``size`` ranks and require that it completes."""
        o = self.job(size, program, **kw)
        if not o.ok:
            self.violate('rank-failure', '{} failed on {} ranks though it is valid in serial: {}'.format(
                what, size, o.why()))
        return o

    def violate(self, kind, detail):
        from sim.kernel import Violation
        raise Violation(kind, detail)

    def require(self, cond, kind, detail):
        if not cond:
            self.violate(kind, detail() if callable(detail) else detail)

    def path(self, *a):
        return os.path.join(self.root, *a)

    def subprocess(self, fn, wall=60.0):
        """Run ``fn`` in a forked copy (for kill faults). Returns (exit status or None if killed by signal, result)."""
        from sim import kernel as K
        r, w = os.pipe()
        # What the copy draws must not depend on what this process draws later.
        sub = self.ch.choose(1 << 30, 'subseed')
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                self.ch = K.Chooser(seed=sub)
                try:
                    res = ('ok', fn())
                except BaseException as e:
                    res = ('exc', type(e).__name__, str(e)[:500], traceback.format_exc()[-3000:])
                data = pickle.dumps(res)
                os.write(w, data) if len(data) < 60000 else _write_all(w, data)
            except BaseException:
                code = 99
            os._exit(code)
        os.close(w)
        data = _read_all(r, time.monotonic() + wall)
        if data is None:
            os.kill(pid, signal.SIGKILL)
        os.close(r)
        _, st = os.waitpid(pid, 0)
        code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else None
        res = None
        if data:
            try:
                res = pickle.loads(data)
            except Exception:
                res = None
        return code, res


class Skip(Exception):
    """The drawn case is not a case of the property (e.g. the reference itself rejects it)."""


def _write_all(fd, data):
    mv = memoryview(data)
    while mv:
        n = os.write(fd, mv)
        mv = mv[n:]


def _read_all(fd, deadline):
    out = []
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            return None
        rl, _, _ = select.select([fd], [], [], left)
        if not rl:
            return None
        b = os.read(fd, 1 << 16)
        if not b:
            return b''.join(out)
        out.append(b)


# -- one run, in this process ----------------------------------------------------------------------------------------

def execute(scenario, seed, replay, scratch, want_trace=False):
    from sim import kernel as K, seams
    chooser = K.Chooser(seed=seed, replay=replay)
    if os.path.exists(scratch):
        shutil.rmtree(scratch)
    os.makedirs(scratch)
    tmpd = os.path.join(scratch, 'tmp')
    os.mkdir(tmpd)
    import tempfile
    tempfile.tempdir = tmpd
    os.environ['TMPDIR'] = tmpd
    os.environ['HOME'] = tmpd
    os.chdir(scratch)
    seams.seed_everything(seed & 0x7fffffff)
    ctx = Ctx(chooser, scratch, seed)
    res = {'scenario': scenario.name, 'seed': seed}
    try:
        scenario.fn(ctx)
        res['status'] = 'ok'
    except Skip as e:
        res['status'] = 'skip'
        res['detail'] = str(e)[:2000]
    except K.Violation as e:
        res['status'] = 'violation'
        res['kind'] = e.kind
        res['detail'] = str(e.detail)[:6000].replace(scratch, '<scratch>')
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        res['detail'] = traceback.format_exc()[-6000:].replace(scratch, '<scratch>')
        if tb and any('/src/ocgis/' in f.filename for f in tb):
            res['status'] = 'violation'
            res['kind'] = 'unexpected-exception'
        else:
            res['status'] = 'error'
    seams.real_clock()
    seams.lib.dst_disarm()
    h = ctx.h
    h.update(ctx.storage.digest().encode())
    res['digest'] = h.hexdigest()
    res['sched'] = ctx.sched_h.hexdigest()
    res['stats'] = dict(ctx.stats)
    res['fired'] = dict(ctx.fired)
    res['probes'] = dict(ctx.probes)
    res['params'] = {k: repr(v)[:200].replace(scratch, '<scratch>') for k, v in ctx.params.items()}
    res['sim_ns'] = ctx.sim_ns
    res['choices'] = [v for _, _, v in chooser.log]
    if want_trace:
        res['labels'] = [l for l, _, _ in chooser.log]
        res['trace'] = ctx.traces
    return res


# -- forked execution ------------------------------------------------------------------------------------------------

class Pool(object):
    def __init__(self, procs, tag):
        self.procs = procs
        self.tag = tag
        self.live = {}  # fd -> [pid, key, buf, deadline]
        self.slots = list(range(procs))
        self.base = os.path.join(SCRATCH_BASE, '{}-{}'.format(tag, os.getpid()))

    def free(self):
        return len(self.slots)

    def start(self, key, scenario, seed, replay=None, want_trace=False):
        slot = self.slots.pop()
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.setpgid(0, 0)
                dn = os.open(os.devnull, os.O_RDWR)
                os.dup2(dn, 0)
                os.dup2(dn, 1)
                if not os.environ.get('OCGIS_DST_STDERR'):
                    os.dup2(dn, 2)
                sys.stdout = open(os.devnull, 'w')
                import gc
                gc.disable()
                res = execute(scenario, seed, replay, os.path.join(self.base, 's{}'.format(slot)), want_trace)
                _write_all(w, pickle.dumps(res))
            except BaseException:
                try:
                    _write_all(w, pickle.dumps({'status': 'error', 'detail': traceback.format_exc()}))
                except BaseException:
                    pass
            os._exit(0)
        os.close(w)
        self.live[r] = [pid, key, [], time.monotonic() + RUN_WALL_LIMIT, slot]

    def wait(self, timeout=None):
        """List of (key, result)."""
        out = []
        if not self.live:
            return out
        rl, _, _ = select.select(list(self.live), [], [], 1.0 if timeout is None else timeout)
        now = time.monotonic()
        for fd in list(self.live):
            ent = self.live[fd]
            done = False
            if fd in rl:
                b = os.read(fd, 1 << 18)
                if b:
                    ent[2].append(b)
                else:
                    done = True
            timed = not done and now > ent[3]
            if timed:
                done = True
            if done:
                os.close(fd)
                del self.live[fd]
                try:
                    os.killpg(ent[0], signal.SIGKILL)
                except OSError:
                    try:
                        os.kill(ent[0], signal.SIGKILL)
                    except OSError:
                        pass
                _, st = os.waitpid(ent[0], 0)
                self.slots.append(ent[4])
                data = b''.join(ent[2])
                res = None
                if data and not timed:
                    try:
                        res = pickle.loads(data)
                    except Exception:
                        res = None
                if res is None:
                    res = {'status': 'timeout' if timed else 'died', 'wait': st}
                out.append((ent[1], res))
        return out

    def run_many(self, jobs, on_result, stop=None):
        """jobs: iterator of (key, scenario, seed, replay, want_trace)."""
        it = iter(jobs)
        exhausted = False
        while True:
            while not exhausted and self.free() and not (stop and stop()):
                try:
                    j = next(it)
                except StopIteration:
                    exhausted = True
                    break
                self.start(*j)
            if stop and stop():
                exhausted = True
            if not self.live:
                if exhausted:
                    return
                continue
            for key, res in self.wait():
                on_result(key, res)

    def cleanup(self):
        for fd, ent in list(self.live.items()):
            try:
                os.kill(ent[0], signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(ent[0], 0)
            except OSError:
                pass
            os.close(fd)
        self.live = {}
        shutil.rmtree(self.base, ignore_errors=True)


# -- known findings --------------------------------------------------------------------------------------------------

def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        data = json.load(f)
    return [e for e in data.get('findings', []) if e['property'] == prop]


def match_known(known, res):
    for e in known:
        if e.get('scenario') != res.get('scenario'):
            continue
        if e.get('kind') and e['kind'] != res.get('kind'):
            continue
        if all(m in res.get('detail', '') for m in e.get('contains', [])) and \
                all(res.get('params', {}).get(k) == v for k, v in e.get('params', {}).items()):
            return e
    return None


# -- minimisation ----------------------------------------------------------------------------------------------------

def minimise(pool, scenario, seed, res, budget_s):
    best = list(res['choices'])
    kind = res['kind']
    t_end = time.monotonic() + budget_s
    tried = [0]
    cache = set()

    def strip(c):
        c = list(c)
        while c and c[-1] == 0:
            c.pop()
        return c

    best = strip(best)

    def attempt(cands):
        """First candidate (in order) that still fails the same way."""
        todo = []
        for c in cands:
            c = strip(c)
            key = tuple(c)
            if key in cache or c == best:
                continue
            cache.add(key)
            todo.append(c)
        if not todo:
            return None
        found = {}

        def on(key, r):
            tried[0] += 1
            if r.get('status') == 'violation' and r.get('kind') == kind:
                found[key] = strip(r['choices'])

        pool.run_many([(i, scenario, seed, c, False) for i, c in enumerate(todo)], on,
                      stop=lambda: bool(found) or time.monotonic() > t_end)
        if not found:
            return None
        return min(found.values(), key=cost)

    def cost(c):
        return (sum(1 for v in c if v), len(c), sum(c))

    improved = True
    while improved and time.monotonic() < t_end:
        improved = False
        # shorter prefixes
        n = len(best)
        cands = [best[:n * i // 8] for i in range(0, 8)]
        r = attempt(cands)
        if r is not None and cost(r) < cost(best):
            best = r
            improved = True
            continue
        nz = [i for i, v in enumerate(best) if v]
        size = max(1, len(nz) // 2)
        while size >= 1 and time.monotonic() < t_end:
            chunks = [nz[i:i + size] for i in range(0, len(nz), size)]
            got = False
            for b in range(0, len(chunks), pool.procs * 2):
                cands = []
                for ch in chunks[b:b + pool.procs * 2]:
                    c = list(best)
                    for i in ch:
                        if i < len(c):
                            c[i] = 0
                    cands.append(c)
                r = attempt(cands)
                if r is not None and cost(r) < cost(best):
                    best = r
                    nz = [i for i, v in enumerate(best) if v]
                    got = improved = True
                    break
                if time.monotonic() > t_end:
                    break
            if not got:
                size //= 2
            else:
                size = min(size, max(1, len(nz) // 2))
        # smaller values
        for i in [i for i, v in enumerate(best) if v > 1]:
            if time.monotonic() > t_end:
                break
            if i >= len(best):
                continue
            c = list(best)
            c[i] = 1
            r = attempt([c])
            if r is not None and cost(r) < cost(best):
                best = r
                improved = True
    return best, tried[0]


# -- main ------------------------------------------------------------------------------------------------------------

def run_check(mod, argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=('quick', 'thorough'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--time', type=float)
    ap.add_argument('--scenario')
    ap.add_argument('--replay')
    ap.add_argument('--procs', type=int, default=int(os.environ.get('OCGIS_DST_PROCS', '8')))
    ap.add_argument('--one', type=int, help='run one seed and print everything')
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('--no-min', action='store_true')
    ap.add_argument('--digest', action='store_true', help='print one digest line per run (determinism proof)')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--survey', action='store_true', help='run everything, list violations and errors without minimising')
    a = ap.parse_args(argv)
    if a.survey:
        a.keep_going = a.no_evidence = a.no_min = True
    prop = mod.PROPERTY
    t0 = time.time()
    mono0 = time.monotonic()

    from sim import seams
    seams.load()
    import numpy, netCDF4, fiona, shapely, shapely.geometry, shapely.ops, shapely.wkb  # noqa: shared by all ranks
    seams.install()
    from sim import worlds as W
    scenarios = list(mod.SCENARIOS)
    if a.scenario:
        scenarios = [s for s in scenarios if s.name == a.scenario]
    for s in sorted(set([1] + [n for sc in scenarios for n in sc.sizes])):
        W.get_worlds(s)
    import gc
    gc.collect()
    gc.freeze()
    by_name = {s.name: s for s in mod.SCENARIOS}
    pool = Pool(a.procs, prop)
    known = load_known(prop)
    try:
        if a.replay:
            return do_replay(pool, by_name, a.replay, prop)
        if a.one is not None:
            out = []
            pool.run_many([(0, scenarios[0] if len(scenarios) == 1 else pick_scenario(scenarios, a.one),
                            base_seed(a.seed, a.one), None, True)], lambda k, r: out.append(r))
            r = out[0]
            for name, tr in r.pop('trace', []):
                print('--', name)
                for l in tr[-400:]:
                    print('  ', l)
            r.pop('labels', None)
            print(json.dumps({k: v for k, v in r.items() if k != 'choices'}, indent=1, default=str))
            return 0 if r['status'] in ('ok', 'skip') else 1
        return search(mod, pool, scenarios, known, a, t0, mono0)
    finally:
        pool.cleanup()


def base_seed(seed, i):
    return seed * 10000019 + i


def pick_scenario(scenarios, i):
    """Deterministic weighted round robin."""
    total = sum(s.weight for s in scenarios)
    order = []
    for s in scenarios:
        order += [s] * s.weight
    random.Random(7).shuffle(order)
    return order[i % total]


def search(mod, pool, scenarios, known, a, t0, mono0):
    prop = mod.PROPERTY
    cfg = mod.QUICK if a.tier == 'quick' else mod.THOROUGH
    nruns = a.runs or cfg['runs']
    tmax = a.time or cfg['time']
    agg = collections.Counter()
    per = collections.defaultdict(collections.Counter)
    fired = collections.Counter()
    probes = collections.Counter()
    stats = collections.Counter()
    scheds = set()
    digests = {}
    samples = []
    sim_ns = [0]
    known_hit = collections.OrderedDict()
    viols = []
    errors = []
    skips = []
    retry = []
    det = {'rerun': 0, 'mismatch': 0}

    def on(key, r):
        i, again = key
        sc = pick_scenario(scenarios, i)
        st = r.get('status')
        if again:
            det['rerun'] += 1
            if r.get('digest') != digests.get(i):
                det['mismatch'] += 1
                det.setdefault('seeds', []).append([sc.name, i])
            return
        agg[st] += 1
        per[sc.name][st] += 1
        if st in ('timeout', 'died'):
            retry.append(i)
            return
        if a.digest:
            print('digest', i, sc.name, st, r.get('digest'), r.get('sched'))
        digests[i] = r.get('digest')
        for n, c in r.get('fired', {}).items():
            fired[n] += c
        for n, c in r.get('probes', {}).items():
            probes[n] += c
        for n, c in r.get('stats', {}).items():
            stats[n] += c
        sim_ns[0] += r.get('sim_ns', 0)
        scheds.add((r.get('sched'), r.get('digest')))
        if st in ('ok',) and len(samples) < 4 and r.get('stats', {}).get('switches', 0) >= 0 and \
                sc.name not in [s['scenario'] for s in samples]:
            samples.append({'scenario': sc.name, 'seed_index': i, 'params': r.get('params'), 'fired': r.get('fired'),
                            'steps': r.get('stats', {}).get('steps'), 'outcome': 'property held'})
        if st == 'violation':
            e = match_known(known, r)
            if e is not None:
                known_hit.setdefault(e['id'], [0, e, i])[0] += 1
                agg['known'] += 1
            else:
                viols.append((i, r))
        elif st == 'error':
            errors.append((i, sc.name, r.get('detail')))
        elif st == 'skip' and a.survey:
            skips.append((i, sc.name, r.get('detail', '')))

    def stop():
        if viols and not a.keep_going:
            return True
        return time.monotonic() - mono0 > tmax

    def jobs():
        for i in range(nruns):
            sc = pick_scenario(scenarios, i)
            yield ((i, False), sc, base_seed(a.seed, i), None, False)
            if i % 97 == 11 and i > 0:
                j = i - 8
                if j in digests:
                    yield ((j, True), pick_scenario(scenarios, j), base_seed(a.seed, j), None, False)

    pool.run_many(jobs(), on, stop)

    # Runs that hung or died: alone, twice; a reproducible one is a verdict, anything else a harness matter.
    for i in retry[:6]:
        if viols and not a.keep_going:
            break
        sc = pick_scenario(scenarios, i)
        got = []
        for _ in range(2):
            pool.run_many([((i, 'retry'), sc, base_seed(a.seed, i), None, False)], lambda k, r: got.append(r))
        sts = [g.get('status') for g in got]
        if all(s == 'died' for s in sts):
            viols.append((i, {'status': 'violation', 'scenario': sc.name, 'kind': 'process-crash', 'seed': base_seed(a.seed, i),
                              'detail': 'the simulated process died (wait status {})'.format(got[0].get('wait')),
                              'choices': [], 'params': {}}))
        elif all(s == 'timeout' for s in sts):
            viols.append((i, {'status': 'violation', 'scenario': sc.name, 'kind': 'wall-timeout', 'seed': base_seed(a.seed, i),
                              'detail': 'no progress: the run never reached another seam', 'choices': [], 'params': {}}))
        else:
            for g in got:
                if g.get('status') == 'violation':
                    viols.append((i, g))
                    break

    wall = time.time() - t0
    nviol = len(viols)
    rc = 0
    lines = []
    if a.survey:
        import re
        groups = collections.OrderedDict()
        for i, r in sorted(viols, key=lambda x: x[0]):
            sig = (r['scenario'], r['kind'], re.sub(r'[0-9]+', '#', r['detail'][:140]))
            groups.setdefault(sig, []).append((i, r))
        for sig, l in sorted(groups.items(), key=lambda x: -len(x[1])):
            print('[{}x] {} {} seeds {}\n      {}'.format(len(l), sig[0], sig[1], [i for i, _ in l[:8]],
                                                       l[0][1]['detail'][:700].replace('\n', '\n      ')))
            print('      params', l[0][1].get('params'))
        groups = collections.OrderedDict()
        for i, n, d in sorted(skips):
            groups.setdefault((n, re.sub(r'[0-9]+', '#', d[:140])), []).append((i, d))
        for sig, l in groups.items():
            print('SKIP [{}x] {} seeds {}\n      {}'.format(len(l), sig[0], [i for i, _ in l[:8]], l[0][1][:1200].replace('\n', '\n      ')))
        viols = []
    if viols:
        rc = 1
        seen = set()
        for i, r in sorted(viols, key=lambda x: x[0]):
            sig = (r['scenario'], r['kind'])
            if sig in seen and a.keep_going:
                continue
            seen.add(sig)
            path = report(pool, mod, {s.name: s for s in mod.SCENARIOS}, i, r, a)
            lines.append('VIOLATION property={} replay={}'.format(prop, path))
            print('scenario={} kind={} seed={}'.format(r['scenario'], r['kind'], r['seed']))
            print(r['detail'][:3000])
            if not a.keep_going:
                break
    for kid, (n, e, i) in known_hit.items():
        print('KNOWN-FINDING: property={} {} [{}; seen in {} runs, e.g. seed index {}]'.format(prop, e['what'], kid, n, i))
    for e in known:
        if e['id'] not in known_hit and not viols:
            print('note: known finding {} was not reached in this run'.format(e['id']))
    if errors:
        print('harness errors: {} (first: scenario {} seed index {})\n{}'.format(len(errors), errors[0][1], errors[0][0],
                                                                               errors[0][2]))
    hours = max(wall, 1e-9) / 3600.0
    done = sum(v for k, v in agg.items() if k in ('ok', 'skip', 'violation', 'error'))
    nontrivial = len(scheds)
    ev = {
        'property': prop, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': done,
            'distinct_nontrivial': nontrivial,
            'rule': mod.RULE + ' Distinct: by hash of the complete event log (schedule, messages, file operations) of the '
                               'run together with its storage operation log.',
            'samples': samples,
            'outcomes': dict(agg),
            'per_scenario': {k: dict(v) for k, v in per.items()},
            'runs_per_hour': round(done / hours),
            'seeds_per_hour': round(done / hours),
            'simulated_seconds': round(sim_ns[0] / 1e9, 3),
            'faults_injected': dict(fired),
            'probes_reached': dict(probes),
            'kernel': {k: v for k, v in stats.items()},
            'distinct_schedules': len(set(s for s, _ in scheds)),
            'determinism': det,
            'known_findings_hit': {k: v[0] for k, v in known_hit.items()},
            'components_real': mod.REAL,
            'components_stub': mod.STUB,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': nviol,
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
    print('property={} tier={} runs={} ok={} skip={} known={} violations={} errors={} wall={:.1f}s runs/h={} sim={:.1f}s '
          'distinct={} determinism={}'.format(prop, a.tier, done, agg['ok'], agg['skip'], agg['known'], nviol, len(errors), wall,
                                              round(done / hours), sim_ns[0] / 1e9, nontrivial, det))
    for n, c in sorted(per.items()):
        print('  {:<28} {}'.format(n, dict(c)))
    if fired:
        print('  faults: ' + ', '.join('{}={}'.format(k, v) for k, v in sorted(fired.items())))
    if probes:
        print('  probes: ' + ', '.join('{}={}'.format(k, v) for k, v in sorted(probes.items())))
    for l in lines:
        print(l)
    sys.stdout.flush()
    if rc == 0 and errors:
        return 2
    return rc


def report(pool, mod, by_name, i, r, a):
    """Minimise and write the replay file."""
    prop = mod.PROPERTY
    sc = by_name[r['scenario']]
    choices = list(r.get('choices') or [])
    tried = 0
    budget = 0 if a.no_min else (45 if a.tier == 'quick' else 240)
    if choices and budget and r['kind'] not in ('process-crash', 'wall-timeout'):
        choices, tried = minimise(pool, sc, r['seed'], r, budget)
    out = []
    replayable = r['kind'] not in ('process-crash', 'wall-timeout')
    pool.run_many([(0, sc, r['seed'], choices if replayable else None, True)], lambda k, x: out.append(x))
    f = out[0]
    if replayable and f.get('status') != 'violation':
        # Minimised trace did not reproduce (cannot happen if the run is deterministic): fall back on the original.
        choices = r['choices']
        out = []
        pool.run_many([(0, sc, r['seed'], choices, True)], lambda k, x: out.append(x))
        f = out[0]
    doc = {'property': prop, 'scenario': sc.name, 'seed': r['seed'], 'seed_index': i,
           'choices': choices if replayable else None,
           'original_choices': len(r.get('choices') or []), 'nonzero_choices': sum(1 for c in choices if c),
           'minimiser_runs': tried,
           'violation': {'kind': f.get('kind', r['kind']), 'detail': f.get('detail', r['detail'])},
           'digest': f.get('digest'), 'params': f.get('params'), 'faults_injected': f.get('fired'),
           'trace': [[n, t[-300:]] for n, t in f.get('trace', [])]}
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '{}-{}-{}.json'.format(prop, sc.name, r['seed']))
    with open(path, 'w') as fo:
        json.dump(doc, fo, indent=1, default=str)
    return path


def do_replay(pool, by_name, path, prop):
    with open(path) as f:
        doc = json.load(f)
    out = []
    pool.run_many([(0, by_name[doc['scenario']], doc['seed'], doc['choices'], True)], lambda k, x: out.append(x))
    r = out[0]
    if r.get('status') in ('died', 'timeout'):
        r['kind'] = {'died': 'process-crash', 'timeout': 'wall-timeout'}[r['status']]
        r['status'] = 'violation'
        r['detail'] = ''
    for n, tr in r.get('trace', []):
        print('--', n)
        for l in tr[-120:]:
            print('  ', l)
    same = r.get('status') == 'violation' and r.get('kind') == doc['violation']['kind']
    print('replay status={} kind={} same={} digest_equal={}'.format(r.get('status'), r.get('kind'), same,
                                                                   r.get('digest') == doc.get('digest')))
    print(r.get('detail'))
    if r.get('status') == 'violation':
        print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    return 0
