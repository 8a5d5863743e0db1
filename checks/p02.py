"""P02: every rank of a parallel job returns; collective operations match; no message is left over."""
import importlib
import os

from sim.harness import Scenario
from sim.kernel import Violation

PROPERTY = 'P02'
RULE = 'One evaluation is one simulated job of a parallel program under an adversarial schedule (stalled ranks, delayed, ' \
       'reordered and rendezvous messages, early exits of collectives); judged are completion within the step bound, matching ' \
       'collectives, send buffers and the messages left over.'
REAL = ['ocgis (all modules, one copy per rank)', 'numpy', 'netCDF4/HDF5', 'shapely/GEOS', 'fiona/GDAL']
STUB = ['mpi4py (simulated communicators, requests, collectives)', 'clock', 'process scheduler']
QUICK = {'runs': 2000, 'time': 450}
THOROUGH = {'runs': 60000, 'time': 3000}
OWN = ('deadlock', 'livelock', 'no-progress', 'collective-mismatch', 'send-buffer-released', 'rank-failure', 'stray-message')
WEIGHTS = {'p01': 2, 'p03': 2, 'p13': 3, 'p10': 2, 'p11': 2}


def swarm(c):
    return dict(delay_prob=c.pick('cfg.delay', (0.0, 0.3, 0.8)), rndv_prob=c.pick('cfg.rndv', (0.0, 0.5, 1.0)),
                early_prob=c.pick('cfg.early', (0.0, 0.5, 1.0)), stall_prob=c.pick('cfg.stall', (0.0, 0.05, 0.25)),
                text_buffer=8192)


def judged(fn):
    def scenario(ctx):
        ctx.swarm = swarm(ctx.ch)

        def after(out, size):
            if size == 1 or out.aborted or out.excs:
                return
            left = out.job.undelivered()
            ctx.require(not left, 'stray-message', 'messages sent and never received (communicator, source, destination, tag): {}'.format(left[:8]))
            ctx.probes['jobs completed'] += 1
            ctx.probes['collectives'] += sum(v for k, v in out.job.stats.items() if k != 'send')
            ctx.probes['messages'] += out.job.stats.get('send', 0)
        ctx.after_job = after
        try:
            fn(ctx)
        except Violation as e:
            if e.kind in OWN:
                raise
            # A matter of another property.
            ctx.probes['not judged: ' + e.kind] += 1
    return scenario


SCENARIOS = []
here = os.path.dirname(os.path.abspath(__file__))
for m in ('p01', 'p03', 'p04', 'p05', 'p10', 'p11', 'p13'):
    if not os.path.exists(os.path.join(here, m + '.py')):
        continue
    mod = importlib.import_module('checks.' + m)
    for s in mod.SCENARIOS:
        if getattr(s, 'parallel', True):
            SCENARIOS.append(Scenario(m + '_' + s.name, judged(s.fn), weight=s.weight * WEIGHTS.get(m, 1), sizes=s.sizes))
