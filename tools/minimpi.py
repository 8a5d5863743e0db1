"""A small message layer for demonstrations: n forked processes and one router; stands in for mpi4py."""
import os
import pickle
import sys
import time
import traceback
import types
from multiprocessing import Pipe
from multiprocessing.connection import wait

import numpy as np

ANY_SOURCE = -1
ANY_TAG = -1
COMM_NULL = None
_link = None
_delay = 0


class Status(object):
    source = tag = None

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class Group(object):
    def __init__(self, ranks):
        self.ranks = list(ranks)

    def Incl(self, ranks):
        return Group([self.ranks[r] for r in ranks])

    def Free(self):
        pass


class Request(object):
    def __init__(self, comm=None, key=None, buf=None):
        self.comm, self.key, self.buf = comm, key, buf
        self.done = key is None
        self.value = None

    def _take(self, block):
        if self.done:
            return True
        ok, msg = self.comm._ask('recv' if block else 'probe', self.key)
        if not ok:
            return False
        self.done = True
        self.value = msg[2]
        if self.buf is not None:
            _fill(self.buf, self.value)
        return True

    def test(self, status=None):
        ok = self._take(False)
        return ok, self.value if ok else None

    def wait(self, status=None):
        self._take(True)
        return self.value

    def Test(self, status=None):
        return self._take(False)

    def Wait(self, status=None):
        self._take(True)
        return True

    def Cancel(self):
        self.done = True

    cancel = Cancel

    def Free(self):
        pass

    @staticmethod
    def Waitall(reqs, statuses=None):
        for r in reqs:
            r.Wait()

    waitall = Waitall


def _arr(buf):
    return buf[0] if isinstance(buf, (list, tuple)) else buf


def _fill(buf, value):
    a = _arr(buf)
    v = np.frombuffer(value, dtype=a.dtype)
    a.ravel()[:v.size] = v if a.flags.contiguous else v
    if not np.shares_memory(a.ravel(), a):
        a[...] = v.reshape(a.shape)


class Comm(object):
    def __init__(self, cid, ranks, me):
        self.cid, self.ranks, self.me, self.seq = cid, list(ranks), me, 0

    def _ask(self, *msg):
        if _delay:
            time.sleep(_delay)
        _link.send((self.cid,) + msg)
        ret = _link.recv()
        if isinstance(ret, Exception):
            raise ret
        return ret

    def __eq__(self, other):
        return isinstance(other, Comm) and other.cid == self.cid

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.cid)

    def Get_rank(self):
        return self.ranks.index(self.me)

    def Get_size(self):
        return len(self.ranks)

    rank = property(Get_rank)
    size = property(Get_size)

    def Get_group(self):
        return Group(self.ranks)

    def _coll(self, kind, root, data):
        self.seq += 1
        return self._ask('coll', (kind, root), pickle.dumps(data), self.seq, len(self.ranks), self.Get_rank())

    def Barrier(self):
        self._coll('Barrier', None, None)

    barrier = Barrier

    def gather(self, obj, root=0):
        out = self._coll('gather', root, obj)
        return [pickle.loads(x) for x in out] if self.Get_rank() == root else None

    def allgather(self, obj):
        return [pickle.loads(x) for x in self._coll('allgather', None, obj)]

    def bcast(self, obj=None, root=0):
        return pickle.loads(self._coll('bcast', root, obj if self.Get_rank() == root else None)[root])

    def scatter(self, obj=None, root=0):
        return pickle.loads(self._coll('scatter', root, obj)[root])[self.Get_rank()]

    def reduce(self, obj, op=None, root=0):
        vals = [pickle.loads(x) for x in self._coll('reduce', root, obj)]
        if self.Get_rank() != root:
            return None
        out = vals[0]
        for v in vals[1:]:
            out = op(out, v)
        return out

    def allreduce(self, obj, op=None):
        return self.bcast(self.reduce(obj, op=op))

    def Create(self, group):
        out = self._coll('Create', None, list(group.ranks))
        ranks = pickle.loads(out[0])
        if self.me not in ranks:
            return COMM_NULL_
        return Comm(self.cid + ((self.seq,) + tuple(ranks),), ranks, self.me)

    def Free(self):
        self._coll('Free', None, None)

    def Abort(self, code=1):
        os._exit(70)

    def send(self, obj, dest, tag=0):
        self._ask('send', (self.Get_rank(), dest, tag), pickle.loads(pickle.dumps(obj)))

    def isend(self, obj, dest, tag=0):
        self.send(obj, dest, tag)
        return Request()

    def Send(self, buf, dest, tag=0):
        self._ask('send', (self.Get_rank(), dest, tag), np.ascontiguousarray(_arr(buf)).tobytes())

    def Isend(self, buf, dest, tag=0):
        self.Send(buf, dest, tag)
        return Request()

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        _, (s, t, v) = self._ask('recv', (source, self.Get_rank(), tag))
        if status is not None:
            status.source, status.tag = s, t
        return v

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(self, (source, self.Get_rank(), tag))

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        _fill(buf, self.recv(None, source, tag, status))

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(self, (source, self.Get_rank(), tag), buf)


class _Null(Comm):
    def __init__(self):
        Comm.__init__(self, ('null',), [], None)


COMM_NULL_ = _Null()


class Op(object):
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, a, b):
        return self.fn(a, b)


def _install(rank, size):
    m = types.ModuleType('mpi4py')
    p = types.ModuleType('mpi4py.MPI')
    p.COMM_WORLD = Comm((), range(size), rank)
    p.COMM_NULL = COMM_NULL_
    p.INT, p.LONG_LONG, p.LONG, p.DOUBLE, p.FLOAT = 'i4', 'i8', 'i8', 'f8', 'f4'
    p.SUM, p.MIN, p.MAX = Op(lambda a, b: a + b), Op(min), Op(max)
    p.ANY_SOURCE, p.ANY_TAG, p.Status, p.Request, p.Comm = ANY_SOURCE, ANY_TAG, Status, Request, Comm
    m.MPI = p
    sys.modules['mpi4py'] = m
    sys.modules['mpi4py.MPI'] = p


def run(size, fn, args=(), timeout=120.0, delays=None):
    """Results of fn(rank, *args) on every rank; ``delays`` slows ranks down. Raises RuntimeError if a rank fails or the job does not finish."""
    assert 'ocgis' not in sys.modules, 'import ocgis in the ranks only'
    links, pids = [], []
    for r in range(size):
        a, b = Pipe()
        pid = os.fork()
        if pid == 0:
            global _link, _delay
            _link = b
            _delay = (delays or {}).get(r, 0)
            try:
                if size > 1:
                    _install(r, size)
                try:
                    res = ('ok', fn(r, *args))
                except BaseException:
                    res = ('error', traceback.format_exc())
                b.send(('__result__', res))
            finally:
                os._exit(0)
        links.append(a)
        pids.append(pid)
    try:
        res = _route(size, links, timeout)
    finally:
        for p in pids:
            try:
                os.kill(p, 9)
            except OSError:
                pass
            try:
                os.waitpid(p, 0)
            except OSError:
                pass
    bad = sorted([(i, r[1]) for i, r in enumerate(res) if r[0] != 'ok'], key=lambda x: x[1] == 'no result')
    if bad:
        raise RuntimeError('rank {} failed:\n{}'.format(*bad[0]))
    return [r[1] for r in res]


def _route(size, links, timeout):
    end = time.time() + timeout
    live = set(range(size))
    colls, mail, waiting = {}, {}, []
    results = [('error', 'no result')] * size

    def match(cid, key):
        s, d, t = key
        for i, m in enumerate(mail.get((cid, d), [])):
            if s in (ANY_SOURCE, m[0]) and t in (ANY_TAG, m[1]):
                return mail[(cid, d)].pop(i)

    while live:
        if time.time() > end:
            raise RuntimeError('the job did not finish (deadlock)')
        for l in wait([links[r] for r in live], timeout=0.5):
            r = links.index(l)
            try:
                msg = l.recv()
            except EOFError:
                msg = None
            if msg is None or msg[0] == '__result__':
                live.discard(r)
                if msg is not None:
                    results[r] = msg[1]
                    if msg[1][0] != 'ok':
                        return results
                continue
            cid, kind = msg[:2]
            if kind == 'coll':
                what, data, seq, n, me = msg[2:]
                c = colls.setdefault((cid, seq), {})
                c[me] = (what, data, l)
                if len(set(x[0] for x in c.values())) > 1:
                    raise RuntimeError('collective calls do not match: {}'.format(sorted(set(str(x[0]) for x in c.values()))))
                if len(c) == n:
                    out = [c[i][1] for i in range(n)]
                    for x in c.values():
                        x[2].send(out)
                    del colls[(cid, seq)]
            elif kind == 'send':
                (s, d, t), v = msg[2:]
                mail.setdefault((cid, d), []).append((s, t, v))
                l.send(None)
                for w in list(waiting):
                    m = match(w[0], w[1])
                    if m is not None:
                        waiting.remove(w)
                        w[2].send((True, m))
            else:
                m = match(cid, msg[2])
                if m is not None:
                    l.send((True, m))
                elif kind == 'probe':
                    l.send((False, None))
                else:
                    waiting.append((cid, msg[2], l))
    return results
