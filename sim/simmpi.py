"""A simulated MPI library behind the ``mpi4py`` import seam.

It implements exactly what the MPI standard promises and no more, so that any behaviour it shows is one a conforming
implementation may show:

* messages are pickled / copied; delivery takes (virtual) time and is ordered per (source, destination, communicator);
* a standard-mode send may complete at once (eager) or only when matched (rendezvous);
* MPI_Test may report "not yet" for a message that was already sent; a message may arrive between Test and Cancel;
* only Barrier (and communicator creation) synchronises: the root of a bcast and the non-roots of a gather or reduce may
  leave early;
* collectives on one communicator must be called in the same order with the same root by all its ranks;
* using a null or freed communicator is an error.
"""
import sys
import pickle
import types
import weakref

import numpy as np

from sim.kernel import Kernel, Violation, current_task, HarnessError

ANY_SOURCE = -1
ANY_TAG = -1
PROC_NULL = -2
IRECV_PICKLE_BUFFER = 32768


class Exception_(RuntimeError):
    def __init__(self, msg='MPI error'):
        super(Exception_, self).__init__(msg)


Exception_.__name__ = 'Exception'
Exception_.__qualname__ = 'Exception'


class Datatype(object):
    def __init__(self, name, size):
        self.name = name
        self.size = size

    def Get_size(self):
        return self.size


class Op(object):
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __call__(self, a, b):
        return self.fn(a, b)


def _sum(a, b):
    return a + b


def _min(a, b):
    return b if b < a else a


def _max(a, b):
    return b if b > a else a


def _prod(a, b):
    return a * b


def _land(a, b):
    return bool(a) and bool(b)


def _lor(a, b):
    return bool(a) or bool(b)


class Group(object):
    def __init__(self, granks):
        self._granks = tuple(granks)
        self._freed = False

    def Incl(self, ranks):
        if self._freed:
            raise Exception_('MPI_ERR_GROUP: invalid group')
        ranks = list(ranks)
        if len(set(ranks)) != len(ranks) or any(r < 0 or r >= len(self._granks) for r in ranks):
            raise Exception_('MPI_ERR_RANK: invalid rank')
        return Group([self._granks[r] for r in ranks])

    def Excl(self, ranks):
        return Group([g for i, g in enumerate(self._granks) if i not in set(ranks)])

    def Get_size(self):
        return len(self._granks)

    size = property(Get_size)

    def Free(self):
        if self._freed:
            raise Exception_('MPI_ERR_GROUP: invalid group')
        self._freed = True


def unwinding():
    """Describe the exception being propagated while a scope is left."""
    e = sys.exc_info()[1]
    if e is None:
        return ''
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    f = tb.tb_frame.f_code.co_filename
    return ' (leaving on {}: {!s:.200} at {}:{})'.format(type(e).__name__, e, f[f.find('ocgis/'):] if 'ocgis/' in f else f, tb.tb_lineno)


class CommShared(object):
    """State of one communicator, shared by its ranks."""

    def __init__(self, job, granks, cid, origin):
        self.job = job
        self.granks = tuple(granks)
        self.cid = cid
        self.origin = origin
        self.colls = {}
        self.seq = {g: 0 for g in self.granks}
        self.freed_by = set()
        self.posted = {g: [] for g in self.granks}  # receives by destination
        self.in_flight = {}
        self.arrived = {g: [] for g in self.granks}  # unexpected messages by destination
        self.last_due = {}


class Coll(object):
    def __init__(self, kind, root, first):
        self.kind = kind
        self.root = root
        self.first = first
        self.data = {}
        self.left = set()
        self.out = None
        self.extra = None


class Message(object):
    def __init__(self, src, dst, tag, payload, lazy=None, eager=True):
        self.src = src
        self.dst = dst
        self.tag = tag
        self.payload = payload
        self.lazy = lazy
        self.eager = eager
        self.matched = False


class Recv(object):
    def __init__(self, src, tag, sink, capacity):
        self.src = src
        self.tag = tag
        self.sink = sink
        self.capacity = capacity
        self.msg = None
        self.cancelled = False
        self.error = None

    def matches(self, m):
        return (self.src == ANY_SOURCE or self.src == m.src) and (self.tag == ANY_TAG or self.tag == m.tag)


class Job(object):
    """All MPI state of one simulated job."""

    def __init__(self, kernel, size, delay_prob=0.5, rndv_prob=0.0, early_prob=0.5, lazy_read=False):
        self.kernel = kernel
        self.size = size
        self.ncomm = 0
        self.comms = []
        self.delay_prob = delay_prob
        self.rndv_prob = rndv_prob
        self.early_prob = early_prob
        self.lazy_read = lazy_read
        self.world = self.new_comm(range(size), 'world')
        self.stats = {}

    def new_comm(self, granks, origin):
        c = CommShared(self, granks, self.ncomm, origin)
        self.ncomm += 1
        self.comms.append(c)
        return c

    def stat(self, name):
        self.stats[name] = self.stats.get(name, 0) + 1

    def leaked(self):
        """Communicators created by the program and not freed by some live member."""
        out = []
        for c in self.comms[1:]:
            missing = [g for g in c.granks if g not in c.freed_by]
            if missing:
                out.append((c.cid, c.granks, tuple(missing), c.origin))
        return out

    def undelivered(self):
        out = []
        for c in self.comms:
            for g in c.granks:
                for m in c.arrived[g]:
                    out.append((c.cid, m.src, m.dst, m.tag))
        return out


def _job():
    k = Kernel.active
    if k is None:
        return None
    return k.job


class Status(object):
    def __init__(self):
        self.source = None
        self.tag = None

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class Request(object):
    def __init__(self, comm=None, recv=None, msg=None, pickled=False, keep=None):
        self._comm = comm
        self._recv = recv
        self._msg = msg
        self._pickled = pickled
        self._keep = keep
        self._null = recv is None and msg is None

    def _complete(self):
        if self._null:
            return True
        if self._recv is not None:
            return self._recv.msg is not None or self._recv.cancelled
        return self._msg.eager or self._msg.matched

    def _result(self):
        r = self._recv
        self._null = True
        self._keep = None
        if r is None:
            return None
        if r.error is not None:
            raise Exception_(r.error)
        if r.cancelled:
            return None
        if self._pickled:
            return pickle.loads(r.msg.payload)
        return None

    def test(self, status=None):
        k = Kernel.active
        k.yield_('MPI_Test')
        if self._null:
            return True, None
        if self._complete():
            return True, self._result()
        k.job.stat('test_false')
        k.poll_miss()
        return False, None

    def Test(self, status=None):
        return self.test(status)[0]

    def wait(self, status=None):
        k = Kernel.active
        k.yield_('MPI_Wait')
        if self._null:
            return None
        what = 'receive from {} tag {}'.format(self._recv.src, self._recv.tag) if self._recv is not None else \
            'send to {} tag {}'.format(self._msg.dst, self._msg.tag)
        if not self._complete():
            k.wait(self._complete, 'MPI_Wait({})'.format(what))
        return self._result()

    def Wait(self, status=None):
        self.wait(status)
        return True

    def Cancel(self):
        k = Kernel.active
        k.yield_('MPI_Cancel')
        if self._null:
            raise Exception_('MPI_ERR_REQUEST: invalid request')
        if self._recv is not None and self._recv.msg is None:
            self._recv.cancelled = True
            posted = self._comm._s.posted[self._comm._g]
            if self._recv in posted:
                posted.remove(self._recv)
            k.event('cancel ok src {} tag {}'.format(self._recv.src, self._recv.tag))
        else:
            k.job.stat('cancel_too_late')
            k.event('cancel too late')

    def cancel(self):
        self.Cancel()

    def Free(self):
        if self._null:
            raise Exception_('MPI_ERR_REQUEST: invalid request')
        self._null = True
        self._keep = None

    def free(self):
        self.Free()

    @staticmethod
    def Waitall(requests, statuses=None):
        for r in requests:
            r.wait()
        return True

    @staticmethod
    def waitall(requests, statuses=None):
        return [r.wait() for r in requests]

    @staticmethod
    def Testall(requests, statuses=None):
        k = Kernel.active
        k.yield_('MPI_Testall')
        if all(r._complete() for r in requests):
            for r in requests:
                if not r._null:
                    r._result()
            return True
        k.poll_miss()
        return False

    def __bool__(self):
        return not self._null


def _bufinfo(buf):
    """(writable byte view, array) for [array], [array, type], (array, count, type) or array."""
    if isinstance(buf, (list, tuple)):
        arr = buf[0]
        if len(buf) > 1 and buf[-1] is None:
            raise TypeError('message: expecting datatype')
    else:
        arr = buf
    arr = np.asanyarray(arr)
    if not arr.flags.c_contiguous:
        raise BufferError('ndarray is not C-contiguous')
    if arr.dtype.hasobject:
        raise TypeError('message: cannot handle object arrays')
    nbytes = arr.nbytes
    if isinstance(buf, (list, tuple)) and len(buf) == 3 and isinstance(buf[1], int):
        nbytes = buf[1] * buf[2].size
        if nbytes > arr.nbytes:
            raise ValueError('message: buffer too small for requested count')
    return arr, nbytes


class Comm(object):
    def __init__(self, shared=None, g=None):
        self._s = shared
        self._g = g
        if shared is not None:
            self._r = shared.granks.index(g)

    # -- identity ------------------------------------------------------------------------------------------------
    def __eq__(self, other):
        if not isinstance(other, Comm):
            return NotImplemented
        return self._s is other._s and (self._s is None or self._g == other._g)

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return id(self._s)

    def __bool__(self):
        return self._s is not None

    def __reduce__(self):
        raise TypeError('cannot pickle a communicator')

    def __repr__(self):
        return '<simulated communicator {}>'.format('null' if self._s is None else self._s.cid)

    def _check(self):
        if self._s is None:
            raise Exception_('MPI_ERR_COMM: invalid communicator')
        k = Kernel.active
        if k is None:
            raise HarnessError('communication outside of a simulated job')
        t = current_task()
        if t is None or t.rank != self._g or self._s.job is not k.job:
            raise HarnessError('communicator of rank {} used by {}'.format(self._g, t))
        return k

    def Get_rank(self):
        if self._s is None:
            raise Exception_('MPI_ERR_COMM: invalid communicator')
        return self._r

    def Get_size(self):
        if self._s is None:
            raise Exception_('MPI_ERR_COMM: invalid communicator')
        return len(self._s.granks)

    rank = property(Get_rank)
    size = property(Get_size)

    def Get_group(self):
        if self._s is None:
            raise Exception_('MPI_ERR_COMM: invalid communicator')
        return Group(self._s.granks)

    group = property(Get_group)

    # -- collectives ---------------------------------------------------------------------------------------------
    def _enter(self, kind, root, data):
        k = self._check()
        s = self._s
        size = len(s.granks)
        if root is not None and not (0 <= root < size):
            raise Exception_('MPI_ERR_ROOT: invalid root')
        k.yield_(kind)
        seq = s.seq[self._g]
        s.seq[self._g] = seq + 1
        c = s.colls.get(seq)
        note = unwinding() if kind == 'Comm_free' else ''
        k.current.note = note
        if c is None:
            c = s.colls[seq] = Coll(kind, root, self._g)
            c.note = note
        elif c.kind != kind or c.root != root:
            raise Violation('collective-mismatch',
                            'communicator {} ({}): call {} is {}(root={}) on rank {}{} but {}(root={}) on rank {}{}'.format(
                                s.cid, s.granks, seq, c.kind, c.root, c.first, c.note, kind, root, self._g, note))
        c.data[self._r] = data
        k.job.stat(kind)
        k.event('{} comm {} #{} root {}'.format(kind, s.cid, seq, root))
        k.progress()
        return k, s, c, seq, size

    def _leave(self, s, c, seq, size):
        c.left.add(self._r)
        if len(c.left) == size:
            s.colls.pop(seq, None)

    def _may_leave_early(self, k):
        e = k.ch.flag('early', k.job.early_prob)
        if e:
            k.fault('early_collective_exit')
        return e

    def Barrier(self):
        k, s, c, seq, size = self._enter('Barrier', None, None)
        if len(c.data) < size:
            k.wait(lambda: len(c.data) == size, 'Barrier(comm {} #{})'.format(s.cid, seq))
        self._leave(s, c, seq, size)

    barrier = Barrier

    def bcast(self, obj=None, root=0):
        pre = None
        if self._s is not None and self._r == root:
            pre = pickle.dumps(obj, protocol=4)
        k, s, c, seq, size = self._enter('bcast', root, None)
        if self._r == root:
            c.out = pre
            if size > 1 and not self._may_leave_early(k):
                k.wait(lambda: len(c.data) == size, 'bcast-root(comm {} #{})'.format(s.cid, seq))
        elif c.out is None:
            k.wait(lambda: c.out is not None, 'bcast(comm {} #{} root {})'.format(s.cid, seq, root))
        ret = pickle.loads(c.out)
        self._leave(s, c, seq, size)
        return ret

    def gather(self, sendobj, root=0):
        k, s, c, seq, size = self._enter('gather', root, pickle.dumps(sendobj, protocol=4))
        ret = None
        if self._r == root:
            if len(c.data) < size:
                k.wait(lambda: len(c.data) == size, 'gather-root(comm {} #{})'.format(s.cid, seq))
            ret = [pickle.loads(c.data[r]) for r in range(size)]
        elif not self._may_leave_early(k):
            k.wait(lambda: root in c.data, 'gather(comm {} #{} root {})'.format(s.cid, seq, root))
        self._leave(s, c, seq, size)
        return ret

    def allgather(self, sendobj):
        k, s, c, seq, size = self._enter('allgather', None, pickle.dumps(sendobj, protocol=4))
        k.wait(lambda: len(c.data) == size, 'allgather(comm {} #{})'.format(s.cid, seq))
        ret = [pickle.loads(c.data[r]) for r in range(size)]
        self._leave(s, c, seq, size)
        return ret

    def scatter(self, sendobj=None, root=0):
        pre = None
        if self._s is not None and self._r == root:
            sendobj = list(sendobj)
            if len(sendobj) != len(self._s.granks):
                raise ValueError('expecting {} items, got {}'.format(len(self._s.granks), len(sendobj)))
            pre = [pickle.dumps(o, protocol=4) for o in sendobj]
        k, s, c, seq, size = self._enter('scatter', root, None)
        if self._r == root:
            c.out = pre
            if size > 1 and not self._may_leave_early(k):
                k.wait(lambda: len(c.data) == size, 'scatter-root(comm {} #{})'.format(s.cid, seq))
        elif c.out is None:
            k.wait(lambda: c.out is not None, 'scatter(comm {} #{} root {})'.format(s.cid, seq, root))
        ret = pickle.loads(c.out[self._r])
        self._leave(s, c, seq, size)
        return ret

    def reduce(self, sendobj, op=None, root=0):
        op = SUM if op is None else op
        k, s, c, seq, size = self._enter('reduce:' + op.name, root, pickle.dumps(sendobj, protocol=4))
        ret = None
        if self._r == root:
            if len(c.data) < size:
                k.wait(lambda: len(c.data) == size, 'reduce-root(comm {} #{})'.format(s.cid, seq))
            vals = [pickle.loads(c.data[r]) for r in range(size)]
            ret = vals[0]
            for v in vals[1:]:
                ret = op(ret, v)
        elif not self._may_leave_early(k):
            k.wait(lambda: root in c.data, 'reduce(comm {} #{} root {})'.format(s.cid, seq, root))
        self._leave(s, c, seq, size)
        return ret

    def allreduce(self, sendobj, op=None):
        op = SUM if op is None else op
        vals = self.allgather(sendobj)
        ret = vals[0]
        for v in vals[1:]:
            ret = op(ret, v)
        return ret

    def alltoall(self, sendobj):
        vals = self.allgather(sendobj)
        return [v[self._r] for v in vals]

    def Create(self, group):
        k, s, c, seq, size = self._enter('Comm_create', None, group._granks)
        if group._freed:
            raise Exception_('MPI_ERR_GROUP: invalid group')
        k.wait(lambda: len(c.data) == size, 'Comm_create(comm {} #{})'.format(s.cid, seq))
        if c.extra is None:
            distinct = set(c.data.values())
            if len(distinct) != 1:
                raise Violation('collective-mismatch',
                                'Comm_create called with different groups: {}'.format(sorted(c.data.items())))
            granks = c.data[self._r]
            c.extra = k.job.new_comm(granks, '{}#{}'.format(s.cid, seq)) if len(granks) else False
        shared = c.extra
        self._leave(s, c, seq, size)
        if not shared or self._g not in shared.granks:
            return Comm()
        return Intracomm(shared, self._g)

    def Dup(self):
        return self.Create(self.Get_group())

    def Split(self, color=0, key=0):
        vals = self.allgather((color, key, self._r))
        mine = sorted([(ky, r) for c, ky, r in vals if c == color])
        k, s, c, seq, size = self._enter('Comm_split', None, None)
        k.wait(lambda: len(c.data) == size, 'Comm_split')
        if c.extra is None:
            c.extra = {}
        if color not in c.extra:
            c.extra[color] = k.job.new_comm([s.granks[r] for _, r in mine], 'split')
        sh = c.extra[color]
        self._leave(s, c, seq, size)
        return Intracomm(sh, self._g)

    def Free(self):
        if self._s is None:
            raise Exception_('MPI_ERR_COMM: invalid communicator')
        if self._s.cid == 0:
            raise Exception_('MPI_ERR_COMM: cannot free MPI_COMM_WORLD')
        t = current_task()
        if t is None or Kernel.active is None or self._s.job is not Kernel.active.job:
            # Interpreter clean-up outside of the job (garbage collection): nothing to synchronise with.
            self._s = None
            return
        k, s, c, seq, size = self._enter('Comm_free', None, None)
        s.freed_by.add(self._g)
        self._leave(s, c, seq, size)
        self._s = None

    def Abort(self, errorcode=0):
        k = self._check()
        k.abort_code = errorcode
        k.stop_job('MPI_Abort({}) by rank {}'.format(errorcode, self._g))

    # -- point to point ------------------------------------------------------------------------------------------
    def _post_send(self, k, m, label):
        s = self._s
        job = k.job
        if not (0 <= m.dst < len(s.granks)):
            raise Exception_('MPI_ERR_RANK: invalid rank')
        if m.tag < 0:
            raise Exception_('MPI_ERR_TAG: invalid tag')
        if job.rndv_prob and k.ch.flag('rndv', job.rndv_prob):
            m.eager = False
            k.fault('rendezvous_send')
        elif m.lazy is not None:
            m.payload = m.lazy()
            m.lazy = None
        lat = 0
        if job.delay_prob and k.ch.flag('delay', job.delay_prob):
            lat = (30, 300, 5000, 80000)[k.ch.choose(4, 'latency')] * 1000
            k.fault('message_delay')
        due = max(k.now + lat, s.last_due.get((self._g, m.dst), 0))
        s.last_due[(self._g, m.dst)] = due
        k.event('{} {}->{} tag {} comm {} {}'.format(label, m.src, m.dst, m.tag, s.cid, 'eager' if m.eager else 'rndv'))
        dst_g = s.granks[m.dst]

        pair = (self._g, m.dst)

        def _deliver():
            s.in_flight[pair] -= 1
            _arrive()

        def _arrive():
            for r in s.posted[dst_g]:
                if r.matches(m):
                    s.posted[dst_g].remove(r)
                    _match(r, m, job)
                    return
            s.arrived[dst_g].append(m)

        # Messages of one pair never overtake each other.
        if due <= k.now and not s.in_flight.get(pair):
            _arrive()
            k.progress()
        else:
            s.in_flight[pair] = s.in_flight.get(pair, 0) + 1
            k.at(max(due - k.now, 0), _deliver)
        job.stat('send')

    def _post_recv(self, k, r):
        s = self._s
        if r.src != ANY_SOURCE and not (0 <= r.src < len(s.granks)):
            raise Exception_('MPI_ERR_RANK: invalid rank')
        q = s.arrived[self._g]
        cands = [m for m in q if r.matches(m)]
        if r.src == ANY_SOURCE and len(cands) > 1:
            # A wildcard receive may match the first message of any source.
            firsts, seen = [], set()
            for m in cands:
                if m.src not in seen:
                    seen.add(m.src)
                    firsts.append(m)
            cands = [firsts[k.ch.choose(len(firsts), 'anysource')]]
        if cands:
            m = cands[0]
            q.remove(m)
            _match(r, m, k.job)
        else:
            s.posted[self._g].append(r)
        k.event('recv src {} tag {} comm {}'.format(r.src, r.tag, s.cid))

    def send(self, obj, dest, tag=0):
        k = self._check()
        k.yield_('send')
        m = Message(self._r, dest, int(tag), pickle.dumps(obj, protocol=4))
        self._post_send(k, m, 'send')
        if not m.eager:
            k.wait(lambda: m.matched, 'send(to {} tag {} comm {})'.format(dest, int(tag), self._s.cid))

    def isend(self, obj, dest, tag=0):
        k = self._check()
        k.yield_('isend')
        holder = _Buffer(pickle.dumps(obj, protocol=4))
        m = Message(self._r, dest, int(tag), None, lazy=_weak_reader(holder, k))
        self._post_send(k, m, 'isend')
        return Request(comm=self, msg=m, keep=holder)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        k = self._check()
        k.yield_('recv')
        r = Recv(source, int(tag), None, None)
        self._post_recv(k, r)
        if r.msg is None:
            k.wait(lambda: r.msg is not None, 'recv(from {} tag {} comm {})'.format(source, int(tag), self._s.cid))
        if status is not None:
            status.source, status.tag = r.msg.src, r.msg.tag
        return pickle.loads(r.msg.payload)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        k = self._check()
        k.yield_('irecv')
        cap = IRECV_PICKLE_BUFFER if buf is None else (buf if isinstance(buf, int) else len(buf))
        r = Recv(source, int(tag), None, cap)
        self._post_recv(k, r)
        return Request(comm=self, recv=r, pickled=True)

    def Send(self, buf, dest, tag=0):
        k = self._check()
        k.yield_('Send')
        arr, n = _bufinfo(buf)
        m = Message(self._r, dest, int(tag), arr.tobytes()[:n])
        self._post_send(k, m, 'Send')
        if not m.eager:
            k.wait(lambda: m.matched, 'Send(to {} tag {} comm {})'.format(dest, int(tag), self._s.cid))

    def Isend(self, buf, dest, tag=0):
        k = self._check()
        k.yield_('Isend')
        arr, n = _bufinfo(buf)
        holder = _Buffer(arr)
        m = Message(self._r, dest, int(tag), None, lazy=_weak_reader(holder, k, n))
        self._post_send(k, m, 'Isend')
        return Request(comm=self, msg=m, keep=holder)

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        k = self._check()
        k.yield_('Recv')
        arr, n = _bufinfo(buf)
        r = Recv(source, int(tag), arr, n)
        self._post_recv(k, r)
        if r.msg is None:
            k.wait(lambda: r.msg is not None, 'Recv(from {} tag {} comm {})'.format(source, int(tag), self._s.cid))
        if status is not None:
            status.source, status.tag = r.msg.src, r.msg.tag
        if r.error is not None:
            raise Exception_(r.error)

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        k = self._check()
        k.yield_('Irecv')
        arr, n = _bufinfo(buf)
        r = Recv(source, int(tag), arr, n)
        self._post_recv(k, r)
        return Request(comm=self, recv=r, keep=arr)

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        q = self.isend(sendobj, dest, sendtag)
        ret = self.recv(source=source, tag=recvtag, status=status)
        q.wait()
        return ret

    def _iprobe(self, source, tag, status):
        k = self._check()
        k.yield_('Iprobe')
        probe = Recv(source, int(tag), None, None)
        for m in self._s.arrived[self._g]:
            if probe.matches(m):
                if status is not None:
                    status.source, status.tag = m.src, m.tag
                return True
        k.poll_miss()
        return False

    def Iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return self._iprobe(source, tag, status)

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return self._iprobe(source, tag, status)

    def Probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        k = self._check()
        k.yield_('Probe')
        probe = Recv(source, int(tag), None, None)
        q = self._s.arrived[self._g]
        k.wait(lambda: any(probe.matches(m) for m in q), 'Probe')
        if status is not None:
            m = [m for m in q if probe.matches(m)][0]
            status.source, status.tag = m.src, m.tag
        return True

    probe = Probe

    # Buffer collectives used through the object path.
    def Bcast(self, buf, root=0):
        arr, n = _bufinfo(buf)
        out = self.bcast(arr.copy() if self._r == root else None, root=root)
        if self._r != root:
            arr[...] = out

    def Allreduce(self, sendbuf, recvbuf, op=None):
        arr, n = _bufinfo(sendbuf)
        out, _ = _bufinfo(recvbuf)
        vals = self.allgather(arr.copy())
        o = {'SUM': np.add, 'MIN': np.minimum, 'MAX': np.maximum}[(op or SUM).name]
        acc = vals[0]
        for v in vals[1:]:
            acc = o(acc, v)
        out[...] = acc


class Intracomm(Comm):
    pass


class _Buffer(object):
    __slots__ = ('data', '__weakref__')

    def __init__(self, data):
        self.data = data


def _weak_reader(holder, k, n=None):
    """Read a non-blocking send's buffer when the library gets round to it. Dropping the request before completion hands
    the buffer back to the allocator: what is sent then is undefined."""
    ref = weakref.ref(holder)
    if not k.job.lazy_read:
        strong = holder
        ref = lambda: strong

    def _read():
        h = ref()
        if h is None:
            raise Violation('send-buffer-released',
                            'a non-blocking send was still in progress when its request and buffer were dropped')
        if isinstance(h.data, bytes):
            return h.data
        b = h.data.tobytes()
        return b if n is None else b[:n]

    return _read


def _match(r, m, job):
    if m.lazy is not None:
        m.payload = m.lazy()
        m.lazy = None
    m.matched = True
    r.msg = m
    job.stat('match')
    if r.capacity is not None and len(m.payload) > r.capacity:
        r.error = 'MPI_ERR_TRUNCATE: message truncated'
        return
    if r.sink is not None:
        flat = r.sink.view(np.uint8).reshape(-1)
        flat[:len(m.payload)] = np.frombuffer(m.payload, dtype=np.uint8)


SUM = Op('SUM', _sum)
MIN = Op('MIN', _min)
MAX = Op('MAX', _max)
PROD = Op('PROD', _prod)
LAND = Op('LAND', _land)
LOR = Op('LOR', _lor)


class WorldComm(Intracomm):
    """MPI_COMM_WORLD of one rank's process: bound to whichever job is running when it is used."""

    def __init__(self, rank, size):
        self._g = rank
        self._r = rank
        self._size = size

    @property
    def _s(self):
        j = _job()
        if j is None or j.size != self._size:
            return _IDLE.setdefault(self._size, _Idle(self._size))
        return j.world

    def __hash__(self):
        return hash(('world', self._size))

    def Get_size(self):
        return self._size

    size = property(Get_size)


class _Idle(object):
    def __init__(self, size):
        self.granks = tuple(range(size))
        self.cid = 0
        self.job = None


_IDLE = {}


def make_mpi4py(rank, size):
    """Module objects ``mpi4py`` and ``mpi4py.MPI`` as seen by one simulated rank."""
    pkg = types.ModuleType('mpi4py')
    pkg.__path__ = []
    pkg.__version__ = '4.1.2'
    MPI = types.ModuleType('mpi4py.MPI')
    pkg.MPI = MPI
    MPI.COMM_WORLD = WorldComm(rank, size)
    MPI.COMM_NULL = Comm()
    MPI.Comm = Comm
    MPI.Intracomm = Intracomm
    MPI.Request = Request
    MPI.Status = Status
    MPI.Group = Group
    MPI.Exception = Exception_
    MPI.ANY_SOURCE = ANY_SOURCE
    MPI.ANY_TAG = ANY_TAG
    MPI.PROC_NULL = PROC_NULL
    MPI.Op = Op
    for o in (SUM, MIN, MAX, PROD, LAND, LOR):
        setattr(MPI, o.name, o)
    for name, sz in (('INT', 4), ('LONG', 8), ('LONG_LONG', 8), ('INT64_T', 8), ('INT32_T', 4), ('DOUBLE', 8),
                     ('FLOAT', 4), ('BYTE', 1), ('BOOL', 1), ('CHAR', 1), ('SHORT', 2), ('UINT64_T', 8),
                     ('C_BOOL', 1)):
        setattr(MPI, name, Datatype(name, sz))
    MPI.Get_processor_name = lambda: 'sim'
    MPI.Is_initialized = lambda: True
    MPI.Is_finalized = lambda: False
    MPI.Wtime = lambda: Kernel.active.now / 1e9 if Kernel.active else 0.0
    return {'mpi4py': pkg, 'mpi4py.MPI': MPI}
