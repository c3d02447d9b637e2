"""Instrumented vectors, handles, inner products and communicators: the
boundary at which executions of modred are observed."""
import time
import weakref

import numpy as np


class Live(object):
    """Counts live vector objects of this process."""

    def __init__(self):
        self.now = 0
        self.peak = 0
        self.created = 0
        self.on = True

    def add(self):
        self.now += 1
        self.created += 1
        if self.now > self.peak:
            self.peak = self.now

    def drop(self):
        self.now -= 1

    def reset(self):
        self.peak = self.now
        self.created = 0


LIVE = Live()


class MVec(object):
    """Vector object with value semantics: add, subtract, scalar multiply.
    Every instance is counted while alive, including ones received from other
    processes."""
    __array_ufunc__ = None      # numpy scalars defer to our operators

    def __init__(self, data):
        self.data = np.array(data)
        LIVE.add()

    def __del__(self):
        LIVE.drop()

    def __reduce__(self):
        return (type(self), (self.data,))

    def __deepcopy__(self, memo):
        return type(self)(self.data)

    def __copy__(self):
        return type(self)(self.data)

    def __add__(self, other):
        if not isinstance(other, MVec):
            return NotImplemented
        return type(self)(self.data + other.data)

    def __sub__(self, other):
        if not isinstance(other, MVec):
            return NotImplemented
        return type(self)(self.data - other.data)

    def __mul__(self, s):
        return type(self)(self.data * s)

    __rmul__ = __mul__

    def __neg__(self):
        return type(self)(-self.data)

    def __truediv__(self, s):
        return type(self)(self.data / s)

    def __eq__(self, other):
        return isinstance(other, MVec) and np.array_equal(self.data, other.data)

    __hash__ = None


class MVecI(MVec):
    """The same with true in-place addition."""

    def __iadd__(self, other):
        self.data = self.data + other.data
        return self


def raw(v):
    """ndarray content of a vector (MVec, user Vector subclass or ndarray)."""
    return np.array(v.data) if isinstance(v, MVec) else np.array(v)


def ip_for(W):
    """Inner product callable on MVec or ndarray: v1^* W v2 (W None, 1D, 2D)."""
    def ip(a, b):
        x = a.data if isinstance(a, MVec) else np.asarray(a)
        y = b.data if isinstance(b, MVec) else np.asarray(b)
        x, y = x.ravel(), y.ravel()
        if W is None:
            return np.vdot(x, y)
        if W.ndim == 1:
            return np.vdot(x, W * y)
        return np.vdot(x, W.dot(y))
    return ip


class Log(object):
    """Event log of one process; times come from the system-wide monotonic clock."""

    def __init__(self, rank):
        self.rank = rank
        self.events = []

    def add(self, kind, *what):
        self.events.append((time.monotonic(), self.rank, kind) + what)


class EvHandle(object):
    """Handle to a virtual disk: content is a plain array, every get makes a new
    vector object, every put stores a copy of the values.  All calls are logged."""

    def __init__(self, name, data, log, make=MVec, delay=None, hooks=None):
        self.name, self.data, self.log, self.make = name, data, log, make
        self.delay = delay
        self.hooks = hooks
        self.puts = 0
        self.gets = 0

    def get(self):
        if self.delay is not None:
            self.delay('get')
        if self.hooks is not None:
            self.hooks('get', self)
        self.gets += 1
        self.log.add('get', self.name)
        if self.data is None:
            raise RuntimeError('virtual file %s does not exist' % (self.name,))
        return self.make(self.data)

    def put(self, vec):
        if self.delay is not None:
            self.delay('put')
        if self.hooks is not None:
            self.hooks('put', self)
        self.puts += 1
        self.data = raw(vec)
        self.log.add('put', self.name)


class LoggedHandle(object):
    """Wraps a real modred handle and logs its gets and puts."""

    def __init__(self, name, inner, log, delay=None):
        self.name, self.inner, self.log, self.delay = name, inner, log, delay
        self.puts = 0
        self.gets = 0

    def get(self):
        if self.delay is not None:
            self.delay('get')
        self.gets += 1
        self.log.add('get', self.name)
        return self.inner.get()

    def put(self, vec):
        if self.delay is not None:
            self.delay('put')
        self.puts += 1
        self.log.add('put', self.name)
        return self.inner.put(vec)


def make_delay(rng, profile, rank, size):
    """Delay injector for one rank."""
    if profile == 'none':
        return None
    if profile == 'one-slow':
        slow = int(rng.integers(size))
        if rank != slow:
            return None
        return lambda what: time.sleep(0.004)
    if profile == 'random':
        r = np.random.default_rng([int(rng.integers(1 << 30)), rank])
        return lambda what: time.sleep(float(r.choice([0, 0, 0.001, 0.006])))
    if profile == 'ramp':
        return lambda what: time.sleep(0.0015 * rank)
    if profile == 'reverse-ramp':
        return lambda what: time.sleep(0.0015 * (size - 1 - rank))
    raise ValueError(profile)


PROFILES = ['none', 'one-slow', 'random', 'ramp', 'reverse-ramp']


class CommProxy(object):
    """Stands in for parallel.comm: forwards everything, counts messages, adds
    delays and turns buffered sends into synchronous ones (legal MPI behaviour
    for large messages, never guaranteed not to happen for small ones)."""

    def __init__(self, comm, delay=None, sync=False, log=None):
        self._c, self._d, self._s, self._l = comm, delay, sync, log

    def __getattr__(self, name):
        f = getattr(self._c, name)
        if name in ('isend', 'send', 'recv', 'sendrecv', 'Barrier', 'barrier', 'bcast',
                    'allgather', 'gather', 'scatter', 'allreduce', 'reduce', 'irecv'):
            target = f
            if self._s and name == 'isend':
                target = self._c.issend
            if self._s and name == 'send':
                target = self._c.ssend

            def call(*a, **k):
                if self._d is not None:
                    self._d(name)
                if self._l is not None:
                    self._l.add('mpi', name)
                return target(*a, **k)
            return call
        return f


class perturbed(object):
    """Context: parallel.comm replaced by a delaying, synchronous-send proxy."""

    def __init__(self, parallel, delay=None, sync=False, log=None):
        self.p, self.args = parallel, (delay, sync, log)

    def __enter__(self):
        self.old = getattr(self.p, "comm", None)
        if self.old is not None:
            self.p.comm = CommProxy(self.old, *self.args)
            cc = getattr(self.p, "custom_comm", None)
            self.patched = False
            if self.args[1]:
                try:
                    cc.send = cc.ssend
                    self.patched = True
                except AttributeError:
                    pass
        return self

    def __exit__(self, *exc):
        if self.old is not None:
            self.p.comm = self.old
            if self.patched:
                del self.p.custom_comm.send
        return False
