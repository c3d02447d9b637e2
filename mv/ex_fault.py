"""C28: failures injected into the user's callbacks, then retries."""
import numpy as np
import modred as mr

from .core import make_rng
from .data import gauss, markov, stable_discrete
from .ex_dec import gen_kind, gen_W, make_data, trunc_opts, Runner, collect
from .ex_pure import image
from .ex_quiet import same
from .ex_vs import pick, any_ip
from .instr import EvHandle, Log, MVec


class Odd(Exception):
    pass


class Worse(BaseException):
    pass


TYPES = [ValueError, TypeError, KeyError, IndexError, AttributeError, RuntimeError, OSError, NotImplementedError, ZeroDivisionError,
         FloatingPointError, np.linalg.LinAlgError, EOFError, ImportError, UnicodeError, ArithmeticError, Odd, Worse, KeyboardInterrupt, MemoryError, AssertionError]


class Faults(object):
    """Counts user callbacks of this process and fails one of them."""

    def __init__(self):
        self.clear()

    def clear(self):
        self.kind, self.at, self.exc = None, None, None
        self.counts = {}
        self.fired = self.later = 0

    def arm(self, kind, at, exc):
        self.clear()
        self.kind, self.at, self.exc = kind, at, exc

    def hit(self, kind, handle=None):
        c = self.counts.get(kind, 0)
        self.counts[kind] = c + 1
        if kind == self.kind and c == self.at:
            self.fired += 1
            raise self.exc
        if self.fired:
            self.later += 1


class Harness(object):
    def __init__(self, env, rng, i):
        self.env, self.rng, self.i = env, rng, i
        self.f = Faults()
        self.log = Log(env.rank)

    def ev(self, V, tag):
        return [EvHandle((tag, j), V[:, j], self.log, hooks=self.f.hit) for j in range(V.shape[1])]

    def outs(self, k, tag='out'):
        return [EvHandle((tag, j), None, self.log, hooks=self.f.hit) for j in range(k)]

    def ip(self, W):
        ip = any_ip(W)

        def fn(a, b):
            self.f.hit('ip')
            return ip(a, b)
        return fn

    def put_array(self, store):
        def put(a, dest):
            self.f.hit('put_array')
            store[dest] = np.array(a)
        return put

    def get_array(self, store):
        def get(src):
            self.f.hit('get_array')
            return np.array(store[src])
        return get

    def trial(self, what, op, inputs, prepare=None, times=3, kinds=None):
        """op() on prepared objects: once without faults for reference, then with
        faults at several callbacks, each followed by a retry on the same objects."""
        env, rng, f = self.env, self.rng, self.f
        prepare = prepare or (lambda: ())
        with env.case((self.i, what), dict(op=what, np=env.size)):
            args = prepare()
            f.clear()
            before = image(inputs)
            want = op(*args)
            counts = dict(f.counts)
            env.check(image(inputs) == before, 'input-changed:' + what, '%s changed its inputs' % what)
        if kinds:
            counts = {k: v for k, v in counts.items() if k in kinds}
        if env.size > 1:
            # the first get or inner product of every operation happens on all processes
            every = env.comm.allgather(counts)
            counts = {k: 1 for k in every[0] if k in ('get', 'ip') and all(c.get(k) for c in every)}
        if not counts:
            return
        for t in range(times):
            names = sorted(counts)
            kind = pick(rng, names)
            n = counts[kind]
            at = int(pick(rng, [0, n - 1, int(rng.integers(n)), int(rng.integers(n))]))
            T = pick(rng, TYPES)
            text = 'unique %d' % int(rng.integers(1 << 30))
            again = bool(rng.integers(2))
            desc = dict(op=what, np=env.size, callback=kind, call=at, of=n, type=T.__name__)
            env.sample(desc)
            with env.case((self.i, what, t), desc):
                args = prepare()
                if again:
                    op(*args)
                exc = T(text)
                f.arm(kind, at, exc)
                got = None
                try:
                    op(*args)
                except BaseException as e:
                    got = e
                if not f.fired:
                    # fewer callbacks than the first time, which is fine
                    env.count('faults_not_reached')
                    env.check(got is None, 'exception-without-fault:' + what, '%s raised %r without a failing callback' % (what, got))
                else:
                    env.count('callbacks_after_fault', f.later)
                    env.check(got is exc, 'swallowed:' + what if got is None else 'replaced:' + what,
                              '%s: failing %s (%s) gave %r' % (what, kind, T.__name__, got))
                env.count('faults_injected', f.fired)
                f.clear()
                env.check(image(inputs) == before, 'input-changed:' + what, '%s changed its inputs when %s %d failed' % (what, kind, at))
                if env.size > 1:
                    env.comm.Barrier()
                res = op(*args)
                env.count('retries')
                same(env, 'retry-' + what, res, want)
                env.check(image(inputs) == before, 'input-changed:' + what, '%s changed its inputs on retry' % what)
                env.sig(tuple(sorted(desc.items())), again)


def fetch(env, outs):
    """Contents of output handles (they may have been put more than once here)."""
    mine = {j: np.asarray(h.data).ravel() for j, h in enumerate(outs) if h.data is not None}
    every = env.comm.allgather(mine) if env.size > 1 else [mine]
    vals = {}
    for m in every:
        vals.update(m)
    return [vals.get(j) for j in range(len(outs))]


def vs_case(env, i):
    rng = make_rng(env.seed, 'faultvs', env.size, i)
    H = Harness(env, rng, i)
    kind = gen_kind(rng)
    n, a, b, cols = int(rng.integers(1, 5)), int(rng.integers(1, 8)), int(rng.integers(1, 8)), int(rng.integers(1, 6))
    W = gen_W(rng, n, kind)
    X, Y = H.ev(gauss(rng, (n, a), kind), 'x'), H.ev(gauss(rng, (n, b), kind), 'y')
    limit = pick(rng, [None, 3 * env.size, 4 * env.size, 20])
    co = gauss(rng, (a, cols), kind)
    vs = mr.VectorSpaceHandles(inner_product=H.ip(W), max_vecs_per_node=limit, verbosity=0)
    k = min(a, b)

    def lin(outs):
        vs.lin_combine(outs, X, co)
        return fetch(env, outs)

    def derivs(outs):
        mr.compute_derivs_handles(X[:k], Y[:k], outs, .25)
        return fetch(env, outs)
    H.trial('compute_inner_product_array', lambda: vs.compute_inner_product_array(X, Y), [X, Y])
    H.trial('compute_symm_inner_product_array', lambda: vs.compute_symm_inner_product_array(X), [X])
    H.trial('lin_combine', lin, [X, co], lambda: (H.outs(cols),))
    H.trial('sanity_check', lambda: vs.sanity_check(X[0]), [X])
    if env.size == 1:
        H.trial('compute_derivs_handles', derivs, [X, Y], lambda: (H.outs(k),))


def puts_gets(fam, H, r):
    """Saving and restoring, as functions of the object."""
    names = dict(POD=['eigvals', 'eigvecs'], BPOD=['sing_vals', 'L_sing_vecs', 'R_sing_vecs'],
                 DMD=['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs', 'correlation_array_eigvals', 'correlation_array_eigvecs'],
                 TLS=['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs', 'sum_correlation_array_eigvals', 'sum_correlation_array_eigvecs',
                      'proj_correlation_array_eigvals', 'proj_correlation_array_eigvecs'])[fam]
    arrays = dict(POD=['correlation_array', 'proj_coeffs'], BPOD=['Hankel_array', 'direct_proj_coeffs', 'adjoint_proj_coeffs'],
                  DMD=['correlation_array', 'cross_correlation_array', 'spectral_coeffs'],
                  TLS=['correlation_array', 'cross_correlation_array', 'adv_correlation_array', 'spectral_coeffs'])[fam]
    return names, arrays


def dec_case(env, i, fam):
    rng = make_rng(env.seed, 'fault' + fam, env.size, i)
    H = Harness(env, rng, i)
    for _ in range(50):
        d = make_data(rng, fam)
        if (d.X if fam in ('POD', 'BPOD') else d.V).shape[1] <= 7:
            break
    W = d.W
    limit = pick(rng, [None, 3 * env.size, 4 * env.size])
    r = Runner(env, fam, W, rng, max_vecs=limit)
    o = r.obj
    o.vec_space.inner_product = H.ip(W)
    store = {}
    o.put_array, o.get_array = H.put_array(store), H.get_array(store)
    r.d = d
    if fam in ('POD', 'BPOD'):
        r.h = H.ev(d.X, 'x')
        r.ha = H.ev(d.Y, 'y') if fam == 'BPOD' else None
    else:
        r.h = H.ev(d.V, 'x')
        r.ha = None if d.seq else H.ev(d.Y, 'y')
    inputs = [r.h, r.ha, d.W]
    H.trial(fam + '-decomp', r.decomp, inputs, times=4)
    # objects that never completed, or were used for other vectors before
    twice = [None if v is None else H.ev(2 * v, 'other') for v in
             ((d.X, getattr(d, 'Y', None)) if fam in ('POD', 'BPOD') else (d.V, None if d.seq else d.Y))]

    def fresh():
        r2 = Runner(env, fam, W, rng, max_vecs=limit)
        r2.obj.vec_space.inner_product = H.ip(W)
        r2.d = d
        if rng.integers(2):
            r2.h, r2.ha = twice
            r2.decomp()
            env.count('failures_after_other_data')
        r2.h, r2.ha = r.h, r.ha
        return r2,
    H.trial(fam + '-decomp-anew', lambda r2: r2.decomp(), inputs, fresh, times=2)
    kk = r.count()
    for w in r.KINDS[fam]:
        if env.size > 1 and w == 'exact_modes':
            pass

        def modes(outs, w=w):
            getattr(o, 'compute_' + w)(list(range(kk)), outs)
            return fetch(env, outs)
        H.trial(fam + '-' + w, modes, inputs, lambda: (H.outs(kk, 'mode'),), times=2)
    H.trial(fam + '-coeffs', r.coeffs, inputs, times=2)
    if env.size > 1:
        return
    names, arrays = puts_gets(fam, H, r)
    nums = {x: np.array(getattr(o, x)) for x in names}

    def put():
        store.clear()
        o.put_decomp(*names)
        for x in arrays:
            getattr(o, 'put_' + x)(x)
        return dict(store)

    def get():
        o.get_decomp(*names)
        return {x: np.array(getattr(o, x)) for x in names}

    def modes_after():
        outs = H.outs(kk, 'mode')
        getattr(o, 'compute_' + r.KINDS[fam][-1])(list(range(kk)), outs)
        return fetch(env, outs)
    H.trial(fam + '-put', put, inputs, times=2, kinds=['put_array'])
    put()
    H.trial(fam + '-get', get, inputs, times=2, kinds=['get_array'])
    with env.case((i, 'after'), dict(fam=fam)):
        same(env, 'restored-' + fam, get(), nums)


def gal_case(env, i):
    rng = make_rng(env.seed, 'faultgal', env.size, i)
    H = Harness(env, rng, i)
    kind = gen_kind(rng)
    n, k, p, q = int(rng.integers(3, 7)), int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    W = gen_W(rng, n, kind)
    P = H.ev(gauss(rng, (n, k), kind), 'p')
    Q = None if rng.random() < .4 else H.ev(gauss(rng, (n, k), kind), 'q')
    A, B = H.ev(gauss(rng, (n, k), kind), 'a'), H.ev(gauss(rng, (n, p), kind), 'b')
    C = [gauss(rng, q, kind) for _ in range(k)]
    orth = bool(rng.integers(2))
    limit = pick(rng, [3 * env.size, 50])
    store = {}

    def new():
        return (mr.LTIGalerkinProjectionHandles(H.ip(W), P, adjoint_basis_vec_handles=Q, is_basis_orthonormal=orth,
                                                max_vecs_per_node=limit, verbosity=0, put_array=H.put_array(store)),)
    inputs = [P, Q, A, B, C]
    H.trial('galerkin-model', lambda g: g.compute_model(A, B, C), inputs, new, times=4)
    H.trial('galerkin-A', lambda g: g.reduce_A(A), inputs, new, times=2)
    H.trial('galerkin-B', lambda g: g.reduce_B(B), inputs, new, times=2)
    if env.size > 1:
        return
    g, = new()
    g.compute_model(A, B, C)

    def put():
        store.clear()
        g.put_model('A', 'B', 'C')
        return dict(store)
    H.trial('galerkin-put', put, inputs, times=2)


def era_case(env, i):
    rng = make_rng(env.seed, 'faultera', env.size, i)
    H = Harness(env, rng, i)
    kind = gen_kind(rng)
    n, p, q = int(rng.integers(1, 4)), int(rng.integers(1, 3)), int(rng.integers(1, 3))
    M = markov(*(stable_discrete(rng, n, p, q, kind) + (4 * n + 6,)))
    store = {}
    e = mr.ERA(put_array=H.put_array(store), verbosity=0)
    e.compute_model(M, n)

    def put():
        store.clear()
        e.put_model('A', 'B', 'C')
        e.put_decomp('a', 'b', 'c', 'd', 'e')
        e.put_sing_vals('s')
        return dict(store)
    H.trial('ERA-put', put, [M], times=4)


class Flaky(mr.VecHandle):
    """A user's handle whose storage sometimes fails."""

    def __init__(self, name, data, f, base=None, scale=None):
        mr.VecHandle.__init__(self, base_vec_handle=base, scale=scale)
        self.name, self.data, self.f = name, data, f

    def _get(self):
        self.f.hit(self.name + '-get')
        return np.array(self.data)

    def _put(self, vec):
        self.f.hit(self.name + '-put')
        self.data = np.array(vec)

    def __eq__(self, other):
        return type(other) == type(self) and self.name == other.name and self._has_same_base_and_scale(other)


def handle_case(env, i):
    """Histories of gets and puts, some of which fail, on handles with bases."""
    rng = make_rng(env.seed, 'faulthandle', i)
    f = Faults()
    n = int(rng.integers(1, 4))
    new = lambda: rng.integers(-99, 99, n).astype(float)
    store, hs, bases = {}, {}, {}
    # names are unique: the cache of base vectors is shared by the whole process
    for b in ('b1-%d' % i, 'b2-%d' % i):
        store[b] = new()
        bases[b] = Flaky(b, store[b], f)
        hs[b] = (bases[b], None, None)
    for j in range(4):
        b, s = pick(rng, sorted(bases) + [None]), pick(rng, [None, 2., -3])
        nm = 'v%d-%d' % (j, i)
        store[nm] = new()
        hs[nm] = (Flaky(nm, store[nm], f, bases.get(b), s), b, s)

    def want(nm):
        h, b, s = hs[nm]
        v = store[nm] - (store[b] if b else 0)
        return v if s is None else v * s
    with env.case(i, dict(n=n, bases={k: v[1:] for k, v in hs.items()})):
        for step in range(30):
            nm = pick(rng, sorted(hs))
            op = pick(rng, ['get', 'get', 'put'])
            fail = rng.random() < .4
            h, b, s = hs[nm]
            v = new()
            if fail:
                who = nm
                if op == 'get' and b and rng.random() < .6:
                    who = b
                exc = pick(rng, TYPES)('u%d' % step)
                f.arm('%s-%s' % (who, op), 0, exc)
                got = None
                try:
                    h.get() if op == 'get' else h.put(v)
                except BaseException as e:
                    got = e
                if f.fired:
                    env.check(got is exc, 'handle-fault', 'step %d: failing %s of %s gave %r' % (step, op, who, got))
                    env.count('faults_injected')
                else:
                    env.check(got is None, 'handle-fault', 'step %d: %r without a failure' % (step, got))
                f.clear()
            elif op == 'get':
                env.equal(h.get(), want(nm), 'handle-after-fault', 'step %d: %s' % (step, nm))
                env.count('retries')
            else:
                h.put(v)
                store[nm] = v
                env.count('puts')
            env.sig('handle', step, op, bool(fail), b is None, s)


def path_case(env, i):
    """Files that are not there: the file system's error surfaces."""
    rng = make_rng(env.seed, 'faultfile', i)
    V = gauss(rng, (3, 4), 'real')
    cls = pick(rng, [mr.VecHandleArrayText, mr.VecHandlePickle])
    with env.case(i, dict(cls=cls.__name__)):
        hs = []
        for j in range(4):
            h = cls('v%d' % j)
            h.put(V[:, j])
            hs.append(h)
        bad = int(rng.integers(4))
        vs = mr.VectorSpaceHandles(inner_product=mr.inner_product_array_uniform if hasattr(mr, 'inner_product_array_uniform') else np.vdot,
                                   max_vecs_per_node=pick(rng, [3, 10]), verbosity=0)
        want = vs.compute_symm_inner_product_array(hs)
        import os
        os.rename('v%d' % bad, 'hidden')
        for fn in (lambda: vs.compute_symm_inner_product_array(hs), lambda: vs.compute_inner_product_array(hs, hs),
                   lambda: vs.lin_combine([mr.VecHandleInMemory()], hs, np.ones((4, 1)))):
            env.raises((OSError, IOError), 'missing-file', fn, 'missing vector file')
            env.count('faults_injected')
        out = mr.VecHandlePickle(os.path.join('nodir', 'x'))
        os.rename('hidden', 'v%d' % bad)
        env.raises((OSError, IOError), 'missing-file', lambda: vs.lin_combine([out], hs, np.ones((4, 1))), 'missing output directory')
        env.equal(vs.compute_symm_inner_product_array(hs), want, 'retry-files', 'after the file is back')
        env.count('retries')
        env.sig('files', cls.__name__, bad)
