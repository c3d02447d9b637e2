"""C24: the sanity check against valid and deliberately broken vector spaces."""
import numpy as np
import modred as mr

from .core import make_rng
from .data import gauss
from .ex_dec import gen_W
from .ex_vs import UserVec, pick, content, any_ip
from .instr import EvHandle, Log, MVec, MVecI
from .ex_pure import image

CLASSES = ['VectorSpaceHandles', 'PODHandles', 'BPODHandles', 'DMDHandles', 'TLSqrDMDHandles']


def make_obj(name, ip, rng):
    kw = dict(verbosity=0)
    if rng.random() < .5:
        kw['max_vecs_per_node'] = pick(rng, [1, 10, 100])
    if ip is not None or rng.random() < .5:
        kw['inner_product'] = ip
    return getattr(mr, name)(**kw)


class Broken(object):
    """Vector with one arithmetic fault."""
    __array_ufunc__ = None

    def __init__(self, data, fault):
        self.data, self.fault = np.array(data), fault

    def _new(self, data):
        return Broken(data, self.fault)

    def __deepcopy__(self, memo):
        return self._new(self.data)

    def __mul__(self, s):
        f = self.fault
        if f == 'mul-ignored':
            return self._new(self.data)
        if f == 'mul-squared':
            return self._new(self.data * s * s)
        if f == 'mul-half':
            return self._new(self.data * s / 2)
        if f == 'mul-grows-operand':
            out = self._new(self.data * s)
            self.data = self.data * 3
            return out
        if f == 'mul-part':
            d = self.data.copy()
            d[: (d.size + 1) // 2] = d[: (d.size + 1) // 2] * s
            return self._new(d)
        if f == 'mul-zero':
            return self._new(self.data * 0)
        if f == 'mul-inverse':
            return self._new(self.data / s)
        if f == 'mul-nan':
            return self._new(self.data * np.nan)
        if f == 'mul-1percent':
            return self._new(self.data * s * 1.01)
        if f == 'mul-inplace':
            self.data = self.data * s
            return self
        if f == 'mul-inplace-copy':
            self.data = self.data * s
            return self._new(self.data)
        if f == 'mul-shrinks-operand':
            out = self._new(self.data * s)
            self.data = self.data * .5
            return out
        return self._new(self.data * s)

    __rmul__ = __mul__

    def __add__(self, o):
        f = self.fault
        if f == 'add-self':
            return self._new(self.data)
        if f == 'add-other':
            return self._new(o.data)
        if f == 'add-twice-self':
            return self._new(self.data * 2)
        if f == 'add-twice-other':
            return self._new(o.data * 2)
        if f == 'add-subtracts':
            return self._new(self.data - o.data)
        if o is self and f.startswith('add-same-'):
            if f == 'add-same-small':
                return self._new(self.data)
            if f == 'add-same-big':
                return self._new(self.data * 3)
            if f == 'add-same-zero':
                return self._new(self.data * 0)
            if f == 'add-same-shrinks':
                out = self._new(self.data + o.data)
                self.data = self.data * .5
                return out
            if f == 'add-same-grows':
                out = self._new(self.data + o.data)
                self.data = self.data * 2
                return out
        if o is not self and f.startswith('add-diff-'):
            if f == 'add-diff-small':
                return self._new(self.data)
            if f == 'add-diff-big':
                return self._new(self.data + 2 * o.data)
            if f == 'add-diff-zero':
                return self._new(self.data * 0)
            if f == 'add-diff-shrinks':
                out = self._new(self.data + o.data)
                o.data = o.data * .5
                return out
            if f == 'add-diff-grows':
                out = self._new(self.data + o.data)
                o.data = o.data * 2
                return out
        if f == 'add-half':
            return self._new(self.data + .5 * o.data)
        if f == 'add-1percent':
            return self._new(self.data + 1.01 * o.data)
        if f == 'add-nan':
            return self._new(self.data + np.nan)
        if f == 'add-inplace':
            self.data = self.data + o.data
            return self
        if f == 'add-inplace-copy':
            self.data = self.data + o.data
            return self._new(self.data)
        if f == 'add-changes-other':
            out = self._new(self.data + o.data)
            o.data = o.data * 2
            return out
        if f == 'add-zeroes-other':
            out = self._new(self.data + o.data)
            o.data = o.data * 0
            return out
        return self._new(self.data + o.data)


FAULTS = ['mul-ignored', 'mul-squared', 'mul-half', 'mul-part', 'mul-zero', 'mul-inverse', 'mul-1percent', 'mul-inplace',
          'mul-inplace-copy', 'mul-shrinks-operand', 'add-self', 'add-other', 'add-twice-self', 'add-twice-other', 'add-subtracts', 'add-half',
          'mul-grows-operand', 'add-same-small', 'add-same-big', 'add-same-zero', 'add-same-shrinks', 'add-same-grows',
          'add-diff-small', 'add-diff-big', 'add-diff-zero', 'add-diff-shrinks', 'add-diff-grows',
          'add-1percent', 'add-inplace', 'add-inplace-copy', 'add-changes-other', 'add-zeroes-other']


class Holder(object):
    """In-memory handle outside modred."""

    def __init__(self, vec):
        self.vec, self.gets, self.puts = vec, 0, 0

    def get(self):
        self.gets += 1
        return self.vec

    def put(self, vec):
        self.puts += 1


def valid_case(env, i):
    rng = make_rng(env.seed, 'sanevalid', i, env.size)
    n = int(pick(rng, [1, 1, 2, 3, 7, 50, 2000]))
    kind = pick(rng, ['real', 'complex', 'int', 'f4', 'c8'])
    mag = 10. ** rng.uniform(-6, 8)
    if kind == 'int':
        v = rng.integers(-100, 101, n)
        if not v.any():
            v[0] = 3
    else:
        v = gauss(rng, n, 'complex' if kind in ('complex', 'c8') else 'real') * mag
        v = v.astype({'f4': np.float32, 'c8': np.complex64}.get(kind, v.dtype))
    if rng.random() < .05:
        v = v * 0
    vk = pick(rng, ['MVec', 'MVecI', 'nd', 'nd2', 'user'])
    hk = pick(rng, ['holder', 'mem', 'pickle', 'text', 'ev', 'base', 'scale'])
    W = gen_W(rng, n, 'complex' if kind in ('complex', 'c8') else 'real') if n <= 50 else None
    if kind in ('f4', 'c8') and W is not None:
        W = None if W.ndim == 2 else W.astype(np.float32)     # no amplification of single-precision roundoff
    ipk = pick(rng, ['np', 'py', 'trapz', 'uniform']) if vk in ('nd', 'nd2') else pick(rng, ['np', 'py'])
    base = any_ip(W)
    if ipk == 'trapz' and n > 1 and vk == 'nd' and hk != 'text':
        ip = mr.InnerProductTrapz(np.linspace(0, 1, n) ** 2) if hasattr(mr, 'InnerProductTrapz') else trapz(np.linspace(0, 1, n) ** 2)
    elif ipk == 'uniform':
        from modred import vectors
        ip = vectors.inner_product_array_uniform
    elif ipk == 'py':
        ip = lambda a, b: base(a, b).item()
    else:
        ip = base
    wrap = dict(MVec=MVec, MVecI=MVecI, nd=np.array, nd2=lambda a: np.array(a).reshape(1, -1), user=UserVec)[vk]
    if hk == 'text':
        wrap = np.array
        if kind in ('f4', 'c8'):
            v = v.astype(float if kind == 'f4' else complex)
    cls = pick(rng, CLASSES)
    desc = dict(np=env.size, cls=cls, n=n, kind=kind, mag='%.1e' % mag, vec=vk, handle=hk, ip=ipk, W=None if W is None else W.ndim)
    env.sample(desc)
    with env.case((i, 'valid'), desc):
        vec = wrap(v)
        inner = None
        if hk == 'holder':
            h = Holder(vec)
        elif hk == 'mem':
            h = mr.VecHandleInMemory(vec)
        elif hk == 'pickle':
            h = mr.VecHandlePickle('v%d.pkl' % env.rank)
            h.put(vec)
        elif hk == 'text':
            h = mr.VecHandleArrayText('v%d.txt' % env.rank, is_complex=np.iscomplexobj(v))
            h.put(vec)
        elif hk == 'ev':
            h = EvHandle('v', v, Log(env.rank), make=wrap)
        elif hk == 'base':
            inner = mr.VecHandleInMemory(wrap(v * 0))
            h = mr.VecHandleInMemory(vec, base_vec_handle=inner)
        else:
            h = mr.VecHandleInMemory(vec, scale=pick(rng, [2., -1, .5]))
        before = image(vec)
        ret = make_obj(cls, ip, rng).sanity_check(h)
        env.check(ret is None, 'sanity-returns', 'returned %r' % (ret,))
        env.check(image(vec) == before, 'sanity-modified', 'the vector was changed')
        if isinstance(h, (Holder, EvHandle)):
            env.check(h.puts == 0 and h.gets >= 1, 'sanity-handle', 'puts %d gets %d' % (h.puts, h.gets))
        env.count('valid_accepted')
        env.sig('valid', cls, n, kind, vk, hk, ipk, int(np.log10(mag)))


def trapz(grid):
    from modred import vectors
    return vectors.InnerProductTrapz(grid)


def broken_case(env, i):
    rng = make_rng(env.seed, 'sanebroken', i, env.size)
    cls = pick(rng, CLASSES)
    for fault in FAULTS:
        n = int(pick(rng, [1, 2, 5, 40]))
        kind = pick(rng, ['real', 'complex'])
        mag = 10. ** rng.uniform(-6, 8)
        v = gauss(rng, n, kind) * mag
        W = gen_W(rng, n, kind)
        if fault == 'mul-part':
            # the scaled part carries a visible share of the norm
            n = max(n, 2)
            v, W = gauss(rng, n, kind) * mag, None
            v[:(n + 1) // 2] += 3 * mag
            v[(n + 1) // 2:] += 3 * mag
        with env.case((i, fault), dict(np=env.size, cls=cls, fault=fault, n=n, kind=kind, mag='%.1e' % mag)):
            base = any_ip(W)

            def ip(a, b):
                return base(MVec(a.data), MVec(b.data))
            h = Holder(Broken(v, fault)) if rng.random() < .5 else mr.VecHandleInMemory(Broken(v, fault))
            o = make_obj(cls, ip, rng)
            env.raises(ValueError, 'broken-accepted:' + fault, lambda: o.sanity_check(h), 'vector with fault %s of magnitude %.1e' % (fault, mag))
            env.count('faults_checked')
            env.sig('broken', cls, fault, kind, int(np.log10(mag)))
    with env.case((i, 'no ip'), dict(np=env.size, cls=cls)):
        o = make_obj(cls, None, rng)
        env.raises(RuntimeError, 'no-ip-accepted', lambda: o.sanity_check(Holder(MVec(np.ones(3)))), '%s without inner product' % cls)
        env.count('no_inner_product_checked')
