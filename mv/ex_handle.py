"""C08: histories of gets and puts on vector handles against a reference map."""
import os
import pickle

import numpy as np
import modred as mr

from .core import make_rng
from .data import gauss
from .ex_vs import pick, UserVec, content
from .instr import MVec


class CustomHandle(mr.VecHandle):
    """User handle as the documentation recommends, without an equality."""
    disk = {}

    def __init__(self, name, base_vec_handle=None, scale=None):
        mr.VecHandle.__init__(self, base_vec_handle, scale)
        self.name = name

    def _get(self):
        return pickle.loads(self.disk[self.name])

    def _put(self, vec):
        self.disk[self.name] = pickle.dumps(vec)


class CustomEqHandle(CustomHandle):
    """The same, equal to another handle exactly if it gets the same vector."""

    def __init__(self, name, base_vec_handle=None, scale=None):
        CustomHandle.__init__(self, name, base_vec_handle, scale)
        self.key = (name, id(base_vec_handle), scale)

    def __eq__(self, other):
        return type(other) == type(self) and self.key == other.key


class Ref(object):
    """Reference: what a handle must return."""

    def __init__(self, handle, loc, base, scale, kind):
        self.h, self.loc, self.base, self.scale, self.kind = handle, loc, base, scale, kind
        self.depth = 1 + (base.depth if base else 0)

    def value(self, store):
        v = store[self.loc]
        if self.base is not None:
            v = v - self.base.value(store)
        if self.scale is not None:
            v = v * self.scale
        return v

    def magnitude(self, store):
        m = float(np.abs(store[self.loc]).max())
        if self.base is not None:
            m += self.base.magnitude(store)
        return m * (1 if self.scale is None else abs(self.scale))


SCALES = [None, None, 2, -1, 0, 0.5, -3.25, 1j, 1 - 2j, 1, 1e-3, np.float64(0.25)]


def history_case(env, i):
    rng = make_rng(env.seed, 'handle', i)
    CustomHandle.disk = {}
    family = pick(rng, ['nd', 'nd', 'nd1', 'obj'])
    shape = (int(rng.integers(1, 5)), int(rng.integers(1, 4)))
    if family != 'nd':
        shape = (int(rng.integers(1, 6)),)
    kinds = dict(nd=['mem', 'text', 'ctext', 'pickle', 'custom', 'customeq'], nd1=['mem', 'pickle', 'custom', 'customeq'],
                 obj=['mem', 'pickle', 'custom'])[family]
    wrap = (lambda a: a) if family != 'obj' else pick(rng, [UserVec, MVec])
    store, locs = {}, {}
    few = [gauss(rng, shape, 'real') for _ in range(2)]

    def fresh(kind):
        """New content for a location: (vector to put, values)."""
        if rng.random() < .25 and kind != 'ctext':
            v = pick(rng, few).copy()           # equal contents in different places
        else:
            t = 'complex' if kind == 'ctext' else pick(rng, ['real', 'int', 'f4'] if kind == 'text' else ['real', 'complex', 'int', 'f4'])
            v = rng.integers(-5, 6, shape) if t == 'int' else gauss(rng, shape, 'real').astype(np.float32) if t == 'f4' else gauss(rng, shape, t)
        if rng.random() < .2:
            v = np.asfortranarray(v)
        val = np.array(v)
        if kind == 'text':
            val = val.astype(float)     # text has no lower precision
        return wrap(v), val
    refs = []
    nloc = int(rng.integers(2, 6))
    for l in range(nloc):
        locs[l] = pick(rng, kinds)
    main = pick(rng, kinds)      # favour one kind, so that files are shared
    for l in range(nloc):
        if rng.random() < .5:
            locs[l] = main

    def make(loc, base, scale):
        kind = locs[loc] if not isinstance(loc, tuple) else 'mem'
        kw = {}
        if base is not None or rng.random() < .3:
            kw['base_vec_handle'] = base.h if base is not None else None
        if scale is not None or rng.random() < .3:
            kw['scale'] = scale
        path = os.path.join(env.scratch, 'loc%s' % (loc,))
        if kind == 'text':
            h = mr.VecHandleArrayText(path, **kw) if rng.random() < .5 else mr.VecHandleArrayText(path, is_complex=False, **kw)
        elif kind == 'ctext':
            h = mr.VecHandleArrayText(path, is_complex=True, **kw)
        elif kind == 'pickle':
            h = mr.VecHandlePickle(path, **kw)
        elif kind == 'custom':
            h = CustomHandle(loc, **kw)
        elif kind == 'customeq':
            h = CustomEqHandle(loc, **kw)
        elif rng.random() < .5:
            obj, val = fresh('mem')
            h = mr.VecHandleInMemory(obj, **kw)
            store[loc] = val
        else:
            h = mr.VecHandleInMemory(**kw)
        return Ref(h, loc, base, scale, kind)
    nh = int(rng.integers(3, 10))
    for k in range(nh):
        loc = int(rng.integers(nloc))
        if locs[loc] == 'mem':
            loc = ('m', k)              # every in-memory handle is its own place
        base = pick(rng, refs) if refs and rng.random() < .65 else None
        if base is not None and base.depth > 3:
            base = None
        scale = pick(rng, SCALES)
        if refs and rng.random() < .2:   # a twin: same place, another base or scale
            t = pick(rng, refs)
            if t.kind != 'mem':
                loc = t.loc
                if rng.random() < .5:
                    base = t.base
                else:
                    scale = t.scale
        refs.append(make(loc, base, scale))
    env.sample(dict(i=i, family=family, handles=[(r.kind, r.depth, repr(r.scale)) for r in refs]))
    # every place needs content before it is used
    for r in refs:
        if r.loc not in store:
            obj, val = fresh(r.kind)
            r.h.put(obj)
            store[r.loc] = val
            env.count('puts')
    bases = [r for r in refs if r.base is not None]
    steps = int(rng.integers(15, 45))
    trace = []
    for s in range(steps):
        if bases and rng.random() < .55:
            r = pick(rng, bases)
        else:
            r = pick(rng, refs)
        j = refs.index(r)
        act = 'put' if rng.random() < .3 else 'get'
        trace.append((act, j))
        with env.case((i, s), dict(family=family, shape=shape, handles=[(a.kind, str(a.loc), None if a.base is None else refs.index(a.base), repr(a.scale)) for a in refs],
                                   trace=trace[-12:])):
            if act == 'put':
                obj, val = fresh(r.kind)
                ret = r.h.put(obj)
                store[r.loc] = val
                env.check(ret is None, 'put-returns')
                env.equal(content(obj), val, 'put-modified', 'vector given to put')
                env.count('puts')
                continue
            got = r.h.get()
            want = r.value(store)
            g = content(got)
            env.count('gets')
            env.count('gets_with_base', r.base is not None)
            env.close(g, want, 'get-value', 1e-6 if want.dtype in (np.float32, np.complex64) else 1e-12, scale=max(1e-3, r.magnitude(store)),
                      what='get of a %s handle, base depth %d, scale %r' % (r.kind, r.depth - 1, r.scale))
            if r.base is None and r.scale is None:
                env.equal(g, want, 'get-exact', 'vector as put')
                if r.kind in ('mem', 'pickle'):
                    env.check(g.dtype == want.dtype and type(got) == type(wrap(want)), 'get-type', 'type %s %s instead of %s' % (type(got), g.dtype, want.dtype))
            env.sig(family, r.kind, r.depth, repr(r.scale), tuple(a for a, _ in trace[-3:]))
            # results are the caller's: changing them has no effect (unless they are the stored vector itself)
            if (r.base is not None or r.scale is not None or r.kind != 'mem') and rng.random() < .4:
                a = got.data if isinstance(got, MVec) else got.arr if isinstance(got, UserVec) else got
                if a.dtype.kind in 'fc':
                    a += 17.
                    env.count('results_overwritten')


def text_vec_case(env, i):
    """1D, scalar-like and integer vectors through text handles come back as one 2D column."""
    rng = make_rng(env.seed, 'textvec', i)
    n = int(rng.integers(1, 8))
    kind = pick(rng, ['real', 'complex', 'int', 'f4', 'bool'])
    v = (rng.integers(-9, 9, n) if kind == 'int' else rng.random(n) < .5 if kind == 'bool' else
         gauss(rng, n, 'real').astype(np.float32) if kind == 'f4' else gauss(rng, n, kind) * 10. ** rng.uniform(-200, 200))
    if rng.random() < .4:
        big = np.zeros(2 * n, dtype=v.dtype)
        big[::2] = v
        v = big[::2]
    with env.case(i, dict(n=n, kind=kind)):
        h = mr.VecHandleArrayText('v.txt', is_complex=kind == 'complex')
        keep = np.array(v)
        h.put(v)
        env.equal(v, keep, 'put-modified', 'vector given to put')
        env.equal(h.get(), keep.reshape(-1, 1), 'text-vec', '1D %s vector' % kind)
        env.count('gets')
        s = pick(rng, [2., -1, .5])
        h2 = mr.VecHandleArrayText('v.txt', scale=s, is_complex=kind == 'complex', base_vec_handle=h)
        env.equal(h2.get(), np.zeros((n, 1)), 'text-vec-minus-itself', 'vector minus itself')
        h2 = mr.VecHandleArrayText('v.txt', scale=s, is_complex=kind == 'complex')
        env.equal(h2.get(), keep.reshape(-1, 1) * s, 'text-vec-scaled', 'scaled vector')
        env.sig('textvec', n, kind)


def eq_case(env, i):
    """Handles that return different vectors are not treated as the same base (directly observable: the differences)."""
    rng = make_rng(env.seed, 'heq', i)
    shape = (3, 2)
    x, y = gauss(rng, shape, 'real'), gauss(rng, shape, 'real')
    kind = pick(rng, ['pickle', 'text', 'mem'])

    def mk(name, **kw):
        return (mr.VecHandlePickle(name, **kw) if kind == 'pickle' else mr.VecHandleArrayText(name, **kw) if kind == 'text' else
                mr.VecHandleInMemory(**kw))
    a = mk('a')
    a.put(x)
    b0 = mk('b')
    b0.put(y)
    what = pick(rng, ['scale', 'base', 'both', 'base-scale'])
    kw1, kw2 = {}, {}
    s1, s2 = [float(s) for s in rng.permutation([1., 2., -3., .5])[:2]]
    if what in ('scale', 'both'):
        kw1['scale'], kw2['scale'] = s1, s2
    c = None
    if what in ('base', 'both'):
        c = mk('c')
        c.put(gauss(rng, shape, 'real'))
        kw2['base_vec_handle'] = c
    if what == 'base-scale':
        c1, c2 = mk('a', scale=s1), mk('a', scale=s2)
        if kind == 'mem':
            c1.put(x)
            c2.put(x)
        kw1['base_vec_handle'], kw2['base_vec_handle'] = c1, c2
    b1, b2 = mk('b', **kw1), mk('b', **kw2)
    if kind == 'mem':
        b1.put(y)
        b2.put(y)
    with env.case(i, dict(kind=kind, what=what)):
        cv = c.get() if c is not None else 0

        def val(kw, t):
            v = y
            if what == 'base-scale':
                v = y - x * (s1 if t == 1 else s2)
            elif 'base_vec_handle' in kw:
                v = y - cv
            return v * kw.get('scale', 1.)
        h1, h2 = mk('a', base_vec_handle=b1), mk('a', base_vec_handle=b2)
        if kind == 'mem':
            h1.put(x)
            h2.put(x)
        order = [(h1, kw1, 1), (h2, kw2, 2), (h1, kw1, 1)] if rng.random() < .5 else [(h2, kw2, 2), (h1, kw1, 1), (h2, kw2, 2)]
        for h, kw, t in order:
            env.close(h.get(), x - val(kw, t), 'base-confused', 1e-12, scale=10., what='bases on one place with different %s' % what)
            env.count('gets')
            env.count('gets_with_base')
        env.sig('eq', kind, what)
