"""Modal decompositions: data generators, drivers for every implementation
(array functions and handle classes) and numeric oracles that judge what the
user receives: returned arrays, attributes and put modes."""
import numpy as np
import modred as mr
from modred import parallel

from .core import make_rng
from .data import gauss, special_array, spectrum_array, weights, gram, sqrt_w, stable_discrete, in_form
from .ex_vs import build_handles, any_ip, pick, content, UserVec
from .instr import MVec, EvHandle, Log, make_delay, PROFILES, perturbed

EPS = 1e-300


# ---------------------------------------------------------------- generators
def weighted(rng, n, m, s, W, kind):
    """n x m data whose singular values in the W inner product are s."""
    return np.linalg.solve(sqrt_w(W, n), spectrum_array(rng, n, m, s, kind))


def decay(rng, r, low=1e-2, ratio=None):
    """r descending singular values with distinct gaps."""
    if r == 1:
        s = np.array([1.])
    elif ratio is not None:
        s = ratio ** (-np.arange(r) * 1.0)
    else:
        s = np.logspace(0, np.log10(low), r)
    s = s * rng.uniform(0.97, 1.03, r)
    return np.sort(s)[::-1] * 10. ** rng.uniform(-1.5, 1.5)


class Data(object):
    pass


def dims(rng, big=12):
    shape = pick(rng, ['tall', 'tall', 'wide', 'square', 'one'])
    if shape == 'tall':
        m = int(rng.integers(2, big))
        n = m + int(rng.integers(1, 25))
    elif shape == 'wide':
        n = int(rng.integers(2, big))
        m = n + int(rng.integers(1, 6))
    elif shape == 'square':
        n = m = int(rng.integers(2, big))
    else:
        n, m = int(rng.integers(2, 12)), 1
    return n, m


def gen_kind(rng):
    return pick(rng, ['real', 'complex'])


def gen_W(rng, n, kind, which=None, stretch=False):
    which = which or pick(rng, ['none', '1d', '2d'])
    if stretch and which == '1d' and rng.random() < .2:
        return 10. ** rng.uniform(-10, 3, n)
    return weights(rng, n, which, kind)


def other(kind):
    return 'real' if kind == 'complex' else 'complex'


def pod_data(rng, n=None, m=None, rank=None, kind=None, W='any', s=None, vary=False):
    d = Data()
    free = n is None
    if free:
        n, m = dims(rng)
    d.kind = kind or gen_kind(rng)
    style = pick(rng, ['plain', 'plain', 'plain', 'ties', 'int', 'mixed', 'scaled', 'special', 'special']) if vary and s is None else 'plain'
    if style == 'special' and free and rng.random() < .7:
        n = m = min(n, m)
    d.W = gen_W(rng, n, other(d.kind) if style == 'mixed' else d.kind, stretch=style == 'plain') if isinstance(W, str) else W
    r = rank or (min(n, m) if rng.random() < .7 else int(rng.integers(1, min(n, m) + 1)))
    d.s = decay(rng, r) if s is None else np.asarray(s, dtype=float)
    if style == 'ties':
        d.s[:int(rng.integers(1, r + 1))] = d.s[0]
    if style == 'scaled':
        d.s = d.s * 10. ** float(pick(rng, [-30, -8, 4, 8, 30, 100]))
        d.small = True
    if style in ('int', 'mixed', 'special'):
        # real data with complex weights, complex data with real ones, integers
        d.X = spectrum_array(rng, n, m, d.s, d.kind)
        if style == 'int':
            d.X = rng.integers(-9, 10, (n, r)).dot(rng.integers(-3, 4, (r, m)))
            d.X[0, 0] += not d.X.any()
        if style == 'special':
            d.X = special_array(rng, n, m, d.kind)
            d.X[0, 0] += not d.X.any()
            if rng.random() < .6 and isinstance(W, str):
                d.W = None
        sv = np.linalg.svd(sqrt_w(d.W, n).dot(d.X), compute_uv=False)
        d.s = sv[sv > 1e-8 * sv[0]]
        if d.s[-1] < 1e-3 * d.s[0]:
            return pod_data(rng, n=n, m=m, rank=rank, kind=kind, W=W)
        if style == 'int':
            d.kind = 'int'
    else:
        d.X = weighted(rng, n, m, d.s, d.W, d.kind)
    d.r = len(d.s)
    d.deficient = d.r < m
    d.desc = dict(n=n, m=m, r=d.r, kind=d.kind, W=None if d.W is None else d.W.ndim, style=style)
    return d


def bpod_data(rng, steps=None, kind=None, p=None, q=None, vary=False):
    """Impulse responses of a stable system and of its adjoint."""
    for _ in range(200):
        d = Data()
        d.kind = kind or gen_kind(rng)
        n = int(rng.integers(2, 6))
        d.p, d.q = p or int(rng.integers(1, 4)), q or int(rng.integers(1, 4))
        mc, mo = steps or (int(rng.integers(1, 7)), int(rng.integers(1, 7)))
        style = pick(rng, ['plain', 'plain', 'plain', 'mixed', 'scaled', 'tiny']) if vary else 'plain'
        d.W = gen_W(rng, n, other(d.kind) if style == 'mixed' else d.kind)
        A, B, C = stable_discrete(rng, n, d.p, d.q, d.kind)
        if style == 'scaled':
            B, C = B * 10. ** rng.uniform(-3, 6), C * 10. ** rng.uniform(-2, 6)
        elif style == 'tiny':
            B, C = B * 10. ** rng.uniform(-12, 0), C * 10. ** rng.uniform(-12, 0)
        Wm = np.eye(n) if d.W is None else (np.diag(d.W) if d.W.ndim == 1 else d.W)
        Aa = np.linalg.solve(Wm, A.conj().T.dot(Wm))
        Ca = np.linalg.solve(Wm, C.conj().T)
        X, Y = [], []
        x, y = B, Ca
        for _i in range(mc):
            X.append(x)
            x = A.dot(x)
        for _i in range(mo):
            Y.append(y)
            y = Aa.dot(y)
        d.X, d.Y = np.hstack(X), np.hstack(Y)
        d.H = gram(d.Y, d.X, d.W)
        s = np.linalg.svd(d.H, compute_uv=False)
        good = s > 1e-5 * s[0]
        if s[0] > (0. if style == 'tiny' else 1e-3) and np.all(s[~good] < 1e-12 * s[0]):
            d.s = s[good]
            d.r = int(good.sum())
            d.rtol = 1e-8
            d.small = style == 'tiny'
            d.desc = dict(n=n, p=d.p, q=d.q, mc=mc, mo=mo, r=d.r, kind=d.kind, W=None if d.W is None else d.W.ndim, style=style)
            return d
    raise RuntimeError('no BPOD data')


def pairs(d):
    if d.seq:
        return d.V[:, :-1], d.V[:, 1:]
    return d.V, d.Y


def dmd_ref(Xw, Yw, k):
    U, s, Vh = np.linalg.svd(Xw, full_matrices=False)
    U, s, V = U[:, :k], s[:k], Vh[:k].conj().T
    At = U.conj().T.dot(Yw).dot(V) / s
    lam, ev = np.linalg.eig(At)
    return U, s, V, At, lam, ev


def rank_of(s):
    return int((s > 1e-6 * s[0]).sum())


def dmd_data(rng, n=None, m=None, seq=None, kind=None, k='any', tls=False, W='any', vary=False, low=None):
    """Data whose (total-least-squares) DMD of dimension k is well conditioned."""
    for _ in range(2000):
        d = Data()
        if n is None:
            nn, mm = dims(rng, 9)
        else:
            nn, mm = n, m
        d.kind = kind or gen_kind(rng)
        d.seq = bool(rng.integers(2)) if seq is None else seq
        how = pick(rng, ['plain', 'plain', 'plain', 'int', 'mixed', 'scaled', 'special', 'special']) if vary else 'plain'
        if how == 'special' and n is None and rng.random() < .7:
            nn = mm = min(nn, mm)
        d.W = gen_W(rng, nn, other(d.kind) if how == 'mixed' else d.kind, stretch=how == 'plain') if isinstance(W, str) else W
        if how == 'special' and isinstance(W, str) and rng.random() < .6:
            d.W = None
        R = sqrt_w(d.W, nn)
        scale = 10. ** rng.uniform(-1, 1) * (10. ** rng.uniform(1, 40) if how == 'scaled' else 1.)
        style = pick(rng, ['gauss', 'low-rank']) if low is None else 'low-rank'
        cols = mm + 1 if d.seq else mm
        if style == 'gauss' or min(nn, mm) < 2:
            Vw = gauss(rng, (nn, cols), d.kind)
        else:
            rr = int(rng.integers(1, min(nn, mm) + 1)) if low is None else low
            Vw = gauss(rng, (nn, rr), d.kind).dot(gauss(rng, (rr, cols), d.kind))
        Vw = Vw * scale
        Vi = None
        if how == 'int':
            Vi = rng.integers(-9, 10, (nn, cols))
            Vw = R.dot(Vi)
        elif how == 'mixed':
            # real data with complex weights, complex data with real ones
            Vw = R.dot(gauss(rng, (nn, cols), d.kind)) * scale
        elif how == 'special':
            Vi = special_array(rng, nn, mm, d.kind)
            if d.seq:
                Vi = np.hstack((Vi, gauss(rng, (nn, 1), d.kind)))
            Vw = R.dot(Vi)
            if not Vi.any():
                continue
        if d.seq:
            Xw, Yw = Vw[:, :-1], Vw[:, 1:]
        else:
            Xw = Vw
            if rng.random() < .5:
                Yw = gauss(rng, (nn, nn), d.kind).dot(Xw) / np.sqrt(nn)
            else:
                Yw = gauss(rng, (nn, mm), d.kind) * scale
            if how == 'int':
                Yi = rng.integers(-9, 10, (nn, mm))
                Yw = R.dot(Yi)
            elif how == 'special':
                Yi = special_array(rng, nn, mm, d.kind)
                Yw = R.dot(Yi)
        Z = np.vstack((Xw, Yw))
        rz = np.linalg.svd(Z, compute_uv=False)
        sx = np.linalg.svd(Xw, compute_uv=False)
        full = rank_of(rz) if tls else rank_of(sx)
        if full < 1 or not Xw.any() or np.any((rz[full:] if tls else sx[full:]) > 1e-12 * sx[0]):
            continue
        if k == 'any':
            d.max_num = pick(rng, [None, None, full + 2, int(rng.integers(1, full + 1))])
        elif k == 'cut':
            if full < 2:
                continue
            d.max_num = int(rng.integers(1, full))
        elif k is None:
            d.max_num = None
        else:
            d.max_num = k
        kk = full if d.max_num is None else min(full, d.max_num)
        spec = rz if tls else sx
        if kk < len(spec) and kk < full and spec[kk - 1] < 1.15 * spec[kk]:
            continue
        d.P = None
        if tls:
            Vz = np.linalg.svd(Z, full_matrices=False)[2][:kk].conj().T
            d.P = Vz.dot(Vz.conj().T)
            Xe, Ye = Xw.dot(d.P), Yw.dot(d.P)
            sxe = np.linalg.svd(Xe, compute_uv=False)
            d.kz = kk
            kk = min(kk, rank_of(sxe))
            if kk < 1 or np.any(sxe[kk:] > 1e-12 * sxe[0]):
                continue
        else:
            Xe, Ye = Xw, Yw
            sxe = sx
        if sxe[kk - 1] < 3e-3 * sxe[0]:
            continue
        U, s, V, At, lam, ev = dmd_ref(Xe, Ye, kk)
        if np.linalg.cond(ev) > 60 or np.abs(lam).min() < 0.05 or np.abs(lam).max() > 50:
            continue
        if kk > 1:
            dist = np.abs(lam[:, None] - lam[None, :]) + 1e9 * np.eye(kk)
            if dist.min() < 1e-2:
                continue
        d.k, d.full, d.R = kk, full, R
        d.U, d.sx, d.Vr, d.At, d.lam = U, s, V, At, lam
        d.Xe, d.Ye = Xe, Ye
        d.V = np.linalg.solve(R, Vw)
        d.Y = None if d.seq else np.linalg.solve(R, Yw)
        if how == 'int':
            d.V, d.Y = Vi, None if d.seq else Yi
        elif how == 'special':
            d.V = Vi
        elif d.kind == 'real' and how == 'mixed' and d.seq:
            d.V = d.V.real
        d.spec = spec
        d.deficient = full < mm or (tls and d.k < mm)
        d.tls = tls
        d.only_max = d.max_num is not None and d.max_num == kk and (not tls or d.kz == kk) and bool(rng.integers(2))
        d.desc = dict(n=nn, m=mm, seq=d.seq, kind=d.kind, W=None if d.W is None else d.W.ndim,
                      max_num=d.max_num, only_max=d.only_max, k=d.k, full=full, style=style, how=how)
        return d
    raise RuntimeError('no DMD data')


# ---------------------------------------------------------------- tolerances for rank deficient data
def trunc_opts(d, direct):
    """Options that remove roundoff-level directions, whatever the implementation."""
    if getattr(d, 'tol_by', None) is not None:
        name, thr = d.tol_by
        opts = dict(atol=0.) if getattr(d, 'small', False) else {}
        opts[name] = thr if direct else thr ** 2
        return opts
    small = dict(atol=0.) if getattr(d, 'small', False) else {}
    if getattr(d, 'only_max', False) and not small:
        # max_num_eigvals alone must do
        return {}
    if not d.deficient:
        return small
    return dict(small, rtol=1e-5 if direct else 1e-8)


# ---------------------------------------------------------------- array drivers
def from_tuple(r):
    return {k: getattr(r, k) for k in r._fields}


def pod_arrays(d, method, **kw):
    f = mr.compute_POD_arrays_snaps_method if method == 'snaps' else mr.compute_POD_arrays_direct_method
    opts = trunc_opts(d, method == 'direct')
    opts.update(kw)
    return from_tuple(f(d.X, inner_product_weights=d.W, **opts))


def bpod_tol(d):
    opts = dict(atol=0.) if getattr(d, 'small', False) else {}
    return dict(opts, **dict([d.tol_by])) if getattr(d, 'tol_by', None) is not None else opts


def bpod_arrays(d, **kw):
    opts = dict(rtol=d.rtol)
    opts.update(bpod_tol(d))
    opts.update(kw)
    return from_tuple(mr.compute_BPOD_arrays(d.X, d.Y, num_inputs=d.p, num_outputs=d.q, inner_product_weights=d.W, **opts))


def dmd_arrays(d, method, **kw):
    f = {('snaps', False): mr.compute_DMD_arrays_snaps_method, ('direct', False): mr.compute_DMD_arrays_direct_method,
         ('snaps', True): mr.compute_TLSqrDMD_arrays_snaps_method,
         ('direct', True): mr.compute_TLSqrDMD_arrays_direct_method}[method, d.tls]
    opts = trunc_opts(d, method == 'direct')
    opts['max_num_eigvals'] = d.max_num
    opts.update(kw)
    return from_tuple(f(d.V, adv_vecs=d.Y, inner_product_weights=d.W, **opts))


# ---------------------------------------------------------------- handle drivers
def collect(env, outs, key='mode-put'):
    """Contents of output handles, whichever rank put them; each exactly once."""
    mine = {j: np.asarray(h.data).ravel() for j, h in enumerate(outs) if h.puts}
    cnt = [h.puts for h in outs]
    if env.size > 1:
        every = env.comm.allgather((mine, cnt))
    else:
        every = [(mine, cnt)]
    tot = [sum(c[j] for _, c in every) for j in range(len(outs))]
    env.check(all(t == 1 for t in tot), key + '-count', 'puts per output handle over all ranks: %s' % tot)
    env.count('put_events', sum(cnt))
    vals = {}
    for m, _ in every:
        vals.update(m)
    if len(vals) != len(outs):
        return None
    return np.array([vals[j] for j in range(len(outs))]).T


class Runner(object):
    """Uses one handle-based object the way a user does."""

    def __init__(self, env, fam, W, rng=None, max_vecs=None, verbosity=0, delay=None, vk='MVec', hk='ev', **kw):
        self.env, self.fam, self.W = env, fam, W
        self.log = Log(env.rank)
        self.delay, self.vk, self.hk = delay, vk, hk
        self.rng = rng
        cls = dict(POD=mr.PODHandles, BPOD=mr.BPODHandles, DMD=mr.DMDHandles, TLS=mr.TLSqrDMDHandles)[fam]
        self.ip_calls = 0
        self.obj = self.make(cls, W, max_vecs, verbosity, kw)
        self.data = None

    def make(self, cls, W, max_vecs, verbosity, kw):
        ip = any_ip(W)

        def counted(a, b):
            self.ip_calls += 1
            return ip(a, b)
        return cls(inner_product=counted, max_vecs_per_node=max_vecs, verbosity=verbosity, **kw)

    def handles(self, V, tag):
        types = [complex if np.iscomplexobj(V) else int if V.dtype.kind == 'i' else float] * V.shape[1]
        hs = build_handles(self.env, self.rng, V, types, self.hk, self.vk, tag, self.log, self.delay)
        return hs

    def outs(self, k):
        return [EvHandle(('mode', j), None, self.log, delay=self.delay) if self.vk != 'user' else UserOut(('mode', j), self.log, self.delay)
                for j in range(k)]

    def load(self, d):
        """Handles for a data set, reused for all calls."""
        self.d = d
        if self.fam == 'POD':
            self.h = self.handles(d.X, 'x')
        elif self.fam == 'BPOD':
            self.h = self.handles(d.X, 'x')
            self.ha = self.handles(d.Y, 'y')
        else:
            self.h = self.handles(d.V, 'x')
            self.ha = None if d.seq else self.handles(d.Y, 'y')

    def decomp(self, **kw):
        d, o = self.d, self.obj
        if self.fam == 'POD':
            opts = trunc_opts(d, False)
            opts.update(kw)
            a = o.compute_decomp(self.h, **opts)
            return dict(eigvals=a[0], eigvecs=a[1])
        if self.fam == 'BPOD':
            opts = dict(rtol=d.rtol, num_inputs=d.p, num_outputs=d.q)
            opts.update(bpod_tol(d))
            opts.update(kw)
            a = o.compute_decomp(self.h, self.ha, **opts)
            return dict(sing_vals=a[0], L_sing_vecs=a[1], R_sing_vecs=a[2])
        opts = trunc_opts(d, False)
        opts['max_num_eigvals'] = d.max_num
        opts.update(kw)
        a = o.compute_decomp(self.h, adv_vec_handles=self.ha, **opts) if self.ha is not None else o.compute_decomp(self.h, **opts)
        names = ['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs']
        names += (['correlation_array_eigvals', 'correlation_array_eigvecs'] if self.fam == 'DMD' else
                  ['sum_correlation_array_eigvals', 'sum_correlation_array_eigvecs',
                   'proj_correlation_array_eigvals', 'proj_correlation_array_eigvecs'])
        return dict(zip(names, a))

    KINDS = dict(POD=['modes'], BPOD=['direct_modes', 'adjoint_modes'],
                 DMD=['exact_modes', 'proj_modes', 'adjoint_modes'], TLS=['exact_modes', 'proj_modes', 'adjoint_modes'])

    def count(self):
        o = self.obj
        return len(o.sing_vals) if self.fam == 'BPOD' else len(o.eigvals)

    def modes(self, which, idx=None, give=None):
        """Puts modes idx through fresh handles; give passes vec handles explicitly."""
        o = self.obj
        idx = list(range(self.count())) if idx is None else idx
        outs = self.outs(len(idx) if hasattr(idx, '__len__') else 1)
        f = getattr(o, 'compute_' + which)
        if give is None:
            f(idx, outs)
        else:
            f(idx, outs, give)
        return collect(self.env, outs)

    def all_modes(self):
        return {w: self.modes(w) for w in self.KINDS[self.fam]}

    def coeffs(self):
        o = self.obj
        if self.fam == 'POD':
            return dict(proj_coeffs=o.compute_proj_coeffs())
        if self.fam == 'BPOD':
            return dict(direct_proj_coeffs=o.compute_direct_proj_coeffs(), adjoint_proj_coeffs=o.compute_adjoint_proj_coeffs())
        s = o.compute_spectrum()
        a, b = o.compute_proj_coeffs()
        return dict(spectral_coeffs=s, proj_coeffs=a, adv_proj_coeffs=b)

    def arrays(self):
        o = self.obj
        if self.fam == 'POD':
            return dict(correlation_array=o.correlation_array)
        if self.fam == 'BPOD':
            return dict(Hankel_array=o.Hankel_array)
        out = dict(correlation_array=o.correlation_array, cross_correlation_array=o.cross_correlation_array)
        if self.fam == 'TLS':
            out['adv_correlation_array'] = o.adv_correlation_array
        return out

    def full(self, d=None, **kw):
        if d is not None:
            self.load(d)
        res = self.decomp(**kw)
        res.update(self.all_modes())
        res.update(self.coeffs())
        res.update(self.arrays())
        return res


class UserOut(EvHandle):
    def __init__(self, name, log, delay):
        EvHandle.__init__(self, name, None, log, make=UserVec, delay=delay)

    def put(self, vec):
        if self.delay is not None:
            self.delay('put')
        self.puts += 1
        self.data = content(vec)
        self.log.add('put', self.name)


# ---------------------------------------------------------------- oracles
def eye(k):
    return np.eye(k)


def judge_pod(env, res, d, k=None, tag='pod', tol=1e-7):
    """k: number of modes that must be retained (default: the rank)."""
    k = getattr(d, 'keep', d.r) if k is None else k
    X, W = d.X, d.W
    R = sqrt_w(W, X.shape[0])
    s = np.linalg.svd(R.dot(X), compute_uv=False)
    ev = np.asarray(res['eigvals'])
    if not env.check(ev.shape == (k,), tag + '-count', '%s eigenvalues of shape %s, expected %d (squared singular values %s)' % (tag, ev.shape, k, s[:8] ** 2)):
        return False
    env.check(np.all(np.diff(ev) <= 1e-12 * ev[0]) and np.all(ev > 0), tag + '-order', 'eigenvalues %s not positive descending' % ev)
    env.close(ev, s[:k] ** 2, tag + '-eigvals', tol, scale=s[0] ** 2, what='eigenvalues')
    U = res.get('eigvecs')
    if U is not None:
        env.close(U.conj().T.dot(U), eye(k), tag + '-eigvecs', tol, what='eigenvector Gram')
        G = gram(X, X, W)
        env.close(G.dot(U), U * ev, tag + '-eigvecs', tol, scale=s[0] ** 2, what='eigen equation')
    if res.get('correlation_array') is not None:
        env.close(res['correlation_array'], gram(X, X, W), tag + '-correlation', 1e-10, scale=s[0] ** 2, what='correlation array')
    M = res.get('modes')
    if M is not None:
        ok = env.close(gram(M, M, W), eye(k), tag + '-orthonormal', tol, what='mode Gram array')
        pc = res.get('proj_coeffs')
        if ok and pc is not None:
            env.close(pc, gram(M, X, W), tag + '-coeffs', tol, scale=s[0], what='projection coefficients')
            err = np.linalg.norm(R.dot(X - M.dot(pc))) ** 2
            want = float(np.sum(s[k:] ** 2))
            env.check(abs(err - want) <= tol * s[0] ** 2, tag + '-optimal',
                      'reconstruction error %.6g, truncated eigenvalues sum to %.6g' % (err, want))
    return True


def judge_bpod(env, res, d, k=None, tag='bpod', tol=1e-7):
    k = getattr(d, 'keep', d.r) if k is None else k
    X, Y, W = d.X, d.Y, d.W
    s = np.linalg.svd(d.H, compute_uv=False)
    sv = np.asarray(res['sing_vals'])
    if not env.check(sv.shape == (k,), tag + '-count', 'singular values of shape %s, expected %d of %s' % (sv.shape, k, s[:8])):
        return False
    env.check(np.all(np.diff(sv) <= 1e-12 * sv[0]) and np.all(sv > 0), tag + '-order', 'singular values %s not positive descending' % sv)
    env.close(sv, s[:k], tag + '-singvals', tol, scale=s[0], what='singular values')
    if res.get('Hankel_array') is not None:
        env.close(res['Hankel_array'], d.H, tag + '-hankel', 1e-9, scale=s[0], what='Hankel array')
    L, R = res.get('L_sing_vecs'), res.get('R_sing_vecs')
    if L is not None:
        env.close(L.conj().T.dot(L), eye(k), tag + '-singvecs', tol, what='left singular vectors')
        env.close(R.conj().T.dot(R), eye(k), tag + '-singvecs', tol, what='right singular vectors')
        env.close(d.H.dot(R), L * sv, tag + '-singvecs', tol, scale=s[0], what='singular equation')
    Pd, Pa = res.get('direct_modes'), res.get('adjoint_modes')
    f = np.sqrt(s[0] / s[k - 1])
    if Pd is not None and Pa is not None:
        ok = env.close(gram(Pa, Pd, W), eye(k), tag + '-biorthogonal', tol * f, what='adjoint-direct mode Gram array')
        if ok and L is not None:
            nx, ny = np.linalg.norm(X) / np.sqrt(s[k - 1]), np.linalg.norm(Y) / np.sqrt(s[k - 1])
            env.close(Pd, X.dot(R / np.sqrt(sv)), tag + '-modes', tol, scale=nx, what='direct modes')
            env.close(Pa, Y.dot(L / np.sqrt(sv)), tag + '-modes', tol, scale=ny, what='adjoint modes')
        if ok and res.get('direct_proj_coeffs') is not None:
            env.close(res['direct_proj_coeffs'], gram(Pa, X, W), tag + '-coeffs', tol * f, scale=np.sqrt(s[0]), what='direct projection coefficients')
            env.close(res['adjoint_proj_coeffs'], gram(Pd, Y, W), tag + '-coeffs', tol * f, scale=np.sqrt(s[0]), what='adjoint projection coefficients')
    return True


def match_eigs(a, b):
    """Largest distance in a greedy one-to-one matching."""
    b = list(b)
    worst = 0.
    for x in a:
        dist = [abs(x - y) for y in b]
        j = int(np.argmin(dist))
        worst = max(worst, dist[j])
        b.pop(j)
    return worst


def judge_dmd(env, res, d, tag=None, tol=1e-6):
    tag = tag or ('tls' if d.tls else 'dmd')
    k, W, R = d.k, d.W, d.R
    lam = np.asarray(res['eigvals'])
    if not env.check(lam.shape == (k,), tag + '-count', 'eigenvalues of shape %s, expected %d (%s)' % (lam.shape, k, d.desc)):
        return False
    ls = max(1., np.abs(d.lam).max())
    w = match_eigs(lam, d.lam)
    if not env.check(w <= tol * ls, tag + '-eigvals', 'eigenvalues %s, expected %s (distance %.2g)' % (lam, d.lam, w)):
        return False
    env.count('eigvals_compared', k)
    A = d.Ye.dot(d.Vr / d.sx).dot(d.U.conj().T)      # full map, weighted coordinates
    PU = d.U.dot(d.U.conj().T)
    xs = d.sx[0]
    E, P, J = (res.get(x) for x in ('exact_modes', 'proj_modes', 'adjoint_modes'))
    nrm = lambda M: max(EPS, np.linalg.norm(M, axis=0).max())
    an = max(1., np.linalg.norm(A))
    ok = True
    if E is not None:
        Ew = R.dot(E)
        ok &= env.close(A.dot(Ew), Ew * lam, tag + '-exact', tol, scale=an * nrm(Ew), what='exact modes: A Phi - Phi Lambda')
    if P is not None:
        Pw = R.dot(P)
        ok &= env.close(PU.dot(A.dot(Pw)), Pw * lam, tag + '-proj', tol, scale=an * nrm(Pw), what='projected modes')
        ok &= env.close(PU.dot(Pw), Pw, tag + '-proj', tol, scale=nrm(Pw), what='projected modes in the span of the data')
    if J is not None:
        Jw = R.dot(J)
        ok &= env.close(A.conj().T.dot(Jw), Jw * lam.conj(), tag + '-adjoint', tol, scale=an * nrm(Jw), what='adjoint modes')
        env.close(PU.dot(Jw), Jw, tag + '-adjoint', tol, scale=nrm(Jw), what='adjoint modes in the span of the data')
        if E is not None:
            env.close(gram(J, E, W), eye(k), tag + '-biorthogonal', tol * 10, what='adjoint-exact Gram')
        if P is not None:
            env.close(gram(J, P, W), eye(k), tag + '-biorthogonal', tol * 10, what='adjoint-projected Gram')
        pc = Jw.conj().T.dot(d.Xe)
        cs = max(EPS, nrm(Jw) * xs)
        if res.get('proj_coeffs') is not None:
            env.close(res['proj_coeffs'], pc, tag + '-coeffs', tol, scale=cs, what='projection coefficients')
        if res.get('adv_proj_coeffs') is not None:
            env.close(res['adv_proj_coeffs'], Jw.conj().T.dot(d.Ye), tag + '-adv-coeffs', tol, scale=max(cs, nrm(Jw) * np.linalg.norm(d.Ye)),
                      what='advanced projection coefficients')
        if res.get('spectral_coeffs') is not None:
            env.close(np.ravel(res['spectral_coeffs']) if tag.endswith('restored') else res['spectral_coeffs'],
                      np.abs(pc[:, 0]), tag + '-spectral', tol, scale=cs, what='spectral coefficients')
    X0, Y0 = pairs(d)
    for name, a, b in (('correlation_array', X0, X0), ('cross_correlation_array', X0, Y0), ('adv_correlation_array', Y0, Y0)):
        if res.get(name) is not None:
            g = gram(a, b, W)
            env.close(res[name], g, tag + '-correlations', 1e-9, scale=max(1e-12, np.abs(g).max()), what=name)
    if res.get('correlation_array_eigvals') is not None:
        env.close(res['correlation_array_eigvals'], d.sx ** 2, tag + '-corr-eigvals', tol, scale=xs ** 2, what='correlation eigenvalues')
        env.close(gram(X0, X0, W).dot(res['correlation_array_eigvecs']), res['correlation_array_eigvecs'] * d.sx ** 2,
                  tag + '-corr-eigvecs', tol, scale=xs ** 2, what='correlation eigenvectors')
    if res.get('proj_correlation_array_eigvals') is not None:
        env.close(res['proj_correlation_array_eigvals'], d.sx ** 2, tag + '-corr-eigvals', tol, scale=xs ** 2, what='projected correlation eigenvalues')
        Q = res['sum_correlation_array_eigvecs']
        env.close(Q.dot(Q.conj().T), d.P, tag + '-projector', tol, scale=1., what='joint projector')
        Z = np.vstack((R.dot(X0), R.dot(Y0)))
        sz = np.linalg.svd(Z, compute_uv=False)[:d.kz] ** 2
        env.close(res['sum_correlation_array_eigvals'], sz, tag + '-corr-eigvals', tol, scale=sz[0], what='sum correlation eigenvalues')
    return ok


def make_data(rng, fam, **kw):
    if fam == 'POD':
        return pod_data(rng, **kw)
    if fam == 'BPOD':
        return bpod_data(rng, **kw)
    return dmd_data(rng, tls=fam == 'TLS', **kw)


def judge_fam(env, res, d, fam, **kw):
    if fam == 'POD':
        return judge_pod(env, res, d, **kw)
    if fam == 'BPOD':
        return judge_bpod(env, res, d, **kw)
    return judge_dmd(env, res, d, **kw)


# ---------------------------------------------------------------- cases C11-C14
def array_impls(fam):
    return dict(POD=['snaps', 'direct'], BPOD=['arrays'], DMD=['snaps', 'direct'], TLS=['snaps', 'direct'])[fam]


def run_array(fam, d, impl, **kw):
    if fam == 'POD':
        return pod_arrays(d, impl, **kw)
    if fam == 'BPOD':
        return bpod_arrays(d, **kw)
    return dmd_arrays(d, impl, **kw)


def tag_of(fam, impl):
    return dict(POD='pod', BPOD='bpod', DMD='dmd', TLS='tls')[fam] + '-' + impl


def dec_case(env, i, fam):
    """One random data set through all implementations (arrays only serially)."""
    rng = make_rng(env.seed, 'dec', fam, i, env.size)
    cut = fam in ('DMD', 'TLS') and rng.random() < .35
    d = make_data(rng, fam, k='cut', vary=True) if cut else make_data(rng, fam, vary=True)
    if rng.random() < .6:
        d = by_tolerance(d, fam, rng)
        env.count('truncated_by_tolerance', hasattr(d, 'tol_by'))
    env.sample(dict(fam=fam, np=env.size, **d.desc))
    if env.size == 1:
        for impl in array_impls(fam):
            with env.case(i, dict(impl=impl, **d.desc)):
                asl = rng.random() < .3
                res = run_array(fam, as_input(d, fam, rng) if asl else d, impl)
                judge_fam(env, res, d, fam, tag=tag_of(fam, impl))
                env.count('array_decompositions')
                env.sig(fam, impl, tuple(sorted(d.desc.items(), key=str)))
                if i % 3 == 1:
                    selected(env, fam, d, impl, run_array(fam, d, impl) if asl else res, make_rng(env.seed, 'selected', fam, i, impl))
    with env.case(i, dict(impl='handles', np=env.size, **d.desc)):
        vk = pick(rng, ['MVec', 'MVec', 'nd1', 'user'])
        r = Runner(env, fam, d.W, rng, max_vecs=pick(rng, [None, 3, 7, 3 * env.size, 4 * env.size + 1, 100]), vk=vk,
                   hk=pick(rng, ['ev', 'mem']))
        res = r.full(d)
        judge_fam(env, res, d, fam, tag=tag_of(fam, 'handles'))
        env.count('handle_decompositions')
        env.count('inner_product_calls', r.ip_calls)
        env.sig(fam, 'handles', env.size, tuple(sorted(d.desc.items(), key=str)))
    if fam in ('DMD', 'TLS') and i % 4 == 0:
        slow_case(env, i, fam, rng)
    if fam in ('DMD', 'TLS') and i % 4 == 2:
        decay_case(env, i, fam, rng)
    if fam == 'TLS' and d.max_num is None:
        tls_is_dmd(env, i, rng)


def selected(env, fam, d, impl, full, rng):
    """All of a decomposition when only some of the modes are asked for."""
    names = [x for x in full if x.endswith('modes')]
    k = min(np.asarray(full[x]).shape[1] for x in names)
    if not k:
        return
    lists = [[int(x) for x in rng.integers(0, k, int(rng.integers(1, k + 1)))] for _ in range(2)]
    if fam == 'BPOD':
        kw = dict(direct_mode_indices=lists[0], adjoint_mode_indices=lists[1])
        which = dict(direct_modes=lists[0], adjoint_modes=lists[1])
        if rng.random() < .5:
            drop = pick(rng, sorted(which))
            del which[drop], kw[drop[:-1] + '_indices']
    else:
        kw, which = dict(mode_indices=lists[0]), {x: lists[0] for x in names}
    part = run_array(fam, d, impl, **kw)
    env.desc = dict(env.desc, indices=str(which))
    for x in full:
        want = np.asarray(full[x])
        want = want[:, which[x]] if x in which else want
        env.close(part[x], want, 'selected-%s' % x, 1e-9, scale=max(1e-300, np.abs(full[x]).max()), what='%s when only modes %s are computed' % (x, which))
    env.count('decompositions_with_selected_modes')


def as_input(d, fam, rng):
    """Same data in another memory layout or container."""
    import copy
    c = copy.copy(d)
    for name in ('X', 'Y', 'V'):
        if getattr(c, name, None) is not None:
            setattr(c, name, in_form(rng, getattr(c, name)))
    if c.W is not None:
        c.W = in_form(rng, c.W, ('fortran', 'strided', 'reversed', 'readonly', 'swapped'))
    return c


def large_data(rng, fam, serial):
    if fam == 'POD':
        n, m = pick(rng, [(300, 60), (40, 130), (70, 70), (520, 12), (1100, 3)] if serial else [(80, 40), (20, 50)])
        return pod_data(rng, n=n, m=m, W=gen_W(rng, n, 'real'), kind=gen_kind(rng))
    elif fam == 'BPOD':
        return bpod_data(rng, steps=(int(rng.integers(10, 25)), int(rng.integers(10, 25))) if serial else (13, 11),
                      p=int(rng.integers(1, 5)) if serial else 2, q=int(rng.integers(1, 5)) if serial else 2)
    else:
        n, m = pick(rng, [(300, 60), (40, 130), (70, 70), (520, 12), (1100, 10)] if serial else [(80, 40), (20, 50)])
        return dmd_data(rng, n=n, m=m, tls=fam == 'TLS', low=int(rng.integers(2, 7)), k=pick(rng, [None, None, 'any']))


def big_case(env, i, fam):
    """Many vectors, long vectors."""
    rng = make_rng(env.seed, 'big', fam, i, env.size)
    d = large_data(rng, fam, env.size == 1)
    env.sample(dict(fam=fam, np=env.size, **d.desc))
    if env.size == 1:
        for impl in array_impls(fam):
            with env.case(i, dict(impl=impl, **d.desc)):
                judge_fam(env, run_array(fam, d, impl), d, fam, tag=tag_of(fam, impl))
                env.count('big_decompositions')
    with env.case(i, dict(impl='handles', np=env.size, **d.desc)):
        r = Runner(env, fam, d.W, rng, max_vecs=pick(rng, [None, 10 * env.size, 1000]), vk='nd1')
        judge_fam(env, r.full(d), d, fam, tag=tag_of(fam, 'handles'))
        env.count('big_decompositions')


def by_tolerance(d, fam, rng):
    """Asks for a truncation through a tolerance placed inside a gap of the
    spectrum. Returns the data unchanged if there is no such truncation."""
    import copy
    c = copy.copy(d)
    if fam in ('POD', 'BPOD'):
        ks = [k for k in range(1, d.r) if d.s[k - 1] > 1.15 * d.s[k]]
        if not ks:
            return d
        c.keep = pick(rng, ks)
        spec, kk = d.s, c.keep
    else:
        if d.max_num is None or d.max_num >= d.full:
            return d
        spec, kk = d.spec, d.max_num
        c.max_num = pick(rng, [None, None, d.full + 3])
    thr = float(np.sqrt(spec[kk - 1] * spec[kk]))
    name = pick(rng, ['rtol', 'atol'])
    if name == 'rtol':
        thr = thr / float(spec[0])
    if fam == 'TLS' and d.sx[-1] < 1.1 * thr * (d.sx[0] if name == 'rtol' else 1.):
        return d
    if fam == 'BPOD':
        c.rtol = 1e-8
    c.tol_by = (name, thr)
    c.desc = dict(d.desc, by=name, keep=int(kk))
    return c


def slow_case(env, i, fam, rng):
    """Slow oscillations: eigenvalue pairs with tiny imaginary parts."""
    nb = int(rng.integers(1, 4))
    k = 2 * nb
    n = k + int(rng.integers(0, 6))
    r = 10. ** rng.uniform(-.3, .3, nb) * rng.choice([-1, 1], nb) if rng.random() < .5 else np.linspace(.7, 1.1, nb)
    t = 10. ** rng.uniform(-8, -4, nb)
    A = np.zeros((k, k))
    for b in range(nb):
        A[2 * b:2 * b + 2, 2 * b:2 * b + 2] = r[b] * np.array([[np.cos(t[b]), -np.sin(t[b])], [np.sin(t[b]), np.cos(t[b])]])
    lam = np.concatenate((r * np.exp(1j * t), r * np.exp(-1j * t)))
    d = Data()
    d.kind, d.seq, d.W = "real", False, gen_W(rng, n, "real")
    V = np.linalg.solve(sqrt_w(d.W, n), np.linalg.qr(gauss(rng, (n, n), "real"))[0][:, :k])
    d.V, d.Y = V, V.dot(A)
    d.deficient, d.max_num, d.tls = False, None, fam == "TLS"
    d.desc = dict(slow=True, n=n, k=k, angles=t.tolist(), radii=r.tolist())
    runs = [(x, lambda x=x: dmd_arrays(d, x)) for x in ("snaps", "direct")] if env.size == 1 else []
    runs.append(("handles", lambda: hand()))
    def hand():
        h = Runner(env, fam, d.W, rng)
        h.load(d)
        return h.decomp()
    for impl, f in runs:
        with env.case(i, dict(impl=impl, **d.desc)):
            got = np.asarray(f()["eigvals"])
            if env.check(got.shape == (k,), tag_of(fam, impl) + "-slow", "eigenvalues of shape %s" % (got.shape,)):
                w = match_eigs(got, lam)
                env.check(w <= 3e-10, tag_of(fam, impl) + "-slow", "eigenvalues %s, expected %s (distance %.2g)" % (got, lam, w))
            env.count("slow_eigvals_compared", k)


def decay_case(env, i, fam, rng):
    """Eigenvalues of very different magnitude: some modes decay within a step."""
    k = int(rng.integers(1, 5))
    n = k + int(rng.integers(0, 6))
    kind = gen_kind(rng)
    lam = 10. ** rng.uniform(-5, 0, k) * rng.choice([-1, 1], k)
    lam = lam[np.argsort(-np.abs(lam))]
    for a in range(1, k):
        if abs(lam[a]) > .5 * abs(lam[a - 1]):
            lam[a] = .5 * lam[a - 1]
    S = np.eye(k) + .3 * np.triu(gauss(rng, (k, k), kind), 1)
    A = S.dot(np.diag(lam)).dot(np.linalg.inv(S))
    d = Data()
    d.kind, d.seq, d.W = kind, False, gen_W(rng, n, kind)
    V = np.linalg.solve(sqrt_w(d.W, n), np.linalg.qr(gauss(rng, (n, n), kind))[0][:, :k])
    d.V, d.Y = V, V.dot(A)
    d.deficient, d.max_num, d.tls = False, None, fam == 'TLS'
    d.desc = dict(decay=True, n=n, k=k, lam=lam.tolist(), kind=kind)

    def arrays(impl):
        r = dmd_arrays(d, impl)
        return r['eigvals'], [r[x] for x in ('exact_modes', 'proj_modes', 'adjoint_modes')]

    def hand():
        h = Runner(env, fam, d.W, rng)
        h.load(d)
        e = h.decomp()['eigvals']
        return e, [h.modes(x) for x in ('exact_modes', 'proj_modes', 'adjoint_modes')]
    runs = [(x, lambda x=x: arrays(x)) for x in ('snaps', 'direct')] if env.size == 1 else []
    runs.append(('handles', hand))
    full = d.Y.dot(gram(V, np.eye(n), d.W))
    for impl, f in runs:
        tag = tag_of(fam, impl) + '-decay'
        with env.case(i, dict(impl=impl, **d.desc)):
            e, (ex, pr, ad) = f()
            e = np.asarray(e)
            if not env.check(e.shape == (k,), tag, 'eigenvalues of shape %s' % (e.shape,)):
                continue
            w = match_eigs(e, lam)
            env.check(w <= 1e-12, tag, 'eigenvalues %s, expected %s (distance %.2g)' % (e, lam, w))
            if ex is None:
                continue
            for j in range(k):
                x = ex[:, j]
                size = np.abs(pr[:, j]).max()
                tol = 1e-8 + 1e-10 / abs(e[j])
                env.close(x, pr[:, j], tag, tol, scale=size, what='exact mode %d of eigenvalue %s' % (j, e[j]))
                env.close(full.dot(x), e[j] * x, tag, 1e-8 + 1e-10 / abs(e[j]), scale=size, what='eigen equation of exact mode %d' % j)
            env.close(gram(ad, pr, d.W), np.eye(k), tag, 1e-9, scale=1., what='adjoint and projected modes')
            env.count('decayed_modes_compared', k)


def tls_is_dmd(env, i, rng):
    """Without truncation and with independent data TLS DMD equals DMD."""
    m = int(rng.integers(1, 7))
    d = dmd_data(rng, n=m + int(rng.integers(2, 9)), m=m, k=None, tls=False)
    if d.full < m:
        return
    d.P = np.eye(m)
    d.kz = m
    for impl in ('snaps', 'direct'):
        if env.size > 1:
            break
        with env.case(i, dict(impl=impl, tls_vs_dmd=True, **d.desc)):
            d.tls = True
            res = dmd_arrays(d, impl)
            judge_dmd(env, res, d, tag='tls-eq-dmd-' + impl)
            env.count('tls_dmd_equalities')
    with env.case(i, dict(impl='handles', tls_vs_dmd=True, **d.desc)):
        d.tls = True
        r = Runner(env, 'TLS', d.W, rng)
        judge_dmd(env, r.full(d), d, tag='tls-eq-dmd-handles')
        env.count('tls_dmd_equalities')
