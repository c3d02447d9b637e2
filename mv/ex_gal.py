"""Galerkin projection and time derivatives: arrays and handles."""
import numpy as np
import modred as mr
from modred import parallel

from .core import make_rng
from .data import in_form, gauss, ortho, special_array, gram, sqrt_w
from .ex_dec import gen_W, collect
from .ex_dec2 import same_on_all
from .ex_vs import build_handles, any_ip, pick, content
from .instr import EvHandle, Log, make_delay, perturbed


def basis_pair(rng, n, k, kind, W, rel):
    """Basis, adjoint basis (or None) and whether they are biorthonormal."""
    if rel in ('ortho', 'ortho-adj'):
        R = sqrt_w(W, n)
        Phi = np.linalg.solve(R, ortho(rng, n, k, kind))
        return Phi, (None if rel == 'ortho' else Phi.copy()), True
    Phi = gauss(rng, (n, k), kind)
    if rel == 'plain':
        return Phi, None, False
    Psi = gauss(rng, (n, k), kind) + 1.5 * Phi
    if rel == 'oblique':
        return Phi, Psi, False
    # biorthonormal: Psi^* W Phi = I
    G = gram(Psi, Phi, W)
    return Phi, Psi.dot(np.linalg.inv(G).conj().T), True


def mixed_kind(rng, kind):
    """Types of the A- and B-actions may differ from those of the basis."""
    return pick(rng, [kind, kind, kind, 'real', 'complex'])


def gal_case(env, i):
    rng = make_rng(env.seed, 'gal', i)
    n = int(rng.integers(2, 11))
    k = int(rng.integers(1, min(n, 6) + 1))
    large = i % 20 == 7
    if large:
        n = int(rng.integers(30, 150))
        k = int(rng.integers(10, 28))
    most = 30 if large else 5
    env.count('large_projections', int(large))
    kind = pick(rng, ['real', 'complex'])
    W = gen_W(rng, n, kind)
    for _ in range(50):
        rel = pick(rng, ['ortho', 'ortho-adj', 'plain', 'oblique', 'oblique', 'biortho', 'almost-ortho', 'almost-biortho', 'almost-ortho-adj'])
        Phi, Psi, bi = basis_pair(rng, n, k, kind, W, rel.replace('almost-', ''))
        if rel.startswith('almost'):
            Phi = Phi + 10. ** rng.uniform(-7, -1) * gauss(rng, (n, k), kind)
            bi = False
        L = Phi if Psi is None else Psi
        G = gram(L, Phi, W)
        cond = np.linalg.cond(G)
        if cond < 1e5 and np.abs(L).max() < 1e3:
            break
    else:
        return
    # declared although it is not: then the inner products themselves are the answer
    declared = bool(rng.integers(2)) if bi or rng.random() < .3 else False
    P = np.eye(k) if declared else np.linalg.inv(G)
    sA = max(1., np.abs(P).max()) * max(1., np.abs(W).max() if W is not None else 1.) * max(1, np.abs(L).max()) * n * max(1., cond if not declared else 1.)
    # everything in units of its own
    up = uq = ua = ub = uc = 1.
    if rng.random() < .4:
        up, uq, ua, ub, uc = [10. ** x for x in rng.uniform(-20, 20, 5)]
        uq = up if Psi is None else uq
        Phi, Psi = Phi * up, None if Psi is None else Psi * uq
        env.count('projections_in_other_units')
    fA, fB = (uq * ua, uq * ub) if declared else (ua / up, ub / up)
    r2 = make_rng(env.seed, 'galcfg', i, env.size)
    log = Log(env.rank)
    hk = pick(r2, ['ev', 'ev', 'mem', 'pickle'])
    vk = pick(r2, ['MVec', 'MVecI', 'nd1', 'user'])
    delay = make_delay(r2, pick(r2, ['none', 'none', 'random', 'one-slow']), env.rank, env.size)
    cnt = [0]

    def mk(V, tag):
        cnt[0] += 1
        T = complex if np.iscomplexobj(V) else float
        return build_handles(env, r2, V, [T] * V.shape[1], hk, vk, '%s%d' % (tag, cnt[0]), log, delay)
    impls = ['handles'] + (['arrays'] if env.size == 1 else [])
    desc = dict(np=env.size, n=n, k=k, kind=kind, rel=rel, declared=declared, W=None if W is None else W.ndim, handles=hk, vec=vk)
    objs = {}
    with env.case((i, 'build'), desc):
        mv = pick(r2, [10000, 3, 3 * env.size + 1, 5 * env.size])
        kw = dict(is_basis_orthonormal=declared)
        if not declared and rng.random() < .5:
            kw = {}
        hp = mk(Phi, 'p')
        hq = None if Psi is None else mk(Psi, 'q')
        objs['handles'] = mr.LTIGalerkinProjectionHandles(
            any_ip(W), hp, **dict(kw, max_vecs_per_node=mv, verbosity=0, **({} if hq is None else dict(adjoint_basis_vec_handles=hq))))
        if env.size == 1:
            conv = pick(rng, [np.array, np.asfortranarray, lambda x: x.tolist()])
            kwa = dict(kw, inner_product_weights=W) if W is not None or rng.random() < .5 else dict(kw)
            if Psi is not None:
                kwa['adjoint_basis_vecs'] = conv(Psi)
            objs['arrays'] = mr.LTIGalerkinProjectionArrays(conv(Phi), **kwa)
    earlier = []
    for step in range(int(rng.integers(1, 5))):
        op = pick(rng, ['A', 'B', 'C', 'model', 'model'])
        ak, bk, ck = mixed_kind(rng, kind), mixed_kind(rng, kind), mixed_kind(rng, kind)
        p, q = int(rng.integers(1, most)), int(rng.integers(1, most))
        A, B, C = gauss(rng, (n, k), ak), gauss(rng, (n, p), bk), gauss(rng, (q, k), ck)
        if rng.random() < .2:
            A, B, C = special_array(rng, n, k, ak), special_array(rng, n, p, bk), special_array(rng, q, k, ck)
        wA, wB = P.dot(gram(L, A, W)) * fA, P.dot(gram(L, B, W)) * fB
        A, B, C = A * ua, B * ub, C * uc
        if rng.random() < .15:
            C = rng.integers(-5, 6, (q, k))
        fs = dict(A=fA, B=fB, C=max(1e-300, np.abs(C).max()))
        tol = dict(A=10 * sA, B=10 * sA, C=1.)
        env.sample(dict(desc, op=op))
        for impl in impls:
            with env.case((i, step, impl), dict(desc, op=op, impl=impl, step=step, types=(ak, bk, ck), p=p, q=q)):
                o = objs[impl]
                if impl == 'handles':
                    aA, aB = mk(A, 'a'), mk(B, 'b')
                    if p == 1 and r2.random() < .3:
                        aB = aB[0]
                    aC = [np.array(c) for c in C.T]
                    if r2.random() < .2:
                        aC = [list(c) for c in C.T]
                else:
                    aA, aB, aC = [in_form(r2, a) if r2.random() < .4 else a.copy() for a in (A, B, C)]
                    if q == 1 and r2.random() < .5:
                        aC = C[0].copy()
                with perturbed(parallel, delay, sync=bool(r2.integers(2)), log=log):
                    got = {}
                    if op == 'model':
                        got['A'], got['B'], got['C'] = o.compute_model(aA, aB, aC)
                    else:
                        got[op] = getattr(o, 'reduce_' + op)({'A': aA, 'B': aB, 'C': aC}[op])
                for x, want in (('A', wA), ('B', wB), ('C', C)):
                    if x not in got:
                        continue
                    env.close(np.asarray(got[x]) / fs[x], want / fs[x], 'galerkin-' + x, 1e-11 if x == 'C' else 1e-10, scale=tol[x], what='%s_reduced (%s)' % (x, impl))
                    env.close(np.asarray(getattr(o, x + '_reduced')) / fs[x], want / fs[x], 'galerkin-attr', 1e-10, scale=tol[x], what='attribute %s_reduced (%s)' % (x, impl))
                    env.count('reduced_%s_checked' % x)
                    earlier.append((x, impl, got[x], want, fs[x]))
                if env.size > 1:
                    same_on_all(env, got, 'galerkin-ranks-differ')
                env.sig(env.size, impl, n, k, p, q, kind, rel, declared, desc['W'], op, ak, bk, step)
    for x, impl, g, want, f in earlier:
        env.close(np.asarray(g) / f, want / f, 'galerkin-earlier', 1e-10, scale=10 * sA + np.abs(want / f).max(), what='%s_reduced returned earlier (%s)' % (x, impl))
    env.check(not any(e[2] == 'put' for e in log.events), 'galerkin-put', 'a handle was put')
    if Psi is None and not declared and env.size == 1 and len(objs) == 2:
        # the two implementations also agree on the full-order projection of A itself
        Afull = gauss(rng, (n, n), kind)
        with env.case((i, 'agree'), desc):
            a = objs['handles'].reduce_A(mk(Afull.dot(Phi), 'f'))
            b = objs['arrays'].reduce_A(Afull.dot(Phi))
            env.close(a, b, 'galerkin-agree', 1e-10, scale=10 * sA * np.abs(Afull).max() * n, what='handles and arrays')
            if k == n:
                env.close(b, np.linalg.solve(Phi, Afull.dot(Phi)), 'galerkin-similar', 1e-8, scale=10 * sA * n * np.abs(Afull).max() * np.linalg.cond(Phi), what='projection on a complete basis')


def deriv_case(env, i):
    """Time derivatives: (advanced - current) / dt, each output put exactly once."""
    rng = make_rng(env.seed, 'deriv', i)
    n = int(rng.integers(1, 9))
    m = int(pick(rng, [1, 2, env.size, env.size + 1, max(1, env.size - 1), int(rng.integers(1, 14))]))
    if i % 20 == 7:
        n, m = pick(rng, [(3, 70), (400, 4), (60, 30)])
    kind = pick(rng, ['real', 'complex', 'int'])
    X = rng.integers(-9, 9, (n, m)).astype(float) if kind == 'int' else gauss(rng, (n, m), kind)
    Y = rng.integers(-9, 9, (n, m)).astype(float) if kind == 'int' else gauss(rng, (n, m), kind)
    dt = pick(rng, [1, 2, 3, .5, float(rng.uniform(.01, 4)), -1.5, 1e-6, 1e4, np.float64(.3)])
    want = (Y - X) / dt
    r2 = make_rng(env.seed, 'derivcfg', i, env.size)
    hk, vk = pick(r2, ['ev', 'mem', 'pickle']), pick(r2, ['MVec', 'nd1', 'MVecI'])
    log = Log(env.rank)
    delay = make_delay(r2, pick(r2, ['none', 'random', 'one-slow', 'ramp']), env.rank, env.size)
    T = {'int': int, 'real': float, 'complex': complex}[kind]
    desc = dict(np=env.size, n=n, m=m, kind=kind, dt=dt, handles=hk, vec=vk)
    with env.case((i, 'handles'), desc):
        series = rng.random() < .3 and m > 1
        if series:
            V = np.concatenate((X, Y[:, -1:]), axis=1)
            h = build_handles(env, r2, V, [T] * (m + 1), hk, vk, 'x', log, delay)
            hx, hy = h[:-1], h[1:]
            want_h = (V[:, 1:] - V[:, :-1]) / dt
        else:
            hx = build_handles(env, r2, X, [T] * m, hk, vk, 'x', log, delay)
            hy = build_handles(env, r2, Y, [T] * m, hk, vk, 'y', log, delay)
            want_h = want
        outs = [EvHandle(('d', j), None, log, delay=delay) for j in range(m)]
        with perturbed(parallel, delay, sync=bool(r2.integers(2)), log=log):
            mr.compute_derivs_handles(hx, hy, outs, dt)
        D = collect(env, outs, 'deriv-put')
        if D is not None:
            env.close(D, want_h, 'deriv-value', 1e-12, scale=20 / abs(dt), what='derivatives')
        env.check(not any(e[2] == 'put' and e[3][0] != 'd' for e in log.events), 'deriv-input-put', 'an input handle was put')
        env.count('derivs_checked', m)
        env.sig(env.size, n, m, kind, hk, vk, series)
    if env.size == 1:
        with env.case((i, 'arrays'), desc):
            cv = lambda a: pick(rng, [np.array, np.asfortranarray, lambda x: x.tolist()])(a.astype(T))
            got = mr.compute_derivs_arrays(cv(X), cv(Y), dt)
            env.close(got, want, 'deriv-value', 1e-12, scale=20 / abs(dt), what='derivatives (arrays)')
            env.count('derivs_checked', m)
