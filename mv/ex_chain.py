"""End-to-end workflows: from a simulated system through every stage to a
reduced model, each stage reading what the one before has written."""
import os

import numpy as np
import modred as mr

from .core import make_rng
from .data import gauss, stable_discrete, markov
from .ex_dec import gen_W
from .ex_vs import pick


def ip_of(W):
    if W is None:
        return lambda a, b: np.vdot(np.ravel(a), np.ravel(b))
    if W.ndim == 1:
        return lambda a, b: np.vdot(np.ravel(a), W * np.ravel(b))
    return lambda a, b: np.vdot(np.ravel(a), W.dot(np.ravel(b)))


class Store(object):
    """Handles of one storage kind; user code writes on the first process."""

    def __init__(self, env, kind, is_complex):
        self.env, self.kind, self.is_complex, self.count = env, kind, is_complex, 0

    def new(self, count=1, **kw):
        out = []
        for _ in range(count):
            self.count += 1
            path = os.path.join(self.env.scratch, 'v%d' % self.count)
            if self.kind == 'mem':
                out.append(mr.VecHandleInMemory(**kw))
            elif self.kind == 'text':
                out.append(mr.VecHandleArrayText(path + '.txt', is_complex=self.is_complex, **kw))
            else:
                out.append(mr.VecHandlePickle(path + '.pkl', **kw))
        return out

    def write(self, handles, vecs):
        if self.env.rank == 0:
            for h, v in zip(handles, vecs):
                h.put(np.array(v))
        if self.env.size > 1:
            self.env.comm.Barrier()

    def data(self, rng, V, base=False):
        """Handles whose vectors are the columns of V, stored as such or
        before subtraction of a base vector and scaling."""
        if not base:
            # with a scale factor alone or as they are
            s = None if rng.integers(2) else float(2. ** rng.integers(-2, 3))
            if self.kind == 'mem':
                return [mr.VecHandleInMemory(vec=v / (s or 1.), scale=s) for v in V.T]
            h = self.new(V.shape[1], scale=s)
            self.write(h, [v / (s or 1.) for v in V.T])
            return h
        b, s = gauss(rng, V.shape[0], 'complex' if np.iscomplexobj(V) else 'real'), float(rng.uniform(.2, 4))
        bh = self.new()
        self.write(bh, [b])
        if self.kind == 'mem':
            return [mr.VecHandleInMemory(vec=v / s + b, base_vec_handle=bh[0], scale=s) for v in V.T]
        h = self.new(V.shape[1], base_vec_handle=bh[0], scale=s)
        self.write(h, [v / s + b for v in V.T])
        return h


def chain_case(env, i):
    rng = make_rng(env.seed, 'chain', i)
    for _ in range(200):
        n, p, q = int(rng.integers(1, 7)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
        kind = pick(rng, ['real', 'real', 'complex'])
        A, B, C = stable_discrete(rng, n, p, q, kind, rho=.9)
        W = gen_W(rng, n, kind)
        m, l = -(-n // p) + int(rng.integers(0, 6)), -(-n // q) + int(rng.integers(0, 6))
        N = m + l
        M = markov(A, B, C, N + 6)
        H = np.vstack([np.hstack([M[a + b] for b in range(m)]) for a in range(l)])
        s = np.linalg.svd(H, compute_uv=False)
        if len(s) >= n and s[n - 1] > 1e-4 * s[0] and s[n - 1] > 1e-4 and (W is None or np.linalg.cond(W if W.ndim == 2 else np.diag(W)) < 1e4):
            break
    else:
        return
    Wm = np.eye(n) if W is None else np.diag(W) if W.ndim == 1 else W
    r2 = make_rng(env.seed, 'chaincfg', i, env.size)
    storage = pick(r2, ['pickle', 'text'] + (['mem'] if env.size == 1 else []))
    base = bool(r2.integers(2))
    cplx = kind == 'complex'
    limit = pick(r2, [10000, 3 * env.size, 4 * env.size + 1])
    desc = dict(np=env.size, n=n, p=p, q=q, m=m, l=l, kind=kind, storage=storage, base=base, W=None if W is None else W.ndim, max_vecs_per_node=limit)
    with env.case(i, desc):
        ip = ip_of(W)
        st = Store(env, storage, cplx)
        path = lambda name: os.path.join(env.scratch, name)
        load = lambda name: mr.load_array_text(path(name), is_complex=cplx)
        scale = max(1., np.abs(M).max())
        X, Y, x, y = [], [], B, np.linalg.solve(Wm, C.conj().T)
        Aplus = np.linalg.solve(Wm, A.conj().T.dot(Wm))
        for _ in range(m):
            X.append(x)
            x = A.dot(x)
        for _ in range(l):
            Y.append(y)
            y = Aplus.dot(y)
        X, Y = np.hstack(X), np.hstack(Y)
        hx, hy = st.data(r2, X, base), st.data(r2, Y, base and storage != 'mem')

        # ---- stage 1: decomposition, saved
        kw = dict(max_vecs_per_node=limit, verbosity=0)
        first = mr.BPODHandles(ip, **kw)
        first.compute_decomp(hx, hy, num_inputs=p, num_outputs=q)
        first.put_decomp(path('sv'), path('L'), path('R'))
        env.close(np.ravel(first.sing_vals)[:n], s[:n], 'chain-sing-vals', 1e-8, what='BPOD singular values against those of the system')

        # ---- stage 2: another object reads the decomposition and computes the modes
        good = [r for r in range(1, n + 1) if s[r - 1] > 1e-4 * s[0] and s[r - 1] - (s[r] if r < len(s) else 0.) > 1e-3 * s[r - 1]]
        if not good:
            return
        r = n if rng.random() < .5 and n in good else int(pick(rng, good))
        env.desc['order'] = r
        second = mr.BPODHandles(ip, **kw)
        if cplx:
            second = mr.BPODHandles(ip, get_array=lambda f: mr.load_array_text(f, is_complex=not f.endswith('sv')), **kw)
        second.get_decomp(path('sv'), path('L'), path('R'))
        hd, ha = st.new(r), st.new(r)
        second.compute_direct_modes(range(r), hd, direct_vec_handles=hx)
        second.compute_adjoint_modes(range(r), ha, adjoint_vec_handles=hy)

        # ---- stage 3: the user's code advances the modes it reads
        get = lambda hs: np.column_stack([np.ravel(h.get()) for h in hs])
        Phi, Psi = get(hd), get(ha)
        env.close(Psi.conj().T.dot(Wm).dot(Phi), np.eye(r), 'chain-biorthonormal', 1e-7 * s[0] / s[r - 1], what='inner products of the modes read back')
        hA, hB = st.data(r2, A.dot(Phi), False), st.data(r2, np.array(B), False)

        # ---- stage 4: projection, saved and read back
        tol = 1e-8 * s[0] / s[r - 1]
        gal = mr.LTIGalerkinProjectionHandles(ip, hd, adjoint_basis_vec_handles=ha, is_basis_orthonormal=bool(r2.integers(2)), **kw)
        gal.compute_model(hA, hB, list(C.dot(Phi).T))
        gal.put_model(path('A'), path('B'), path('C'))
        Ar, Br, Cr = load('A'), load('B'), load('C')
        shapes = (np.shape(Ar), np.shape(Br), np.shape(Cr))
        if not env.check(shapes == ((r, r), (r, p), (q, r)), 'chain-shapes', 'model read back has shapes %s' % (shapes,)):
            return
        got = mr.impulse(Ar, Br, Cr, N + 6)
        own = markov(Ar, Br, Cr, N + 6)
        env.close(got, own, 'chain-impulse', 1e-9, scale=max(scale, np.abs(own).max()), what='impulse response of the model')
        ref = M if r == n else None

        # ---- ERA on the impulse response of the same system
        times, sampled = mr.make_sampled_format(np.arange(N), M[:N])[:2]
        E = mr.ERA(mc=m, mo=l, verbosity=0)
        Ae, Be, Ce = E.compute_model(sampled, r)
        env.close(np.ravel(E.sing_vals)[:n], np.ravel(first.sing_vals)[:n], 'chain-sing-vals', 1e-8, what='ERA and BPOD singular values')
        K = N if r == n else 6
        mine = markov(Ae, Be, Ce, K)
        env.close(got[:K], mine, 'chain-bpod-era', 1e3 * tol, scale=max(scale, np.abs(mine).max()), what='impulse responses of the BPOD and ERA models of order %d' % r)
        env.count('bpod_era_models_compared')
        if ref is not None:
            env.close(got, ref, 'chain-bpod', 100 * tol, scale=scale, what='impulse response of the BPOD model')
            env.count('full_order_models')
        else:
            env.count('truncated_models')

        # ---- continuous time: derivatives of the modes
        if r2.random() < .4:
            dt = float(r2.uniform(.05, 2))
            hdd = st.new(r)
            mr.compute_derivs_handles(hd, hA, hdd, dt)
            gc = mr.LTIGalerkinProjectionHandles(ip, hd, adjoint_basis_vec_handles=ha, is_basis_orthonormal=False, **kw)
            Ac = gc.reduce_A(hdd)
            env.close(np.eye(r) + dt * np.asarray(Ac), Ar, 'chain-derivs', tol * 100, scale=max(1., np.abs(Ar).max()), what='continuous-time model')
            env.count('continuous_models')

        # ---- a reduced model put to use: the system's and the model's response to a signal
        T = int(rng.integers(5, 40))
        u = gauss(rng, (T, p), kind)
        # the value of an output at a step is the sum over Markov parameters
        full = markov(Ar, Br, Cr, T)
        conv = np.array([sum(full[k - 1 - j].dot(u[j]) for j in range(k)) if k else np.zeros(q) for k in range(T)])
        env.close(mr.lsim(Ar, Br, Cr, u), conv, 'chain-lsim', 1e-9, scale=max(1., np.abs(conv).max()), what='response of the model')

        # ---- POD basis of the same snapshots, orthogonal projection
        if s[n - 1] > 1e-3 * s[0] and np.linalg.cond(X) < 1e3:
            pod = mr.PODHandles(ip, **kw)
            ev = pod.compute_decomp(hx)[0]
            env.check(len(ev) >= n, 'chain-pod-rank', '%d eigenvalues for data of rank %d' % (len(ev), n))
            hp = st.new(n)
            pod.compute_modes(range(n), hp)
            U = get(hp)
            hAp = st.data(r2, A.dot(U), False)
            gp = mr.LTIGalerkinProjectionHandles(ip, hp, is_basis_orthonormal=bool(r2.integers(2)), **kw)
            Ap, Bp, Cp = gp.compute_model(hAp, hB, list(C.dot(U).T))
            env.close(mr.impulse(np.array(Ap), np.array(Bp), np.array(Cp), N), M[:N], 'chain-pod', 1e-7, scale=scale, what='impulse response of the POD model')
            env.count('pod_models')

        # ---- DMD of the response to one initial condition
        k = n + int(rng.integers(0, 3))
        Z = [gauss(rng, n, kind)]
        for _ in range(k):
            Z.append(A.dot(Z[-1]))
        Z = np.column_stack(Z)
        sz = np.linalg.svd(Z[:, :-1], compute_uv=False)
        lam, vec = np.linalg.eig(A)
        if sz[-1 if k < n else n - 1] > 1e-3 * sz[0] and np.linalg.cond(vec) < 1e2:
            hz = st.data(r2, Z, base)
            for cls in (mr.DMDHandles, mr.TLSqrDMDHandles):
                if cls is mr.TLSqrDMDHandles and k < n:
                    continue
                d = cls(ip, **kw)
                got_l = np.ravel(d.compute_decomp(hz, max_num_eigvals=n)[0])
                if env.check(len(got_l) == n, 'chain-dmd-count', '%s: %d eigenvalues for %d states' % (cls.__name__, len(got_l), n)):
                    left = list(lam)
                    worst = 0.
                    for a in got_l:
                        j = int(np.argmin(np.abs(np.array(left) - a)))
                        worst = max(worst, abs(left.pop(j) - a))
                    env.check(worst < 1e-5, 'chain-dmd', '%s eigenvalues differ from those of the system by %g' % (cls.__name__, worst))
                    env.count('dmd_spectra')

        # ---- without handles: once per process, each on its own
        if env.size == 1:
            serial_part(env, rng, A, B, C, W, X, Y, M, n, p, q, m, l, s, r, got, tol, kind, scale)
        env.sig(env.size, n, p, q, m, l, kind, storage, base, r)
        env.count('workflows_completed')
    env.sample(env.desc)


def serial_part(env, rng, A, B, C, W, X, Y, M, n, p, q, m, l, s, r, bpod, tol, kind, scale):
    N = m + l
    # arrays
    res = mr.compute_BPOD_arrays(X, Y, num_inputs=p, num_outputs=q, direct_mode_indices=range(r), adjoint_mode_indices=range(r),
                                 inner_product_weights=W)
    Phi, Psi = np.array(res.direct_modes), np.array(res.adjoint_modes)
    g = mr.LTIGalerkinProjectionArrays(Phi, adjoint_basis_vecs=Psi, is_basis_orthonormal=bool(rng.integers(2)), inner_product_weights=W)
    Aa, Ba, Ca = g.compute_model(A.dot(Phi), B, C.dot(Phi))
    K = N if r == n else 6
    own = mr.impulse(np.array(Aa), np.array(Ba), np.array(Ca), K)
    env.close(own, bpod[:K], 'chain-arrays', 1e3 * tol, scale=max(scale, np.abs(bpod[:K]).max()), what='impulse responses of the models with arrays and with handles')
    env.count('array_models')

    # identification: simulate, write signals, read them, identify, realise
    nm = max(2, N + 1)
    T = (p + q) * nm + p + int(rng.integers(20, 60))
    u = gauss(rng, (T, p), kind)
    y = mr.lsim(A, B, C, u)
    if kind == 'real' and rng.random() < .6:
        t = np.arange(T) * .1
        a, b = os.path.join(env.scratch, 'u%d.txt' % id(u)), os.path.join(env.scratch, 'y%d.txt' % id(u))
        mr.save_array_text(np.column_stack((t, u)), a)
        mr.save_array_text(np.column_stack((t, y)), b, delimiter=',')
        tu, u = mr.load_signals(a)
        ty, y = mr.load_signals(b, delimiter=',')
        env.check(np.array_equal(tu, t) and np.array_equal(ty, t), 'chain-signals', 'the times read differ from those written')
        env.count('signal_files')
    U = np.vstack([np.vstack((np.zeros((k, p)), u[:T - k])).T for k in range(min(nm + n, T // p))])
    if np.linalg.cond(U) < 1e3:
        ident = mr.OKID(u.T, y.T, nm)
        env.close(ident[0], np.zeros((q, p)), 'chain-okid', 1e-7, scale=scale, what='direct feed-through')
        env.close(ident[1:], M[:nm - 1], 'chain-okid', 1e-7, scale=scale, what='identified Markov parameters')
        sampled = mr.make_sampled_format(np.arange(nm - 1), ident[1:])[1]
        Ae, Be, Ce = mr.ERA(mc=m, mo=l, verbosity=0).compute_model(sampled, n)
        env.close(mr.impulse(np.array(Ae), np.array(Be), np.array(Ce), N), M[:N], 'chain-okid-era', 1e-4 * s[0] / s[n - 1] * 1e-1, scale=scale, what='impulse response of the identified model')
        env.count('identified_models')

    # balanced truncation keeps the impulse response at full order
    import scipy.linalg
    Wc = scipy.linalg.solve_discrete_lyapunov(A, B.dot(B.conj().T))
    Wo = scipy.linalg.solve_discrete_lyapunov(A.conj().T, C.conj().T.dot(C))
    hsv = np.sqrt(np.sort(np.abs(np.linalg.eigvals(Wc.dot(Wo))))[::-1])
    if hsv[-1] > 1e-5 * hsv[0] and np.linalg.cond(Wc) < 1e8 and np.linalg.cond(Wo) < 1e8 and hsv[-1] > 1e-5:
        Ab, Bb, Cb = mr.balanced_truncation(A, B, C)
        env.check(np.shape(Ab) == (n, n), 'chain-balanced', 'balanced system of order %s, expected %d' % (np.shape(Ab), n))
        env.close(mr.impulse(np.array(Ab), np.array(Bb), np.array(Cb), N), M[:N], 'chain-balanced', 1e-6, scale=scale, what='impulse response of the balanced system')
        env.count('balanced_models')
        # long sequences of snapshots: BPOD is balanced truncation
        rho = np.abs(np.linalg.eigvals(A)).max()
        L = int(np.ceil(np.log(1e-14) / np.log(rho))) if 0 < rho < .97 else 1000
        good = [j for j in range(1, n + 1) if j == n or hsv[j - 1] - hsv[j] > 1e-2 * hsv[j - 1]]
        if hsv[-1] > 1e-3 * hsv[0] and max(p, q) * L < 700 and good:
            j = int(pick(rng, good))
            Xl, Yl, x, y = [], [], B, C.conj().T
            for _ in range(L):
                Xl.append(x)
                Yl.append(y)
                x, y = A.dot(x), A.conj().T.dot(y)
            rl = mr.compute_BPOD_arrays(np.hstack(Xl), np.hstack(Yl), num_inputs=p, num_outputs=q, direct_mode_indices=range(j), adjoint_mode_indices=range(j))
            env.close(np.ravel(rl.sing_vals)[:n], hsv, 'chain-long', 1e-6, what='BPOD singular values of long snapshot sequences against the Hankel singular values')
            P, Q = np.array(rl.direct_modes), np.array(rl.adjoint_modes)
            At, Bt, Ct = mr.LTIGalerkinProjectionArrays(P, adjoint_basis_vecs=Q, is_basis_orthonormal=True).compute_model(A.dot(P), B, C.dot(P))
            Ao, Bo, Co, so = mr.balanced_truncation(A, B, C, order=j, return_sing_vals=True)
            env.close(markov(np.array(At), np.array(Bt), np.array(Ct), 8), markov(np.array(Ao), np.array(Bo), np.array(Co), 8), 'chain-long', 1e-4, scale=scale,
                      what='impulse responses of BPOD and balanced truncation of order %d' % j)
            env.count('bpod_against_balanced_truncation')
