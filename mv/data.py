"""Deterministic generators of test data."""
import numpy as np


def gauss(rng, shape, kind='real'):
    x = rng.standard_normal(shape)
    if kind == 'complex':
        x = x + 1j * rng.standard_normal(shape)
    return x


def ortho(rng, n, k, kind='real'):
    q, _ = np.linalg.qr(gauss(rng, (n, k), kind))
    return q[:, :k]


def spectrum_array(rng, n, m, s, kind='real'):
    """n x m array with singular values s (len(s) <= min(n, m))."""
    r = len(s)
    return (ortho(rng, n, r, kind) * np.asarray(s)).dot(ortho(rng, m, r, kind).conj().T)


SPECIAL = ['hermitian', 'skew', 'diagonal', 'unitary', 'triangular', 'circulant', 'sparse', 'repeated', 'permutation', 'positive', 'symmetric']


def special_array(rng, n, m, kind='real'):
    """n x m array with structure (block of a square one unless n equals m)."""
    k = max(n, m)
    w = SPECIAL[int(rng.integers(len(SPECIAL)))]
    G = gauss(rng, (k, k), kind)
    if w == 'hermitian':
        G = G + G.conj().T
    elif w == 'symmetric':
        G = G + G.T
    elif w == 'skew':
        G = G - G.conj().T
    elif w == 'diagonal':
        G = np.diag(np.sort(rng.uniform(.2, 2., k))[::int(rng.choice([-1, 1]))] * rng.choice([-1., 1.], k))
    elif w == 'unitary':
        G = ortho(rng, k, k, kind) * (rng.uniform(.2, 2., k) if rng.random() < .5 else 1.)
    elif w == 'triangular':
        G = np.triu(G) + np.eye(k) if rng.random() < .5 else np.tril(G) - np.eye(k)
    elif w == 'circulant':
        G = np.array([np.roll(G[0], j) for j in range(k)])
    elif w == 'sparse':
        G = G * (rng.random((k, k)) < .4)
        G[int(rng.integers(k))] = 0
        G[:, int(rng.integers(k))] = 0
    elif w == 'repeated':
        G = G[:, rng.integers(0, k, k)]
    elif w == 'permutation':
        G = np.eye(k)[rng.permutation(k)] * (rng.choice([-1., 1.], k) if rng.random() < .5 else 1.)
    elif w == 'positive':
        G = np.abs(G)
    return G[:n, :m].astype(complex if kind == 'complex' else float)


def spd(rng, n, kind='real', cond=10.):
    """Hermitian positive definite array with condition number cond."""
    q = ortho(rng, n, n, kind)
    d = np.linspace(1., cond, n) / cond ** 0.5 if n > 1 else np.array([1.3])
    W = (q * d).dot(q.conj().T)
    return (W + W.conj().T) / 2


def almost_special(rng, W):
    """Sometimes close to an identity, diagonal, or real array."""
    v, e = rng.integers(10), 10. ** rng.uniform(-7, -2)
    if v == 0:
        W = np.eye(len(W)) + e * W
    elif v == 1:
        W = np.diag(np.diag(W)) + e * (W - np.diag(np.diag(W)))
    elif v == 2:
        W = np.diag(np.diag(W).real)
    elif v == 3 and np.iscomplexobj(W):
        W = W.real + 1j * e * W.imag
    return W


def weights(rng, n, which, kind='real'):
    if which == 'none':
        return None
    if which == '1d':
        w = rng.uniform(0.3, 3., n)
        v = rng.integers(8)
        if v == 0:                      # almost uniform, almost one
            w = 1. + 10. ** rng.uniform(-7, -2) * w
        elif v == 1:                    # uniform
            w = np.full(n, w[0])
        return w
    if which == '2d':
        return almost_special(rng, spd(rng, n, kind))
    raise ValueError(which)


def apply_w(W, V):
    if W is None:
        return V
    return (W[:, None] * V) if W.ndim == 1 else W.dot(V)


def gram(V1, V2, W=None):
    return V1.conj().T.dot(apply_w(W, V2))


def sqrt_w(W, n):
    """R with R^* R = W."""
    if W is None:
        return np.eye(n)
    if W.ndim == 1:
        return np.diag(np.sqrt(W))
    return np.linalg.cholesky(W).conj().T


def stable_discrete(rng, n, p, q, kind='real', rho=0.9):
    """Random stable discrete-time system, well conditioned."""
    Q = ortho(rng, n, n, kind)
    T = np.triu(gauss(rng, (n, n), kind), 1) * 0.2
    lam = rng.uniform(0.2, rho, n) * rng.choice([-1, 1], n)
    if kind == 'complex':
        lam = lam * np.exp(1j * rng.uniform(0, 2 * np.pi, n))
    A = Q.dot(np.diag(lam) + T).dot(Q.conj().T)
    B = gauss(rng, (n, p), kind)
    C = gauss(rng, (q, n), kind)
    return A, B, C


def markov(A, B, C, n):
    """[n, outputs, inputs]"""
    out = []
    x = B
    for _ in range(n):
        out.append(C.dot(x))
        x = A.dot(x)
    return np.array(out)


def in_form(rng, a, names=None):
    """The values of an array in one of the forms in which a caller may hold
    them (memory layout, byte order, container)."""
    a = np.asarray(a)
    names = names or ('fortran', 'list', 'strided', 'reversed', 'readonly', 'matrix', 'swapped')
    form = names[int(rng.integers(len(names)))]
    if form == 'fortran':
        return np.asfortranarray(a)
    if form == 'list':
        return a.tolist()
    if form == 'strided':
        b = np.zeros(tuple(2 * k for k in a.shape), dtype=a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if form == 'reversed':
        return np.ascontiguousarray(a[::-1])[::-1]
    if form == 'readonly':
        a = a.copy()
        a.flags.writeable = False
        return a
    if form == 'matrix':
        return a.view(np.matrix) if a.ndim == 2 else a
    return a.astype(a.dtype.newbyteorder('S'))
