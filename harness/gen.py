"""Deterministic generation of data, configurations and valid trees."""
import numpy as np


def make_data(cfg):
    """X (p, n), max_split (p,), y (n,) from a job description."""
    rng = np.random.default_rng(cfg['dseed'])
    p, n = cfg['p'], cfg['n']
    ms = np.array([cfg['ms'][i % len(cfg['ms'])] for i in range(p)])
    dt = np.dtype(cfg.get('mdt') or ('uint8' if ms.max(initial=0) < 256 else 'uint16'))
    xdt = np.dtype(cfg.get('xdt') or dt)
    X = np.empty((p, n), np.int64)
    for j in range(p):
        X[j] = (np.arange(n) * (j + 1)) % (ms[j] + 1) if cfg.get('seq') else rng.integers(0, ms[j] + 1, n)
    kind = cfg.get('y', 'noise')
    if kind == 'noise':
        y = rng.standard_normal(n)
    elif kind == 'signal':
        f = X[0].astype(float)
        if p > 1:
            f = f + np.where(X[p - 1] > ms[p - 1] / 2, 3., 0.)
        y = f / max(1, np.ptp(f) if n else 1) * 6 + 0.05 * rng.standard_normal(n)
    elif kind == 'steps':
        y = 4 * np.sign(np.sin(1 + 2.5 * np.arange(n))) + 0.1 * rng.standard_normal(n)
    return X.astype(xdt), ms.astype(dt), np.asarray(y, np.float32)


def pnt(kind, d):
    """p_nonterminal, length d-1"""
    k = np.arange(max(0, d - 1))
    if kind == 'bart':
        return 0.95 / (1 + k) ** 2
    if kind == 'flat':
        return np.full(len(k), 0.5)
    if kind == 'high':
        return np.full(len(k), 0.9)
    if kind == 'deep':  # each level is as likely as the previous one
        e = 1e-6 ** (0.5 ** k)
        return np.minimum(1 - e, 0.999999)
    if kind == 'mix':
        return np.where(k % 2 == 0, 0.75, 0.25)
    raise KeyError(kind)


def cut_range(V, S, ms, i, v):
    lo, hi = 0, int(ms[v]) + 1
    while i > 1:
        a = i // 2
        if V[a] == v:
            if i % 2:
                lo = max(lo, S[a])
            else:
                hi = min(hi, S[a])
        i = a
    return range(lo + 1, hi)


def walk(V, S, x):
    i = 1
    while i < len(S) and S[i]:
        i = 2 * i + (int(x[V[i]]) >= S[i])
    return i


def random_tree(rng, X, ms, d, minp, ngrow, deep=True):
    """random valid tree (V, S arrays of length 2^(d-1)) with all leaves holding
    at least minp points; if deep, prefers the deepest growable leaf"""
    H = 2 ** (d - 1)
    p, n = X.shape
    V = np.zeros(H, int)
    S = np.zeros(H, int)
    idx = np.ones(n, int)
    for _ in range(ngrow):
        leaves = [i for i in range(1, H) if S[i] == 0 and (i == 1 or S[i // 2])]
        rng.shuffle(leaves)
        if deep:
            leaves.sort(key=lambda i: -i)
        done = False
        for i in leaves:
            for v in rng.permutation(p)[:8]:
                r = cut_range(V, S, ms, i, v)
                if not len(r):
                    continue
                for c in rng.permutation(np.array(r))[:4]:
                    here = idx == i
                    right = here & (X[v].astype(int) >= c)
                    if minp and (right.sum() < minp or here.sum() - right.sum() < minp):
                        continue
                    V[i], S[i] = v, c
                    idx = np.where(here, 2 * i + right, idx)
                    done = True
                    break
                if done:
                    break
            if done:
                break
        if not done:
            break
    return V, S, idx
