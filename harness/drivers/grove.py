"""Evaluate trees and classify nodes with the real code."""
import itertools
import sys
sys.dont_write_bytecode = True
import numpy as np
import common
import gen


def alltrees(d, ms):
    """all valid trees; completeness is checked by TLC"""
    H = 2 ** (d - 1)
    start = (tuple([0] * H), tuple([0] * H))
    seen = {start}
    todo = [start]
    while todo:
        V, S = todo.pop()
        for i in range(1, H):
            if S[i] or (i > 1 and not S[i // 2]):
                continue
            for v in range(len(ms)):
                for c in gen.cut_range(V, S, ms, i, v):
                    V2, S2 = list(V), list(S)
                    V2[i], S2[i] = v, c
                    t = (tuple(V2), tuple(S2))
                    if t not in seen:
                        seen.add(t)
                        todo.append(t)
    return sorted(seen)


def garbage(rng, V, S, p):
    g = rng.integers(0, p, V.shape)
    return np.where(S != 0, V, g)


def evaluate(jnp, X, V, S, L, dt, xdt=None, vdt=None, sdt=None):
    from bartz import grove
    xdt, vdt, sdt = xdt or 'uint8', vdt or 'uint8', sdt or 'uint8'
    Xj, Vj, Sj = jnp.asarray(X.astype(xdt)), jnp.asarray(V.astype(vdt)), jnp.asarray(S.astype(sdt))
    Lj = jnp.asarray(L, jnp.dtype(dt))
    ix = grove.traverse_forest(Xj, Vj, Sj)
    s = grove.evaluate_forest(Xj, Lj, Vj, Sj, jnp.float32)
    e = grove.evaluate_forest(Xj, Lj, Vj, Sj, sum_trees=False)
    return dict(X=common.ints(X.T), V=common.ints(V[:, 1:]), S=common.ints(S[:, 1:]), L=common.ints(L[:, 1:]),
                ix=common.ints(ix), sum=common.fix(s, 1), each=common.fix(e, 1))


def exh(job):
    from jax import numpy as jnp
    rng = np.random.default_rng(job['rs'])
    d, ms = job['d'], job['ms']
    trees = alltrees(d, ms)
    V = np.array([t[0] for t in trees])
    S = np.array([t[1] for t in trees])
    V = garbage(rng, V, S, len(ms))
    L = rng.integers(-50, 51, (len(V), 2 ** d))
    X = np.array(list(itertools.product(*[range(m + 1) for m in ms]))).T
    yield dict(kind='exh', d=d, ms=ms, **evaluate(jnp, X, V, S, L, job.get('dt', 'float32')))


def forest(rng, m, d, p, ms, ngrow, deepest):
    H = 2 ** (d - 1)
    V = np.zeros((m, H), int)
    S = np.zeros((m, H), int)
    for t in range(m):
        V[t], S[t], _ = gen.random_tree(rng, np.zeros((p, 0), int), ms, d, 0, int(rng.integers(ngrow // 2, ngrow + 1)), deepest)
    return garbage(rng, V, S, p), S, rng.integers(-50, 51, (m, 2 * H))


def points(rng, ms, n, V, S):
    """random points, and points along the boundaries of the rules"""
    p = len(ms)
    X = np.stack([rng.integers(0, k + 1, n) for k in ms]).reshape(p, n)
    cuts = [(v, s) for t in range(len(V)) for v, s in zip(V[t], S[t]) if s]
    for q in range(n):
        for _ in range(rng.integers(0, 6)):
            if cuts:
                v, s = cuts[rng.integers(len(cuts))]
                X[v, q] = s - rng.integers(0, 2)
    return X


def rnd(job):
    from jax import numpy as jnp
    rng = np.random.default_rng(job['rs'])
    ms = np.array([job['ms'][i % len(job['ms'])] for i in range(job['p'])])
    for rep in range(job.get('reps', 1)):
        V, S, L = forest(rng, job['m'], job['d'], job['p'], ms, job['ngrow'], job.get('deepest', False))
        X = points(rng, ms, job['n'], V, S)
        if job.get('rightmost'):
            d = job['d']
            for t in range(len(V)):
                S[t] = 0
                i = 1
                for k in range(d - 1):
                    V[t, i], S[t, i] = k % len(ms), (k // len(ms)) + 1
                    i = 2 * i + 1
            X[:, 0] = ms
            X[:, 1:] = np.minimum(X[:, 1:], ms[:, None])
        yield dict(kind='eval', **evaluate(jnp, X, V, S, L, job.get('dt', 'float32'), job.get('xdt'), job.get('vdt'), job.get('sdt')))


def trace(job):
    from jax import numpy as jnp
    from bartz import mcmcloop, jaxext
    rng = np.random.default_rng(job['rs'])
    ms = np.array([job['ms'][i % len(job['ms'])] for i in range(job['p'])])
    T, m, d, n = job['T'], job['m'], job['d'], job['n']
    F = [forest(rng, m, d, job['p'], ms, job['ngrow'], False) for _ in range(T)]
    H = 2 ** (d - 1)
    V = np.array([f[0] for f in F]).reshape(T, m, H)
    S = np.array([f[1] for f in F]).reshape(T, m, H)
    L = np.array([f[2] for f in F]).reshape(T, m, 2 * H)
    X = points(rng, ms, n, V.reshape(-1, H)[:50], S.reshape(-1, H)[:50])
    tr = dict(leaf_trees=jnp.asarray(L, job.get('dt', 'float32')), var_trees=jnp.asarray(V.astype(job.get('vdt', 'uint8'))), split_trees=jnp.asarray(S.astype(job.get('sdt', 'uint8'))))
    if job.get('extra'):
        tr.update(sigma2=jnp.ones(T), grow_prop_count=jnp.zeros(T, int), ratios=dict(log_likelihood=jnp.zeros((T, m))))
    orig = jaxext.autobatch
    if job.get('budget'):
        def small(func, max_io_nbytes, *a, **k):
            return orig(func, min(max_io_nbytes, job['budget']), *a, **k)
        jaxext.autobatch = small
    try:
        y = mcmcloop.evaluate_trace(tr, jnp.asarray(X.astype(job.get('xdt', 'uint8'))))
    finally:
        jaxext.autobatch = orig
    sel = np.arange(n) if n <= 80 else np.unique(np.concatenate([[0, 1, n - 1, n - 2], rng.integers(0, n, 40)]))
    shape = list(y.shape)
    y = np.array(y)
    yield dict(kind='trace', shape=shape + [-1] * (2 - len(shape)), n=n, X=common.ints(X.T[sel]), out=common.fix(y[:, sel], 1) if len(shape) == 2 else [],
               F=[dict(V=common.ints(V[j][:, 1:]), S=common.ints(S[j][:, 1:]), L=common.ints(L[j][:, 1:])) for j in range(T)])


def helpers(job):
    from jax import numpy as jnp
    from bartz import grove
    rng = np.random.default_rng(job['rs'])
    todo = []
    for d in range(1, 5):
        h = 2 ** (d - 1) - 1
        todo += [(np.array(c), dt) for c in itertools.product((0, 1), repeat=h) for dt in ['uint8']]
    for d in job['rand']:
        h = 2 ** (d - 1) - 1
        for r in range(job['nrand']):
            S = rng.integers(0, 2, h) if r % 2 else gen.random_tree(rng, np.zeros((3, 0), int), [255, 200, 90], d, 0, int(rng.integers(0, 3 * d)), bool(r % 3))[1][1:]
            todo.append((S, ['uint8', 'uint16', 'int32', 'uint32'][r % 4]))
    for S, dt in todo:
        hi = dict(uint8=255, uint16=65535).get(dt, 2 ** 20)
        mul = rng.integers(1, hi + 1, S.shape)
        if dt != 'uint8':
            mul[::3] = 256 * rng.integers(1, 250, mul[::3].shape)
        S = np.where(S != 0, mul, 0)
        full = jnp.asarray(np.concatenate([[0], S]).astype(dt))
        try:
            yield dict(kind='help', raised='', S=common.ints(S), leaf=common.ints(grove.is_actual_leaf(full)),
                       leafb=common.ints(grove.is_actual_leaf(full, add_bottom_level=True)), prun=common.ints(grove.is_leaves_parent(full)))
        except Exception as e:
            yield dict(kind='help', raised=common.short_exc(e))
    for k in range(0, 13):
        try:
            yield dict(kind='depth', raised='', len=2 ** k, depths=common.ints(grove.tree_depths(2 ** k)))
        except Exception as e:
            yield dict(kind='depth', raised=common.short_exc(e))
    for d in range(0, 18):
        for dt in (['float32', 'uint8', 'bool'] if d % 3 == 0 else ['uint16']):
            try:
                t = grove.make_tree(d, jnp.dtype(dt))
                yield dict(kind='make', raised='', d=d, size=int(t.size), ndim=int(t.ndim), nonzero=int(jnp.count_nonzero(t)), sametype=int(t.dtype == jnp.dtype(dt)),
                           depth1=int(grove.tree_depth(t)), depth2=int(grove.tree_depth(jnp.zeros((3, 5, t.size), dt) if d < 12 else t[None])))
            except Exception as e:
                yield dict(kind='make', raised=common.short_exc(e))


def run_job(job):
    try:
        for r in dict(exh=exh, rnd=rnd, trace=trace, helpers=helpers)[job['kind']](job):
            r.setdefault('raised', '')
            yield dict(r, name=job['name'])
    except Exception as e:
        yield dict(kind='eval', raised=common.short_exc(e), name=job['name'])


if __name__ == '__main__':
    common.driver_main(run_job)
