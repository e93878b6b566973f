"""Draw parameters from the prior and data from the model, run the real chain,
count where the parameters end."""
import sys
sys.dont_write_bytecode = True
import numpy as np
import common


class Void(Exception):
    pass


def prior_tree(rng, job, X):
    """one draw of a tree, by rejection"""
    d, ms, minp = job['d'], job['ms'], job['minp']
    H = 2 ** (d - 1)
    V, S = np.zeros(H, int), np.zeros(H, int)

    def node(i, lev, box, pts):
        if i >= H or rng.random() * 16 >= job['w'][lev]:
            return
        free = [v for v in range(len(ms)) if not (box[v][2] and box[v][1] - box[v][0] < 2)]
        if not free:
            raise Void
        v = free[rng.integers(len(free))]
        lo, hi, _ = box[v]
        if hi - lo < 2:
            raise Void
        c = int(rng.integers(lo + 1, hi))
        V[i], S[i] = v, c
        right = X[v][pts] >= c
        if minp is not None and min(right.sum(), (~right).sum()) < minp:
            raise Void
        node(2 * i, lev + 1, box[:v] + [(lo, c, True)] + box[v + 1:], pts[~right])
        node(2 * i + 1, lev + 1, box[:v] + [(c, hi, True)] + box[v + 1:], pts[right])
    while True:
        V[:] = S[:] = 0
        try:
            node(1, 0, [(0, k + 1, False) for k in ms], np.arange(X.shape[1]))
            return V.copy(), S.copy()
        except Void:
            pass


def walk(V, S, X):
    """leaf of every point; V, S (N, H)"""
    N, H = S.shape
    n = X.shape[1]
    i = np.ones((N, n), int)
    r = np.arange(N)[:, None]
    for _ in range(int(np.log2(H)) + 1):
        j = np.minimum(i, H - 1)
        s = np.where(i < H, S[r, j], 0)
        x = X[V[r, j], np.arange(n)]
        i = np.where(s > 0, 2 * i + (x >= s), i)
    return i


CUT = np.array([-2., -1., 0., 1., 2.])


def stats(job, X, V, S, leaf, s2, r, f):
    """counts of one ensemble; V, S (N, m, H), leaf (N, m, 2H)"""
    N, m, H = S.shape
    V = np.where(S > 0, V, 0)
    z = leaf * np.sqrt(m)
    s2 = np.where(np.isfinite(s2) & (s2 > 0), s2, np.nan)
    g = job['beta'] / s2
    e = r / np.sqrt(s2)[:, None]
    ghi = g > job['alpha']
    trees, leaves, nleaf = [], [], []
    first = np.empty((N, m))
    for t in range(m):
        rows = np.concatenate([V[:, t], S[:, t]], 1)
        u, inv, c = np.unique(rows, axis=0, return_inverse=True, return_counts=True)
        inv = inv.reshape(-1)
        h = np.bincount(inv, weights=ghi, minlength=len(u))
        fp = np.bincount(inv, weights=f[:, 0] > 0, minlength=len(u)) if f.shape[1] else np.zeros(len(u))
        trees.append([dict(V=common.ints(a[1:H]), S=common.ints(a[H + 1:]), c=int(b), hi=int(x), fp=int(y)) for a, b, x, y in zip(u, c, h, fp)])
        isl = np.zeros((N, 2 * H), bool)
        isl[:, 1] = S[:, t, 1] == 0
        for i in range(2, 2 * H):
            isl[:, i] = (S[:, t, i // 2] > 0) & ((i >= H) | (S[:, t, min(i, H - 1)] == 0))
        first[:, t] = z[np.arange(N), t, isl.argmax(1)]
        for i in range(1, 2 * H):
            zi = z[isl[:, i], t, i]
            zh = zi[ghi[isl[:, i]]]
            leaves.append(dict(t=t + 1, i=i, n=len(zi), below=[int((zi < k).sum()) for k in CUT], nh=len(zh), pos=int((zh > 0).sum())))
        # first and last leaf of the same tree
        two = isl.sum(1) > 1
        last = z[np.arange(N), t, 2 * H - 1 - isl[:, ::-1].argmax(1)]
        nleaf.append([int(two.sum()), int(((first[:, t] > 0) == (last > 0))[two].sum())])
    pairs = [int(((first[:, a] > 0) == (first[:, b] > 0)).sum()) for a in range(m) for b in range(a)]
    n = r.shape[1]
    pts = [dict(below=[int((e[:, q] < k).sum()) for k in CUT], same=int(((e[:, q] > 0) == (f[:, q] > 0)).sum()),
                nxt=int(((e[:, q] > 0) == (e[:, (q + 1) % n] > 0)).sum()), hi=int(((e[:, q] > 1) & ghi).sum())) for q in range(n)]
    return dict(trees=trees, leaves=leaves, same=nleaf, pairs=pairs, points=pts,
                tail=[int((g > x).sum()) for x in range(1, 9)], ghi=int(ghi.sum()))


def joint(job):
    import jax
    from jax import numpy as jnp
    from bartz import mcmcstep
    rng = np.random.default_rng(job['kseed'])
    N, m, d, T = job['N'], job['m'], job['d'], job['T']
    ms = np.array(job['ms'])
    X = np.array(job['X'], int).reshape(-1, len(ms)).T
    n = X.shape[1]
    H = 2 ** (d - 1)
    kw = {k2: job[k] for k, k2 in (('rb', 'resid_batch_size'), ('cb', 'count_batch_size')) if k in job}
    if 'small' in job:
        kw['small_float'] = getattr(jnp, job['small'])
    dt = 'uint8' if ms.max() < 256 else 'uint16'
    bart0 = mcmcstep.init(X=jnp.asarray(X.astype(dt)), y=jnp.zeros(n), max_split=jnp.asarray(ms.astype(dt)), num_trees=m,
                          p_nonterminal=np.array(job['w'], np.float32) / 16, sigma2_alpha=float(job['alpha']), sigma2_beta=float(job['beta']),
                          min_points_per_leaf=job['minp'], **kw)
    pool = [prior_tree(rng, job, X) for _ in range(N)]
    PV, PS = np.stack([a for a, _ in pool]), np.stack([b for _, b in pool])
    pick = np.stack([rng.permutation(N) for _ in range(m)], 1)
    V, S = PV[pick], PS[pick]
    leaf = rng.standard_normal((N, m, 2 * H)) / np.sqrt(m)
    leaf = np.asarray(jnp.asarray(leaf, bart0['leaf_trees'].dtype).astype(jnp.float32), float)
    s2 = job['beta'] / rng.gamma(job['alpha'], size=N)
    li = np.stack([walk(V[:, t], S[:, t], X) for t in range(m)], 1)
    f = np.take_along_axis(leaf, li.reshape(N, m, n), 2).sum(1) if n else np.zeros((N, 0))
    r = rng.standard_normal((N, n)) * np.sqrt(s2)[:, None]
    y = f + r
    new = dict(var_trees=V, split_trees=S, leaf_trees=leaf, leaf_indices=li, sigma2=s2, resid=r, y=y)
    if bart0['affluence_trees'] is not None:
        cnt = np.zeros((N, m, 2 * H), int)
        a = np.arange(N)[:, None, None]
        b = np.arange(m)[None, :, None]
        np.add.at(cnt, (a, b, li), 1)
        # decision nodes too: the flag is only used on leaves
        new['affluence_trees'] = cnt[:, :, :H] >= 2 * job['minp']
    new = {k: jnp.asarray(v, bart0[k].dtype) for k, v in new.items()}
    yield dict(kind='joint', stage='draw', k=N // 1000, **stats(job, X, V, S, leaf, s2, r, f))

    @jax.jit
    def run(new, seed):
        keys = jax.random.split(jax.random.key(seed), N)

        def one(new, key):
            def body(b, k):
                return {a: c for a, c in mcmcstep.step(dict(bart0, **b), k).items() if a in b}, None
            carry = {a: dict(bart0, **new)[a] for a in bart0 if a not in ('X', 'opt', 'max_split') and bart0[a] is not None}
            b, _ = jax.lax.scan(body, carry, jax.random.split(key, T))
            return {a: b[a] for a in ('var_trees', 'split_trees', 'leaf_trees', 'sigma2', 'resid')}
        return jax.vmap(one)(new, keys)
    o = run(new, job['kseed'] * 71 + 5)
    V, S = (np.array(o[k]).astype(int) for k in ('var_trees', 'split_trees'))
    leaf = np.array(o['leaf_trees'].astype(jnp.float32)).astype(float)
    s2, r = (np.array(o[k]).astype(float) for k in ('sigma2', 'resid'))
    yield dict(kind='joint', stage='run', k=N // 1000, **stats(job, X, V, S, leaf, s2, r, y - r))


def ctxrec(job):
    return dict(d=job['d'], ms=job['ms'], w=job['w'], X=job['X'], req=job['minp'] is not None,
                minp=job['minp'] or 0, m=job['m'], s2a=1, s2b=1, alpha=job['alpha'])


def run_job(job):
    yield dict(kind='ctx', raised='', name=job['name'], K=ctxrec(job))
    try:
        for r in joint(job):
            yield dict(r, raised='', name=job['name'])
    except Exception as e:
        yield dict(kind='joint', raised=common.short_exc(e), name=job['name'])


if __name__ == '__main__':
    common.driver_main(run_job)
