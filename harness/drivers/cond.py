"""Record leaf and noise variance draws of the real step function."""
import sys
sys.dont_write_bytecode = True
import numpy as np
import common
import gen


def state(job, jnp, rng):
    from bartz import mcmcstep
    p, n, m, d = len(job['ms']), job['n'], job['m'], job['d']
    ms = np.array(job['ms'])
    X = np.stack([rng.integers(0, k + 1, n) for k in ms]).reshape(p, n)
    if 'mult' in job:
        X = np.repeat(X, job['mult'], axis=1)
        n = X.shape[1]
    dt = 'uint8' if ms.max() < 256 else 'uint16'
    H = 2 ** (d - 1)
    kw = {k2: job[k] for k, k2 in (('rb', 'resid_batch_size'), ('cb', 'count_batch_size')) if k in job}
    bart = mcmcstep.init(
        X=jnp.asarray(X.astype(dt)), y=jnp.zeros(n), max_split=jnp.asarray(ms.astype(dt)), num_trees=m,
        p_nonterminal=np.array(job['w'], np.float32) / 16, sigma2_alpha=job['alpha2'] / 2, sigma2_beta=job['beta'],
        min_points_per_leaf=job['minp'], save_ratios=job.get('ratios', False), **kw)
    V = np.zeros((m, H), int)
    S = np.zeros((m, H), int)
    I = np.ones((m, n), int)
    for t in range(m):
        if job['ngrow']:
            V[t], S[t], I[t] = gen.random_tree(rng, X, ms, d, job['minp'] or 0, int(rng.integers(0, job['ngrow'] + 1)), job.get('deepest', False))
    L = rng.integers(-2, 3, (m, 2 * H))
    if job.get('integer', True):
        r = rng.integers(-job['amp'], job['amp'] + 1, n)
    else:
        r = rng.standard_normal(n) * job['amp']
    new = dict(var_trees=V, split_trees=S, leaf_trees=L, leaf_indices=I, resid=r, sigma2=job['a'] / job['b'])
    if bart['affluence_trees'] is not None:
        cnt = np.stack([np.bincount(I[t], minlength=2 * H)[:H] for t in range(m)])
        new['affluence_trees'] = cnt >= 2 * job['minp']
    bart = dict(bart)
    for k, v in new.items():
        bart[k] = jnp.asarray(v, bart[k].dtype)
    return bart, X, L, I, r


def draws(job):
    import jax
    from jax import numpy as jnp
    from bartz import mcmcstep
    rng = np.random.default_rng(job['kseed'])
    N = job['N']
    f = None
    for rep in range(job.get('reps', 1)):
        bart, X, L, I, r = state(job, jnp, rng)
        if f is None:
            @jax.jit
            def f(bart, seed):
                keys = jax.random.split(jax.random.key(seed), N)

                def one(key):
                    b = mcmcstep.step(bart, key)
                    return {k: b[k] for k in ('var_trees', 'split_trees', 'leaf_trees', 'resid', 'sigma2')}
                return jax.vmap(one)(keys)
        o = {k: np.array(v) for k, v in f(bart, job['kseed'] * 31 + rep).items()}
        S = o['split_trees'].astype(int)
        V = np.where(S != 0, o['var_trees'].astype(int), 0)
        leaf = common.fix(o['leaf_trees'], 16384)
        res = common.fix(np.clip(o['resid'], -100, 100), 256)
        with np.errstate(all='ignore'):
            prec = common.fix(1 / o['sigma2'].astype(float), 65536)
        yield dict(kind='draws', a=job['a'], b=job['b'], X=common.ints(X.T), r=common.ints(r), leaf0=common.ints(L[:, 1:]),
                   li0=common.ints(I), beta=int(job['beta'] * 1024), shape2=job['alpha2'] + job['n'], slack=job.get('slack', 1),
                   smp=[dict(V=common.ints(V[k][:, 1:]), S=common.ints(S[k][:, 1:]), leaf=[l[1:] for l in leaf[k]],
                             r=res[k], prec=prec[k]) for k in range(N)])


def tight(job):
    import jax
    from jax import numpy as jnp
    from bartz import mcmcstep
    rng = np.random.default_rng(job['kseed'])
    bart, X, _, _, _ = state(dict(job, integer=False), jnp, rng)
    f = jax.jit(mcmcstep.step)
    s2 = 2. ** -30
    mult = job.get('mult')
    q = 2 ** 12 if mult else 2 ** 14
    first = np.cumsum([0] + mult[:-1]) if mult else np.arange(job['n'])    # one point per group of equal points
    def group(r):
        r = np.clip(r, -.3, .3) if mult else r
        return np.repeat(r, mult) if mult else r
    more = dict(mult=mult) if mult else {}
    if mult:
        bart = dict(bart, resid=jnp.asarray(group(rng.standard_normal(job['n']) * job['amp']), bart['resid'].dtype),
                    leaf_trees=jnp.clip(bart['leaf_trees'], -.1, .1))
    for t in range(job['T']):
        bart = dict(bart, sigma2=jnp.asarray(s2, bart['sigma2'].dtype))
        new = f(bart, jax.random.key(job['kseed'] * 100 + t))
        S = np.array(new['split_trees']).astype(int)
        V = np.where(S != 0, np.array(new['var_trees']).astype(int), 0)
        yield dict(kind='tight', tol=24 + job['m'], X=common.ints(X.T[first]), r=common.fix(np.array(bart['resid'])[first], q),
                   li0=common.ints(np.array(bart['leaf_indices'])[:, first]), **more,
                   leaf0=common.fix(np.array(bart['leaf_trees'])[:, 1:], q), leaf=common.fix(np.array(new['leaf_trees'])[:, 1:], q),
                   V=common.ints(V[:, 1:]), S=common.ints(S[:, 1:]))
        r = group(rng.standard_normal(job['n']) * job['amp'])
        # new data, consistent with the state
        bart = dict(new, resid=jnp.asarray(r, new['resid'].dtype))


def init(job):
    from jax import numpy as jnp
    from bartz import mcmcstep
    q = []
    for a, b, den in job['ab']:
        # shape a / 4, scale b / 4; -1 = infinity
        A = float('inf') if a == -1 else a / 4
        B = float('inf') if b == -1 else b / 4
        s2 = mcmcstep.init(X=jnp.zeros((1, 3), jnp.uint8), y=jnp.zeros(3), max_split=jnp.array([3], jnp.uint8),
                           num_trees=2, p_nonterminal=[.9, .5], sigma2_alpha=A, sigma2_beta=B)['sigma2']
        q.append(dict(na=max(a, 0) if b != -1 else 0, nb=max(b, 0) if a != -1 else 0, den=1, s2=common.fix(s2, 65536)))
    yield dict(kind='init', q=q)


def run_job(job):
    try:
        for r in dict(draws=draws, tight=tight, init=init)[job['kind']](job):
            yield dict(r, raised='', name=job['name'])
    except Exception as e:
        yield dict(kind=job['kind'], raised=common.short_exc(e), name=job['name'])


if __name__ == '__main__':
    common.driver_main(run_job)
