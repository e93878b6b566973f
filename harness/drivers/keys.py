"""Records what becomes of every random key during runs of the real code."""
import contextlib
import io
import sys
sys.dont_write_bytecode = True
import numpy as np
import jax
from jax import numpy as jnp
from jax import random
import jax.extend.random as jer
from jax._src import prng
import common
import gen

TF = prng.threefry_prng_impl
LOG = []


def rec(kind, src, out, n):
    LOG.append((kind, tuple(np.asarray(src).ravel().tolist()), [tuple(r) for r in np.asarray(out).reshape(-1, 2).tolist()], int(n)))


def split(k, shape):
    out = TF.split(k, shape)
    jax.debug.callback(lambda a, b: rec('split', a, b, 0), k, out)
    return out


def bits(k, width, shape):
    n = int(np.prod(shape))
    jax.debug.callback(lambda a: rec('draw', a, np.zeros((0, 2), int), n), k)
    return TF.random_bits(k, width, shape)


def fold(k, data):
    out = TF.fold_in(k, data)
    jax.debug.callback(lambda a, b, d: rec('fold', a, b, int(d) & 0x3fffffff), k, out, data)
    return out


IMPL = jer.define_prng_impl(key_shape=(2,), seed=TF.seed, split=split, random_bits=bits, fold_in=fold, name='recorded', tag='rec')
ORIG = random.key


def newkey(seed):
    return ORIG(seed, impl=IMPL)


def patch():
    """keys made by the code under test are recorded too"""
    def key(seed, *, impl=None):
        return ORIG(seed, impl=IMPL)
    random.key = jax.random.key = key
    random.PRNGKey = jax.random.PRNGKey = key


patch()


def collect(f, *keys):
    """run f, return the history of the keys with small names"""
    LOG.clear()
    with contextlib.redirect_stdout(io.StringIO()):
        out = f()
        jax.block_until_ready(out)
        jax.effects_barrier()
    names = {}
    name = lambda k: names.setdefault(k, len(names) + 1)
    roots = [name(tuple(np.asarray(random.key_data(k)).tolist())) for k in keys]
    ev = [[kind, name(src), [name(o) for o in out], n if kind == 'fold' else 0] for kind, src, out, n in LOG]
    # only the folds carry a datum; the numbers drawn are summed
    drawn = sum(n for kind, _, _, n in LOG if kind == 'draw')
    return roots, ev, drawn


def state(job, **kw):
    from bartz import mcmcstep
    X, ms, y = gen.make_data(dict(dseed=job['dseed'], n=job['n'], p=job.get('p', 2), ms=job.get('ms', [3, 2]), y='signal'))
    return mcmcstep.init(X=jnp.asarray(X), y=jnp.asarray(y), max_split=jnp.asarray(ms), num_trees=job['m'], p_nonterminal=gen.pnt(job.get('pnt', 'high'), job['d']),
                         sigma2_alpha=2., sigma2_beta=.1, min_points_per_leaf=job.get('minp'), **(dict(save_ratios=True) if job.get('ratios') else {}), **kw)


def history(job, what, f, keys, iters):
    try:
        roots, ev, drawn = collect(f, *keys)
        if not ev and what.startswith('seed'):
            return
        yield dict(kind='keys', raised='', name=f"{job['name']} {what}", roots=roots, events=ev, drawn=drawn, need=iters * (job['m'] + 1))
    except Exception as e:
        yield dict(kind='keys', raised=f"{job['name']} {what} " + common.short_exc(e), name=job['name'])


def runs(job):
    from bartz import mcmcstep, mcmcloop
    b = state(job)
    for i, (B, S, K) in enumerate(job['scheds']):
        key = newkey(job['kseed'] + i)
        cb = mcmcloop.make_simple_print_callback(2) if i % 2 else (lambda **k: None)
        yield from history(job, f'run {B} {S} {K}', lambda: mcmcloop.run_mcmc(b, B, S, K, cb, key), [key], B + S * K)
    for i, jit in enumerate(job['steps']):
        key = newkey(job['kseed'] + 100 + i)
        f = jax.jit(mcmcstep.step) if jit else mcmcstep.step
        yield from history(job, f'step {jit}', lambda: f(b, key), [key], 1)

        def twice():
            k1, k2 = key2
            return f(f(b, k1), k2)
        key2 = [newkey(job['kseed'] + 200 + i), newkey(job['kseed'] + 300 + i)]
        yield from history(job, f'steps {jit}', twice, key2, 2)


def interface(job):
    from bartz.BART import gbart
    rng = np.random.default_rng(job['dseed'])
    n = job['n']
    x = rng.standard_normal((2, n))
    y = x[0] * 2 + rng.standard_normal(n) * .3
    for i, (B, S, K) in enumerate(job['scheds']):
        kw = dict(ndpost=S, nskip=B, keepevery=K, printevery=3, ntree=job['m'], maxdepth=job['d'], x_test=x)

        def f(seed):
            b = gbart(x, y, seed=seed, **kw)
            return b.sigma, b.first_sigma, b.yhat_train, b.yhat_test, b.predict(x)
        key = newkey(job['kseed'] + i)
        yield from history(job, f'key {B} {S} {K}', lambda: f(key), [key], B + S * K)
        yield from history(job, f'seed {B} {S} {K}', lambda: f(job['kseed'] + 50 + i), [newkey(job['kseed'] + 50 + i)], B + S * K)


# -------------------------------------------- independence of the decisions
def quart(v):
    r = np.empty(len(v), int)
    r[np.argsort(v, kind='stable')] = np.arange(len(v))
    return r * 4 // len(v)


def tables(job):
    """Joint frequencies of decisions that have nothing to do with each other,
    over many keys.  Without data the trees do not see each other."""
    from bartz import mcmcstep, mcmcloop
    N = job['N']
    b = state(dict(job, n=0))
    keys = random.split(ORIG(job['kseed'], impl='threefry2x32'), N)

    if job['mode'] == 'step':
        def f(key):
            out, s = [], b
            for k in random.split(key, job['T']):
                s = mcmcstep.step(s, k)
                out.append({n: s[n] for n in ('leaf_trees', 'var_trees', 'split_trees', 'sigma2')})
            return jax.tree_util.tree_map(lambda *a: jnp.stack(a), *out)
    else:
        def f(key):
            _, burn, main = mcmcloop.run_mcmc(b, 1, job['T'] - 1, 1, lambda **k: None, key)
            r = {n: main[n] for n in ('leaf_trees', 'var_trees', 'split_trees')}
            r['sigma2'] = jnp.concatenate([burn['sigma2'], main['sigma2']])
            return r
    tr = jax.tree_util.tree_map(np.asarray, jax.jit(jax.vmap(f))(keys))
    V, S, L = tr['var_trees'].astype(int), tr['split_trees'].astype(int), tr['leaf_trees'].astype(float)
    _, T, m, H = S.shape
    feats = []   # name, group, categories, mask
    full = np.ones(N, bool)
    for t in range(T):
        for k in range(m):
            code = np.where(S[:, t, k, 1] == 0, 0, 1 + V[:, t, k, 1] * 4 + S[:, t, k, 1]) if H > 1 else np.zeros(N, int)
            u, inv = np.unique(code, return_inverse=True)
            if len(u) > 1:
                feats.append((f'rule of tree {k} at {t}', ('rule', k), inv.ravel(), full))
            for side in (0, 1):
                i = np.ones(N, int)
                for _ in range(10):
                    inner = (i < H) & (S[np.arange(N), t, k, np.minimum(i, H - 1)] != 0)
                    i = np.where(inner, 2 * i + side, i)
                mask = full if not side else i != 1
                if mask.sum() > N // 8:
                    feats.append((f'leaf {side} of tree {k} at {t}', ('leaf', side, k, t), quart(L[np.arange(N), t, k, i]), mask))
    for t in range(tr['sigma2'].shape[1]):
        feats.append((f'sigma at {t}', ('sigma', t), quart(tr['sigma2'][:, t]), full))
    for a in range(len(feats)):
        for c in range(a + 1, len(feats)):
            (na, ga, ca, ma), (nc, gc, cc, mc) = feats[a], feats[c]
            if ga == gc:
                continue
            mask = ma & mc
            yield dict(kind='table', raised='', name=f"{job['name']}: {na}, {nc}", table=joint(ca, cc, mask))


def joint(a, c, mask):
    tab = np.zeros((int(a.max()) + 1, int(c.max()) + 1), int)
    np.add.at(tab, (a[mask], c[mask]), 1)
    return tab.tolist()


def proposals(job):
    """Decisions taken at once for a tree where all of them are possible"""
    from bartz import mcmcstep
    N, m, d = job['N'], job['m'], 4
    b = state(dict(job, n=0, d=d, p=3, ms=[200]))
    V, S = np.array(b['var_trees']), np.array(b['split_trees'])
    V[:, 1], V[:, 2:4], S[:, 1:4] = 0, 1, 100
    b = dict(b, var_trees=jnp.asarray(V), split_trees=jnp.asarray(S))
    keys = random.split(ORIG(job['kseed'], impl='threefry2x32'), N)
    try:
        mv = jax.tree_util.tree_map(np.asarray, jax.jit(jax.vmap(lambda k: mcmcstep.sample_moves(b, k)))(keys))
        grow, node, var, cut, logu = (mv[k] for k in ('grow', 'node', 'grow_var', 'grow_split', 'logu'))
        assert all(v.shape == (N, m) for v in (grow, node, var, cut, logu)) and var.max() < 3 and set(np.unique(node)) <= set(range(2, 8))
    except Exception:
        return   # internal structure of the step changed
    full = np.ones(N, bool)
    feats = []
    for t in range(m):
        g = grow[:, t].astype(bool)
        feats += [(t, 'kind', g.astype(int), full), (t, 'accept', quart(logu[:, t]), full), (t, 'var', var[:, t].astype(int), full), (t, 'cut', (cut[:, t] > 100).astype(int), var[:, t] == 2), (t, 'odd', cut[:, t].astype(int) % 2, var[:, t] == 2),
                  (t, 'leaf', np.maximum(node[:, t].astype(int) - 4, 0), g), (t, 'parent', np.clip(node[:, t].astype(int) - 2, 0, 1), ~g)]
    for i, (t, na, a, ma) in enumerate(feats):
        for u, nc, c, mc in feats[i + 1:]:
            if t == u and {na, nc} in ({'leaf', 'kind'}, {'parent', 'kind'}, {'leaf', 'parent'}, {'cut', 'odd'}, {'var', 'cut'}, {'var', 'odd'}):
                continue
            yield dict(kind='table', raised='', name=f"{job['name']}: {na} of tree {t}, {nc} of tree {u}", table=joint(a, c, ma & mc))


def run_job(job):
    try:
        for r in dict(runs=runs, gb=interface, tables=tables, moves=proposals)[job['kind']](job):
            r.setdefault('name', job['name'])
            yield r
    except Exception as e:
        yield dict(kind='keys', raised=f"{job['name']} " + common.short_exc(e), name=job['name'])


if __name__ == '__main__':
    common.driver_main(run_job)
