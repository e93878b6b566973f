"""Records the layout (shapes and types) of states and traces of the real code."""
import contextlib
import io
import math
import sys
sys.dont_write_bytecode = True
import numpy as np
import jax
from jax import numpy as jnp
import common
import gen

FIELDS = ['leaf_trees', 'var_trees', 'split_trees', 'affluence_trees', 'leaf_indices', 'resid', 'sigma2', 'grow_prop_count', 'grow_acc_count',
          'prune_prop_count', 'prune_acc_count', 'p_nonterminal', 'p_propose_grow', 'sigma2_alpha', 'sigma2_beta', 'max_split', 'y', 'X', 'min_points_per_leaf',
          'log_trans_prior', 'log_likelihood']


def layout(b):
    flat = dict(b, **(b.get('ratios') or {}))
    f = {}
    for k in FIELDS:
        v = flat.get(k)
        f[k] = [[], 'absent'] if v is None else [list(np.shape(v)), jnp.result_type(v).name]
    return f


def opts(b):
    o = b['opt']
    return [jnp.dtype(o['small_float']).name, jnp.dtype(o['large_float']).name, int(bool(o['require_min_points'])),
            int(all(o[k] is None or (int(o[k]) == o[k] and o[k] >= 1) for k in ('resid_batch_size', 'count_batch_size')))]


def sigs(job):
    from bartz import mcmcstep, mcmcloop
    c = job['cfg']
    X, ms, y = gen.make_data(dict(dseed=job['dseed'], n=c['n'], p=c['p'], ms=job.get('ms', [3]), y='signal'))
    kw = dict(X=jnp.asarray(X, c['xt']), y=jnp.asarray(y) if job.get('jy', 1) else np.asarray(y, float), max_split=jnp.asarray(ms, c['mst']), num_trees=c['m'],
              p_nonterminal=gen.pnt('high', c['d']), sigma2_alpha=2., sigma2_beta=.5, small_float=getattr(jnp, c['small']), large_float=getattr(jnp, c['large']))
    if job.get('default'):
        del kw['small_float'], kw['large_float']
    if c['mp']:
        kw.update(min_points_per_leaf=2)
    if c['ratios']:
        kw.update(save_ratios=True)
    kw.update(job.get('kw', {}))
    opt0 = [c['small'], c['large'], c['mp'], 1]
    stage = 'init'

    def rec(s, stage, rows=0, same=1):
        return dict(kind='sig', raised='', name=f"{job['name']} {stage}", cfg=c, stage=stage, rows=rows, fields=layout(s), same=same,
                    opt=opts(s) if 'opt' in s else opt0, opt0=opt0)
    try:
        b = mcmcstep.init(**kw)
        yield rec(b, stage)
        tree = jax.tree_util.tree_structure(b)
        key = jax.random.key(job['kseed'])
        if job.get('eager', 1):
            stage = 'step'
            s = mcmcstep.step(b, key)
            yield rec(s, stage, same=int(jax.tree_util.tree_structure(s) == tree))
        stage = 'jit'
        f = jax.jit(mcmcstep.step)
        s = f(f(b, key), key)
        yield rec(s, stage, same=int(jax.tree_util.tree_structure(s) == tree))
        B, S, K = job.get('sched', (2, 3, 2))
        stage = 'run'
        s, bt, mt = mcmcloop.run_mcmc(b, B, S, K, lambda **k: None, key)
        yield rec(s, stage, same=int(jax.tree_util.tree_structure(s) == tree))
        yield rec(bt, 'burn', B)
        yield rec(mt, 'main', S)
        if job.get('again', 1):
            stage = 'again'
            s, bt, mt = mcmcloop.run_mcmc(s, 1, 1, 1, lambda **k: None, key)
            yield rec(s, stage, same=int(jax.tree_util.tree_structure(s) == tree))
    except Exception as e:
        yield dict(kind='sig', raised=f"{job['name']} {stage}: " + common.short_exc(e), name=job['name'])


def helpers(job):
    from bartz import jaxext
    minu = []
    for e in list(range(0, 34)) + [40, 63]:
        for o in (-2, -1, 0, 1):
            v = 2 ** e + o
            if v >= 0 and v < 2 ** 64 and (e > 2 or o == 0):
                minu.append([e, o, np.dtype(jaxext.minimal_unsigned_dtype(v)).itemsize * 8])
    tou = []
    for k in (8, 16, 32):
        for t in (f'int{k}', f'uint{k}'):
            out = np.dtype(jaxext.signed_to_unsigned(jnp.dtype(t)))
            x = jaxext.ensure_unsigned(jnp.array([-1 if t[0] == 'i' else 2 ** k - 1, 5], t))
            tou.append([out.name, f'uint{k}', int(x.dtype.name == f'uint{k}' and int(x[0]) == 2 ** k - 1 and int(x[1]) == 5)])
    huge = []
    for t in ('int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32'):
        huge.append(int(jaxext.huge_value(jnp.zeros(2, t)) == int(np.iinfo(t).max)))
    for t in ('float16', 'bfloat16', 'float32'):
        huge.append(int(jaxext.huge_value(jnp.zeros(2, t)) == math.inf))
    # quantiles of the inverse gamma with broadcasting, vmap and jit
    from scipy import stats
    ppf = []
    q = np.array([.1, .5, .9, .99], np.float32)
    a = np.array([[.5], [1.5], [4.]], np.float32)
    ref = stats.invgamma.ppf(q.astype(float), a.astype(float))
    f = jaxext.scipy.stats.invgamma.ppf
    outs = [f(q, a), jax.jit(f)(q, a), jax.vmap(f, in_axes=(None, 0))(q, a[:, 0]), jax.vmap(lambda y: f(y, a[:, 0]))(q).T,
            np.array([[f(float(y), float(x)) for y in q] for x in a[:, 0]])]
    for o in outs:
        o = np.broadcast_to(o, ref.shape) if np.shape(o) == ref.shape else np.full(ref.shape, np.nan)
        ppf += [[common.fix(u, 1000), common.fix(v, 1000)] for u, v in zip(np.ravel(o), ref.ravel())]
    yield dict(kind='help', raised='', name='helpers', minu=minu, tounsigned=tou, huge=huge, ppf=ppf)


def run_job(job):
    try:
        jax.config.update('jax_enable_x64', bool(job.get('x64', 0)))
        yield from dict(sig=sigs, help=helpers)[job['kind']](job)
        jax.clear_caches()
    except Exception as e:
        yield dict(kind='sig', raised=f"{job['name']} " + common.short_exc(e), name=job['name'])


if __name__ == '__main__':
    common.driver_main(run_job)
