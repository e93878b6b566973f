"""Run MCMC chains of the real code recording every state."""
import sys
sys.dont_write_bytecode = True
import numpy as np
import common
import gen


def start_state(cfg, jnp):
    from bartz import mcmcstep
    X, ms, y = gen.make_data(cfg)
    minp = cfg.get('minp')
    kw = dict(X=jnp.asarray(X), y=jnp.asarray(y), max_split=jnp.asarray(ms),
              num_trees=cfg['m'], p_nonterminal=gen.pnt(cfg.get('pnt', 'bart'), cfg['d']),
              sigma2_alpha=cfg.get('alpha', 2.), sigma2_beta=cfg.get('beta', 2.),
              min_points_per_leaf=minp, save_ratios=cfg.get('ratios', False))
    if 'small' in cfg:
        kw['small_float'] = getattr(jnp, cfg['small'])
    for k in 'rb', 'cb':
        if k in cfg:
            kw[dict(rb='resid_batch_size', cb='count_batch_size')[k]] = cfg[k]
    bart = mcmcstep.init(**kw)
    if cfg.get('start', 'init') != 'init':
        rng = np.random.default_rng(cfg['dseed'] + 1)
        m, d, n = cfg['m'], cfg['d'], cfg['n']
        H = 2 ** (d - 1)
        V = np.zeros((m, H), int)
        S = np.zeros((m, H), int)
        L = np.zeros((m, 2 * H), np.float32)
        I = np.ones((m, n), int)
        for t in range(m):
            if cfg['start'] == 'last':  # root uses the last cutpoint
                S[t, 1] = ms[0]
                I[t] = 2 + (X[0] >= S[t, 1])
            else:
                V[t], S[t], I[t] = gen.random_tree(rng, X, ms, d, minp or 0,
                                                   cfg.get('ngrow', 3 * d), cfg.get('deepest', True))
            for i in range(1, 2 * H):
                if (i >= H or S[t, i] == 0) and (i == 1 or S[t, i // 2]):
                    L[t, i] = rng.integers(-8, 9) / 8
        f = L[np.arange(m)[:, None], I].sum(0)
        new = dict(var_trees=V, split_trees=S, leaf_trees=L, leaf_indices=I, resid=y - f)
        bart = dict(bart)
        for k, v in new.items():
            bart[k] = jnp.asarray(v, bart[k].dtype)
        if bart['affluence_trees'] is not None:
            cnt = np.stack([np.bincount(I[t], minlength=2 * H)[:H] for t in range(m)])
            bart['affluence_trees'] = jnp.asarray(cnt >= 2 * minp)
    return bart, X, ms, y


KEYS = ('var_trees', 'split_trees', 'leaf_trees', 'leaf_indices', 'resid', 'sigma2',
        'grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count')


def run_job(cfg):
    import jax
    from jax import numpy as jnp, random
    head = dict(kind='chain', name=cfg['name'])
    try:
        bart, X, ms, y = start_state(cfg, jnp)
    except Exception as e:
        yield dict(head, raised='init ' + common.short_exc(e))
        return
    if 'small' in cfg:
        y = np.asarray(bart['y'], float)
    states = []

    def log(**kw):
        states.append({k: np.array(v) for k, v in kw.items()})

    def callback(*, bart, **_):
        jax.debug.callback(log, **{k: bart[k] for k in KEYS}, ordered=True)

    states.append({k: np.array(bart[k]) for k in KEYS})
    raised = ''
    T = cfg['nb'] + cfg['ns'] * cfg['nk']
    try:
        from bartz import mcmcloop
        if cfg.get('via', 'run') == 'run':
            out = mcmcloop.run_mcmc(bart, cfg['nb'], cfg['ns'], cfg['nk'], callback, random.key(cfg['kseed']))
            jax.block_until_ready(out)
            jax.effects_barrier()
        else:
            from bartz import mcmcstep
            stepf = jax.jit(mcmcstep.step)
            key = random.key(cfg['kseed'])
            for _ in range(T):
                key, sub = random.split(key)
                bart = stepf(bart, sub)
                states.append({k: np.array(bart[k]) for k in KEYS})
    except Exception as e:
        raised = 'run ' + common.short_exc(e)
    big = max([1e-3] + [float(np.max(np.abs(v), initial=0)) for s in states
                        for v in (s['resid'], y) if np.all(np.isfinite(v))])
    q = 2 ** 21 / big
    R = 2 ** 21
    yield dict(head, raised=raised, n=cfg['n'], p=cfg['p'], d=cfg['d'], m=cfg['m'],
               ms=common.ints(ms), X=common.ints(X.T), y=common.fix(y, q),
               minp=-1 if cfg.get('minp') is None else cfg['minp'], R=R, T=T,
               nstates=len(states), free=int(cfg.get('free', False)))
    H = 2 ** (cfg['d'] - 1)
    for t, s in enumerate(states):
        nf = sum(int(np.sum(~np.isfinite(s[k]))) for k in ('leaf_trees', 'resid', 'sigma2'))
        ok = all(s[k].shape == sh for k, sh in dict(
            var_trees=(cfg['m'], H), split_trees=(cfg['m'], H), leaf_trees=(cfg['m'], 2 * H),
            leaf_indices=(cfg['m'], cfg['n']), resid=(cfg['n'],), sigma2=()).items())
        yield dict(kind='state', t=t, nf=nf, shape=int(ok),
                   V=common.ints(s['var_trees'][:, 1:]), S=common.ints(s['split_trees'][:, 1:]),
                   z=int(np.sum(s['split_trees'][:, 0] != 0)),
                   leaf=common.fix(s['leaf_trees'][:, 1:], q), li=common.ints(s['leaf_indices']),
                   r=common.fix(s['resid'], q), s2pos=int(s['sigma2'] > 0),
                   cnt=[int(s[k]) for k in KEYS[-4:]])


if __name__ == '__main__':
    common.driver_main(run_job)
