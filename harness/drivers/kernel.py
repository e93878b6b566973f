"""Explore the transition kernel of the real step function: from many states,
one step with many keys; outcomes are counted, saved ratios collected."""
import sys
sys.dont_write_bytecode = True
import numpy as np
import common
import gen

NMAX = 250


def make(job, jnp):
    from bartz import mcmcstep
    p = len(job['ms'])
    X = np.array(job['X'], int).reshape(-1, p)
    if 'mult' in job:
        X = np.repeat(X, job['mult'], axis=0)
    X = X.T
    ms = np.array(job['ms'])
    dt = 'uint8' if ms.max(initial=0) < 256 else 'uint16'
    n = X.shape[1]
    y = np.array(job.get('y', [0] * n), np.float32)
    kw = {}
    for k in 'rb', 'cb':
        if k in job:
            kw[dict(rb='resid_batch_size', cb='count_batch_size')[k]] = job[k]
    bart = mcmcstep.init(
        X=jnp.asarray(X.astype(dt)), y=jnp.asarray(y), max_split=jnp.asarray(ms.astype(dt)),
        num_trees=job['m'], p_nonterminal=np.array(job['w'], np.float32) / 16,
        sigma2_alpha=1., sigma2_beta=job['s2a'] / job['s2b'],
        min_points_per_leaf=job['minp'], save_ratios=True, **kw)
    return bart


def setf(bart, jnp, **kw):
    bart = dict(bart)
    for k, v in kw.items():
        bart[k] = jnp.asarray(v, bart[k].dtype)
    return bart


def ctxrec(job):
    more = dict(mult=job['mult']) if 'mult' in job else {}
    return dict(d=job['d'], ms=job['ms'], w=job['w'], X=job['X'], req=job['minp'] is not None,
                minp=job['minp'] or 0, m=job['m'], s2a=job['s2a'], s2b=job['s2b'], **more)


def run_job(job):
    head = dict(kind='ctx', name=job['name'], raised='', K=ctxrec(job))
    try:
        recs = list(dict(bfs=bfs, marg=marg, seq=seq, prior=prior)[job['kind']](job))
    except Exception as e:
        yield dict(head, raised=common.short_exc(e))
        return
    yield head
    yield from recs


def make_stepper(jax, jnp, N, many=False):
    from bartz import mcmcstep

    def f(bart, seed):
        keys = jax.random.split(jax.random.key(seed), N)

        def one(key):
            b = mcmcstep.step(bart, key)
            s = b['split_trees']
            v = jnp.where(s != 0, b['var_trees'].astype(jnp.int32), 0)
            return dict(s=s, v=v, cnt=jnp.stack([b[k] for k in (
                'grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count')]),
                ltp=b['ratios']['log_trans_prior'], ll=b['ratios']['log_likelihood'])
        return (jax.lax.map if many else lambda f, x: jax.vmap(f)(x))(one, keys), keys
    return jax.jit(f), jax.jit(mcmcstep.step)


def tree_key(v, s):
    return tuple(np.concatenate([v, s]).astype(int).tolist())


def bfs(job):
    import jax
    from jax import numpy as jnp
    N = job['N']
    bart0 = make(job, jnp)
    stepN, step1 = make_stepper(jax, jnp, N, 'mult' in job)
    n = len(job['X'])
    H = 2 ** (job['d'] - 1)
    seen = {}
    queue = [bart0]
    seen[tree_key(np.zeros(H), np.zeros(H))] = 0
    rng = np.random.default_rng(job['kseed'])
    done = 0
    recs = []
    while queue and done < job.get('maxstates', NMAX):
        pick = 0 if not job.get('shuffle') else int(rng.integers(len(queue)))
        bart = queue.pop(pick)
        amp = job.get('amp', 2)
        r = rng.integers(-amp, amp + 1, n)
        leaf = rng.integers(-2, 3, (job['m'], 2 * H))
        resid = r
        if 'mult' in job:   # the sum over each group is r
            leaf[:] = 0
            resid = np.concatenate([np.where(np.arange(w) < abs(x), np.sign(x), 0) for x, w in zip(r, job['mult'])])
        bart = setf(bart, jnp, resid=resid, leaf_trees=leaf, sigma2=job['s2a'] / job['s2b'])
        o, keys = stepN(bart, job['kseed'] * 100003 + done)
        o = {k: np.array(v) for k, v in o.items()}
        S0 = np.array(bart['split_trees'])[0].astype(int)
        V0 = np.where(S0 != 0, np.array(bart['var_trees'])[0].astype(int), 0)
        s, v = o['s'][:, 0].astype(int), o['v'][:, 0].astype(int)
        rows = np.concatenate([v, s, o['cnt']], axis=1)
        uniq, first, inv, c = np.unique(rows, axis=0, return_index=True, return_inverse=True, return_counts=True)
        inv = inv.reshape(-1)
        ltp = np.array(common.fix(o['ltp'][:, 0], 1e6))
        ll = np.array(common.fix(o['ll'][:, 0], 1e6))
        out = []
        for g in range(len(uniq)):
            sel = inv == g
            ur = np.unique(np.stack([ltp[sel], ll[sel]], 1), axis=0)
            out.append(dict(V=common.ints(uniq[g, 1:H]), S=common.ints(uniq[g, H + 1:2 * H]),
                            cnt=common.ints(uniq[g, 2 * H:]), c=int(c[g]),
                            rat=common.ints(ur[:400]), nrat=len(ur)))
            tk = tuple(uniq[g, :2 * H].tolist())
            if tk not in seen and len(seen) < 5000:
                seen[tk] = len(seen)
                queue.append(step1(bart, keys[first[g]]))
        recs.append(dict(kind='state', V=common.ints(V0[1:]), S=common.ints(S0[1:]), leaf=common.ints(leaf[0, 1:]),
                         r=common.ints(r), k=N // 1000, out=out))
        done += 1
    trees = {(tuple(r['V']), tuple(r['S'])) for r in recs}
    for r in recs:
        r['total'] = len(seen)
    complete = not queue and n == 0
    yield from recs
    if complete:
        yield dict(kind='graph', trees=[dict(V=list(v), S=list(s)) for v, s in sorted(trees)])


def synth(job, bart, jnp, rng):
    """synthetic valid tree, n=0 or consistent leaf indices"""
    X = np.array(job['X'], int).reshape(-1, len(job['ms'])).T
    V, S, idx = gen.random_tree(rng, X, np.array(job['ms']), job['d'], job['minp'] or 0,
                                job['ngrow'], job.get('deepest', False))
    H = 2 ** (job['d'] - 1)
    kw = dict(var_trees=V[None], split_trees=S[None], leaf_indices=idx[None])
    if bart['affluence_trees'] is not None:
        kw['affluence_trees'] = (np.bincount(idx, minlength=2 * H)[:H] >= 2 * job['minp'])[None]
    return setf(bart, jnp, **kw), V, S


def marg(job):
    """marginal distributions of accepted grows/prunes from given synthetic
    trees; for many predictors or cutpoints"""
    import jax
    from jax import numpy as jnp
    N = job['N']
    bart0 = make(job, jnp)
    stepN, _ = make_stepper(jax, jnp, N)
    rng = np.random.default_rng(job['kseed'])
    H = 2 ** (job['d'] - 1)
    for rep in range(job['reps']):
        bart, V, S = synth(job, bart0, jnp, rng)
        o, _ = stepN(bart, job['kseed'] * 977 + rep)
        o = {k: np.array(v) for k, v in o.items()}
        s, v = o['s'][:, 0].astype(int), o['v'][:, 0].astype(int)
        grown = (s != 0) & (S[None] == 0)
        pruned = (s == 0) & (S[None] != 0)
        bad = (grown.sum(1) + pruned.sum(1) > 1) | ((s != S) & (s != 0) & (S != 0)).any(1)
        gi = np.where(grown.any(1), grown.argmax(1), 0)
        pi = np.where(pruned.any(1), pruned.argmax(1), 0)
        ar = np.arange(N)
        nodes = [[int(i), int((gi == i).sum())] for i in range(1, H) if (gi == i).any()]
        prunes = [[int(i), int((pi == i).sum())] for i in range(1, H) if (pi == i).any()]
        vs, cuts = [], []
        for i, cn in nodes:
            sel = gi == i
            vv = v[ar[sel], i]
            u, c = np.unique(vv, return_counts=True)
            vs.append(dict(i=i, n=cn, v=[[int(a), int(b)] for a, b in zip(u, c)]))
            for a in u[np.argsort(-c)][:3]:
                cc = s[ar[sel], i][vv == a]
                u2, c2 = np.unique(cc, return_counts=True)
                cuts.append(dict(i=i, v=int(a), n=len(cc), c=[[int(x), int(z)] for x, z in zip(u2, c2)]))
        Vn = np.where(S != 0, V, 0)
        yield dict(kind='marg', V=common.ints(Vn[1:]), S=common.ints(S[1:]), k=N // 1000, bad=int(bad.sum()),
                   gp=int(o['cnt'][:, 0].sum()), pp=int(o['cnt'][:, 2].sum()),
                   nodes=nodes, prunes=prunes, vars=vs, cuts=cuts)


def seq(job):
    """several trees, all single leaves: every tree gets a grow proposal; every
    outcome recorded individually"""
    import jax
    from jax import numpy as jnp
    from bartz import mcmcstep
    bart = make(job, jnp)
    n, m, d = len(job['X']), job['m'], job['d']
    rng = np.random.default_rng(job['kseed'])
    r = rng.integers(-3, 4, n)
    leaf = np.zeros((m, 2 ** d), int)
    leaf[:, 1] = rng.integers(-2, 3, m)
    leaf[:, 2:] = 3
    bart = setf(bart, jnp, resid=r, leaf_trees=leaf, sigma2=job['s2a'] / job['s2b'])

    @jax.jit
    def f(bart):
        keys = jax.random.split(jax.random.key(job['kseed']), job['N'])
        return jax.vmap(lambda k: {a: b for a, b in mcmcstep.step(bart, k).items() if a in (
            'split_trees', 'var_trees', 'leaf_trees', 'ratios')})(keys)
    o = jax.tree_util.tree_map(np.array, f(bart))
    ltp = np.array(common.fix(o['ratios']['log_trans_prior'], 1e6))
    ll = np.array(common.fix(o['ratios']['log_likelihood'], 1e6))
    acc = (o['split_trees'][:, :, 1] != 0).astype(int)
    for q in range(job['nrec']):
        S = o['split_trees'][q].astype(int)
        V = np.where(S != 0, o['var_trees'][q].astype(int), 0)
        yield dict(kind='seq', r=common.ints(r), leaf0=common.ints(leaf[:, 1]), V=common.ints(V[:, 1:]), S=common.ints(S[:, 1:]),
                   leaf=common.fix(o['leaf_trees'][q][:, 1:], 1024), ltp=common.ints(ltp[q]), ll=common.ints(ll[q]))
    for t in range(m):
        yield dict(kind='agg', t=t + 1, acc=common.ints(acc[:, t]), lr=np.clip(ltp[:, t].astype(np.int64) + ll[:, t], -2**30, 2**30).tolist())


def prior(job):
    """many chains without data (or with data of no weight): distribution of
    the tree after many iterations"""
    import jax
    from jax import numpy as jnp
    from bartz import mcmcstep
    bart = make(job, jnp)
    N, T = job['N'], job['T']
    H = 2 ** (job['d'] - 1)

    @jax.jit
    def f(seed):
        keys = jax.random.split(jax.random.key(seed), N)

        def chain(key):
            def body(b, k):
                return mcmcstep.step(b, k), None
            b, _ = jax.lax.scan(body, bart, jax.random.split(key, T))
            s = b['split_trees'][0]
            return s, jnp.where(s != 0, b['var_trees'][0].astype(jnp.int32), 0)
        return jax.vmap(chain)(keys)
    s, v = map(np.array, f(job['kseed']))
    rows = np.concatenate([v, s.astype(int)], 1)
    u, c = np.unique(rows, axis=0, return_counts=True)
    yield dict(kind='prior', k=N // 1000,
               out=[dict(V=common.ints(a[1:H]), S=common.ints(a[H + 1:]), c=int(b)) for a, b in zip(u, c)])


if __name__ == '__main__':
    common.driver_main(run_job)
