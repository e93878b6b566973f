"""Runs of mcmcloop.run_mcmc and gbart under many schedules."""
import contextlib
import io
import re
import sys
sys.dont_write_bytecode = True
import numpy as np
import common
import gen

Q = 2 ** 14


def init(job, jnp):
    from bartz import mcmcstep
    X, ms, y = gen.make_data(dict(dseed=job['dseed'], n=job.get('n', 12), p=2, ms=[3, 2], y='signal'))
    return mcmcstep.init(X=jnp.asarray(X), y=jnp.asarray(y), max_split=jnp.asarray(ms), num_trees=job.get('m', 3),
                         p_nonterminal=gen.pnt(job.get('pnt', 'mix'), job.get('d', 3)), sigma2_alpha=2., sigma2_beta=.1,
                         min_points_per_leaf=job.get('minp'), save_ratios=bool(job.get('ratios')))


def flat(x):
    return np.asarray(x).reshape(-1)


def burnrow(b):
    rat = b.get('ratios', {})
    return dict(c=[int(b[k]) for k in ('grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count')],
                s2=[common.fix(b['sigma2'], Q)],
                rat=[v for k in sorted(rat) for v in common.fix(flat(rat[k]), Q)])


def mainrow(b):
    return dict(burnrow(b), tree=common.ints(flat(b['var_trees'])) + common.ints(flat(b['split_trees'])),
                leaf=common.fix(flat(b['leaf_trees']), Q))


def fullrow(b):
    return dict(mainrow(b), li=common.ints(flat(b['leaf_indices'])), r=common.fix(flat(b['resid']), Q))


KEEP = ('var_trees', 'split_trees', 'leaf_trees', 'leaf_indices', 'resid', 'sigma2', 'ratios',
        'grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count')


def run(jax, bart, sched, key, mode='jit', extra=None):
    """one run, recorded; also wraps the callback extra"""
    from bartz import mcmcloop
    cb, st = [], []

    def log(a, b):
        cb.append(dict(i=int(a['i_total']), skip=int(a['i_skip']), burnin=int(bool(a['burnin'])),
                       nb=int(a['n_burn']), ns=int(a['n_save']), nk=int(a['n_skip'])))
        st.append(fullrow(jax.tree_util.tree_map(np.array, b)))

    def callback(*, bart, **kw):
        if extra:
            extra(bart=bart, **kw)
        jax.debug.callback(log, kw, {k: bart[k] for k in KEEP if k in bart}, ordered=True)

    if mode == 'jit':
        out = mcmcloop.run_mcmc(bart, *sched, callback, key)
    else:
        with jax.disable_jit():
            out = mcmcloop.run_mcmc(bart, *sched, callback, key)
    jax.block_until_ready(out)
    jax.effects_barrier()
    return (*out, cb, st)


def rows(trace, jax, f):
    ns = {np.shape(x)[0] if np.ndim(x) else -1 for x in jax.tree_util.tree_leaves(trace)}
    n = ns.pop() if len(ns) == 1 else -1
    if n < 0:
        return n, []
    need = ['sigma2', 'grow_prop_count'] + (['leaf_trees', 'var_trees', 'split_trees'] if f is mainrow else [])
    if any(k not in trace for k in need):
        return n, []
    t = jax.tree_util.tree_map(np.array, trace)
    return n, [f(jax.tree_util.tree_map(lambda x: x[i], t)) for i in range(n)]


def runs(job):
    import jax
    from jax import numpy as jnp
    bart = init(job, jnp)
    ini = fullrow(jax.tree_util.tree_map(np.array, {k: bart[k] for k in KEEP if k in bart}))
    for sched in job['scheds']:
        for mode in job.get('modes', ['jit']):
            head = dict(kind='run', B=sched[0], S=sched[1], K=sched[2], ratios=int(job.get('ratios', 0)), name=f"{job['name']} {mode} {sched}", mode=mode)
            try:
                final, burn, main, cb, st = run(jax, bart, sched, jax.random.key(job['kseed']), mode)
                nb, rb = rows(burn, jax, burnrow)
                nm, rm = rows(main, jax, mainrow)
                yield dict(head, raised='', cb=cb, st=st, init=ini, keysB=sorted(burn), keysM=sorted(main), rowsB=nb, rowsM=nm,
                           burn=rb, main=rm, final=fullrow(jax.tree_util.tree_map(np.array, final)))
            except Exception as e:
                yield dict(head, raised=common.short_exc(e))


def same(job):
    import jax
    from jax import numpy as jnp
    from bartz import mcmcloop, mcmcstep
    bart = init(job, jnp)
    k = job['kseed']
    ref = run(jax, bart, job['ref'], jax.random.key(k))[4]

    def rec(st, why, tol=8):
        return dict(kind='same', raised='', a=ref, b=st, tol=tol, why=why)
    for what in job['what']:
        try:
            if what[0] == 'sched':
                yield rec(run(jax, bart, what[1:], jax.random.key(k))[4], 'schedule')
            elif what[0] == 'eager':
                yield rec(run(jax, bart, what[1:], jax.random.key(k), 'eager')[4], 'compilation', 64)
            elif what[0] == 'again':
                yield rec(run(jax, bart, job['ref'], jax.random.key(k))[4], 'repetition')
            elif what[0] == 'print':
                with contextlib.redirect_stdout(io.StringIO()):
                    st = run(jax, bart, job['ref'], jax.random.key(k), extra=mcmcloop.make_simple_print_callback(what[1]))[4]
                yield rec(st, 'callback')
            elif what[0] == 'final':
                # only the final states of runs with a callback that does nothing
                st = []
                for t in range(1, len(ref) + 1):
                    b = mcmcloop.run_mcmc(bart, 0, 1, t, nothing, jax.random.key(k))[0]
                    st.append(fullrow(jax.tree_util.tree_map(np.array, b)))
                yield rec(st, 'callback')
            elif what[0] == 'nojitstep':
                key = jax.random.key(k)
                a = fullrow(jax.tree_util.tree_map(np.array, mcmcstep.step(bart, key)))
                b = fullrow(jax.tree_util.tree_map(np.array, jax.jit(mcmcstep.step)(bart, key)))
                yield dict(kind='same', raised='', a=[a], b=[b], tol=16, why='compilation')
            elif what[0] == 'key':
                st = run(jax, bart, job['ref'], jax.random.key(what[1]))[4]
                yield dict(kind='diff', raised='', a=[s['leaf'] for s in ref], b=[s['leaf'] for s in st], tol=8, why='different-key')
        except Exception as e:
            yield dict(kind='same', raised=f'{what} ' + common.short_exc(e))


def nothing(**kw):
    pass


def outs(b):
    o = dict(yt=b.yhat_train, s=b.sigma, f=b.first_sigma)
    return {k: np.array(v, np.float64) for k, v in o.items()}


def interface(job):
    import jax
    from bartz.BART import gbart
    rng = np.random.default_rng(job['dseed'])
    n, p = 25, 3
    x = rng.standard_normal((p, n))
    y = x[0] * 2 + rng.standard_normal(n) * .3

    def fit(**kw):
        kw = dict(dict(ndpost=6, nskip=4, ntree=5, maxdepth=4, printevery=100, seed=job['kseed']), **kw)
        with contextlib.redirect_stdout(io.StringIO()):
            b = gbart(x, y, **kw)
            o = outs(b)
            jax.effects_barrier()
        return o

    def vec(o):
        return [common.fix(r, Q) for r in o['yt']] + [common.fix(o['s'], Q)]
    ref = fit()
    for what in job['what']:
        try:
            kind = 'vec'
            a = vec(ref) + [common.fix(ref['f'], Q)]
            if what == 'again':
                o = fit()
            elif what == 'key':
                o = fit(seed=jax.random.key(job['kseed']))
            elif what == 'npint':
                o = fit(seed=np.int64(job['kseed']))
            elif what == 'print':
                o = fit(printevery=3)
            elif what == 'print1':
                o = fit(printevery=1)
            elif what == 'other':
                o = fit(seed=job['kseed'] + 1)
                kind = 'diff'
            elif what == 'otherkey':
                o = fit(seed=jax.random.key(job['kseed'] + 1))
                kind = 'diff'
            elif what.startswith('seed '):
                # other seeds that agree with this one in most bits or in size
                o = fit(seed=job['kseed'] + (1 << int(what.split()[1])) if what != 'seed -' else -1 - job['kseed'])
                kind = 'diff'
            elif what.startswith('sched'):
                nskip, ndpost, keep = map(int, what.split()[1:])
                o = fit(nskip=nskip, ndpost=ndpost, keepevery=keep)
                its = [nskip + keep * (j + 1) for j in range(ndpost)]
                sel = [j for j in range(ndpost) if 5 <= its[j] <= 10]
                a = [common.fix(ref['yt'][its[j] - 5], Q) for j in sel] + [common.fix([ref['s'][its[j] - 5] for j in sel], Q)]
                o = dict(yt=o['yt'][sel], s=o['s'][sel])
                # first_sigma: iterations 1..nskip
                yield dict(kind='vec', raised='', name=what, tol=16, why='interface-' + what.split()[0], a=a, b=vec(o))
                continue
            b = vec(o) + [common.fix(o['f'], Q)]
            yield dict(kind=kind, raised='', name=what, tol=16, why='interface-' + what.split()[0], a=a, b=b)
        except Exception as e:
            yield dict(kind='vec', raised=f'{what} ' + common.short_exc(e))


NUM = r'(nan|-?\d+\.\d+|inf|-?\d+)'
LINE = re.compile(rf'^\s*Iteration\s+(\d+)\s*/\s*(\d+)\s+P_grow={NUM}\s+P_prune={NUM}\s+A_grow={NUM}\s+A_prune={NUM}\s*(\(burnin\))?\s*$')


def parse(text):
    lines, bad = [], 0
    for l in text.splitlines():
        if not l.strip():
            continue
        m = LINE.match(l)
        if not m:
            bad += 1
            continue
        g = m.groups()
        num = lambda s: -1 if s == 'nan' else -2 if s == 'inf' else int(round(float(s) * 100))
        lines.append([int(g[0]), int(g[1]), *map(num, g[2:6]), int(g[6] is not None)])
    return lines, bad


def logs(job):
    import jax
    from jax import numpy as jnp
    from bartz import mcmcloop
    bart = init(job, jnp)
    m = job.get('m', 3)
    for sched, r in job['runs']:
        try:
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                out = run(jax, bart, sched, jax.random.key(job['kseed']), extra=mcmcloop.make_simple_print_callback(r))
            lines, bad = parse(buf.getvalue())
            yield dict(kind='log', raised='', name=f'{sched} {r}', B=sched[0], S=sched[1], K=sched[2], r=r, m=m,
                       lines=lines, unparsed=bad, cnt=[s['c'] for s in out[4]])
        except Exception as e:
            yield dict(kind='log', raised=f'{sched} {r} ' + common.short_exc(e))


def gblogs(job):
    import jax
    from bartz.BART import gbart
    rng = np.random.default_rng(job['dseed'])
    n, p = 30, 2
    x = rng.standard_normal((p, n))
    y = x[0] * 2 + rng.standard_normal(n) * .3
    for (nskip, ndpost, keep), r in job['runs']:
        try:
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                b = gbart(x, y, ndpost=ndpost, nskip=nskip, keepevery=keep, printevery=r, ntree=job['m'], maxdepth=3, seed=job['kseed'])
                b.yhat_train.block_until_ready()
                jax.effects_barrier()
            lines, bad = parse(buf.getvalue())
            with contextlib.redirect_stdout(io.StringIO()):
                # the counts of all iterations: another run of the same chain
                c = gbart(x, y, ndpost=ndpost * keep, nskip=nskip, keepevery=1, printevery=10 ** 6, ntree=job['m'], maxdepth=3, seed=job['kseed'])
                tr = getattr(c, '_main_trace', None)
                names = ('grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count')
                cnt = []
                if isinstance(tr, dict) and not nskip and all(k in tr for k in names):
                    cnt = [[int(tr[k][i]) for k in names] for i in range(ndpost * keep)]
            yield dict(kind='log', raised='', name=f'gbart {nskip} {ndpost} {keep} {r}', B=nskip, S=ndpost, K=keep, r=r, m=job['m'],
                       lines=lines, unparsed=bad, cnt=cnt)
        except Exception as e:
            yield dict(kind='log', raised=f'gbart {r} ' + common.short_exc(e))


def run_job(job):
    try:
        for r in dict(runs=runs, same=same, interface=interface, logs=logs, gblogs=gblogs)[job['kind']](job):
            r.setdefault('name', job['name'])
            yield r
    except Exception as e:
        yield dict(kind='run', raised=common.short_exc(e), name=job['name'])


if __name__ == '__main__':
    common.driver_main(run_job)
