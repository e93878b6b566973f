"""Recordings of the gbart interface, of side effects and of tuning options."""
import contextlib
import copy
import inspect
import io
import itertools
import sys
import zlib
sys.dont_write_bytecode = True
import numpy as np
import common
import gen
import loop

NF = common.NF


# ------------------------------------------------------------------- capture
class Capture:
    """Records the run_mcmc calls made meanwhile."""

    def __enter__(self):
        import bartz
        import bartz.BART
        from bartz import mcmcloop
        self.calls = []
        orig = mcmcloop.run_mcmc
        sig = inspect.signature(orig)

        def run_mcmc(*a, **k):
            out = orig(*a, **k)
            try:
                b = sig.bind(*a, **k)
                self.calls.append((list(b.arguments.values()), out))
            except TypeError:
                pass
            return out
        self.patched = []
        for name, mod in list(sys.modules.items()):
            if name.split('.')[0] == 'bartz' and mod:
                for attr, v in list(vars(mod).items()):
                    if v is orig:
                        setattr(mod, attr, run_mcmc)
                        self.patched.append((mod, attr, orig))
        return self

    def __exit__(self, *a):
        for mod, attr, orig in self.patched:
            setattr(mod, attr, orig)


def fit(x, y, **kw):
    """(model, capture or None)"""
    import jax
    from bartz.BART import gbart
    with Capture() as c, contextlib.redirect_stdout(io.StringIO()):
        b = gbart(x, y, **kw)
        jax.block_until_ready((b.sigma, b.first_sigma))
        jax.effects_barrier()
    if len(c.calls) == 1 and len(c.calls[0][0]) == 6:
        args, out = c.calls[0]
        return b, dict(init=args[0], sched=[int(v) for v in args[1:4]], key=args[5], final=out[0], burn=out[1], main=out[2])
    return b, None


def forests(main, q):
    V, S, L = (np.asarray(main[k]) for k in ('var_trees', 'split_trees', 'leaf_trees'))
    return [dict(V=V[j, :, 1:].astype(int).tolist(), S=S[j, :, 1:].astype(int).tolist(), L=common.fix(L[j, :, 1:], q)) for j in range(len(V))]


def rat(num, den):
    import math
    g = math.gcd(num, den)
    return num // g, den // g


# ------------------------------------------------------------------ C16: fit
def data(job):
    """integer predictors: grid data with prime ranges, or even integers"""
    rng = np.random.default_rng(job['dseed'])
    n, nt, p = job['n'], job['nt'], job['p']
    if job['usequants']:
        k = job.get('distinct', 9)
        rows = []
        for v in range(p):
            vals = np.sort(rng.choice(np.arange(-40, 40), k, replace=False)) * 2
            r = np.concatenate([vals, rng.choice(vals, max(0, n - k))])[:n] if n else np.empty(0, int)
            rows.append(rng.permutation(r))
        x = np.array(rows).reshape(p, n)
        xt = rng.integers(-90, 90, (p, nt))
        if n and nt >= 2:
            xt[:, :2] = (x[:, :1] + x[:, -1:]) // 2  # may be cutpoints
    else:
        primes = [q for q in (13, 101, 307, 521, 1009, 2003) if q > job['numcut'] + 1]
        x = np.empty((p, n), int)
        for v in range(p):
            h = primes[v % len(primes)]
            lo = int(rng.integers(-300, 300))
            r = rng.integers(1, h, n)
            r[:2] = [0, h]
            x[v] = lo + rng.permutation(r)
        xt = np.stack([rng.integers(x[v].min() - 50, x[v].max() + 50, nt) for v in range(p)]).reshape(p, nt)
        if nt >= 2:
            xt[:, 0] = x.min(axis=1)
            xt[:, 1] = x.max(axis=1)
    y = rng.integers(0, job['range'] + 1, n)
    if n > 2:
        y = np.where(x[0] > np.median(x[0]), y // 2 + job['range'] // 2, y // 2)
    if n >= 2:
        y[rng.permutation(n)[:2]] = [0, job['range']]
    return x, xt, y + job.get('shift', 0)


def fitkw(job):
    return dict(usequants=bool(job['usequants']), numcut=job['numcut'], ndpost=job['nd'], nskip=job['nskip'], keepevery=job.get('keep', 1),
                ntree=job['m'], maxdepth=job['d'], k=job['kn'] / job['kd'], seed=job['kseed'], printevery=10 ** 6, **job.get('kw', {}))


def fits(job):
    Q = job.get('q', 4096)
    x, xt, y = data(job)
    n, nt = job['n'], job['nt']
    X, XT, Y = (np.asarray(a, np.float32) for a in (x / 8, xt / 8, y))
    if 'types' in job:
        # integer training or test values: multiples of 4 have even halves,
        # with exact midpoints
        a, c = map(np.dtype, job['types'])
        if a.kind in 'iu':
            x = x * 2 - (2 * x.min() if a.kind == 'u' else 0)
            xt = xt + x.min() // 2
        if c.kind in 'iu':
            xt = np.maximum(xt, 0) // 2 * 2
        X, XT = (x / 2).astype(a), (xt / 2).astype(c)
        assert np.array_equal(X, x / 2) and np.array_equal(XT, xt / 2)
    b, cap = fit(X, Y, x_test=XT, **fitkw(job))
    rec = dict(kind='fit', raised='', n=n, nt=nt, x=x.tolist(), xt=xt.tolist(), usequants=int(job['usequants']), numcut=job['numcut'],
               nd=job['nd'], nskip=job['nskip'], tol=4)
    yt = b.yhat_train
    outs = [yt, b.yhat_train_mean, b.yhat_test, b.yhat_test_mean, b.sigma, b.first_sigma]
    rec['shapes'] = [list(np.shape(o)) for o in outs]
    rec.update(yhat_train=common.fix(yt, Q), yhat_test=common.fix(b.yhat_test, Q), pred_train=common.fix(b.predict(X), Q), pred_test=common.fix(b.predict(XT), Q),
               mean_train=common.fix(b.yhat_train_mean, Q), mean_test=common.fix(b.yhat_test_mean, Q))
    rec['sn'], rec['sd'] = rat(job['range'] * job['kd'], 2 * job['kn']) if n >= 2 else (1, 1)
    rec['off'] = common.fix(b.offset, Q)
    rec.update(sigma=common.fix(b.sigma, 1000), first_sigma=common.fix(b.first_sigma, 1000))
    rec['captured'] = int(cap is not None)
    if cap:
        rec.update(X=np.asarray(cap['init']['X']).T.astype(int).tolist(), F=forests(cap['main'], Q),
                   s2=common.fix(cap['main']['sigma2'], 10 ** 6), fs2=common.fix(cap['burn']['sigma2'], 10 ** 6))
    yield rec


def crc(x):
    a = np.ascontiguousarray(np.asarray(x))
    return zlib.crc32(a.tobytes() + str((a.dtype, a.shape)).encode()) & 0x3fffffff


def flat(o, path=''):
    """content of nested containers of arrays, as a list of strings"""
    if o is None or isinstance(o, (bool, int, float, str)):
        return [f'{path}={o!r}']
    if isinstance(o, dict):
        return [f'{path} keys {sorted(map(str, o))}'] + [s for k in o for s in flat(o[k], f'{path}/{k}')]
    if isinstance(o, (list, tuple)):
        return [f'{path} len {len(o)}'] + [s for i, v in enumerate(o) for s in flat(v, f'{path}/{i}')]
    if hasattr(o, 'to_numpy'):
        cols = [str(c) for c in o.columns] if hasattr(o, 'columns') else str(getattr(o, 'name', ''))
        return [f'{path} {cols} {crc(o.to_numpy())}'] + ([str(crc(np.asarray(o.index.to_numpy(), dtype=str)))] if hasattr(o, 'index') and hasattr(o.index, 'to_numpy') else [])
    import jax
    if isinstance(o, jax.Array) and jax.dtypes.issubdtype(o.dtype, jax.dtypes.prng_key):
        o = jax.random.key_data(o)
    if isinstance(o, (np.ndarray, np.generic, jax.Array)):
        return [f'{path} {crc(o)}']
    return [f'{path} {o}']


def digest(o):
    return [zlib.crc32(s.encode()) & 0x3fffffff for s in flat(o)]


ATTR = ('offset', 'scale', 'lamda', 'sigest', 'ntree', 'maxdepth', 'sigma', 'first_sigma', 'yhat_test', 'yhat_test_mean')


def hist(job):
    Q = 4096
    x, xt, y = data(job)
    X, XT, Y = (np.asarray(a, np.float32) for a in (x / 8, xt / 8, y))
    XB = XT[:, ::-1] + np.float32(3)
    b, cap = fit(X, Y, x_test=XT, **fitkw(job))
    state = lambda m: digest([[np.asarray(getattr(m, a)) if getattr(m, a) is not None else None for a in ATTR], cap and [cap[k] for k in ('init', 'final', 'burn', 'main')]])
    buf = XT.copy()

    def query(m, op):
        try:
            if op == 'a':
                r = m.predict(XT)
            elif op == 'buf-a':
                buf[:] = XT
                r = m.predict(buf)
            elif op == 'buf-b':
                buf[:] = XB
                r = m.predict(buf)
            elif op == 'train':
                r = m.yhat_train
            elif op == 'mean':
                r = m.yhat_train_mean
            elif op == 'bad':
                r = m.predict(XT[:-1])
            r = np.array(r, np.float64)
            return [zlib.crc32(str(np.round(r * Q).astype(int).tolist()).encode()) & 0x3fffffff]
        except Exception as e:
            return [-1]
    ops = job['ops']
    ref = state(b)
    answer = [query(copy.copy(b), o) for o in ops]
    # the answers are those of the other entry points
    hs = []
    for q in itertools.product(ops, repeat=job['len']):
        m = copy.copy(b)
        ans = [query(m, o) for o in q]
        hs.append(dict(q=list(q), ans=ans, fit=state(m)))
    yield dict(kind='hist', raised='', ops=ops, len=job['len'], hists=hs, answer=answer, fit=ref)
    yield dict(kind='reject', raised='', rejected=int(answer[ops.index('bad')] == [-1]), why='rejected-query')
    yield dict(kind='reject', raised='', rejected=int(all(a != [-1] for o, a in zip(ops, answer) if o != 'bad')), why='valid-query-fails')


def vectors(b, Q):
    return [common.fix(r, Q) for r in b.yhat_train] + [common.fix(r, Q) for r in b.yhat_test] + \
        [common.fix(b.sigma, Q), common.fix(b.first_sigma, Q), [common.fix(b.offset, Q), common.fix(b.scale, Q), common.fix(b.lamda, Q)]]


def frames(job):
    """same content in different containers; rejected inputs"""
    import pandas as pd
    import polars as pl
    import jax.numpy as jnp
    Q = 4096
    x, xt, y = data(job)
    X, XT, Y = (np.asarray(a, np.float32) for a in (x / 8, xt / 8, y))
    p, n = X.shape
    cols = [f'c{(7 * i) % p}_{i}' for i in range(p)]
    mk = {
        'pandas': lambda a, c=cols: pd.DataFrame(a.T, columns=c),
        'pandas-index': lambda a, c=cols: pd.DataFrame(a.T, columns=c, index=np.arange(a.shape[1])[::-1] * 3),
        'polars': lambda a, c=cols: pl.DataFrame(a.T, schema=c),
        'jax': lambda a, c=None: jnp.asarray(a),
        'fortran': lambda a, c=None: np.asfortranarray(a),
        'view': lambda a, c=None: np.repeat(a, 2, axis=1)[:, ::2],
        'double': lambda a, c=None: a.astype(np.float64),
    }
    ser = {
        'pandas': lambda v: pd.Series(v, name='resp'), 'pandas-index': lambda v: pd.Series(v, name='resp', index=np.arange(len(v))[::-1] + 5),
        'polars': lambda v: pl.Series('resp', v), 'jax': jnp.asarray, 'fortran': lambda v: v, 'view': lambda v: np.repeat(v, 3)[::3], 'double': lambda v: v.astype(np.float64),
    }
    kw = fitkw(job)
    ref, _ = fit(X, Y, x_test=XT, **kw)
    a = vectors(ref, Q)
    models = {}
    for k in mk:
        try:
            b, _ = fit(mk[k](X), ser[k](Y), x_test=mk[k](XT), **kw)
            models[k] = b
            yield dict(kind='vec', raised='', a=a, b=vectors(b, Q), tol=4, why='container-' + k)
            yield dict(kind='vec', raised='', a=[common.fix(r, Q) for r in ref.yhat_test], b=[common.fix(r, Q) for r in b.predict(mk[k](XT))], tol=4, why='predict-container-' + k)
        except Exception as e:
            yield dict(kind='vec', raised=f'{k} ' + common.short_exc(e))
    if 'mixed' in job['ops']:
        try:
            b, _ = fit(mk['pandas'](X), Y, x_test=mk['pandas'](XT), **kw)
            yield dict(kind='vec', raised='', a=a, b=vectors(b, Q), tol=4, why='container-mixed')
            b, _ = fit(X, ser['polars'](Y), x_test=XT, **kw)
            yield dict(kind='vec', raised='', a=a, b=vectors(b, Q), tol=4, why='container-mixed')
        except Exception as e:
            yield dict(kind='vec', raised='mixed ' + common.short_exc(e))
        # another order of the rows of the test data, duplicated, one at a time
        try:
            perm = np.arange(XT.shape[1])[::-1]
            for k, w, back in (('permuted', XT[:, perm], perm), ('twice', np.concatenate([XT, XT], 1), slice(XT.shape[1], None)), ('part', XT[:, :1], None)):
                r = np.asarray(ref.predict(w))
                r = r[:, back] if back is not None else r
                t = np.asarray(ref.yhat_test)
                yield dict(kind='vec', raised='', a=[common.fix(v, Q) for v in (t if back is not None else t[:, :1])], b=[common.fix(v, Q) for v in r], tol=4, why='predict-' + k)
            r = np.asarray(ref.predict(XT[:, :0]))
            yield dict(kind='vec', raised='', a=[[job['nd'], 0]], b=[list(r.shape)], tol=0, why='predict-no-points')
        except Exception as e:
            yield dict(kind='vec', raised='predict ' + common.short_exc(e))
    bad = []

    def rejects(why, f):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                f()
            bad.append((why, 0))
        except Exception:
            bad.append((why, 1))
    from bartz.BART import gbart
    g = lambda x, y, **k: gbart(x, y, **dict(kw, **k))
    rejects('short-response', lambda: g(X, Y[:-1]))
    rejects('long-response', lambda: g(X, np.append(Y, Y[0])))
    rejects('response-matrix', lambda: g(X, Y[None]))
    rejects('response-column', lambda: g(X, Y[:, None]))
    rejects('predictor-vector', lambda: g(X[0], Y))
    rejects('predictor-tensor', lambda: g(X[None], Y))
    rejects('transposed', lambda: g(X.T, Y) if p != n else 1 / 0)
    rejects('dataframe-length', lambda: g(mk['pandas'](X), ser['pandas'](Y[1:])))
    rejects('test-rows', lambda: g(X, Y, x_test=XT[:-1]))
    rejects('test-kind', lambda: g(X, Y, x_test=mk['pandas'](XT)))
    rejects('predict-fewer', lambda: ref.predict(XT[1:]))
    rejects('predict-more', lambda: ref.predict(np.concatenate([XT, XT[:1]])))
    rejects('predict-vector', lambda: ref.predict(XT[:, 0]))
    for k in ('pandas', 'polars'):
        m = models.get(k)
        if m is None:
            continue
        other = 'polars' if k == 'pandas' else 'pandas'
        rejects(f'{k}-predict-array', lambda: m.predict(XT))
        rejects(f'array-predict-{k}', lambda: ref.predict(mk[k](XT)))
        if p > 1:
            rejects(f'{k}-columns-order', lambda: m.predict(mk[k](XT[::-1], cols[::-1])))
            rejects(f'{k}-columns-swapped', lambda: m.predict(mk[k](XT, cols[1:] + cols[:1])))
            rejects(f'{k}-columns-missing', lambda: m.predict(mk[k](XT[1:], cols[1:])))
        rejects(f'{k}-columns-renamed', lambda: m.predict(mk[k](XT, cols[:-1] + ['other'])))
        rejects(f'{k}-columns-extra', lambda: m.predict(mk[k](np.concatenate([XT, XT[:1]]), cols + ['zz'])))
    for why, ok in bad:
        yield dict(kind='reject', raised='', rejected=ok, why=why)


# ---------------------------------------------------------------- C17: prior
def hadamard(n):
    H = np.ones((1, 1), int)
    while len(H) < n:
        H = np.block([[H, H], [H, -H]])
    return H


def prior(job):
    import jax
    Q = 4096
    for c in job['cases']:
        rng = np.random.default_rng(c['dseed'])
        n, p = c['n'], c['p']
        if n > p and n >= 2 and not n & (n - 1):
            H = hadamard(n)[rng.permutation(np.arange(1, n))[:c.get('rank', p)]]
            H = H[np.arange(p) % len(H)] if len(H) else np.ones((p, n), int)
            for v in c.get('const', []):
                H[v] = 1
        else:
            H = rng.choice([-1, 1], (p, n))
        X = (rng.integers(-5, 6, (p, 1)) + rng.choice([1, 2, 4], (p, 1)) * H).astype(np.float32)
        y = rng.integers(0, c['range'] + 1, n)
        if n >= 2:
            y[rng.permutation(n)[:2]] = [0, c['range']]
        if n > p and n >= 2 and c['sigmode'] == 'auto':
            y[0] = y[0]
        y = y + c.get('shift', 0)
        ov = c.get('ov', {})
        kw = dict(numcut=c.get('numcut', 3), usequants=n == 0 or c.get('usequants', False), sigdf=c['sigdf'], sigquant=c['sigquant'] / 1000, k=c['kn'] / c['kd'],
                  power=c['power'], base=c['base'] / 10 ** 6, maxdepth=c['maxdepth'], ntree=c['ntree'], ndpost=c['sched'][1], nskip=c['sched'][0], keepevery=c['sched'][2],
                  printevery=10 ** 6, seed=c.get('kseed', 0))
        # unit of the response is 2^e
        e = c.get('e', 0)
        U, U2 = np.ldexp(1., -e), np.ldexp(1., -2 * e)
        if c['sigmode'] == 'given':
            kw['sigest'] = c['sigarg'] / 1000 / U
        elif c['sigmode'] == 'none':
            kw['lamda'] = c['lamarg'] / 1000 / U2
        if c['offmode']:
            kw['offset'] = c['offarg'] / U if e else c['offarg']
        ikw = {}
        for k, v in ov.items():
            ikw[k] = dict(p_nonterminal=lambda: np.array(v) / 1e6, num_trees=lambda: v, min_points_per_leaf=lambda: None if v < 0 else v, sigma2_alpha=lambda: v / 2,
                          sigma2_beta=lambda: v / 1000, save_ratios=lambda: True, resid_batch_size=lambda: v, count_batch_size=lambda: v)[k]()
        if ov:
            kw['initkw'] = ikw
        rec = dict(kind='prior', raised='', name=c['name'], y=y.tolist(), n=n, p=p, H=H.tolist(), kn=c['kn'], kd=c['kd'], sigmode=c['sigmode'], sigarg=c.get('sigarg', 0),
                   lamarg=c.get('lamarg', 0), sigdf=c['sigdf'], sigquant=c['sigquant'], offmode=c['offmode'], offarg=c.get('offarg', 0), base=c['base'], power=c['power'],
                   maxdepth=c['maxdepth'], ntree=c['ntree'], ovk=sorted(ov), sched0=c['sched'] + [crc(jax.random.key_data(jax.random.key(c.get('kseed', 0))))])
        try:
            Y = y.astype(c.get('ydt', 'float32'))
            if e:
                Y = np.ldexp(Y, e)
            b, cap = fit(X, Y, **kw)
            rec.update(scale=common.fix(b.scale, Q * U), off=common.fix(b.offset, Q * U), sigest=NF if b.sigest is None else common.fix(b.sigest, 1000 * U),
                       lam=common.fix(b.lamda, 1000 * U2), rho=0 if b.sigest is None else common.fix(float(b.lamda) / float(b.sigest) ** 2, 10 ** 6),
                       attr=[int(b.ntree), int(b.maxdepth)], captured=int(cap is not None))
            if cap:
                s = cap['init']
                mp = s['min_points_per_leaf']
                beta = float(s['sigma2_beta'])
                unit = 1000 if 'sigma2_beta' in ov else 20000 / beta if beta else 1
                rec.update(resid=common.fix(s['resid'], Q), pnt=common.fix(np.asarray(s['p_nonterminal'])[:-1], 10 ** 6), trees=len(s['leaf_trees']),
                           nodes=s['leaf_trees'].shape[1], minp=-1 if mp is None else int(mp), alpha2=int(round(2 * float(s['sigma2_alpha']))),
                           beta=common.fix(beta, unit), lamb=common.fix(b.lamda, unit * U2), ratios=int('ratios' in s), sched=cap['sched'] + [crc(jax.random.key_data(cap['key']))])
            rec['ov'] = ov or dict(none=0)
        except Exception as e:
            rec = dict(kind='prior', name=c['name'], raised=f"{c['name']} " + common.short_exc(e))
        yield rec


def again(job):
    """the same fit made with the lower level functions"""
    import jax
    from jax import numpy as jnp
    from bartz import mcmcloop, mcmcstep, prepcovars
    Q = 4096
    x, xt, y = data(job)
    X, XT, Y = (np.asarray(a, np.float32) for a in (x / 8, xt / 8, y))
    sigdf, base, power = job.get('sigdf', 3), job.get('base', .95), job.get('power', 2)
    kw = fitkw(job)
    b, _ = fit(X, Y, x_test=XT, **kw, sigdf=sigdf, base=base, power=power)
    splits, ms = (prepcovars.quantilized_splits_from_matrix if job['usequants'] else prepcovars.uniform_splits_from_matrix)(jnp.asarray(X), job['numcut'] + 1)
    Xb, XTb = (prepcovars.bin_predictors(jnp.asarray(a), splits) for a in (X, XT))
    lam = b.lamda / b.scale ** 2
    st = mcmcstep.init(**dict(dict(X=Xb, y=(jnp.asarray(Y) - b.offset) / b.scale, max_split=ms, num_trees=job['m'], p_nonterminal=base / (1. + np.arange(job['d'] - 1)) ** power,
                       sigma2_alpha=sigdf / 2, sigma2_beta=lam * sigdf / 2, min_points_per_leaf=5), **job.get('kw', {}).get('initkw', {})))
    _, burn, main = mcmcloop.run_mcmc(st, job['nskip'], job['nd'], job.get('keep', 1), loop.nothing, jax.random.key(job['kseed']))
    e = lambda Z: [common.fix(r, Q) for r in b.offset + b.scale * mcmcloop.evaluate_trace(main, Z)]
    sg = lambda t: common.fix(b.scale * np.sqrt(np.asarray(t['sigma2'])), Q)
    yield dict(kind='vec', raised='', tol=8, why='sampler-not-as-documented', a=vectors(b, Q)[:-1], b=e(Xb) + e(XTb) + [sg(main), sg(burn)])


# ---------------------------------------------------------------- C18: shift
def shift(job):
    q = 2 ** 12
    x, xt, y = data(job)
    X, XT = (np.asarray(a, np.float32) for a in (x / 8, xt / 8))
    kw = dict(fitkw(job), **job.get('extra', {}))

    def obs(A, e):
        # response 2^e (A + y), results in units 2^e / q
        b, cap = fit(X, np.ldexp((A + y).astype(np.float32), e), x_test=XT, **kw)
        f = lambda v, r=1: common.fix(np.ldexp(np.asarray(v, np.float64), -e * r), q)
        o = dict(pred=[f(r) for r in np.concatenate([np.asarray(b.yhat_train), np.asarray(b.yhat_test)], 1)], off=f(b.offset), scale=f(b.scale), sigma=f(b.sigma), first=f(b.first_sigma),
                 sigest=f(b.sigest), lam=f(b.lamda, 2))
        o['mean'] = f(np.concatenate([np.asarray(b.yhat_train_mean), np.asarray(b.yhat_test_mean)]))
        o['trees'] = [[t['V'], t['S']] for t in forests(cap['main'], 1)] if cap else []
        return o
    u = obs(0, 0)
    for A, e in job['maps']:
        try:
            yield dict(kind='shift', raised='', A=A, e=e, q=q, tol=24 + 2 * abs(A) // 16, u=u, v=obs(A, e))
        except Exception as ex:
            yield dict(kind='shift', raised=f'{A} {e} ' + common.short_exc(ex))


# ----------------------------------------------------------------- C21: pure
def pure(job):
    import jax
    from jax import numpy as jnp
    from bartz import mcmcstep, mcmcloop, prepcovars, grove
    from bartz import debug as bdebug
    recs = []

    def call(what, f, args, again=True):
        """args: list of mutable inputs"""
        before = flat(args)
        try:
            o1 = flat(f(*args))
            mid = flat(args)
            same = [o1, flat(f(*args))] if again else []
            recs.append(dict(kind='pure', raised='', what=what, before=before, after=flat(args) if mid == before else mid,
                             same=[[str(zlib.crc32(str(s).encode()))] for s in same]))
        except Exception as e:
            recs.append(dict(kind='pure', raised=f'{what} ' + common.short_exc(e)))
    key = jax.random.key(job['kseed'])
    bart = loop.init(job, jnp)
    data_ = {k: bart[k] for k in ('X', 'y', 'max_split')}
    mode = job['mode']
    ctx = jax.disable_jit() if mode == 'eager' else contextlib.nullcontext()
    with ctx:
        states = [bart]
        ks = jax.random.split(key, 3)
        snaps = [flat(bart)]
        for k in ks:
            states.append(mcmcstep.step(states[-1], k))
            snaps.append(flat(states[-1]))
        recs.append(dict(kind='pure', raised='', what=f'{mode} earlier states', before=[str(crc(np.frombuffer(str(s).encode(), np.uint8))) for s in snaps],
                         after=[str(crc(np.frombuffer(str(flat(s)).encode(), np.uint8))) for s in states], same=[]))
        # any earlier state can be stepped again
        for j, k in enumerate(ks):
            call(f'{mode} step', mcmcstep.step, [states[j], k])
            recs.append(dict(kind='pure', raised='', what=f'{mode} restep', before=snaps[j + 1], after=flat(mcmcstep.step(states[j], k)), same=[]))
        for j in (0, 2):
            st, k = states[j], ks[j]
            call(f'{mode} sample_trees', mcmcstep.sample_trees, [st, k])
            call(f'{mode} sample_moves', mcmcstep.sample_moves, [st, k])
            call(f'{mode} sample_sigma', mcmcstep.sample_sigma, [st, k])
            moves = mcmcstep.sample_moves(st, k)
            call(f'{mode} accept_moves', mcmcstep.accept_moves_and_sample_leaves, [st, moves, k])
            if all(hasattr(mcmcstep, f'accept_moves_{s}_stage') for s in ('parallel', 'sequential', 'final')):
                call(f'{mode} parallel stage', mcmcstep.accept_moves_parallel_stage, [st, moves, k])
                try:
                    o = mcmcstep.accept_moves_parallel_stage(st, moves, k)
                    o = o[0], o[2], o[1], *o[3:]
                    call(f'{mode} sequential stage', mcmcstep.accept_moves_sequential_stage, list(o))
                    o = mcmcstep.accept_moves_sequential_stage(*o)
                    call(f'{mode} final stage', mcmcstep.accept_moves_final_stage, list(o))
                except TypeError:
                    pass
            if hasattr(mcmcstep, 'complete_ratio') and hasattr(mcmcstep, 'compute_count_trees'):
                try:
                    call(f'{mode} complete_ratio', mcmcstep.complete_ratio, [moves, dict(left=jnp.ones(len(moves['node']), int), right=jnp.ones(len(moves['node']), int)), st['min_points_per_leaf']])
                except TypeError:
                    pass
    if mode == 'eager':
        yield from recs
        return
    call('jitted step', jax.jit(mcmcstep.step), [states[1], ks[0]])
    for sched in ((2, 2, 2), (0, 0, 1), (0, 1, 3)):
        call(f'run_mcmc {sched}', lambda b, k: mcmcloop.run_mcmc(b, *sched, loop.nothing, k), [states[1], key])
    pc = mcmcloop.make_simple_print_callback(1)
    with contextlib.redirect_stdout(io.StringIO()):
        call('run_mcmc print', lambda b, k: mcmcloop.run_mcmc(b, 1, 2, 1, pc, k), [states[1], key])
        jax.effects_barrier()
    # the callback is given the state: what it does there must stay there? it is not allowed to, so only look
    final, burn, main = mcmcloop.run_mcmc(states[1], 2, 3, 2, loop.nothing, key)
    Xn = np.asarray(bart['X'])
    for extra in (0, 1):
        tr = dict(main, note=jnp.zeros(3)) if extra else main
        call('evaluate_trace', mcmcloop.evaluate_trace, [tr, Xn])
    call('evaluate_forest', grove.evaluate_forest, [Xn, final['leaf_trees'], final['var_trees'], final['split_trees']])
    call('check_trace', bdebug.check_trace, [main, final])
    call('depth', bdebug.trace_depth_distr, [main['split_trees']])
    call('points', bdebug.trace_points_per_leaf_distr, [main, Xn])
    rng = np.random.default_rng(0)
    xs = rng.integers(0, 9, (3, 20))
    for dt in ('float32', 'int32', 'uint8'):
        xr = xs.astype(dt)
        call(f'quantilized {dt}', lambda a: prepcovars.quantilized_splits_from_matrix(a, 5), [xr])
        call(f'uniform {dt}', lambda a: prepcovars.uniform_splits_from_matrix(a, 5), [xr])
        s = np.array(prepcovars.quantilized_splits_from_matrix(xr, 5)[0])
        call(f'bin {dt}', prepcovars.bin_predictors, [xr, s])
    kw = {k: np.array(v) for k, v in data_.items()}
    pn = np.array([.5, .25])
    for r in (True, False):
        d = dict(kw, num_trees=3, p_nonterminal=pn, sigma2_alpha=1., sigma2_beta=1., min_points_per_leaf=2, save_ratios=r)
        call('init', lambda d: mcmcstep.init(**d), [d])
    yield from recs


def pureg(job):
    """inputs of gbart and predict"""
    import pandas as pd
    import polars as pl
    import jax
    from bartz.BART import gbart
    x, xt, y = data(job)
    X, XT, Y = (np.asarray(a, np.float32) for a in (x / 8, xt / 8, y))
    cols = [f'c{i}' for i in range(len(X))]
    inp = dict(
        array=(X, Y, XT), double=(X.astype(float), Y.astype(float), XT.astype(float)),
        pandas=(pd.DataFrame(X.T, columns=cols), pd.Series(Y, name='y'), pd.DataFrame(XT.T, columns=cols)),
        polars=(pl.DataFrame(X.T, schema=cols), pl.Series('y', Y), pl.DataFrame(XT.T, schema=cols)))
    kw = fitkw(job)
    for k, (a, b, c) in inp.items():
        if k not in job['kinds']:
            continue
        for ikw in ({}, dict(save_ratios=True, min_points_per_leaf=2, p_nonterminal=np.array([.5, .5])), dict(resid_batch_size=3)):
            if ikw and k != job['kinds'][0]:
                continue
            try:
                args = [a, b, c, ikw]
                before = flat(args)
                same = []
                for _ in range(2):
                    with contextlib.redirect_stdout(io.StringIO()):
                        m = gbart(a, b, x_test=c, initkw=ikw, **kw)
                        o = [np.asarray(v) for v in (m.yhat_train, m.yhat_test, m.sigma, m.first_sigma, m.offset, m.lamda)]
                    same.append([str(zlib.crc32(str(flat(o)).encode()))])
                yield dict(kind='pure', raised='', what=f'gbart {k} {sorted(ikw)}', before=before, after=flat(args), same=same)
                if not ikw:
                    before = flat(c)
                    o = [[str(zlib.crc32(str(flat(np.asarray(m.predict(c)))).encode()))] for _ in range(3)]
                    yield dict(kind='pure', raised='', what=f'predict {k}', before=before, after=flat(c), same=o[::2])
            except Exception as e:
                yield dict(kind='pure', raised=f'gbart {k} ' + common.short_exc(e))
    # options of one model do not leak to the next
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            a1 = gbart(X, Y, **kw)
            o1 = flat([np.asarray(a1.yhat_train), np.asarray(a1.sigma)])
            gbart(X, Y, **dict(kw, initkw=dict(min_points_per_leaf=1, num_trees=2)))
            a2 = gbart(X, Y, **kw)
            o2 = flat([np.asarray(a2.yhat_train), np.asarray(a2.sigma)])
            o3 = flat([np.asarray(a1.predict(X)), np.asarray(a1.sigma)])
        yield dict(kind='pure', raised='', what='gbart after another', before=o1, after=o2, same=[])
        yield dict(kind='pure', raised='', what='first model after another', before=o1[-1:], after=o3[-1:], same=[])
    except Exception as e:
        yield dict(kind='pure', raised='gbart leak ' + common.short_exc(e))


# ------------------------------------------------------------- C22: options
def optrow(s, ex):
    return dict(tree=s['tree'], c=s['c'], li=s['li'], leaf=s['leaf'], r=s['r'], s2=s['s2'])


def options(job):
    import jax
    from jax import numpy as jnp
    from bartz import mcmcstep
    X, ms, y = gen.make_data(dict(dseed=job['dseed'], n=job['n'], p=2, ms=job.get('ms', [3, 2]), y='signal', seq=job.get('seq', 0)))

    def run(**kw):
        b = mcmcstep.init(X=jnp.asarray(X), y=jnp.asarray(y), max_split=jnp.asarray(ms), num_trees=job['m'], p_nonterminal=gen.pnt(job.get('pnt', 'mix'), job['d']),
                          sigma2_alpha=2., sigma2_beta=.1, min_points_per_leaf=job.get('minp'), **kw)
        if not job.get('eager'):
            return [optrow(s, 0) for s in loop.run(jax, b, job['sched'], jax.random.key(job['kseed']))[4]]
        key = jax.random.key(job['kseed'])
        out = []
        for k in jax.random.split(key, 2):
            b = mcmcstep.step(b, k)
            out.append(optrow(loop.fullrow(jax.tree_util.tree_map(np.array, {f: b[f] for f in loop.KEEP if f in b})), 0))
        return out
    ref = run(resid_batch_size=None, count_batch_size=None)
    for o in job['opts']:
        try:
            kw = dict(o)
            yield dict(kind='opt', raised='', name=f"{job['name']} {o}", a=ref, b=run(**kw), tol=24, why=' '.join(sorted(k for k in kw)))
        except Exception as e:
            yield dict(kind='opt', raised=f'{o} ' + common.short_exc(e))


def gboptions(job):
    """reporting interval and initkw options through the interface"""
    import jax
    Q = 4096
    x, xt, y = data(job)
    X, XT, Y = (np.asarray(a, np.float32) for a in (x / 8, xt / 8, y))
    kw = fitkw(job)
    ref, _ = fit(X, Y, x_test=XT, **kw)
    a = vectors(ref, Q)
    for o in job['opts']:
        try:
            b, _ = fit(X, Y, x_test=XT, **dict(kw, **o))
            yield dict(kind='vec', raised='', name=str(o), a=a, b=vectors(b, Q), tol=24, why='option ' + ' '.join(sorted(o)))
        except Exception as e:
            yield dict(kind='vec', raised=f'{o} ' + common.short_exc(e))


def auto(job):
    """automatic batch sizes with many numbers of points, on the devices that jax reports"""
    import jax
    from jax import numpy as jnp
    from bartz import mcmcstep
    asked = []

    class Device:
        platform = job['platform']
        device_kind = 'stand-in'

    def devices(*a, **k):
        asked.append(1)
        return [Device()]
    real = jax.devices
    for n, m, d in job['sizes']:
        for rb, cb in (('auto', 'auto'), ('auto', None), (None, 'auto')):
            got = []
            asked.clear()

            def f(X, y):
                b = mcmcstep.init(X=X, y=y, max_split=jnp.ones(1, jnp.uint8), num_trees=m, p_nonterminal=gen.pnt('flat', d), sigma2_alpha=2., sigma2_beta=.1,
                                  resid_batch_size=rb, count_batch_size=cb)
                got[:] = [b['opt'][k] for k in ('resid_batch_size', 'count_batch_size')]
                return b['resid']
            try:
                jax.devices = devices
                jax.eval_shape(f, jax.ShapeDtypeStruct((1, n), jnp.uint8), jax.ShapeDtypeStruct((n,), jnp.float32))
                yield dict(kind='auto', raised='', n=n, forest=m * 2 ** d, gpu=int(job['platform'] == 'gpu' and len(asked) > 0), auto=[int(rb == 'auto'), int(cb == 'auto')],
                           size=[0 if g is None else int(g) for g in got], whole=int(all(g is None or int(g) == g for g in got)))
            except Exception as e:
                yield dict(kind='auto', raised=f"{job['platform']} {n} {m} {d} {rb} {cb} " + common.short_exc(e))
            finally:
                jax.devices = real


KINDS = dict(auto=auto, fit=fits, hist=hist, frames=frames, prior=prior, again=again, shift=shift, pure=pure, pureg=pureg, opt=options, gbopt=gboptions)


def run_job(job):
    try:
        for r in KINDS[job['kind']](job):
            r.setdefault('name', job['name'])
            yield r
    except Exception as e:
        yield dict(kind='vec', raised=f"{job['name']} " + common.short_exc(e), name=job['name'])


if __name__ == '__main__':
    common.driver_main(run_job)
