"""Cutpoints and bins computed by the real code."""
import itertools
import sys
sys.dont_write_bytecode = True
import numpy as np
import common


def setup():
    import jax
    from jax import numpy as jnp
    from bartz import prepcovars, jaxext
    return jax, jnp, prepcovars, jaxext


class budget:
    """Run with a small memory budget for automatic batching"""
    def __init__(self, n):
        self.n = n

    def __enter__(self):
        jax, _, _, self.jaxext = setup()
        self.orig = orig = self.jaxext.autobatch
        if self.n:
            jax.clear_caches()

            def small(func, max_io_nbytes, *a, **k):
                return orig(func, min(max_io_nbytes, self.n), *a, **k)
            self.jaxext.autobatch = small

    def __exit__(self, *a):
        self.jaxext.autobatch = self.orig


HUGE = 2 ** 31 - 3


def enc(x, scale, dt):
    """exact integers scale * x, with a code for the padding value"""
    x = np.asarray(x)
    if x.dtype.kind in 'iu':
        hi = np.iinfo(dt).max if np.issubdtype(dt, np.integer) else None
        v = x.astype(np.int64)
        if hi is None:
            return (v * scale).tolist()
        return np.where(v == hi, HUGE, v * scale).tolist()
    v = np.asarray(x, np.float64) * scale
    ok = np.isfinite(v) & (np.abs(v) < HUGE) & (np.abs(v - np.round(v)) < 1e-3)
    return np.where(ok, np.round(np.where(ok, v, 0)), np.where(v == np.inf, HUGE, common.NF)).astype(np.int64).tolist()


def quantrec(X, scale, B, S, M, dt, isint):
    p, n = X.shape
    S = np.asarray(S)
    M = np.asarray(M)
    rows = []
    for i in range(len(S)):
        u = np.unique(X[i])
        rows.append(dict(X=X[i].tolist(), U=u.tolist(), S=enc(S[i], 2 if isint else 2 * scale, dt), M=int(M[i])))
    return dict(kind='quant', p=p, n=n, B=B, isint=int(isint), huge=HUGE, rows=rows)


def toarr(jnp, X, scale, dt):
    if 'int' in dt:
        return jnp.asarray(X.astype(dt))
    return jnp.asarray(np.asarray(X / scale, np.float64 if dt == 'bfloat16' else dt), jnp.dtype(dt))


def npdt(jnp, dt):
    return np.dtype(dt) if 'int' in dt else np.float32


def quant1(X, scale, dt, B, bud=None, chunk=400):
    jax, jnp, pc, _ = setup()
    try:
        with budget(bud):
            S, M = pc.quantilized_splits_from_matrix(toarr(jnp, X, scale, dt), B)
        S = np.asarray(S.astype(jnp.float32) if 'int' not in dt else S)
        M = np.asarray(M)
        if S.ndim != 2 or M.shape != S.shape[:1] or len(S) != len(X):
            raise ValueError(f'wrong shapes {S.shape} {M.shape}')
        for a in range(0, max(1, len(X)), chunk):
            yield quantrec(X[a:a + chunk], scale, B, S[a:a + chunk], M[a:a + chunk], npdt(jnp, dt), 'int' in dt)
    except Exception as e:
        yield dict(kind='quant', raised=common.short_exc(e))


def exhq(job):
    """all vectors of values of length n, for all B"""
    vals = np.array(job['vals'])
    for n in job['ns']:
        X = np.array(list(itertools.product(vals, repeat=n)), np.int64).reshape(len(vals) ** n, n)
        for B in job['Bs']:
            yield from quant1(X, job['scale'], job['dt'], B)


def rndq(job):
    rng = np.random.default_rng(job['rs'])
    n, p = job['n'], job.get('p', 3)
    if job['dt'] == 'uint16':
        job['range'] = min(job.get('range', 10 ** 6), 60000 // job.get('even', 1))
    nd = job.get('nd', [n])
    X = np.zeros((p, n), int)
    for i in range(p):
        k = min(nd[i % len(nd)], job.get('range', 10 ** 6))
        pool = rng.choice(np.arange(-job.get('neg', 0), job.get('range', 10 ** 6) - job.get('neg', 0)), k, replace=False) * job.get('even', 1)
        x = np.concatenate([pool, rng.choice(pool, max(0, n - k))])[:n] if k else np.zeros(n, int)
        if job.get('skew') and k:
            x = np.where(rng.random(n) < .5, x, pool[0])
            x[:k] = pool[:n]
        X[i] = rng.permutation(x)
    for B in job['Bs']:
        for r in quant1(X, job.get('scale', 1), job['dt'], B, job.get('budget'), chunk=job.get('chunk', 40)):
            if job.get('sel') and r.get('rows'):
                r['rows'] = [r['rows'][i] for i in job['sel']]
                r['p'] = len(r['rows'])
            yield r


def pair(v):
    v = int(v)
    return [v // 65536, v % 65536]


def big(job):
    """integers near the limits of their type, floats of huge or tiny size"""
    jax, jnp, pc, _ = setup()
    rng = np.random.default_rng(job['rs'])
    for dt in ('int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32'):
        ii = np.iinfo(dt)
        lo, hi = int(ii.min), int(ii.max)
        special = [lo, lo + 1, lo // 2, -1, 0, 1, hi // 2, hi // 2 + 1, hi - 2, hi - 1, hi]
        special = sorted({v for v in special if lo <= v <= hi})
        rows = [[lo, hi], [hi - 1, hi], [lo, lo + 1], [lo, 0], [0, hi], [hi, hi], special]
        rows += [rng.choice(special, 4).tolist() for _ in range(12)] + [rng.integers(lo, hi, 5, endpoint=True, dtype=np.int64).tolist() for _ in range(8)]
        for r in rows:
            x = np.array([r], dtype=np.int64).astype(dt)
            try:
                S, M = pc.quantilized_splits_from_matrix(jnp.asarray(x), 50)
                yield dict(kind='big', n=x.shape[1], B=50, isint=1, huge=pair(hi), rows=[dict(U=[pair(v) for v in sorted(set(r))], S=[pair(v) for v in np.asarray(S)[0]], M=int(M[0]))])
            except Exception as e:
                yield dict(kind='big', raised=common.short_exc(e))
    for dt, e, e0 in [('float32', 100, 0), ('float32', -100, 0), ('float32', 127 - 9, 0), ('float32', 20, 0), ('bfloat16', 127 - 6, 0), ('bfloat16', -60, 0), ('float16', 6, 0), ('float16', -8, 0)]:
        lim = {'float32': 1023, 'bfloat16': 127, 'float16': 1023}[dt]
        for _ in range(6):
            k = rng.integers(-lim // 2, lim // 2 + 1, 5) * 2
            if _ % 2:
                k = np.abs(k) // 4 * 2 + (lim // 2 // 2 * 2)      # same sign, the sum is beyond the largest number
            k = np.unique(k)
            x = jnp.asarray((rng.permutation(k) * 2. ** e)[None], jnp.dtype(dt))
            try:
                assert np.array_equal(np.sort(np.asarray(x.astype(jnp.float32), np.float64)[0]), k * 2. ** e)
                S, M = pc.quantilized_splits_from_matrix(x, 50)
                s = np.asarray(S.astype(jnp.float32), np.float64)[0] * 2. ** -e
                s = [pair(v) if abs(v) < 2 ** 30 and v == round(v) else [9999, 0] if v == np.inf else [7777, 7] for v in s]
                yield dict(kind='big', n=len(k), B=50, isint=0, huge=[9999, 0], rows=[dict(U=[pair(v) for v in k], S=s, M=int(M[0]))])
            except Exception as ex:
                yield dict(kind='big', raised=common.short_exc(ex))


def grid(job):
    jax, jnp, pc, _ = setup()
    rng = np.random.default_rng(job['rs'])
    for nb, p, n, dt, e in job['cases']:
        exact = nb > 300
        q = 8 if exact else 64
        rows, X = [], np.zeros((p, n), np.int64)
        for i in range(p):
            lim = {'int8': 120, 'uint8': 250, 'float16': 1000, 'bfloat16': 100}.get(dt, 2000)
            if exact:
                step = int(rng.integers(1, 3))
                lo = int(rng.integers(-50, 50))
                hi = lo + nb * step
            else:
                step = 0
                lo, hi = sorted(rng.integers(0 if dt[0] == 'u' else -lim, lim, 2).tolist())
                if i % 5 == 4:
                    hi = lo
                elif hi - lo < 9:
                    lo, hi = 0, lim - 3
            x = rng.integers(lo, hi + 1, n)
            x[0], x[-1] = (hi, lo) if n > 1 else (lo, lo)
            hi = int(x.max())
            if exact and n == 1:
                step = 0
            X[i] = rng.permutation(x)
            rows.append(dict(lo=lo, hi=hi, step=step))
        # relative precision of the type, in units of the resolution
        eps = {'float16': 2.**-10, 'bfloat16': 2.**-7}.get(dt, 2.**-23)
        mx = float(np.abs(X).max()) if X.size else 0
        tol = 1 + int(np.ceil(q * mx * eps * 4))
        try:
            S, M = pc.uniform_splits_from_matrix(toarr(jnp, X, 2. ** -e, dt), nb)
            S = np.asarray(S.astype(jnp.float32), np.float64) * 2. ** -e
            M = np.asarray(M)
            if S.ndim != 2 or M.shape != (p,) or len(S) != p:
                raise ValueError(f'wrong shapes {S.shape} {M.shape}')
            for i, r in enumerate(rows):
                al = np.concatenate([[r['lo']], S[i], [r['hi']]])
                r.update(X=np.unique(X[i]).tolist(), S=common.fix(S[i], q), M=int(M[i]), rank=np.unique(al, return_inverse=True)[1].tolist())
            yield dict(kind='grid', nb=nb, p=p, n=n, q=q, exact=int(exact), tol=tol, rows=rows, order=int(min([r['hi'] - r['lo'] for r in rows if r['hi'] > r['lo']] or [0]) > 2 * nb * tol / q))
        except Exception as ex:
            yield dict(kind='grid', raised=common.short_exc(ex))


def codes(S, X):
    """order preserving integer codes of the entries of two arrays"""
    al = np.concatenate([S, X])
    u = np.unique(al)
    c = np.searchsorted(u, al)
    return c[:len(S)].tolist(), c[len(S):].tolist(), u


def binrec(jnp, S, X, b, used, top):
    """S, X, b: arrays (rows first); values compared exactly as float64/int64"""
    rows = []
    dt = b.dtype
    b = common.ints(b)
    for i in range(len(S)):
        s, x, u = codes(S[i], X[i])
        t = int(np.searchsorted(u, top))
        rows.append(dict(S=s, X=x, b=b[i], used=int(used[i]), top=t))
    return dict(kind='bin', p=len(S), rows=rows, unsigned=int(jnp.issubdtype(dt, jnp.unsignedinteger)), max=int(min(jnp.iinfo(dt).max, 2 ** 31 - 1)))


def wide(jnp, a):
    a = np.asarray(a.astype(jnp.float32) if a.dtype == jnp.bfloat16 else a)
    return a.astype(np.float64) if a.dtype.kind == 'f' else a.astype(np.int64)


def bin1(S, X, used, top, kw, bud=None, chunk=64):
    jax, jnp, pc, _ = setup()
    try:
        with budget(bud):
            b = pc.bin_predictors(X, S, **kw)
        if b.shape != X.shape:
            raise ValueError(f'wrong shape {b.shape}')
        S, X = wide(jnp, S), wide(jnp, X)
        for a in range(0, max(1, len(S)), chunk):
            yield binrec(jnp, S[a:a + chunk], X[a:a + chunk], b[a:a + chunk], used[a:a + chunk], top)
    except Exception as e:
        yield dict(kind='bin', raised=common.short_exc(e))


def tops(jnp, dt):
    return int(np.iinfo(dt).max) if 'int' in dt else np.inf


def exhb(job):
    """all sets of cutpoints in 0..L-1 (in units), padded, and all values"""
    jax, jnp, pc, _ = setup()
    dt, L = job['dt'], job['L']
    top = tops(jnp, dt)
    sub = [list(c) for k in range(L + 1) for c in itertools.combinations(range(L), k)]
    for pad in job['pads']:
        w = L + pad
        isint = 'int' in dt
        S = np.full((len(sub), w), top, dtype=object)
        for i, c in enumerate(sub):
            S[i, :len(c)] = [2 * v if not isint else v for v in c]
        if isint:
            lo = np.iinfo(dt).min
            x = sorted({max(v, lo) for v in [lo, -1, *range(L + 1), top - 1, top]})
            Sj = jnp.asarray(S.astype(np.int64).astype(dt))
            xj = np.array(x).astype(dt)
        else:
            x = [-np.inf, -1., *[v for v in range(2 * L + 1)], 60000., np.inf, -0.]
            Sj = jnp.asarray(S.astype(np.float32), jnp.dtype(dt))
            xj = np.array(x, np.float32)
        X = jnp.asarray(np.broadcast_to(xj, (len(sub), len(xj))), jnp.dtype(dt))
        for kw in job['kws']:
            yield from bin1(Sj, X, [len(c) for c in sub], top, kw)


def rndb(job):
    jax, jnp, pc, _ = setup()
    rng = np.random.default_rng(job['rs'])
    dt, w, p, n = job['dt'], job['w'], job.get('p', 2), job['n']
    top = tops(jnp, dt)
    isint = 'int' in dt
    S = np.empty((p, w), np.int64 if isint else np.float64)
    used = []
    X = np.empty((p, n), S.dtype)
    for i in range(p):
        u = w if i == 0 else int(rng.integers(0, w + 1))
        if isint:
            ii = np.iinfo(dt)
            lo, hi = max(int(ii.min), -2 ** 30), min(int(ii.max), 2 ** 30)
            pool = np.sort(rng.choice(hi - lo, u, replace=False) + lo) if hi - lo < 10 ** 6 else np.unique(rng.integers(lo, hi, 3 * u + 10))[:]
            pool = np.sort(rng.choice(pool, u, replace=False))
        else:
            pool = np.unique(rng.standard_normal(3 * u + 10).astype(np.float32))
            pool = np.sort(rng.choice(pool, u, replace=False)).astype(np.float64)
        S[i, :u] = pool
        S[i, u:] = top
        used.append(u)
        base = rng.choice(pool, n) if u else np.zeros(n)
        if isint:
            x = base.astype(np.int64) + rng.integers(-1, 2, n)
            x = np.clip(x, int(np.iinfo(dt).min), top)
            ends = [int(np.iinfo(dt).min), top, top - 1]
        else:
            b32 = base.astype(np.float32)
            x = np.where(rng.random(n) < .4, b32, np.where(rng.random(n) < .5, np.nextafter(b32, np.float32(np.inf)), np.nextafter(b32, np.float32(-np.inf)))).astype(np.float64)
            ends = [np.inf, -np.inf, 1e30, -1e30]
        x[:len(ends)] = ends[:n]
        x[-3:] = pool[-1] if u else 0
        X[i] = rng.permutation(x)
    Sj = jnp.asarray(S.astype(dt if isint else np.float32))
    Xj = jnp.asarray(X.astype(dt if isint else np.float32))
    for kw in job.get('kws', [{}]):
        yield from bin1(Sj, Xj, used, top, kw, job.get('budget'), chunk=job.get('chunk', 64))


def pipe(job):
    """cutpoints of the training values, then bins of training and other values"""
    jax, jnp, pc, _ = setup()
    rng = np.random.default_rng(job['rs'])
    for n, B, dt, nd, which in job['cases']:
        p = 4
        lim = 100 if dt in ('int8', 'uint8') else 1000
        pools = [rng.choice(lim, min(nd, lim), replace=False) for _ in range(p)]
        X = np.stack([rng.choice(pool, n) for pool in pools]).reshape(p, n)
        Z = np.concatenate([X, rng.integers(0, lim, (p, 30)), np.full((p, 1), 120), np.zeros((p, 1), int)], axis=1)
        Xj, Zj = toarr(jnp, X, 2., dt), toarr(jnp, Z, 2., dt)
        try:
            S, M = (pc.quantilized_splits_from_matrix if which == 'q' else pc.uniform_splits_from_matrix)(Xj, B)
            M = common.ints(M)
        except Exception as e:
            yield dict(kind='bin', raised=common.short_exc(e))
            continue
        yield from bin1(S, Zj, M, 2 ** 40 if which != 'q' else tops(jnp, dt), {})


def run_job(job):
    try:
        for r in globals()[job['kind']](job):
            r.setdefault('raised', '')
            yield dict(r, name=job['name'])
    except Exception as e:
        raise


if __name__ == '__main__':
    common.driver_main(run_job)
