"""Automatic batching and unique, on the real code."""
import itertools
import sys
import warnings
sys.dont_write_bytecode = True
import numpy as np
import common

SIZE = dict(int32=4, uint8=1, float32=4, float16=2, int16=2, bool=1)


def rowsfirst(x, axis, size):
    return np.moveaxis(x, axis, 0).reshape(size, int(np.prod(x.shape)) // size if size else 0)


def case(jax, jnp, jaxext, size, sig, outs, budget, flags, rng):
    """sig: list of (shape without batch axis, axis or None, dtype)
    outs: list of (source input, position of the axis, multiplier, dtype)
    The function sees the inputs as a tree chosen by flags['tree']"""
    xs, axes = [], []
    for shape, axis, dt in sig:
        if axis is None:
            full = tuple(shape)
        else:
            full = list(shape)
            full.insert(axis if axis >= 0 else len(shape) + 1 + axis, size)
        x = rng.integers(0, 2 if dt == 'bool' else 12, full)
        xs.append(x)
        axes.append(axis)
    arrs = [jnp.asarray(x.astype(dt)) for x, (_, _, dt) in zip(xs, sig)]
    bat = [j for j, a in enumerate(axes) if a is not None]
    coef = [int(rng.integers(1, 4)) for _ in bat]
    ran = []

    def func(*args):
        leaves = unpack(args)
        n = leaves[bat[0]].shape[axes[bat[0]]]
        if flags.get('log'):
            jax.debug.callback(lambda: ran.append(n))
        L = [jnp.moveaxis(x, a, 0).astype(jnp.int32) if a is not None else x.astype(jnp.int32) for x, a in zip(leaves, axes)]
        t = sum(c * L[j].reshape(n, -1).sum(1) if L[j].size else jnp.zeros(n, jnp.int32) for c, j in zip(coef, bat))
        u = sum([L[j].sum() for j in range(len(L)) if axes[j] is None] + [jnp.int32(0)])
        res = []
        for src, ax, m, dt in outs:
            s = L[bat[src]]
            o = m * s + t.reshape((n,) + (1,) * (s.ndim - 1)) + u
            res.append(jnp.moveaxis(o, 0, ax).astype(dt))
        return pack(res)

    tr = flags.get('tree', 'args')
    if tr == 'args':
        args, unpack, in_axes = tuple(arrs), list, tuple(axes)
        if len(arrs) == 1 and flags.get('intaxes'):
            in_axes = axes[0]
    elif tr == 'dict':
        names = [f'k{9 - j}' for j in range(len(arrs))]
        args = (dict(zip(names, arrs)),)
        in_axes = (dict(zip(names, axes)),)

        def unpack(a):
            return [a[0][k] for k in names]
    else:       # first argument alone, the others in a nested tuple
        args = (arrs[0], (tuple(arrs[1:]),))
        in_axes = (axes[0], (tuple(axes[1:]),))

        def unpack(a):
            return [a[0], *a[1][0]]
    if flags.get('intaxes') and len(set(axes)) == 1:
        in_axes = axes[0]
    oaxes = [o[1] for o in outs]
    if len(outs) == 1:
        out_axes = oaxes[0]

        def pack(r):
            return r[0]
    elif flags.get('outtree') == 'dict':
        out_axes = {f'o{i}': a for i, a in enumerate(oaxes)}

        def pack(r):
            return {f'o{i}': a for i, a in enumerate(r)}
    else:
        out_axes, pack = tuple(oaxes), tuple
    if flags.get('intout') and len(set(oaxes)) == 1:
        out_axes = oaxes[0]
    kw = {}
    if not (flags.get('defaults') and in_axes == 0):
        kw['in_axes'] = in_axes
    if not (flags.get('defaults') and out_axes == 0):
        kw['out_axes'] = out_axes
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        if flags.get('nb', True):
            g = jaxext.autobatch(func, budget, return_nbatches=True, **kw)
            res, nb = g(*args)
            nb = int(nb)
        else:
            res, nb = jaxext.autobatch(func, budget, **kw)(*args), -1
        jax.block_until_ready(res)
        jax.effects_barrier()
    tree = str(jax.tree_util.tree_structure(res))
    ex = jax.eval_shape(func, *args)
    tree0 = str(jax.tree_util.tree_structure(ex))
    rl, el = jax.tree_util.tree_leaves(res), jax.tree_util.tree_leaves(ex)
    out = []
    byts = 0
    for (src, ax, m, dt), r, e in zip(outs, rl, el):
        r1 = np.asarray(r).astype(np.int64)
        ok = list(r.shape) == list(e.shape)
        out.append(dict(src=src + 1, m=m, rows=rowsfirst(r1, ax, size).tolist() if ok else [], shape=list(r.shape), shape0=list(e.shape), dtype=str(r.dtype), dtype0=str(e.dtype)))
        byts += int(np.prod(e.shape)) * e.dtype.itemsize
    byts += sum(arrs[j].size * arrs[j].dtype.itemsize for j in bat)
    return dict(kind='batch', size=size, A=[rowsfirst(xs[j], axes[j], size).tolist() for j in bat], c=coef,
                u=int(sum(xs[j].sum() for j in range(len(xs)) if axes[j] is None)), out=out, tree=tree, tree0=tree0,
                nb=nb, bytes=byts, budget=budget, warned=int(len(w) > 0), ran=[int(k) for k in ran])


def unitbytes(sig, outs):
    u = 0
    for shape, axis, dt in sig:
        if axis is not None:
            u += int(np.prod(shape)) * SIZE[dt]
    b = [s for s in sig if s[1] is not None]
    for src, ax, m, dt in outs:
        u += int(np.prod(b[src][0])) * SIZE[dt]
    return u


SIGS = [
    # inputs, outputs, flags
    ([((2,), 0, 'int32')], [(0, 0, 1, 'int32')], dict(defaults=True, intaxes=True, intout=True, log=True)),
    ([((), 0, 'float32')], [(0, 0, 2, 'float32')], dict(defaults=True, intaxes=True, log=True)),
    ([((3,), 1, 'uint8'), ((), 0, 'int16')], [(0, 1, 1, 'int32'), (1, 0, 3, 'float32')], dict(log=True)),
    ([((2, 2), -2, 'uint8'), ((), None, 'int32'), ((3,), -1, 'float16')], [(0, 2, 1, 'int16'), (1, -1, 2, 'float32')], dict(log=True, outtree='dict')),
    ([((), None, 'int32'), ((1, 2), 2, 'int32')], [(0, 0, 1, 'uint8')], dict(log=True)),
    ([((2,), 0, 'int32'), ((3,), 0, 'bool')], [(1, 0, 1, 'int32'), (0, 0, 4, 'int16')], dict(tree='dict', intaxes=True, intout=True, log=True)),
    ([((2,), 1, 'int32'), ((2,), None, 'int32'), ((), 0, 'uint8')], [(0, 0, 1, 'int32')], dict(tree='dict', log=True)),
    ([((), 0, 'int16'), ((2,), 1, 'int16'), ((2, 1), None, 'uint8')], [(1, 1, 2, 'int32'), (0, 0, 1, 'int32'), (1, 0, 1, 'uint8')], dict(tree='nest', log=True)),
    ([((0,), 0, 'int32'), ((2,), 1, 'int32')], [(0, 1, 1, 'float32'), (1, 1, 1, 'int32')], dict(log=True)),
    ([((0,), 0, 'int32')], [(0, 0, 1, 'int32')], dict(log=True)),
    ([((2,), 0, 'int32')], [(0, 1, 1, 'int32')], dict(nb=False)),
]


def batches(job):
    import jax
    from jax import numpy as jnp
    from bartz import jaxext
    rng = np.random.default_rng(job['rs'])
    for size, s, budget in job['cases']:
        sig, outs, flags = SIGS[s]
        unit = unitbytes(sig, outs)
        b = max(1, int(budget[0] * unit + budget[1])) if budget else 2 ** 30
        try:
            yield case(jax, jnp, jaxext, size, sig, outs, b, flags, rng)
        except Exception as e:
            yield dict(kind='batch', raised=common.short_exc(e), size=size, sig=str(s), budget=b)


def uniq(job):
    import jax
    from jax import numpy as jnp
    from bartz import jaxext
    rng = np.random.default_rng(job['rs'])

    def rec(X, size, fill, dt, vm):
        """X rows of values (already of type dt)"""
        x = jnp.asarray(X, dt)
        f = np.asarray(fill).astype(dt)
        try:
            if vm:
                out, ln = jax.vmap(lambda v: jaxext.unique(v, size, f), out_axes=(0, 0 if X.shape[1] and size else None))(x)
                ln = np.broadcast_to(np.asarray(ln), (len(X),))
            else:
                r = [jaxext.unique(v, size, f if job.get('npfill') or dt == 'uint32' else f.item()) for v in x]
                out, ln = jnp.stack([a[0] for a in r]), [int(a[1]) for a in r]
            o = np.asarray(out)
            al = np.concatenate([np.asarray(x).ravel(), o.ravel(), [f]]) if o.dtype == np.asarray(x).dtype else None
            if al is None:
                return dict(kind='unique', rows=[], size=size, fill=0, dtype=str(out.dtype), dtype0=dt)
            u, c = np.unique(al, return_inverse=True)
            if o.shape != (len(X), size):
                raise ValueError(f'wrong shape {o.shape}')
            if 'int' in dt and np.abs(al.astype(np.int64)).max() < 2 ** 31 - 2:
                c = al.astype(np.int64)
            cx = c[:X.size].reshape(X.shape).tolist()
            co = c[X.size:-1].reshape(o.shape).tolist()
            return dict(kind='unique', size=size, fill=int(c[-1]), dtype=str(out.dtype), dtype0=dt,
                        rows=[dict(x=a, out=b, len=int(k)) for a, b, k in zip(cx, co, ln)])
        except Exception as e:
            return dict(kind='unique', raised=common.short_exc(e), size=size, n=X.shape[1], dtype=dt)

    for c in job['cases']:
        if c['t'] == 'exh':
            vals = np.array(c['vals'])
            X = np.array(list(itertools.product(vals, repeat=c['n']))).reshape(len(vals) ** c['n'], c['n'])
            for size in c['sizes']:
                for fill in c['fills']:
                    yield rec(X, size, fill, c['dt'], True)
        else:
            n, dt = c['n'], c['dt']
            if 'int' in dt:
                ii = np.iinfo(dt)
                pool = np.unique(np.concatenate([rng.integers(max(ii.min, -10 ** 6), min(int(ii.max), 10 ** 6), c['nd'] + 8, dtype=np.int64), [ii.min, ii.max]]))
            else:
                pool = np.unique(np.concatenate([rng.standard_normal(c['nd'] + 8).astype(np.float32), [np.inf, -np.inf, 0.]])).astype(np.float32)
            if c.get('seq'):
                pool = np.arange(n)
            pool = rng.permutation(pool)[:c['nd']]
            X = np.concatenate([pool, rng.choice(pool, max(0, n - len(pool)))])[:n] if len(pool) else np.zeros(n)
            X = rng.permutation(X)
            for size in c['sizes']:
                yield rec(X[None], size, pool[0] if c.get('fillin') and len(pool) else (np.iinfo(dt).max if 'int' in dt else np.inf), dt, False)


def run_job(job):
    for r in globals()[job['kind']](job):
        r.setdefault('raised', '')
        yield dict(r, name=job['name'])


if __name__ == '__main__':
    common.driver_main(run_job)
