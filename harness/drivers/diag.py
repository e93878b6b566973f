"""Diagnostics of the real code on valid and corrupted trees."""
import contextlib
import io
import re
import sys
sys.dont_write_bytecode = True
import numpy as np
import common
import gb
import grove as gr

M = 10 ** 6


def name_types(p, mst):
    return ('uint8' if p - 1 < 256 else 'uint16' if p - 1 < 65536 else 'uint32'), mst


# ------------------------------------------------------------------- checker
def tree(rng, d, p, ms, ngrow):
    V, S, L = gr.forest(rng, 1, d, p, ms, ngrow, bool(rng.integers(2)))
    V, S = V[0], S[0]
    V[0] = 0
    return V, S, L[0] / 7


def corrupt(rng, what, V, S, L, p, vt, st):
    """plant the defects, one after the other"""
    V, S, L = V.copy(), S.copy(), np.asarray(L, np.float64).copy()
    H = len(S)
    for w in what:
        if w == 'nan':
            L[rng.integers(len(L))] = rng.choice([np.nan, np.inf, -np.inf])
        elif w == 'nan0':
            L[0] = np.nan
        elif w == 'nanlast':
            L[-1] = np.inf
        elif w == 'var0':
            V[0] = 1
        elif w == 'split0':
            S[0] = 1
        elif w == 'wrap0':    # the sum of the two is zero in the larger type
            a, b = (np.iinfo(t).max for t in (vt, st))
            if max(a, b) < 2 ** 31:
                V[0], S[0] = (1, b) if a <= b else (a, 1)
        elif w == 'uneven' and H > 1:
            V, S = V[:-1], np.append(S, 0)
        elif w == 'stray' and H > 2:
            i = int(rng.integers(2, H))
            S[i] = rng.integers(1, 4)
            j = i // 2
            S[j] = 0
        elif w == 'straylast' and H > 2:
            S[H - 1] = 1
            S[(H - 1) // 2] = 0
        elif w == 'stray2' and H > 2:
            S[int(rng.integers(2, 4))] = 2
            S[1] = 0
        elif w == 'vart':
            vt = {'uint8': 'uint16', 'uint16': 'uint8', 'uint32': 'uint16'}[vt]
        elif w == 'vart-signed':
            vt = vt[1:]
        elif w == 'splitt':
            st = {'uint8': 'uint16', 'uint16': 'uint8', 'uint32': 'uint16'}[st]
        elif w == 'long':
            L = np.concatenate([L, L])
        elif w == 'short':
            L = L[:max(1, len(L) // 2)]
        elif w == 'longvar':
            V = np.concatenate([V, np.zeros(len(V), int)])
        elif w == 'shortvar' and H > 1:
            V = V[:H // 2]
        elif w == 'shortsplit' and H > 2:
            S = S[:H // 2]
        elif w == 'longsplit':
            S = np.concatenate([S, np.zeros(len(S), int)])
    return V, S, L, vt, st


def entry(V, S, L, vt, st, mt, p, error):
    from bartz import debug
    error = int(error)
    return dict(V=common.ints(V), S=common.ints(S), fin=np.isfinite(L).astype(int).tolist(), nL=len(L), nV=len(V), nS=len(S),
                vt=vt, st=st, mt=mt, p=p, error=error, names=list(debug.describe_error(error)))


def check(job):
    import jax
    from jax import numpy as jnp
    from bartz import debug
    rng = np.random.default_rng(job['rs'])
    p, mst = job['p'], job.get('mst', 'uint8')
    ms = rng.integers(1, min(job.get('msmax', 9), np.iinfo(mst).max) + 1, p)
    max_split = jnp.asarray(ms.astype(mst))
    f = jax.jit(debug.check_tree) if job.get('jit') else debug.check_tree
    out = []
    for d in job['ds']:
        for what in job['what']:
            V, S, L = tree(rng, d, p, ms, 2 * d)
            vt, st = name_types(p, mst)
            V, S, L, vt, st = corrupt(rng, what, V, S, L, p, vt, st)
            e = f(jnp.asarray(L, 'float32'), jnp.asarray(V.astype(vt)), jnp.asarray(S.astype(st)), max_split)
            out.append(entry(V, S, L, vt, st, mst, p, e))
    yield dict(kind='check', trees=out)


def check_many(job):
    """forests and traces"""
    from jax import numpy as jnp
    from bartz import debug
    rng = np.random.default_rng(job['rs'])
    p, mst, T, m, d = job['p'], 'uint8', job['T'], job['m'], job['d']
    ms = rng.integers(1, 6, p)
    vt, st = name_types(p, mst)
    rows = []
    for t in range(T * m):
        V, S, L = tree(rng, d, p, ms, 2 * d)
        w = [['nan'], ['stray'], ['var0'], ['split0'], ['nan', 'stray2'], ['straylast', 'var0', 'nan']][rng.integers(6)] if rng.random() < .4 else []
        rows.append(corrupt(rng, w, V, S, L, p, vt, st)[:3])
    V, S, L = (np.array([r[i] for r in rows]).reshape(T, m, -1) for i in range(3))
    Vj, Sj, Lj, ms_ = jnp.asarray(V.astype(vt)), jnp.asarray(S.astype(st)), jnp.asarray(L, 'float32'), jnp.asarray(ms.astype(mst))
    e = np.asarray(debug.check_trace(dict(leaf_trees=Lj, var_trees=Vj, split_trees=Sj), dict(max_split=ms_)))
    yield dict(kind='check', trees=[entry(V[j, t], S[j, t], L[j, t], vt, st, mst, p, e[j, t]) for j in range(T) for t in range(m)])
    e = np.asarray(debug.check_forest(Lj[0], Vj[0], Sj[0], ms_))
    yield dict(kind='check', trees=[entry(V[0, t], S[0, t], L[0, t], vt, st, mst, p, e[t]) for t in range(m)])
    yield dict(kind='check', trees=[entry(V[0, 0], S[0, 0], L[0, 0], vt, st, mst, p, debug.check_tree(Lj[0, 0], Vj[0, 0], Sj[0, 0], ms_))])


# ------------------------------------------------------------- distributions
def distr(job):
    import jax
    from jax import numpy as jnp
    from bartz import debug
    rng = np.random.default_rng(job['rs'])
    p, T, m, d, n = job['p'], job['T'], job['m'], job['d'], job['n']
    ms = rng.integers(1, job.get('msmax', 6) + 1, p)
    F = [gr.forest(rng, m, d, p, ms, int(job.get('ngrow', rng.integers(0, 3 * d))), bool(rng.integers(2))) for _ in range(T)]
    V, S = np.array([f[0] for f in F]), np.array([f[1] for f in F])
    X = gr.points(rng, ms, n, V[0], S[0])
    if job.get('same'):
        X = np.repeat(X[:, :1], n, 1) if n else X
    Vj, Sj, Xj = jnp.asarray(V.astype('uint8' if p < 256 else 'uint16')), jnp.asarray(S.astype('uint8')), jnp.asarray(X.astype('uint8'))
    tr = dict(var_trees=Vj, split_trees=Sj)
    if job.get('extra'):
        tr.update(leaf_trees=jnp.zeros((T, m, 2 ** d)), sigma2=jnp.ones(T))
    a = debug.trace_depth_distr(Sj)
    b = debug.trace_points_per_leaf_distr(tr, Xj)
    fa = debug.forest_depth_distr(Sj[0])
    fb = debug.forest_points_per_leaf_distr({k: v[0] for k, v in tr.items()}, Xj)
    ta = [debug.tree_actual_depth(s) for s in Sj[0]]
    tb = [debug.points_per_leaf_distr(Vj[0, t], Sj[0, t], Xj) for t in range(m)]
    one = lambda k, d: [int(j == k) for j in range(d)]
    pts = X.T.astype(int).tolist()
    for j in range(T):
        yield dict(kind='depth', d=d, S=common.ints(S[j]), depth=common.ints(a[j]))
        yield dict(kind='points', V=common.ints(V[j]), S=common.ints(S[j]), X=pts, points=common.ints(b[j]))
    yield dict(kind='depth', d=d, S=common.ints(S[0]), depth=common.ints(fa))
    yield dict(kind='points', V=common.ints(V[0]), S=common.ints(S[0]), X=pts, points=common.ints(fb))
    for t in range(m):
        yield dict(kind='depth', d=d, S=[common.ints(S[0, t])], depth=one(int(ta[t]), d))
        yield dict(kind='points', V=[common.ints(V[0, t])], S=[common.ints(S[0, t])], X=pts, points=common.ints(tb[t]))


# --------------------------------------------------------------------- print
NUM = r'[-+0-9.eEinfa]+'
LINE = re.compile(rf'^\s*(\d+)\s[^\w(+\-.]*(?:(unused|leaf|decision)\((\d+), (\d+), ({NUM})\)|\((\d+): (\d+)\)|({NUM}))\s*$')


def parse(text):
    lines, bad = [], 0
    for l in text.splitlines():
        m = LINE.match(l.replace('─', '').replace('│', ' '))
        if not m and l.strip():
            bad += 1
            continue
        if not m:
            continue
        node = int(m[1])
        try:
            if m[2]:
                lines.append([node, dict(leaf=1, decision=2, unused=3)[m[2]], int(m[3]), int(m[4]), common.fix(float(m[5]), M)])
            elif m[6] is not None:
                lines.append([node, 2, int(m[6]), int(m[7]), 0])
            else:
                lines.append([node, 1, 0, 0, common.fix(float(m[8]), M)])
        except ValueError:
            bad += 1
    return lines, bad


def show(print_, V, S, L, all_):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        print_()
    lines, bad = parse(buf.getvalue())
    return dict(kind='print', all=int(all_), S1=common.ints(S), V1=common.ints(V), L1=common.fix(L, M), lines=lines, unparsed=bad)


def printing(job):
    from jax import numpy as jnp
    from bartz import debug
    rng = np.random.default_rng(job['rs'])
    for d in job['ds']:
        for rep in range(job.get('reps', 2)):
            p = int(rng.choice([1, 2, 12, 300]))
            ms = rng.integers(1, int(rng.choice([3, 250])), p)
            V, S, L = tree(rng, d, p, ms, int(rng.integers(0, 2 * d + 1)))
            L = np.asarray(L * rng.choice([1e-3, .01, 1, 7, 100]), np.float32)
            if rep % 3 == 2 and len(S) > 2:   # nodes that cannot be reached
                i = int(rng.integers(2, len(S)))
                S[i], S[i // 2] = 1, 0
            a = jnp.asarray(L), jnp.asarray(V.astype('uint16')), jnp.asarray(S.astype('uint8'))
            for all_ in (False, True):
                if all_ and d > 5:
                    continue
                yield show(lambda: debug.print_tree(*a, print_all=all_) if all_ or rep else debug.print_tree(*a), V, S, L, all_)


# --------------------------------------------------------------------- gbart
def interface(job):
    import jax
    from jax import numpy as jnp
    x, xt, y = gb.data(job)
    X, XT, Y = (np.asarray(a, np.float32) for a in (x / 8, xt / 8, y))
    b, cap = gb.fit(X, Y, **gb.fitkw(job))
    if cap is None:
        yield dict(kind='near', a=[0], b=[0], tol=0, why='-')
        return
    tr, fin, ini = cap['main'], cap['final'], cap['init']
    nd = len(np.asarray(tr['sigma2']))
    V, S, L = (np.asarray(tr[k]) for k in ('var_trees', 'split_trees', 'leaf_trees'))
    Xb = np.asarray(ini['X'])
    pts = Xb.T.astype(int).tolist()

    def guard(name, f):
        if hasattr(b, name):
            try:
                yield from f()
            except Exception as e:
                yield dict(kind='near', raised=f'{name} ' + common.short_exc(e))

    def depth():
        a = b._depth_distr()
        for j in range(nd):
            yield dict(kind='depth', d=int(np.log2(L.shape[-1])), S=common.ints(S[j]), depth=common.ints(a[j]))

    def points():
        a = b._points_per_leaf_distr()
        for j in range(nd):
            yield dict(kind='points', V=common.ints(V[j]), S=common.ints(S[j]), X=pts, points=common.ints(a[j]))

    def sums():
        g = lambda name: common.fix([float(v) for v in getattr(b, name)()], M) if hasattr(b, name) else []
        c = np.stack([np.asarray(tr[k]) for k in ('grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count')], 1)
        yield dict(kind='sums', cnt=common.ints(c), acc=g('_avg_acc'), prop=g('_avg_prop'), move=g('_avg_move'))

    def checks():
        e = np.asarray(b._check_trees())
        vt, st, mt = str(V.dtype), str(S.dtype), str(np.asarray(ini['max_split']).dtype)
        for j in range(nd):
            yield dict(kind='check', trees=[entry(V[j, t], S[j, t], L[j, t], vt, st, mt, Xb.shape[0], e[j, t]) for t in range(V.shape[1])])

    def bad():
        keep = b._main_trace
        rng = np.random.default_rng(job['dseed'])
        L2 = L.copy()
        want = (rng.random(L.shape[:2]) < .5).astype(int)
        for j, t in np.argwhere(want):
            L2[j, t, rng.integers(L.shape[2])] = np.nan
        b._main_trace = dict(tr, leaf_trees=jnp.asarray(L2))
        try:
            w = np.asarray(b._check_trees()).astype(bool).astype(int)
            g = np.asarray(b._tree_goes_bad()).astype(int)
        finally:
            b._main_trace = keep
        yield dict(kind='bad', want=common.ints(want), bad=common.ints(w), goes=common.ints(g))

    def tree_():
        for j in range(min(nd, 2)):
            for t in range(min(V.shape[1], 3)):
                yield show(lambda: b._show_tree(j, t), V[j, t], S[j, t], L[j, t], False)
                if L.shape[-1] <= 32:
                    yield show(lambda: b._show_tree(j, t, True), V[j, t], S[j, t], L[j, t], True)

    def resid():
        r1, r2 = b._compare_resid()
        yield dict(kind='near', a=common.fix(r1, 4096), b=common.fix(r2, 4096), tol=8, why='compare-resid')
        yield dict(kind='near', a=common.fix(r1, 4096), b=common.fix(fin['resid'], 4096), tol=1, why='compare-resid-state')

    def harmonic():
        r = np.asarray(fin['resid'], np.float64)
        al, be = float(fin['sigma2_alpha']), float(fin['sigma2_beta'])
        sc = float(b.scale)
        for prior in (False, True):
            v = float(b._sigma_harmonic_mean(prior)) if prior else float(b._sigma_harmonic_mean())
            e = np.sqrt((be + (0 if prior else r @ r / 2)) / (al + (0 if prior else len(r) / 2))) * sc
            yield dict(kind='near', a=[common.fix(v / e, M)], b=[M], tol=30, why='sigma-harmonic-mean')
    for name, f in dict(_depth_distr=depth, _points_per_leaf_distr=points, _avg_acc=sums, _check_trees=checks, _show_tree=tree_,
                        _compare_resid=resid, _sigma_harmonic_mean=harmonic).items():
        yield from guard(name, f)
    if hasattr(b, '_main_trace') and hasattr(b, '_check_trees'):
        yield from guard('_tree_goes_bad', bad)


def run_job(job):
    try:
        for r in dict(check=check, many=check_many, distr=distr, show=printing, gb=interface)[job['kind']](job):
            r.setdefault('raised', '')
            yield dict(r, name=job['name'])
    except Exception as e:
        yield dict(kind='near', raised=common.short_exc(e), name=job['name'])


if __name__ == '__main__':
    common.driver_main(run_job)
