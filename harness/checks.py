"""One function per property: which models, which recordings, which judges."""
import random as pyrandom

CHECKS = {}


def check(*props):
    def deco(f):
        for p in props:
            CHECKS[p] = f
        return f
    return deco


# --------------------------------------------------------------- C01 - C05
def chain_configs(chk):
    T = chk.thorough
    base = [
        dict(name='small', n=10, p=2, ms=[2, 1], d=3, m=3, nb=10, ns=15, nk=2, pnt='flat'),
        dict(name='min5', n=30, p=3, ms=[7, 0, 3], d=4, m=5, minp=5, nb=10, ns=20, nk=2, pnt='mix', y='signal', beta=0.02),
        dict(name='min2', n=11, p=2, ms=[9, 3], d=4, m=4, minp=2, nb=30, ns=30, nk=1, pnt='mix'),
        dict(name='min1', n=9, p=2, ms=[9, 3], d=5, m=4, minp=1, nb=30, ns=30, nk=1, pnt='mix', ratios=True),
        dict(name='min0', n=5, p=2, ms=[2, 2], d=4, m=4, minp=0, nb=10, ns=10, nk=2, pnt='flat'),
        dict(name='d1', n=10, p=2, ms=[3], d=1, m=2, nb=2, ns=2, nk=2),
        dict(name='d2', n=10, p=1, ms=[3], d=2, m=2, minp=2, nb=10, ns=10, nk=1, pnt='flat'),
        dict(name='n0', n=0, p=2, ms=[2, 3], d=4, m=6, nb=20, ns=10, nk=2, pnt='flat', free=True),
        dict(name='n1', n=1, p=2, ms=[2, 3], d=4, m=6, minp=None, nb=30, ns=20, nk=1, pnt='flat', free=True, ratios=True),
        dict(name='below', n=9, p=2, ms=[5], d=3, m=3, minp=5, nb=10, ns=5, nk=1, pnt='high'),
        dict(name='exact', n=10, p=2, ms=[1], d=3, m=3, minp=5, nb=20, ns=20, nk=1, pnt='high', y='signal'),
        dict(name='tiny-range', n=20, p=2, ms=[1, 1], d=5, m=6, nb=30, ns=20, nk=1, pnt='high'),
        dict(name='ms255', n=40, p=3, ms=[255, 254, 1], d=6, m=4, nb=30, ns=20, nk=1, pnt='deep', y='signal', beta=0.02),
        dict(name='last255', n=30, p=1, ms=[255], d=5, m=25, start='last', nb=20, ns=20, nk=1, pnt='high', y='signal', beta=0.02),
        dict(name='last255b', n=30, p=2, ms=[255, 1], d=6, m=6, start='last', nb=20, ns=20, nk=1, pnt='high'),
        dict(name='last65535', n=30, p=1, ms=[65535], mdt='uint16', d=5, m=4, start='last', nb=20, ns=10, nk=1, pnt='high'),
        dict(name='ms256', n=40, p=2, ms=[256, 300], d=6, m=4, minp=1, nb=30, ns=20, nk=1, pnt='deep', y='signal', beta=0.02),
        dict(name='ms65535', n=20, p=1, ms=[65535], mdt='uint16', d=5, m=3, nb=20, ns=10, nk=1, pnt='flat'),
        dict(name='ms70000', n=20, p=2, ms=[70000], mdt='uint32', d=5, m=3, nb=20, ns=10, nk=1, pnt='flat'),
        dict(name='p256', n=12, p=256, ms=[3], d=4, m=8, nb=20, ns=5, nk=2, pnt='flat'),
        dict(name='p257', n=12, p=257, ms=[3], d=4, m=8, nb=20, ns=5, nk=2, pnt='flat'),
        dict(name='p300', n=12, p=300, ms=[1, 300], d=4, m=10, minp=1, nb=20, ns=5, nk=2, pnt='flat'),
        dict(name='m257', n=10, p=2, ms=[4], d=3, m=257, minp=2, nb=4, ns=4, nk=1, pnt='flat'),
        dict(name='m300', n=6, p=2, ms=[4], d=3, m=300, nb=3, ns=4, nk=1, pnt='bart'),
        dict(name='deep8', n=60, p=3, ms=[255, 200, 30], d=8, m=3, start='deep', ngrow=20, nb=20, ns=20, nk=1, pnt='deep', y='steps'),
        dict(name='deep9', n=120, p=3, ms=[255, 200, 30], d=9, m=2, minp=1, start='deep', ngrow=40, nb=20, ns=15, nk=1, pnt='deep', y='steps'),
        dict(name='deep10', n=80, p=2, ms=[300, 1000], d=10, m=2, start='deep', ngrow=40, nb=15, ns=15, nk=1, pnt='deep', y='steps', rb=7, cb=16),
        dict(name='full6', n=200, p=2, ms=[255], d=6, m=3, start='deep', deepest=False, ngrow=31, minp=2, nb=15, ns=10, nk=1, pnt='flat'),
        dict(name='n1000', n=1000, p=3, ms=[50, 255, 2], d=5, m=3, minp=5, nb=5, ns=5, nk=2, pnt='flat', y='signal', beta=0.02),
        dict(name='n257-batch', n=257, p=2, ms=[20], d=4, m=4, minp=5, rb=16, cb=100, nb=10, ns=5, nk=2, pnt='flat', y='signal', beta=0.02),
        dict(name='batch1', n=30, p=2, ms=[20], d=4, m=4, minp=2, rb=1, cb=1, nb=10, ns=5, nk=2, pnt='flat'),
        dict(name='batchbig', n=30, p=2, ms=[20], d=4, m=4, minp=2, rb=1000, cb=31, nb=10, ns=5, nk=2, pnt='flat', ratios=True),
        dict(name='nobatch', n=31, p=2, ms=[20], d=4, m=4, minp=2, rb=None, cb=None, nb=0, ns=10, nk=3, pnt='flat', via='step'),
        dict(name='half', n=24, p=2, ms=[9], d=4, m=4, minp=1, nb=20, ns=10, nk=1, pnt='high', small='float16'),
        dict(name='brain', n=24, p=2, ms=[9], d=4, m=4, nb=0, ns=15, nk=2, pnt='high', small='bfloat16', y='signal', rb=5, via='step'),
        dict(name='min300', n=1000, p=2, ms=[50, 20], d=4, m=3, minp=300, nb=10, ns=10, nk=1, pnt='high', y='signal', beta=0.02),
        dict(name='n150000', n=150000, p=2, ms=[2, 1], d=3, m=2, minp=33000, rb=None, cb=None, nb=2, ns=4, nk=1, pnt='high', y='signal', beta=.02),
        dict(name='n150000-batch', n=150000, p=2, ms=[1, 1], d=3, m=2, minp=33000, cb=512, rb=5000, nb=2, ns=3, nk=1, pnt='high', y='signal', beta=.02),
        dict(name='void', n=8, p=4, ms=[0, 2, 0, 1], d=4, m=5, nb=20, ns=15, nk=1, pnt='high'),
        dict(name='allvoid', n=8, p=2, ms=[0, 0], d=3, m=3, nb=5, ns=5, nk=1, pnt='high'),
    ]
    rng = pyrandom.Random(chk.seed * 7919 + 13)
    extra = []
    for i in range(120 if T else 6):
        d = rng.choice([2, 3, 4, 4, 5, 6, 7])
        n = rng.choice([2, 3, 5, 8, 13, 20, 40, 70, 130])
        c = dict(name=f'rnd{i}', n=n, p=rng.choice([1, 2, 3, 5, 20]),
                 ms=[rng.choice([0, 1, 2, 3, 5, 10, 100, 255]) for _ in range(rng.randint(1, 4))] + [4],
                 d=d, m=rng.choice([1, 2, 3, 7, 15]), minp=rng.choice([None, None, 0, 1, 2, 3, 5, n // 2]),
                 nb=rng.choice([0, 5, 15]), ns=rng.choice([5, 15]), nk=rng.choice([1, 2, 3]),
                 pnt=rng.choice(['flat', 'mix', 'high', 'bart', 'deep']),
                 y=rng.choice(['noise', 'signal', 'steps']), beta=rng.choice([2., 0.02]),
                 start=rng.choice(['init', 'deep']), ratios=rng.choice([True, False]),
                 via=rng.choice(['run', 'step']))
        if rng.random() < 0.5:
            c['rb'] = rng.choice([None, 1, 2, 7, 16, 200])
        if rng.random() < 0.5:
            c['cb'] = rng.choice([None, 1, 2, 7, 16, 200])
        extra.append(c)
    out = []
    for i, c in enumerate(base + extra):
        c = dict(c)
        if T and c['n'] < 10000:
            c['nb'] *= 3
            c['ns'] *= 4
        c.setdefault('dseed', i)
        c['kseed'] = chk.seed * 1000 + i
        c['cost'] = 6
        out.append(c)
    return out


def judge_chains(chk, recs, label):
    chains, states = [], []
    for r in recs:
        if r['kind'] == 'chain':
            cfg = chk.cfgs[r['job']]
            r['deep'] = int(cfg.get('start', 'init') != 'init')
            chains.append(r)
            if r['raised']:
                states.append(dict(kind='state', c=len(chains), t=0, raised=r['raised'], name=r['name']))
        elif not chains[-1]['raised']:
            states.append(dict(r, c=len(chains), raised='', name=chains[-1]['name']))
    chk.stats['chains'] = len(chains)
    chk.judge('JForest', states, files=dict(CHAINS=chains), label=label)


@check('C01', 'C02', 'C03', 'C04', 'C05')
def forest(chk):
    chk.models(('MCEnsemble', 'MCEnsemble_0'), ('MCEnsemble', 'MCEnsemble_1'), ('MCEnsemble', 'MCEnsemble_2'),
               ('MCStep', 'MCStep_one'), ('MCStep', 'MCStep_free'), ('MCStep', 'MCStep_void'), ('MCStep', 'MCStep_mp2'))
    if chk.thorough:
        chk.models(('MCEnsemble', 'MCEnsemble_two'), ('MCStep', 'MCStep_two'))
    chk.cfgs = chain_configs(chk)
    recs = chk.record('chain', chk.cfgs)
    judge_chains(chk, recs, 'chain')


# --------------------------------------------------------------- C06, C07
X6 = [[0, 0], [1, 1], [2, 0], [2, 1], [0, 1], [1, 0]]
X8 = X6 + [[2, 1], [1, 1]]


def kctx(name, **kw):
    c = dict(name=name, kind='bfs', d=3, ms=[2, 1], w=[8, 4], X=[], minp=None, m=1, s2a=1, s2b=1, N=60000)
    c.update(kw)
    if c['kind'] == 'prior':
        c.setdefault('T', 60)
    c['cost'] = kw.get('cost', 4 if c['kind'] == 'marg' else 18 if c['kind'] == 'prior' else 14)
    return c


def kernel_jobs(chk):
    T = chk.thorough
    n = 4 if T else 1
    j = [
        kctx('bfs-a', N=60000 * n),
        kctx('bfs-b', ms=[1, 1], w=[12, 4], N=60000 * n),
        kctx('bfs-c', ms=[0, 2, 1], N=60000 * n),
        kctx('bfs-d2', d=2, ms=[3, 2], w=[10], N=60000 * n),
        kctx('bfs-d1', d=1, w=[], N=1000, cost=5),
        kctx('bfs-d4', d=4, ms=[1, 2], w=[12, 8, 10], N=30000 * n, maxstates=24 if not T else 250, shuffle=1, cost=14),
        kctx('bfs-x', X=X6, N=60000 * n),
        kctx('bfs-x1', X=X6, minp=1, N=60000 * n),
        kctx('bfs-x2', X=X8, minp=2, s2a=1, s2b=2, N=60000 * n),
        kctx('bfs-x0', X=X8, minp=0, s2a=3, s2b=2, w=[10, 12], amp=1, N=60000 * n),
        kctx('bfs-x1d4', d=4, ms=[2, 1], X=X8, minp=1, w=[12, 8, 10], s2a=2, N=30000 * n, maxstates=16 if not T else 250, shuffle=1, cost=14),
        kctx('bfs-min3', X=[[0, 0], [1, 0], [1, 1]], minp=1, N=60000 * n, cost=5),
        kctx('bfs-min4', d=4, X=[[0, 0], [1, 0], [1, 1], [2, 1]], minp=1, w=[12, 8, 8], N=40000 * n, cost=6),
        kctx('bfs-min6', X=[[0, 0], [1, 0], [1, 1], [2, 1], [2, 0], [1, 1]], minp=2, N=60000 * n, cost=5),
        kctx('bfs-min9', X=[[0, 0], [1, 0], [1, 1], [2, 1], [2, 0], [1, 1], [2, 0], [2, 1], [1, 0]], minp=3, N=60000 * n, cost=5),
        kctx('bfs-x4', X=[[i % 3, i % 2] for i in range(24)], minp=4, s2a=4, w=[12, 12], N=40000 * n),
        kctx('bfs-grow', X=X8, amp=9, s2a=1, s2b=4, N=60000 * n),      # grows nearly always accepted
        kctx('bfs-flat', X=[[i % 3, i % 2] for i in range(40)], amp=0, s2a=1, s2b=8, w=[4, 2], N=40000 * n),   # prunes nearly always accepted
        kctx('bfs-wide', X=X6, mult=[30000, 20000, 9000, 500, 10000, 700], amp=400, N=1000, maxstates=3 * n, cost=12),
        kctx('bfs-wide-min', X=X6, mult=[600, 70000, 1000, 500, 2000, 700], minp=5000, amp=400, s2a=3, N=1000, maxstates=3 * n, cost=12, cb=200000, rb=100000),
        kctx('seq-2', kind='seq', m=2, X=X8, s2a=2, N=4000, nrec=200, cost=6),
        kctx('seq-3', kind='seq', m=3, X=X8, minp=1, s2a=2, N=4000, nrec=200, cost=6),
        kctx('prior-a', kind='prior', N=40000 * n),
        kctx('prior-x1', kind='prior', d=4, ms=[1, 1], w=[10, 8, 6], N=40000 * n),
    ]
    marg = [
        kctx('marg-p300', kind='marg', ms=[3] * 300, w=[15, 1], N=200000, ngrow=0, reps=1),
        kctx('marg-p300b', kind='marg', ms=[1, 5, 0, 2] * 75, d=4, w=[4, 15, 1], N=100000, ngrow=1, reps=2),
        kctx('marg-p256', kind='marg', ms=[1] * 256, d=4, w=[4, 15, 1], N=100000, ngrow=1, reps=2),
        kctx('marg-ms', kind='marg', ms=[300], w=[15, 1], N=200000, ngrow=0, reps=1),
        kctx('marg-ms255', kind='marg', ms=[255], d=4, w=[4, 15, 1], N=100000, ngrow=2, reps=3),
        kctx('marg-deep', kind='marg', ms=[200, 100, 3], d=7, w=[12, 8, 8, 8, 8, 8], N=60000, ngrow=25, reps=4),
        kctx('marg-deep9', kind='marg', ms=[255, 254], d=9, w=[12, 8, 8, 8, 8, 8, 12, 4], N=20000, ngrow=60, reps=2, deepest=True, cost=14),
        kctx('marg-exh', kind='marg', ms=[1, 2, 1, 1], d=5, w=[12, 8, 8, 8], N=60000, ngrow=6, reps=6, deepest=True),
        kctx('marg-x', kind='marg', ms=[1, 1, 1, 3], d=5, w=[12, 8, 8, 8], N=60000, ngrow=9, reps=6),
    ]
    prop = [x for x in j if x['kind'] == 'bfs' or chk.prop == 'C06'] + (marg if chk.prop == 'C07' else [])
    if chk.prop == 'C07':
        prop = [x for x in prop if x['name'] not in ('bfs-x0', 'bfs-x')]
    for i, c in enumerate(prop):
        c['kseed'] = chk.seed * 100 + i
    return prop


def judge_kernel(chk, recs):
    ctxs, out = [], []
    for r in recs:
        if r['kind'] == 'ctx':
            ctxs.append(r)
            if r['raised']:
                out.append(dict(kind='state', c=len(ctxs), raised=r['raised'], name=r['name']))
        else:
            out.append(dict(r, c=len(ctxs), raised='', name=ctxs[-1]['name']))
    chk.judge('JKernel', out, files=dict(CTXS=ctxs), label='kernel')


@check('C06', 'C07')
def kernel(chk):
    chk.models(('MCNumeric', 'MCNumeric'), *[('MCKernel', f'MCKernel_{k}') for k in 'ABCDEFH'])
    judge_kernel(chk, chk.record('kernel', kernel_jobs(chk)))


# --------------------------------------------------------------- C08, C09
def cctx(name, **kw):
    c = dict(name=name, kind='draws', n=8, ms=[3, 2], m=2, d=3, w=[8, 8, 8, 8, 8, 8, 8, 8], minp=None, a=1, b=1,
             alpha2=2, beta=2., ngrow=0, amp=3, N=4000, reps=2)
    c.update(kw)
    c['w'] = c['w'][:c['d'] - 1]
    c['cost'] = kw.get('cost', 6)
    return c


def cond_jobs(chk):
    T = chk.thorough
    j = [
        cctx('one', m=1, ngrow=3),
        cctx('one-grow', m=1, a=1, b=8, amp=4),
        cctx('one-flat', m=1, amp=0, ngrow=3, n=30, b=4, w=[2, 2]),
        cctx('two', m=2, ngrow=3, minp=1),
        cctx('three', m=3, ngrow=3, d=4, a=2, alpha2=4),
        cctx('five', m=5, ngrow=3, d=3, a=1, b=4, minp=2, n=12, N=3000),
        cctx('n0', n=0, m=2, d=3, alpha2=6, beta=1., b=2),
        cctx('n1', n=1, m=2, d=3, alpha2=3, beta=3., a=4),
        cctx('loud', n=8, m=2, a=16, ngrow=4, d=4, alpha2=10, beta=5.),
        cctx('quiet', n=6, m=2, b=16, ngrow=4, d=4, alpha2=2, beta=.5, amp=2),
        cctx('n13', n=13, m=2, ngrow=4, d=4, rb=4, cb=4, minp=2, N=3000, alpha2=1),
        cctx('n20', n=20, m=2, ngrow=4, d=4, rb=1, cb=7, N=3000, alpha2=4),
        cctx('n24', n=24, m=1, ngrow=3, d=3, rb=32, cb=32, N=3000, alpha2=0, beta=0.),
        cctx('d1', d=1, n=5, m=2),
        cctx('d2', d=2, n=6, m=2, ms=[1], alpha2=6),
        cctx('cut0', n=7, m=2, ms=[0, 1], ngrow=2),
    ]
    tight = [
        cctx('t-mid', kind='tight', n=60, m=7, d=5, ngrow=9, T=6, amp=1., cost=4),
        cctx('t-batch', kind='tight', n=150, m=4, d=6, ngrow=12, rb=7, cb=13, minp=2, T=6, amp=1., cost=4, ms=[20, 3]),
        cctx('t-big', kind='tight', n=300, m=12, d=6, ngrow=12, minp=5, T=4, amp=1., cost=5, ms=[200, 9, 1]),
        cctx('t-deep', kind='tight', n=100, m=3, d=9, ngrow=20, deepest=True, T=5, amp=1., cost=4, ms=[255, 200]),
        cctx('t-wide', kind='tight', n=40, m=40, d=4, ngrow=3, T=4, amp=1., cost=4),
        cctx('t-70000', kind='tight', n=8, mult=[1, 30000, 20000, 9000, 500, 10000, 700, 3], m=3, d=4, ngrow=4, T=4, amp=.3, cost=4),
        cctx('t-70000-b', kind='tight', n=8, mult=[1, 30000, 20000, 9000, 500, 10000, 700, 3], m=2, d=3, ngrow=3, T=4, amp=.3, cost=4, rb=3000, cb=1000, minp=3),
        cctx('t-many', kind='tight', n=1500, m=3, d=5, ngrow=6, T=2, amp=1., cost=4, ms=[50, 9]),
    ]
    ini = [dict(name='init', kind='init', cost=3, ab=[(a, b, 1) for a in (0, 1, 2, 6, 40, -1) for b in (0, 1, 3, 8, 100, -1)])]
    if chk.prop == 'C09':
        j = j + ini + [cctx('n300', n=300, m=1, N=1000, reps=1, alpha2=4, cost=5), cctx('n101', n=101, m=2, N=1500, reps=1, alpha2=3, minp=5)]
    else:
        j = j + tight
    if T:
        for x in list(j):
            if x['kind'] == 'draws':
                x['N'] *= 3
                x['reps'] = 4
            elif x['kind'] == 'tight':
                x['T'] *= 6
        rng = pyrandom.Random(chk.seed)
        for i in range(24):
            j.append(cctx(f'rnd{i}', n=rng.randint(0, 20), m=rng.randint(1, 5), d=rng.randint(2, 5), ngrow=rng.randint(0, 5),
                          minp=rng.choice([None, 0, 1, 2]), a=rng.choice([1, 2, 3]), b=rng.choice([1, 2, 5]), N=6000,
                          alpha2=rng.randint(1, 8), beta=rng.choice([.5, 1., 4.]), amp=rng.randint(0, 4),
                          rb=rng.choice([None, 1, 3, 16]), cb=rng.choice([None, 1, 3, 16])))
    for i, c in enumerate(j):
        c['kseed'] = chk.seed * 1000 + i
    return j


@check('C08', 'C09')
def conditional(chk):
    chk.models(('MCNumeric', 'MCNumeric'), ('MCConditional', 'MCConditional'), ('MCStep', 'MCStep_one'))
    chk.judge('JCond', chk.record('cond', cond_jobs(chk)), heap='12g', label='cond')


# ---------------------------------------------------------- C10, C11, C25
def chunks(l, n):
    return [l[i::n] for i in range(n) if l[i::n]]


@check('C10')
def schedule(chk):
    chk.models(('McmcLoop', 'McmcLoop'))
    chk.bg(chk.apalache, 'ApaLoop', [('Init', 'IndInv', 0), ('IndInit', 'IndInv', 1), ('IndInit', 'Goal', 0)])
    M = 5 if chk.thorough else 4
    sch = [(b, s, k) for b in range(M) for s in range(M) for k in range(1, M)]
    sch += [(7, 1, 5), (1, 7, 1), (0, 2, 6), (12, 0, 1), (2, 11, 1), (5, 5, 2), (10, 3, 4), (260, 3, 2), (1, 2, 129)]
    jobs = [dict(name=f'small{i}', kind='runs', scheds=c, dseed=1, kseed=chk.seed, m=2, minp=[None, 1][i % 2],
                 ratios=i % 2, cost=len(c)) for i, c in enumerate(chunks(sch, 8))]
    jobs += [dict(name=f'eager{i}', kind='runs', scheds=[s], modes=['eager'], dseed=2, kseed=chk.seed + i, d=3, m=1, n=5, cost=4)
             for i, s in enumerate([(1, 1, 2), (0, 2, 1), (2, 0, 1)])]
    jobs += [dict(name=f'data{i}', kind='runs', scheds=[(2, 2, 2), (0, 3, 1)], dseed=3 + i, kseed=chk.seed + 9 * i, n=n, d=d, m=m, ratios=i % 2, minp=mp, cost=3)
             for i, (n, d, m, mp) in enumerate([(0, 3, 2, None), (1, 1, 1, 1), (40, 5, 7, 5), (9, 2, 300, None), (300, 4, 3, 2)])]
    chk.judge('JLoop', chk.record('loop', jobs), label='run')


@check('C11')
def determinism(chk):
    chk.models(('McmcLoop', 'McmcLoop'))
    T = chk.thorough
    sched = [(b, s, k) for b in range(0, 10, 3 if not T else 1) for s, k in ((0, 1), (1, 1), (2, 2), (9, 1), (1, 9), (3, 3), (4, 2)) if b + s * k]
    jobs = []
    if not T:
        sched = [(0, 1, 1), (0, 2, 2), (3, 0, 1), (3, 1, 9), (0, 9, 1), (6, 3, 3), (9, 0, 1), (3, 4, 2)]
    for i, (n, m, d, minp, ratios) in enumerate([(12, 3, 3, None, 0), (30, 4, 4, 2, 1), (0, 3, 4, None, 0), (100, 6, 5, 5, 0)][:None if T else 2]):
        for j, c in enumerate(chunks(sched, 2)):
            jobs.append(dict(name=f'sched{i}', kind='same', n=n, m=m, d=d, minp=minp, ratios=ratios, dseed=i, kseed=chk.seed * 10 + i,
                             ref=(9, 0, 1), what=[('sched', *s) for s in c], cost=len(c) + 1))
        jobs.append(dict(name=f'other{i}', kind='same', n=n, m=m, d=d, minp=minp, ratios=ratios, dseed=i, kseed=chk.seed * 10 + i,
                         ref=(2, 3, 2), cost=5,
                         what=[('again',), ('print', 1), ('print', 3), ('key', chk.seed * 10 + i + 1), ('key', 0 if chk.seed * 10 + i else 5), ('nojitstep',)] + ([('final',)] if T else [])))
    jobs.append(dict(name='eager', kind='same', n=8, m=2, d=3, dseed=9, kseed=chk.seed, ref=(2, 2, 2), what=[('eager', 1, 1, 2), ('eager', 2, 1, 1)], cost=8))
    jobs.append(dict(name='gbart', kind='interface', dseed=1, kseed=chk.seed, cost=8, what=['again', 'key', 'npint', 'other', 'otherkey',
                                                                                             'seed 8', 'seed 16', 'seed 24', 'seed 30', 'seed -']))
    jobs.append(dict(name='gbart2', kind='interface', dseed=2, kseed=chk.seed + 7, cost=8, what=['print', 'print1', 'sched 0 10 1', 'sched 6 2 2', 'sched 0 2 5', 'sched 9 1 1']))
    chk.judge('JLoop', chk.record('loop', jobs), label='same')


@check('C25')
def progress(chk):
    chk.models(('McmcLoop', 'McmcLoop'))
    T = chk.thorough
    runs = [((b, s, k), r) for b, s, k in ((3, 2, 2), (0, 4, 1), (5, 0, 1), (4, 1, 3), (2, 3, 3), (0, 0, 1), (10, 2, 1)) for r in (1, 2, 3, 7, 100)]
    runs += [((b, s, k), r) for b, s, k in ((6, 2, 3), (1, 5, 1)) for r in (4, 5, 6, 11, 12)]
    runs += [((90, 11, 1), 10), ((99, 1, 1), 50), ((0, 101, 1), 100), ((50, 10, 6), 7), ((100, 200, 1), 64)]
    if T:
        runs += [((b, s, k), r) for b in range(4) for s in range(4) for k in range(1, 4) for r in range(1, 6)]
    jobs = [dict(name=f'log{i}', kind='logs', runs=c, dseed=i, kseed=chk.seed + i, m=[3, 7, 1, 8][i % 4], n=[12, 12, 0, 40][i % 4],
                 pnt=['mix', 'high', 'bart', 'flat'][i % 4], cost=len(c)) for i, c in enumerate(chunks(runs, 8 if not T else 24))]
    jobs.append(dict(name='gbart', kind='gblogs', m=4, dseed=1, kseed=chk.seed, cost=8,
                     runs=[((3, 4, 2), 2), ((0, 5, 2), 3), ((5, 5, 1), 5)]))
    chk.judge('JLoop', chk.record('loop', jobs), label='log')


# --------------------------------------------------------------- C12, C26
@check('C12')
def evaluation(chk):
    chk.models(('MCEnsemble', 'MCEnsemble_1'))
    T = chk.thorough
    n = 8 if T else 1
    s = chk.seed * 100
    jobs = [
        dict(name='exh3', kind='exh', d=3, ms=[2, 1], cost=3), dict(name='exh3b', kind='exh', d=3, ms=[1, 1], dt='float16'),
        dict(name='exh2', kind='exh', d=2, ms=[4, 2]), dict(name='exh1', kind='exh', d=1, ms=[2, 1]), dict(name='exh4', kind='exh', d=4, ms=[4]),
    ]
    rnd = [dict(name=f'd{d}', d=d, m=6, p=3, ms=[9, 255, 30], ngrow=3 * d, n=60, reps=2 * n, deepest=d % 2 == 0) for d in (4, 5, 6, 7)]
    rnd += [dict(name=f'd{d}', d=d, m=3, p=3, ms=[200, 255, 90], ngrow=40, n=60, reps=2 * n, deepest=dp) for d in (8, 9, 10) for dp in (True, False)]
    rnd += [dict(name=f'right{d}', d=d, m=2, p=3, ms=[200, 255, 90], ngrow=4, n=8, rightmost=True) for d in (7, 8, 9, 10, 11, 15, 16, 17, 18)]
    rnd += [dict(name=f'm{m}', d=3, m=m, p=2, ms=[3, 5], ngrow=3, n=12, dt=dt) for m, dt in ((1, 'float32'), (2, 'bfloat16'), (255, 'float32'), (256, 'float32'), (257, 'float32'), (300, 'float16'), (700, 'float32'))]
    rnd += [dict(name=f'p{p}', d=4, m=20, p=p, ms=[5], ngrow=6, n=20, vdt=v) for p, v in ((1, 'uint8'), (255, 'uint8'), (256, 'uint8'), (257, 'uint16'), (400, 'uint16'))]
    rnd += [dict(name=f'ms{m}', d=5, m=10, p=2, ms=[m], ngrow=8, n=40, xdt=x, sdt=sd) for m, x, sd in ((254, 'uint8', 'uint8'), (255, 'uint8', 'uint8'), (256, 'uint16', 'uint16'),
            (300, 'uint16', 'uint16'), (65535, 'uint16', 'uint16'), (65536, 'uint32', 'uint32'), (100000, 'uint32', 'uint32'), (255, 'uint16', 'uint8'), (40, 'int32', 'uint8'), (40, 'uint8', 'uint16'))]
    rnd += [dict(name=f'n{k}', d=4, m=4, p=2, ms=[5, 9], ngrow=6, n=k) for k in (0, 1, 256, 300)]
    tr = [dict(name=f'tr{i}', kind='trace', T=T_, m=m, d=d, n=k, p=2, ms=[5, 200], ngrow=5, extra=i % 2, budget=b, cost=2)
          for i, (T_, m, d, k, b) in enumerate([(3, 4, 3, 10, None), (1, 1, 2, 1, None), (0, 3, 3, 5, None), (4, 5, 4, 0, None), (5, 6, 4, 20, 200), (3, 12, 4, 17, 1000),
              (2, 7, 3, 9, 1), (260, 2, 2, 3, None), (2, 300, 3, 4, None), (2, 256, 3, 4, 3000), (4, 3, 9, 12, None), (3, 8, 4, 33, 2000), (2, 97, 3, 7, 2500), (3, 30, 5, 300, 20000)])]
    tr += [dict(name='trbig', kind='trace', T=1, m=1999 if T else 1000, d=2, n=140000, p=2, ms=[5, 200], ngrow=1, cost=20)]
    tr += [dict(name='trtypes', kind='trace', T=3, m=5, d=4, n=20, p=300, ms=[300], ngrow=5, vdt='uint16', sdt='uint16', xdt='uint16', dt='float16')]
    jobs += [dict(dict(kind='rnd'), **r) for r in rnd] + tr
    for i, j in enumerate(jobs):
        j['rs'] = s + i
    chk.judge('JGrove', chk.record('grove', jobs), label='eval', heap='10g')


@check('C26')
def helpers(chk):
    chk.models(('MCEnsemble', 'MCEnsemble_1'))
    T = chk.thorough
    jobs = [dict(name='helpers', kind='helpers', rand=[5, 6, 7, 8, 9, 10], nrand=20, rs=chk.seed)]
    if T:
        jobs += [dict(name=f'helpers{i}', kind='helpers', rand=[5, 6, 7, 8, 9, 10, 12], nrand=150, rs=chk.seed + i) for i in range(7)]
    chk.judge('JGrove', chk.record('grove', jobs), label='help')


# --------------------------------------------------------------- C13 - C15
def prep_models(chk):
    chk.models(('MCBins', 'MCBins_int'), ('MCBins', 'MCBins_float'))
    if chk.thorough:
        chk.models(('MCBins', 'MCBins_deep'), workers=8)


@check('C13')
def quantiles(chk):
    prep_models(chk)
    T = chk.thorough
    jobs = []
    sets = [('float32', 4, [-6, -2, 0, 8]), ('int32', 1, [0, 1, 2, 4]), ('int8', 1, [-5, -4, 0, 7]), ('uint8', 1, [0, 1, 3, 200])]
    for dt, sc, v in sets:
        jobs.append(dict(name=f'exh-{dt}', kind='exhq', dt=dt, scale=sc, vals=v, ns=[0, 1, 2, 3, 4], Bs=[1, 2, 3, 4, 5, 6], cost=8))
    jobs.append(dict(name='exh-5', kind='exhq', dt='int32', scale=1, vals=[0, 1, 2, 3, 5], ns=[5], Bs=[2, 3, 4, 5], cost=8))
    jobs.append(dict(name='exh-6', kind='exhq', dt='float32', scale=4, vals=[0, 2, 4], ns=[6, 7] if T else [6], Bs=[1, 2, 3, 4], cost=6))
    jobs.append(dict(name='exh-half', kind='exhq', dt='float16', scale=4, vals=[-8, 0, 4], ns=[1, 3, 4], Bs=[2, 3, 10], cost=3))
    jobs.append(dict(name='exh-b', kind='exhq', dt='bfloat16', scale=4, vals=[-8, 0, 4], ns=[2, 4], Bs=[2, 3, 10], cost=3))
    r = []
    for n in (254, 255, 256, 257, 258, 259, 300):
        r.append(dict(n=n, nd=[n, 1, n - 1, 200], p=4, dt='float32', even=2, scale=8, Bs=[2, 100, 255, 256, 257, 258, 1000], cost=6))
    r += [dict(n=n, nd=[n, n - 1, n // 2, 3, 1, 2], p=6, dt=dt, Bs=[3, 7, 10, 33, n - 1, n, n + 1], cost=5) for n, dt in ((40, 'int32'), (97, 'float32'), (64, 'uint16'), (33, 'uint32'))]
    r += [dict(n=n, nd=[n, 300, 257], p=3, dt='int32', Bs=[256, 100, 257, 17], neg=500000, skew=1, cost=5) for n in (512, 513, 700, 1001)]
    r += [dict(n=2000, nd=[2000, 256, 255, 1000], p=4, dt='float32', even=2, Bs=[256, 255], skew=1, cost=3)]
    r += [dict(n=n, nd=[n, n - 1], p=2, dt='int32', Bs=[256, 100], cost=4, chunk=1) for n in (65535, 65537, 65540)]
    r += [dict(n=n, nd=[n, n // 2], p=2, dt='int32', Bs=[65535, 65536, 65537], cost=6, chunk=1) for n in (65540,)]
    r += [dict(n=n, nd=[n], p=1, dt='float32', even=2, Bs=[b], cost=3) for n, b in ((10003, 10000), (20001, 20000), (40003, 40000), (30000, 20000))]
    r += [dict(n=9, nd=[9, 3, 1, 5], p=200, dt='int32', Bs=[4], budget=b, cost=2) for b in (1, 300, 3000)]
    r += [dict(n=30, nd=[30, 3, 1, 5, 17], p=12, dt='float32', even=2, Bs=[9, 40], budget=b, cost=2) for b in (1000, 2000)]
    r += [dict(n=20, nd=[20, 4], p=p, dt='int32', Bs=[9], cost=1) for p in (0, 1, 255, 257)]
    if T:
        rng = pyrandom.Random(chk.seed)
        for i in range(120):
            n = rng.choice([rng.randint(1, 40), rng.randint(40, 400), rng.randint(250, 262), rng.randint(400, 3000)])
            r.append(dict(n=n, nd=[rng.randint(1, n) for _ in range(5)], p=5, dt=rng.choice(['int32', 'float32', 'uint32', 'uint16']), even=2,
                          skew=rng.randint(0, 1), range=30000, Bs=[rng.randint(1, n + 3) for _ in range(4)] + [256], cost=3))
    for i, j in enumerate(r):
        jobs.append(dict(dict(name=f'rnd{i}', kind='rndq', rs=chk.seed * 1000 + i), **j))
    jobs.append(dict(name='big', kind='big', rs=chk.seed, cost=12))
    chk.judge('JPrep', chk.record('prep', jobs), label='quantiles', heap='10g')


@check('C14')
def grids(chk):
    prep_models(chk)
    T = chk.thorough
    c = [[(nb, p, n, dt, e)] for nb, p, n, dt, e in [
        *[(nb, 6, 12, 'float32', 0) for nb in (1, 2, 3, 4, 5, 7, 10, 33, 100)],
        *[(nb, 6, 30, 'float32', e) for nb in (255, 256, 257, 258, 300) for e in (0, -7)],
        *[(nb, 6, 30, dt, 0) for nb in (1, 2, 9, 20) for dt in ('int32', 'uint8', 'int8', 'int16', 'uint16', 'float16', 'bfloat16')],
        *[(nb, 2, 9, 'float32', 0) for nb in (1000, 65535, 65536, 65537, 70000)],
        *[(nb, 3, n, 'float32', e) for nb, n, e in ((5, 1, 0), (4, 2, 3), (6, 3, -20), (9, 500, 20), (10, 5, 60), (10, 5, -60))],
        *[(7, p, 5, 'float32', 0) for p in (1, 2, 8, 300)],
        *[(p, p, 5, 'float32', 0) for p in (3, 4)],
    ]]
    if T:
        rng = pyrandom.Random(chk.seed)
        c += [[(rng.randint(1, 300), rng.randint(1, 12), rng.randint(1, 60), rng.choice(['float32', 'int32', 'uint16']), rng.randint(-9, 9))] for _ in range(400)]
    c = [x[0] for x in c]
    jobs = [dict(name=f'grid{i}', kind='grid', cases=k, rs=chk.seed * 100 + i, cost=len(k)) for i, k in enumerate(chunks(c, 8 if not T else 24))]
    chk.judge('JPrep', chk.record('prep', jobs), label='grid')


@check('C15')
def binning(chk):
    prep_models(chk)
    T = chk.thorough
    M = [{}, *[dict(method=m) for m in ('scan', 'scan_unrolled', 'sort', 'compare_all')]]
    jobs = [dict(name=f'exh-{dt}', kind='exhb', dt=dt, L=5 if not T else 7, pads=[0, 1, 3], kws=M if i < 2 else M[:1], cost=6) for i, dt in
            enumerate(['float32', 'int32', 'uint8', 'int8', 'uint16', 'uint32', 'float16', 'bfloat16'])]
    r = [dict(w=w, n=60, dt=dt, p=3, kws=M[:1] if w > 300 else M[::2]) for w in (0, 1, 2, 100, 254, 255, 256, 257, 65534, 65535, 65536) for dt in ('float32', 'int32')]
    r += [dict(w=w, n=80, dt=dt, p=3) for w, dt in ((200, 'uint8'), (255, 'uint8'), (254, 'int8'), (300, 'uint16'), (300, 'int16'), (300, 'uint32'))]
    r += [dict(w=9, n=n, dt='float32', p=p, budget=b) for n, p, b in ((50, 40, 1), (51, 40, 1000), (7, 60, 500), (3, 300, 4000), (5, 1, 1), (0, 3, None), (4, 0, None))]
    r += [dict(w=30, n=3000, dt='float32', p=3)]
    if T:
        rng = pyrandom.Random(chk.seed)
        r += [dict(w=rng.randint(0, 400), n=200, dt=rng.choice(['float32', 'int32', 'uint16', 'int16']), p=6, kws=[rng.choice(M)]) for _ in range(150)]
    for i, j in enumerate(r):
        jobs.append(dict(dict(name=f'rnd{i}', kind='rndb', rs=chk.seed * 1000 + i, cost=2), **j))
    cs = [(n, B, dt, nd, w) for w in 'qu' for dt in ('float32', 'int32', 'uint8') for n, B, nd in ((30, 100, 12), (300, 10, 200), (20, 2, 4), (6, 1, 3), (600, 256, 600)) if not (w == 'u' and dt != 'float32')]
    jobs += [dict(name=f'pipe{i}', kind='pipe', cases=k, rs=chk.seed * 10 + i, cost=4) for i, k in enumerate(chunks(cs, 4))]
    chk.judge('JPrep', chk.record('prep', jobs), label='bins', heap='10g')


# --------------------------------------------------------------- C19, C20
@check('C19')
def batching(chk):
    chk.models(('Batch', 'Batch'))
    T = chk.thorough
    rng = pyrandom.Random(chk.seed)
    cases = []
    for size in range(0, 40 if T else 26):
        for k in range(1, size + 2):
            if T or k <= 3 or k >= size - 1 or rng.random() < .35:
                for d in ((0, -1, 1) if T else rng.sample([0, -1, 1], 2)):
                    cases.append((size, rng.choice([0, 0, 1, 2, 3]), (k, d)))
    for s in range(11):
        for size in (0, 1, 2, 6, 7, 12):
            for b in [None, (0, 1), (1, 0), (1, -1), (2, 0), (2, 1), (3, 0), (size, 0), (size, -1)]:
                if T or rng.random() < .5:
                    cases.append((size, s, b))
    for size in (36, 49, 97, 100, 120, 121, 127, 128, 143, 144, 169, 210, 211, 360, 720, 1000, 1009, 1024):
        for _ in range(20 if T else 4):
            k = rng.choice([1, 2, 3, 5, size // 7, size // 3, size // 2, size - 1, rng.randint(1, size), int(size ** .5), int(size ** .5) + 1])
            cases.append((size, rng.choice([0, 1, 2]), (k, rng.choice([-1, 0, 1]))))
    rng.shuffle(cases)
    jobs = [dict(name=f'batch{i}', kind='batches', cases=c, rs=chk.seed * 100 + i, cost=len(c)) for i, c in enumerate(chunks(cases, 8 if not T else 32))]
    chk.judge('JExt', chk.record('ext', jobs), label='batch')


@check('C20')
def unique(chk):
    chk.models(('Unique', 'Unique'))
    T = chk.thorough
    S = [('int32', [0, 1, 2, 5], [2, -1, 9]), ('uint8', [0, 1, 255], [0, 255, 7]), ('float32', [-1.5, 0, .25], [.25, float('inf'), -9]), ('int8', [-128, 0, 127], [-128, 127])]
    exh = [[dict(t='exh', dt=dt, vals=v, fills=f, n=n, sizes=range(0, n + 3))] for dt, v, f in S for n in range(0, 6)]
    exh += [[dict(t='exh', dt='int32', vals=[0, 3, 4], fills=[4, 0], n=n, sizes=[0, 1, 2, 3, 4, n, n + 5])] for n in ((6, 7) if not T else (6, 7, 8))]
    rnd = [[dict(t='rnd', dt=dt, n=n, nd=nd, sizes=s, fillin=n % 2)] for dt in ('int32', 'float32', 'uint16', 'uint32', 'int16')
           for n, nd, s in ((1, 1, [0, 1, 2]), (40, 10, [0, 1, 5, 9, 10, 11, 40, 50]), (40, 40, [39, 40, 41]), (254, 254, [254, 255, 10]), (300, 7, [300, 7, 6, 8]))]
    rnd += [[dict(t='rnd', dt='int32', n=n, nd=nd, sizes=[n, nd, nd - 1, nd + 1, 255, 256, 257], seq=sq)] for n, nd in ((255, 255), (256, 256), (257, 257), (258, 258), (1000, 256), (1000, 257)) for sq in (0, 1)]
    rnd += [[dict(t='rnd', dt='int32', n=n, nd=n, sizes=[n, n - 1], seq=1)] for n in (65535, 65536, 65537, 70000)]
    rnd += [[dict(t='rnd', dt=dt, n=500, nd=200, sizes=[3, 200, 500])] for dt in ('int8', 'uint8', 'float16')]
    allc = [dict(c[0], sizes=list(c[0]['sizes'])) for c in exh + rnd]
    jobs = [dict(name=f'unique{i}', kind='uniq', cases=c, rs=chk.seed * 100 + i, npfill=i % 2, cost=len(c)) for i, c in enumerate(chunks(allc, 8))]
    chk.judge('JExt', chk.record('ext', jobs), label='unique', heap='10g')


# ------------------------------------------------- C16 - C18, C21, C22: gbart
def gcfg(name, **kw):
    c = dict(name=name, kind='fit', n=20, nt=6, p=2, usequants=0, numcut=10, nd=4, nskip=3, m=3, d=3, kn=2, kd=1, range=6, dseed=1, kseed=0, cost=5)
    c.update(kw)
    return c


@check('C16')
def interface(chk):
    chk.models(('Interface', 'Interface'), ('MCBins', 'MCBins_int'))
    T = chk.thorough
    s = chk.seed
    jobs = [
        gcfg('grid', numcut=10), gcfg('grid255', numcut=255, n=40, p=3, m=7, d=4, kn=1, range=5),
        gcfg('grid256', numcut=256, n=30, p=1, m=2), gcfg('grid300', numcut=300, n=30, p=2, m=5, shift=50, kn=3, range=9),
        gcfg('quant', usequants=1, numcut=30, n=25, p=3, distinct=12, m=5), gcfg('quant-dec', usequants=1, numcut=3, n=25, p=2, distinct=12),
        gcfg('quant-dec2', usequants=1, numcut=5, n=40, p=2, distinct=12, d=5, m=4, range=3, kn=1, kd=2),
        gcfg('quant255', usequants=1, numcut=255, n=60, p=2, distinct=38, m=2),
        gcfg('cut1', numcut=1), gcfg('cut2', numcut=2), gcfg('quant1', usequants=1, numcut=1, n=25, distinct=12), gcfg('quant2', usequants=1, numcut=2, n=24, distinct=6),
        gcfg('int-float', usequants=1, numcut=30, n=25, distinct=12, types=['int16', 'float32'], nt=12), gcfg('int-float-grid', n=25, types=['int32', 'float32'], nt=12),
        gcfg('int-int', usequants=1, numcut=5, n=25, distinct=12, types=['int32', 'int16']), gcfg('float-int', usequants=1, numcut=30, n=25, distinct=12, types=['float32', 'int32']),
        gcfg('uint-float', usequants=1, numcut=30, n=25, distinct=12, types=['uint8', 'float32'], nt=12), gcfg('float-int-grid', numcut=100, n=25, types=['float32', 'int16']),
        gcfg('long', nd=130, nskip=2, n=6, nt=3, m=1, d=2),
        gcfg('burn0', nskip=0, nd=5, keep=2), gcfg('save0', nskip=3, nd=0), gcfg('none', nskip=0, nd=0), gcfg('one', nskip=1, nd=1, keep=3, nt=1),
        gcfg('d1', d=1, m=2), gcfg('d2', d=2, m=1), gcfg('deep', d=9, m=2, n=60), gcfg('notest', nt=0),
        gcfg('n2', n=2, p=2), gcfg('few', n=3, p=5, usequants=1, distinct=3, m=4), gcfg('wide', n=8, p=300, usequants=1, distinct=8, m=6),
        gcfg('many', m=300, d=2, nd=2, nskip=1), gcfg('opts', kw=dict(initkw=dict(min_points_per_leaf=1, resid_batch_size=3, count_batch_size=4))),
        gcfg('small-leaf', n=40, m=6, d=5, kw=dict(initkw=dict(min_points_per_leaf=1)), nd=8, nskip=8),
        gcfg('empty', n=0, usequants=1, nt=4), gcfg('single', n=1, usequants=1, distinct=1, nt=3),
        gcfg('offset', kw=dict(offset=3), range=7, kn=5, kd=2), gcfg('lamda', kw=dict(lamda=.5), keep=3),
    ]
    hops = ['a', 'buf-a', 'buf-b', 'train', 'mean', 'bad']
    jobs += [gcfg('hist', kind='hist', ops=hops, len=3, cost=12), gcfg('hist-q', kind='hist', ops=hops, len=3, usequants=1, numcut=4, distinct=5, nd=3, m=2, cost=12),
             gcfg('frames', kind='frames', p=3, ops=['mixed'], cost=14), gcfg('frames-q', kind='frames', p=2, usequants=1, numcut=5, distinct=6, n=23, ops=['mixed'], cost=14),
             gcfg('frames-1', kind='frames', p=1, n=12, nt=5, ops=[], cost=12)]
    if T:
        jobs += [gcfg('hist4', kind='hist', ops=hops, len=4, cost=40)]
        rng = pyrandom.Random(s)
        for i in range(80):
            u = rng.randint(0, 1)
            jobs.append(gcfg(f'rnd{i}', usequants=u, n=rng.randint(13, 60), p=rng.randint(1, 6), numcut=rng.choice([13, 40]) if u else rng.choice([3, 9, 100, 254, 255, 256]), distinct=12, m=rng.randint(1, 12), d=rng.randint(1, 7),
                             nd=rng.randint(0, 7), nskip=rng.randint(0, 7), keep=rng.randint(1, 4), range=rng.randint(1, 9), kn=rng.randint(1, 4), shift=rng.randint(-30, 30), nt=rng.randint(0, 12),
                             kw=dict(initkw=dict(min_points_per_leaf=rng.choice([1, 2, 5])))))
    for i, j in enumerate(jobs):
        j['dseed'], j['kseed'] = s * 100 + i, s * 7 + i
    chk.judge('JInterface', chk.record('gb', jobs), label='fits', heap='8g')


@check('C17')
def priors(chk):
    chk.models(('Interface', 'Interface'), ('MCNumeric', 'MCNumeric'))
    T = chk.thorough
    rng = pyrandom.Random(chk.seed)
    base = dict(n=8, p=2, range=9, sigmode='auto', sigdf=3, sigquant=900, kn=2, kd=1, power=2, base=950000, maxdepth=3, ntree=2, offmode=0, sched=[1, 2, 1])
    cases = []

    def add(name, **kw):
        cases.append(dict(dict(base, name=name, dseed=chk.seed * 1000 + len(cases), kseed=rng.randint(0, 99)), **kw))
    for n in (0, 1, 2, 3, 4, 7, 8, 16):
        for mode in ('auto', 'given', 'none'):
            for off in (0, 1):
                p = 3 if mode == 'auto' and n in (4, 8, 16) else max(n, 2)
                add(f'n{n} {mode} {off}', n=n, p=p, sigmode=mode, sigarg=700, lamarg=1500, offmode=off, offarg=rng.randint(-5, 9), shift=rng.randint(-20, 20), range=rng.randint(1, 40))
    for n, p in ((8, 8), (8, 9), (8, 7), (16, 15), (16, 14), (16, 16), (5, 5), (5, 6), (2, 2), (2, 5)):
        if n == 16 and p == 15 or n == 8 and p == 7:
            add(f'rank {n} {p}', n=n, p=p, rank=p - 2, range=30)
        else:
            add(f'reg {n} {p}', n=n, p=p, range=30)
    add('dup', n=16, p=6, rank=3, range=50)
    add('dup1', n=8, p=4, rank=1, range=50)
    add('const', n=16, p=5, const=[0, 3], range=20)
    add('allconst', n=8, p=2, const=[0, 1], range=20)
    for q in (500, 750, 900, 950, 990):
        for df in (1, 2, 3, 4, 5, 8, 12):
            add(f'chi {q} {df}', n=4, p=4, sigmode=rng.choice(['auto', 'given']), sigarg=rng.randint(100, 3000), sigdf=df, sigquant=q, range=rng.randint(1, 30))
    for kn, kd in ((1, 1), (3, 1), (1, 2), (5, 2)):
        add(f'k {kn}/{kd}', kn=kn, kd=kd, range=14, shift=-3)
    for power in (0, 1, 2, 3):
        for d in (1, 2, 4, 6):
            add(f'tree {power} {d}', power=power, maxdepth=d, base=rng.choice([950000, 500000, 720000, 120000]), ntree=rng.randint(1, 9))
    for ov in (dict(p_nonterminal=[700000]), dict(p_nonterminal=[300000, 600000, 200000]), dict(num_trees=7), dict(min_points_per_leaf=-1), dict(min_points_per_leaf=0), dict(min_points_per_leaf=2),
               dict(sigma2_alpha=5), dict(sigma2_beta=2500), dict(sigma2_alpha=2, sigma2_beta=500, min_points_per_leaf=9, num_trees=3), dict(save_ratios=1), dict(resid_batch_size=3, count_batch_size=2)):
        add('ov ' + ' '.join(ov), ov=ov, lamarg=800, sigmode=rng.choice(['auto', 'none']))
    for sched in ([0, 3, 2], [4, 0, 1], [0, 0, 1], [2, 1, 5], [3, 2, 1]):
        add(f'sched {sched}', sched=sched)
    for dt in ('int32', 'float64', 'int8', 'uint8'):
        add(f'y {dt}', ydt=dt, range=90, n=16, p=3)
    for e in (-30, -12, 8, 35):
        for mode in ('auto', 'given', 'none'):
            add(f'unit {e} {mode}', e=e, sigmode=mode, sigarg=900, lamarg=700, n=rng.choice([2, 4, 8]), p=3, range=rng.randint(1, 30), shift=rng.randint(-9, 9), offmode=rng.randint(0, 1), offarg=3)
    if T:
        for i in range(200):
            add(f'rnd{i}', e=rng.choice([0, 0, -25, 14]), n=rng.choice([2, 3, 4, 8, 16, 32]), p=rng.randint(1, 3), range=rng.randint(1, 60), shift=rng.randint(-60, 60), sigmode=rng.choice(['auto', 'given', 'none']),
                sigarg=rng.randint(50, 5000), lamarg=rng.randint(50, 5000), sigdf=rng.randint(1, 12), sigquant=rng.choice([500, 750, 900, 950, 990]), kn=rng.randint(1, 5), kd=rng.randint(1, 2),
                power=rng.randint(0, 3), base=rng.choice([950000, 500000, 90000]), maxdepth=rng.randint(1, 6), ntree=rng.randint(1, 9), offmode=rng.randint(0, 1), offarg=rng.randint(-9, 9))
            if cases[-1]['n'] == 3 or cases[-1]['n'] == 2:
                cases[-1]['p'] = 3
    jobs = [dict(name=f'prior{i}', kind='prior', cases=c, cost=len(c)) for i, c in enumerate(chunks(cases, 16 if not T else 48))]
    jobs += [gcfg('again', kind='again', n=30, m=4, kw=dict(k=1.5)) if False else gcfg('again', kind='again', n=30, m=4), gcfg('again-q', kind='again', n=30, m=4, usequants=1, numcut=40, distinct=20, sigdf=5, base=.8, power=1, keep=2, d=5),
             gcfg('again-l', kind='again', n=25, kw=dict(lamda=.3), kn=3), gcfg('again-o', kind='again', n=25, kw=dict(offset=1., sigest=.5), d=2, shift=9)]
    for i, j in enumerate(jobs):
        j.setdefault('kseed', i)
        j['kseed'] += chk.seed
    chk.judge('JInterface', chk.record('gb', jobs), label='priors')


@check('C18')
def shifts(chk):
    chk.models(('Interface', 'Interface'))
    T = chk.thorough
    maps = [(0, 0), (5, 0), (-3, 0), (0, 1), (0, -1), (100, 3), (-64, -3), (0, 12), (0, -12), (7, 20), (1, -20), (0, -40), (2, 40), (1000, 0), (-1000, 5)]
    if T:
        maps += [(a, e) for a in (-200, -17, 1, 33) for e in (-45, -30, -7, -2, 2, 6, 31, 45)]
    jobs = [gcfg('shift', n=16, range=12), gcfg('shift-q', n=20, usequants=1, numcut=20, m=5, d=4), gcfg('shift-np', n=8, p=9, usequants=1, distinct=8, m=3),
            gcfg('shift-k', n=32, kn=7, kd=2, m=8, d=4, extra=dict(sigdf=5, sigquant=.5)), gcfg('shift-2', n=2, p=2, usequants=1, distinct=2, m=2),
            gcfg('shift-l', n=40, m=6, range=30, nd=8, nskip=4, keep=2, kw=dict(initkw=dict(min_points_per_leaf=1))), gcfg('shift-r', n=25, p=3, m=4, shift=-8), gcfg('shift-d', n=64, m=10, d=6)]
    for i, j in enumerate(jobs):
        j.update(kind='shift', maps=maps, dseed=chk.seed * 50 + i, kseed=chk.seed * 3 + i)
    chk.judge('JInterface', chk.record('gb', jobs), label='shift')


@check('C21')
def purity(chk):
    chk.models(('Interface', 'Interface'), ('McmcLoop', 'McmcLoop'))
    T = chk.thorough
    jobs = []
    for i, (minp, ratios, n, m, d) in enumerate([(None, 0, 12, 3, 3), (2, 1, 15, 2, 4), (None, 1, 0, 2, 3), (5, 0, 40, 4, 3)] + [(1, 1, 20, 5, 5), (None, 1, 33, 1, 2), (3, 0, 60, 9, 4)] * T):
        for mode in ('jit', 'eager'):
            if mode == 'jit' or i < 2 or T:
                jobs.append(dict(name=f'pure{i}', kind='pure', mode=mode, minp=minp, ratios=ratios, n=n, m=m, d=d, dseed=chk.seed + i, kseed=chk.seed * 10 + i, cost=8))
    for i, k in enumerate(['array', 'pandas', 'polars', 'double']):
        jobs.append(gcfg(f'gbart-{k}', kind='pureg', kinds=[k], dseed=chk.seed + i, kseed=i, usequants=i % 2, numcut=12, distinct=8, cost=8))
    chk.judge('JInterface', chk.record('gb', jobs), label='pure')


@check('C22')
def tuning(chk):
    chk.models(('Interface', 'Interface'), ('MCConditional', 'MCConditional'))
    T = chk.thorough
    jobs = []
    for i, (n, m, d, minp, sched) in enumerate([(13, 3, 3, None, (3, 3, 1)), (40, 4, 4, 2, (4, 2, 2)), (0, 2, 3, None, (2, 2, 1)), (1, 2, 3, 1, (2, 2, 1)), (257, 3, 4, 5, (3, 2, 1)), (512, 4, 4, 5, (2, 3, 1)), (600, 3, 5, 3, (3, 2, 1)), (1025, 2, 4, None, (3, 1, 1)), (512, 3, 4, 5, (3, 2, 1))]):
        bs = sorted({1, 2, 3, 5, max(1, n - 1), max(1, n), n + 7, 16, 64, 255, 256, 257} if T or n < 20 else {1, 3, 7, 64, max(1, n), 256, n + 7})
        if T:
            opts = [dict(count_batch_size=b, resid_batch_size=None) for b in bs] + [dict(resid_batch_size=b, count_batch_size=None) for b in bs]
            opts += [dict(), dict(save_ratios=True, resid_batch_size=3, count_batch_size=4)]
        else:
            opts = [dict(count_batch_size=b, resid_batch_size=bs[-1 - k]) for k, b in enumerate(bs)]
        opts += [dict(resid_batch_size='auto', count_batch_size='auto'), dict(resid_batch_size=None, count_batch_size=None, save_ratios=True)]
        for j, c in enumerate(chunks(opts, 2 if not T else 4)):
            jobs.append(dict(name=f'opt{i}', kind='opt', n=n, m=m, d=d, minp=minp, sched=list(sched), opts=c, dseed=chk.seed * 20 + i, kseed=chk.seed * 9 + i, ms=[1, 3] if i == 8 else [[3, 2], [20, 4]][i % 2], seq=int(i == 8), cost=len(c)))
    sizes = [(n, m, d) for n in (0, 1, 2, 3, 4, 5, 6, 7, 11, 12, 13, 23, 24, 25, 100, 255, 256, 257, 1000, 10 ** 4, 10 ** 6, 10 ** 8) for m, d in ((1, 1), (3, 2), (200, 6), (1000, 10))]
    jobs += [dict(name=f'auto-{k}', kind='auto', platform=k, sizes=sizes, cost=3) for k in ('cpu', 'gpu')]
    jobs.append(dict(name='eager', kind='opt', eager=1, n=9, m=2, d=3, sched=[0, 1, 1], opts=[dict(resid_batch_size=4, count_batch_size=2), dict(save_ratios=True)], dseed=chk.seed, kseed=chk.seed, cost=6))
    kw = [dict(printevery=p) for p in (1, 2, 3, 7, 1000)] + [dict(initkw=o) for o in (dict(save_ratios=True), dict(resid_batch_size=3), dict(count_batch_size=5), dict(resid_batch_size=None, count_batch_size=256))]
    jobs += [gcfg('gbopt', kind='gbopt', opts=kw, n=30, m=4, cost=9), gcfg('gbopt-q', kind='gbopt', opts=kw[::-1], n=33, m=4, nskip=0, usequants=1, distinct=20, numcut=30, cost=9)]
    chk.judge('JInterface', chk.record('gb', jobs), label='options')


# ------------------------------------------------------------ C23: diagnostics
@check('C23')
def diagnostics(chk):
    chk.models(('MCDiag', 'MCDiag'), ('MCEnsemble', 'MCEnsemble_1'))
    T = chk.thorough
    s = chk.seed * 1000
    single = [[], ['nan'], ['nan0'], ['nanlast'], ['var0'], ['split0'], ['stray'], ['straylast'], ['stray2'], ['vart'], ['vart-signed'], ['splitt'], ['long'], ['short'], ['longvar'], ['shortvar'], ['shortsplit'], ['longsplit'], ['wrap0'], ['uneven']]
    multi = [['nan', 'stray'], ['var0', 'split0'], ['var0', 'nan', 'stray'], ['vart', 'splitt'], ['vart', 'nan'], ['splitt', 'stray2'], ['long', 'longsplit'], ['longvar', 'longsplit'], ['short', 'stray'],
             ['long', 'longvar', 'longsplit'], ['vart', 'long', 'split0', 'nan', 'straylast']]
    jobs = [dict(kind='check', ds=[d], p=p, what=single + multi, cost=6, **k) for d, p, k in
            ((1, 2, {}), (2, 3, {}), (3, 2, {}), (4, 256, {}), (4, 257, dict(mst='uint16')), (5, 255, {}), (6, 3, dict(mst='uint16', msmax=300)), (3, 65537, {}), (3, 65536, dict(mst='uint16')), (8, 1, {}), (9, 2, {}))]
    jobs += [dict(kind='check', ds=[3], p=4, what=single[:10], jit=1, cost=6), dict(kind='check', ds=[1, 2, 3, 4, 5, 6, 7, 8, 9, 10], p=3, what=[[], [], ['stray']], cost=6)]
    jobs += [dict(kind='many', T=a, m=b, d=d, p=p, cost=3) for a, b, d, p in ((1, 1, 3, 2), (4, 5, 4, 3), (3, 2, 1, 2), (2, 9, 6, 300), (6, 3, 2, 2))]
    jobs += [dict(kind='distr', T=a, m=b, d=d, p=p, n=n, cost=4, extra=i % 2, **k) for i, (a, b, d, p, n, k) in enumerate(
        [(2, 3, 3, 2, 10, {}), (1, 1, 1, 1, 3, {}), (3, 4, 5, 3, 30, {}), (2, 2, 2, 2, 0, {}), (1, 3, 4, 2, 1, {}), (1, 2, 3, 2, 255, dict(same=1)), (1, 2, 3, 2, 256, dict(same=1)), (1, 2, 3, 2, 257, dict(same=1)),
         (1, 2, 2, 1, 300, dict(ngrow=0)), (1, 2, 2, 1, 256, dict(ngrow=0)), (2, 3, 7, 3, 40, {}), (1, 3, 9, 2, 12, {}), (1, 1, 2, 1, 65536, dict(ngrow=0)), (1, 1, 2, 1, 65535, dict(ngrow=1)),
         (1, 300, 3, 2, 4, {}), (1, 257, 2, 2, 3, dict(ngrow=0)), (2, 3, 4, 300, 20, {}), (4, 6, 8, 2, 60, dict(ngrow=30))])]
    jobs += [dict(kind='show', ds=[1, 2, 3, 4, 5], cost=3, reps=6), dict(kind='show', ds=[6, 7, 8], reps=1, cost=5)]
    if T:
        rng = pyrandom.Random(chk.seed)
        jobs += [dict(kind='check', ds=list(range(1, 8)), p=rng.choice([1, 2, 3, 200, 300]), what=[rng.sample([w[0] for w in single[1:]], rng.randint(0, 4)) for _ in range(25)], cost=6) for _ in range(24)]
        jobs += [dict(kind='distr', T=rng.randint(1, 4), m=rng.randint(1, 9), d=rng.randint(1, 8), p=rng.randint(1, 5), n=rng.randint(0, 90), cost=4, extra=i % 2) for i in range(60)]
        jobs += [dict(kind='show', ds=[1, 2, 3, 4, 5, 6], reps=6, cost=8) for _ in range(8)]
    for i, j in enumerate(jobs):
        j.setdefault('name', f"{j['kind']}{i}")
        j['rs'] = s + i
    g = [gcfg('gb', n=30, m=5, nd=6), gcfg('gb-q', n=40, m=6, d=5, nd=5, usequants=1, numcut=30, distinct=20, kw=dict(initkw=dict(min_points_per_leaf=1))), gcfg('gb-1', m=1, nd=8, nskip=0, n=21),
         gcfg('gb-0', n=4, m=2, nd=3, nskip=0, p=3), gcfg('gb-w', n=30, p=300, usequants=1, distinct=9, m=4), gcfg('gb-n', n=256, m=3, nd=4, nskip=1, numcut=100), gcfg('gb-d1', d=1, nd=3),
         gcfg('gb-big', n=60, m=12, nd=5, d=8, numcut=255, kn=1, range=20, kw=dict(initkw=dict(min_points_per_leaf=None)))]
    for i, j in enumerate(g):
        j.update(kind='gb', dseed=s + i, kseed=chk.seed * 11 + i, cost=8)
    chk.judge('JDiag', chk.record('diag', jobs + g), label='diagnostics', heap='8g')


# -------------------------------------------------------- C24: randomness
@check('C24')
def randomness(chk):
    chk.models(('Keys', 'Keys' if not chk.thorough else 'Keys_deep'))
    T = chk.thorough
    base = [dict(n=12, m=3, d=3), dict(n=30, m=4, d=4, minp=2, ratios=1), dict(n=0, m=2, d=3), dict(n=20, m=1, d=2, minp=5), dict(n=15, m=5, d=1), dict(n=40, m=7, d=5, p=5), dict(n=257, m=2, d=6)]
    scheds = [(2, 2, 2), (0, 3, 1), (3, 0, 1), (1, 1, 4), (0, 1, 1), (4, 2, 1)]
    jobs = []
    for i, c in enumerate(base):
        jobs.append(dict(c, name=f'run{i}', kind='runs', dseed=i, kseed=chk.seed * 1000 + i, scheds=scheds if T else scheds[i % 3::3], steps=[1, 0] if i < 3 or T else [1], cost=6))
    jobs += [dict(name=f'gbart{i}', kind='gb', n=n, m=m, d=d, dseed=i, kseed=chk.seed * 1000 + 500 + i, scheds=[s], cost=6) for i, (n, m, d, s) in enumerate([(20, 3, 3, (2, 2, 2)), (30, 2, 4, (0, 3, 1))])]
    N = 8192 * (4 if T else 1)
    jobs += [dict(name=f'table {mode}{i}', kind='tables', mode=mode, N=N, T=3, m=m, d=d, dseed=i, kseed=chk.seed * 77 + i, cost=9, n=0, pnt=pn) for i, (mode, m, d, pn) in
             enumerate([('step', 3, 3, 'high'), ('run', 3, 3, 'flat'), ('step', 4, 2, 'flat'), ('run', 2, 4, 'high')])]
    jobs += [dict(name='moves', kind='moves', N=N, m=3, dseed=1, kseed=chk.seed * 31, cost=5, pnt='flat')]
    chk.judge('JKeys', chk.record('keys', jobs), label='keys')


# ------------------------------------------------------------- C27: layout
@check('C27')
def layout(chk):
    chk.models(('MCLayout', 'MCLayout'))
    s = chk.seed
    jobs = []

    def job(name, m=2, d=3, p=2, n=12, small='float32', large='float32', mst='uint8', xt='uint8', x64=0, mp=0, ratios=0, **kw):
        i = len(jobs)
        jobs.append(dict(dict(name=name, kind='sig', eager=int(i % 4 == 0 or chk.thorough), again=int(i % 4 == 1 or chk.thorough), x64=x64, dseed=s * 50 + i, kseed=s + i, cost=4 + (m * 2 ** d > 10 ** 5),
                              cfg=dict(m=m, d=d, p=p, n=n, small=small, large=large, mst=mst, xt=xt, x64=x64, mp=mp, ratios=ratios)), **kw))
    for i, f in enumerate(['float16', 'bfloat16', 'float32']):
        for r, mp in ((0, 0), (1, 1)):
            job(f'small {f}', small=f, ratios=r, mp=mp, m=3)
    job('default', default=1, ratios=1, eager=1, again=1)
    job('numpy', jy=0, mp=1)
    for i, (f, g) in enumerate([('float32', 'float32'), ('float32', 'float64'), ('float64', 'float64'), ('float16', 'float64'), ('bfloat16', 'float32')]):
        job(f'wide {f} {g}', small=f, large=g, x64=1, ratios=i % 2, mp=(i + 1) % 2)
        job(f'wide {f} {g}', small=f, large=g, x64=1, ratios=(i + 1) % 2, mp=i % 2, d=4, m=1)
    for d in (1, 2, 8, 9, 10, 16, 17):
        job(f'depth {d}', d=d, m=2 if d < 16 else 1, mp=d % 2, **(dict(n=5) if d > 15 else {}))
    for p in (1, 255, 256, 257) + ((65536, 65537) if chk.thorough else ()):
        job(f'predictors {p}', p=p, n=7, ms=[3, 1, 2])
    job('wide splits', mst='uint16', xt='uint16', ms=[300, 2])
    job('wide splits only', mst='uint32', xt='uint8')
    for n in (0, 1, 2, 300):
        job(f'points {n}', n=n, mp=n % 2, ratios=1)
    for m in (1, 255, 256, 257):
        job(f'trees {m}', m=m, d=2, ratios=1, mp=1)
    for i, (a, b) in enumerate([(None, None), (1, 1), (3, 5), (100, 100), ('auto', 'auto')]):
        job(f'batches {a} {b}', kw=dict(resid_batch_size=a, count_batch_size=b))
    for B, S, K in ((0, 0, 1), (0, 2, 1), (2, 0, 3), (1, 1, 4)):
        job(f'schedule {B} {S} {K}', sched=[B, S, K], ratios=1, mp=1)
    jobs.append(dict(name='helpers', kind='help', cost=4))
    if chk.thorough:
        rng = pyrandom.Random(s)
        for i in range(60):
            x64 = rng.randint(0, 1)
            large = rng.choice(['float32', 'float64']) if x64 else 'float32'
            small = rng.choice(['float16', 'bfloat16', 'float32'] + ([large] if x64 else []))
            job(f'random {i}', m=rng.randint(1, 9), d=rng.randint(1, 11), p=rng.choice([1, 2, 5, 300]), n=rng.choice([0, 1, 5, 40]), small=small, large=large, x64=x64,
                mst=rng.choice(['uint8', 'uint16', 'uint32']), mp=rng.randint(0, 1), ratios=rng.randint(0, 1))
    chk.judge('JLayout', chk.record('lay', jobs), label='layout')


# ---------------------------------------------------------- C28: the posterior
def pctx(name, **kw):
    c = dict(name=name, kind='joint', d=3, ms=[2, 1], w=[8, 4], X=X6, m=1, minp=None, alpha=2, beta=1., N=60000, T=12, cost=10)
    c.update(kw)
    return c


@check('C28')
def posterior(chk):
    chk.models(*[('MCPosterior', f'MCPosterior_{k}') for k in 'ABC'], *[('MCKernel', f'MCKernel_{k}') for k in 'ADE'], ('MCConditional', 'MCConditional'))
    n = 4 if chk.thorough else 1
    X12 = [[(i * 5) % 4, i % 2] for i in range(12)]
    X20 = [[i % 6, (i // 3) % 2] for i in range(20)]
    jobs = [
        pctx('one'),
        pctx('one-sharp', beta=.05, X=X8, w=[12, 6]),
        pctx('one-min1', minp=1, X=X8, beta=.3),
        pctx('two-min2', m=2, minp=2, X=X12, ms=[3, 1], w=[10, 8], beta=.2),
        pctx('three-batch', m=3, X=X12, ms=[3], w=[12, 8], minp=1, rb=5, cb=4, alpha=3, beta=.3),
        pctx('void-d4', d=4, ms=[1, 0, 1], w=[12, 10, 8], X=[[i % 2, 0, (i // 2) % 2] for i in range(8)]),
        pctx('five-d2', d=2, m=5, w=[10], ms=[5, 1], X=X20, minp=3, beta=.5),
        pctx('point', X=[[1, 0]], m=2, beta=.2),
        pctx('half', m=2, small='float16', X=X8, beta=.2),
        pctx('deep', d=5, ms=[3], w=[14, 10, 10, 8], X=[[i % 4] for i in range(16)], minp=2, beta=.1),
        pctx('one-step', m=2, T=1, X=X8, ms=[2, 1], w=[12, 6], beta=.05, N=60000, minp=1),
    ]
    for i, j in enumerate(jobs):
        j['X'] = [x[:len(j['ms'])] for x in j['X']]
        j['kseed'] = chk.seed * 100 + i
        j['N'] *= n
    if chk.thorough:
        jobs += [dict(j, name=j['name'] + '-long', T=60, kseed=j['kseed'] + 50, N=j['N'] // 2) for j in jobs]
    ctxs, draw, run = [], [], []
    for r in chk.record('post', jobs):
        if r['kind'] == 'ctx':
            ctxs.append(r)
        else:
            (draw if r.get('stage') == 'draw' else run).append(dict(r, c=len(ctxs)))
    nf = len(chk.fails)
    if draw and chk.judge('JPosterior', draw, files=dict(CTXS=ctxs), label='draws'):
        bad = chk.fails[nf:]
        del chk.fails[nf:]
        raise RuntimeError(f"the draws from the prior are not: {[(b['record']['name'], b['clauses']) for b in bad]}")
    chk.judge('JPosterior', run, files=dict(CTXS=ctxs), label='chains')
