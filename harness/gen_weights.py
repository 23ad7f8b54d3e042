"""Robust weightings called directly, in sequences, and within estimations."""
import random
import warnings

import numpy as np

TRACE_MODULE, TRACE_CFG = 'TraceWeights', 'TraceWeights.cfg'
UNIT = 10 ** 8
TURNS = {5: [(3, 4), (4, 3), (-3, 4)], 10: [(6, 8)], 13: [(5, 12), (-12, 5)], 17: [(8, 15)], 25: [(7, 24), (15, -20)],
         15: [(9, 12)], 20: [(12, 16)], 26: [(10, 24)], 29: [(20, 21)], 30: [(18, 24)]}


def enc(w):
    w = float(w)
    if w != w:
        return -5
    return int(round(max(-2e9, min(2e9, w * UNIT))))


def encs(w):
    return [enc(v) for v in np.asarray(w)]


def numbers(x, signs, dtype):
    """residuals of these magnitudes"""
    out = []
    for v, s in zip(x, signs):
        if dtype == 'f':
            out.append(v * (1 if s % 2 else -1))
        else:
            t = TURNS.get(v, []) + [(v, 0), (0, v), (-v, 0), (0, -v)]
            out.append(complex(*t[s % len(t)]))
    return np.array(out, dtype=float if dtype == 'f' else complex)


def make(obj):
    from razorback import weights as W
    if obj[0] == 'Huber':
        return W.Huber(*[a[0] / a[1] for a in obj[1:]])
    if obj[0] == 'Thomson':
        return W.Thomson(*obj[1:])
    return W.BoundedInfluenceStep(make(obj[1]), obj[2], obj[3])


def inputs(n, p, seed, dtype, lever, same=False):
    r = np.random.RandomState(seed)
    b = r.standard_normal((n, p))
    if dtype == 'c':
        b = b + 1j * r.standard_normal((n, p))
    if same:
        b[:] = b[0]
        b += .01 * r.standard_normal((n, p))
    for i, f in lever:
        b[i % n] *= f
    return b


def sequence(o, est, dtype, factor=1., perm=None, b=None, dummy=None):
    """calls of one estimation: list of weights"""
    out, touched = [], False
    for it, c in enumerate(est):
        r = numbers(c['x'], c['s'], dtype) * factor
        r = np.asarray(r, dtype=complex if isinstance(factor, complex) or dtype == 'c' else float)
        if c['out']:
            r[c['out']] = np.nan
        idx = np.array(c['out'], dtype=int)
        bb = b if b is not None else np.ones((len(r), 2))
        e = np.arange(len(r)) * 1.5
        if perm is not None:
            q = np.empty(len(r), dtype=int)
            q[perm] = np.arange(len(r))
            r, bb, e = r[q], bb[q], e[q]
            idx = np.array(sorted(perm[i] for i in c['out']), dtype=int)
        before = r.copy(), bb.copy(), e.copy(), idx.copy()
        w = o(it, r, e, bb, idx)
        touched |= not all(np.array_equal(u, v, equal_nan=True) for u, v in zip(before, (r, bb, e, idx)))
        out.append(np.array(w, dtype=float))
        if b is not None and np.sum(out[-1] > 1e-6) <= b.shape[1]:
            break       # nothing can be said of the leverages of the next iteration
    return out, touched


def quiet(f):
    def g(op):
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            ev = dict(op=op['op'], ok=True, mutated=False)
            try:
                f(op, ev)
            except Exception as ex:
                g.last = ex
                ev['ok'] = False
            return ev
    return g


@quiet
def run_huber(op, ev):
    ev.update(x=op['call']['x'], out=op['call']['out'], an=op['alpha'][0], ad=op['alpha'][1], w=[])
    o = make(['Huber'] + ([] if op['default'] else [op['alpha']]))
    if op['again']:
        sequence(o, [op['again']], op['dtype'])
    (w,), t = sequence(o, [op['call']], op['dtype'], cfactor(op))
    ev.update(w=encs(w), mutated=t)


@quiet
def run_thomson(op, ev):
    ev.update(ests=[], fixed=bool(op['obj'][1:]))
    o = make(op['obj'])
    for est in op['ests']:
        ws, t = sequence(o, est['calls'], op['dtype'], cfactor(est))
        ev['mutated'] |= t
        ev['ests'].append([dict(x=c['x'], out=c['out'], w=encs(w)) for c, w in zip(est['calls'], ws)])


@quiet
def run_bounded(op, ev):
    ev.update(calls=[])
    o, base = make(op['obj']), make(op['obj'][1])
    for est in op['ests']:
        b = inputs(len(est['calls'][0]['x']), est['p'], est['seed'], op['dtype'], est['lever'])
        for k in range(1, len(est['calls']) + 1):
            try:
                ws, t = sequence(o, est['calls'][:k], op['dtype'], cfactor(est), b=b)
            except Exception:
                if k == 1:
                    raise
                break
            if len(ws) < k:
                break
            hs, _ = sequence(base, est['calls'][:k], op['dtype'], cfactor(est), b=b)
            ev['mutated'] |= t
            ev['calls'].append(dict(out=est['calls'][k - 1]['out'], w=encs(ws[-1]), base=encs(hs[-1])))


@quiet
def run_same(op, ev):
    est = op['ests'][0]
    n = len(est['calls'][0]['x'])
    perm = op['perm'] or list(range(n))
    ev.update(pairs=[], perm=[i + 1 for i in perm], what='permutation' if op['perm'] else 'scaling')
    b = inputs(n, est['p'], est['seed'], op['dtype'], est['lever'])
    try:
        u, _ = sequence(make(op['obj']), est['calls'], op['dtype'], b=b)
    except Exception:
        return
    v, _ = sequence(make(op['obj']), est['calls'], op['dtype'], cfactor(est), perm if op['perm'] else None, b=b)
    ev['pairs'] = [dict(out=c['out'], w=encs(x), v=encs(y)) for c, x, y in zip(est['calls'], u, v)]


@quiet
def run_steps(op, ev):
    from razorback import weights as W
    est = op['ests'][0]
    call = est['calls'][0]
    n = len(call['x'])
    ev.update(kind=op['kind'], nstep=op['nstep'], x=call['x'], none=[], w=[], hat=[], huber=[], thomson=[], lev=[])
    chain = {'ls': lambda: W.least_square, 'mest': lambda: W.mest_weights,
             'bi': lambda: W.bi_weights(op['prob'], op['nstep'], *op['dim'])}[op['kind']]()
    b = inputs(n, est['p'], est['seed'], op['dtype'], est['lever'], same=True)
    one = lambda o: sequence(o, [dict(call, out=[])], op['dtype'], cfactor(est), b=b)[0][0].copy()
    h, t = one(W.Huber()), one(W.Thomson())
    ev.update(huber=encs(h), thomson=encs(t))
    steps = list(chain)
    for k, o in enumerate(steps):
        ev['none'].append(o is None)
        w = one(o) if o is not None else np.ones(n)
        ev['w'].append(encs(w))
        ref = t if k == len(steps) - 1 else h
        ev['hat'].append([int(round(x / y * 1e7)) if y > 1e-6 and x == x and x / y < 200 else -1
                          for x, y in zip(w, ref)])
    if est['lever'] and op['kind'] == 'bi':
        ev['lev'] = [est['lever'][0][0] % n + 1]


class Recorder:
    def __init__(self, w, base, log, pos):
        self.w, self.base, self.log, self.pos = w, base, log, pos

    def __call__(self, it, residual, e, b, invalid_idx):
        base = None
        if self.base is not None:
            base = np.array(self.base(it, residual.copy(), e, b, invalid_idx))
        x = abs(residual)
        w = self.w(it, residual, e, b, invalid_idx)
        if base is None:
            base = np.array(w)
        self.log.append(dict(pos=self.pos, it=it, x=x, w=np.array(w), base=base, out=[int(i) for i in invalid_idx]))
        return w


@quiet
def run_live(op, ev):
    from razorback.mestimator import transfer_function
    from razorback import weights as W
    r = np.random.RandomState(op['seed'])
    n, p, q = op['n'], 2, op['q']
    b = inputs(n, q, op['seed'] + 1, 'c', op['lever']).T
    z = r.standard_normal((p, q)) + 1j * r.standard_normal((p, q))
    e = z.dot(b) + .2 * (r.standard_normal((p, n)) + 1j * r.standard_normal((p, n)))
    for i in range(p):
        k = r.choice(n, max(1, n // 8), replace=False)
        e[i, k] += op['outlier'] * r.standard_normal(len(k))
    log = []
    chain = []
    if op['kind'] == 'mest':
        src = list(W.mest_weights)
        bases = [None, None, None]
    else:
        src = list(W.bi_weights(op['prob'], op['nstep']))
        bases = [None] + [W.Huber() for _ in range(op['nstep'])] + [W.Thomson()]
    for pos, (w, base) in enumerate(zip(src, bases)):
        chain.append(None if w is None else Recorder(w, base, log, pos))
    try:
        transfer_function(e, b, chain)
    except Exception:
        pass
    ev.update(calls=[], groups=[], thom=op['kind'] == 'mest')
    group = None
    unit = None
    for c in log:
        if op['kind'] == 'mest' and c['pos'] == 2:
            if c['it'] == 0:
                group = []
                ev['groups'].append(group)
                unit = 10. ** np.floor(np.log10(np.nanmax(c['x']))) or 1.
            group.append(len(ev['calls']) + 1)
        x = c['x'] / (unit or 1.)
        ev['calls'].append(dict(x=[-1 if v != v else int(min(2e9, round(v * 1e8))) for v in x],
                                w=encs(c['w']) if op['kind'] != 'mest' else [0 if i in c['out'] else v for i, v in enumerate(encs(c['w']))],
                                base=encs(c['base']) if op['kind'] != 'mest' else [UNIT] * len(c['w']), out=c['out']))


RUN = dict(huber=run_huber, thomson=run_thomson, bounded=run_bounded, same=run_same, steps=run_steps, live=run_live)


def cfactor(op):
    f = op.get('factor', [1, 0])
    return f[0] if f[1] == 0 else f[0] * np.exp(1j * f[1])


FACTORS = [[1, 0], [1, 0], [1e-3, 0], [7.3, 0], [1e6, 0], [-2., 0], [1e-9, .7], [3., 2.1]]


def draw_call(rng, n, out=None):
    x = rng.random()
    if x < .3:
        m = [rng.randint(0, 12) for _ in range(n)]
    elif x < .5:
        m = [rng.choice([1, 2, 3]) for _ in range(n)]
        for i in rng.sample(range(n), max(1, n // 5)):
            m[i] = rng.choice([15, 30, 60])
    elif x < .65:
        m = [rng.choice([0, 0, 0, 1, 5]) for _ in range(n)]
    elif x < .75:
        m = [rng.choice([5, 5, 5, 5, 7, 0])] * n
        for i in rng.sample(range(n), rng.randint(0, n // 2)):
            m[i] = rng.randint(0, 9)
    else:
        m = [rng.choice([5, 10, 13, 17, 25, 15, 20, 29, 4]) for _ in range(n)]
    if out is None:
        out = []
    if rng.random() < .4 and n - len(out) > 3:
        out = sorted(set(out) | set(rng.sample(range(n), rng.randint(1, min(3, n - len(out) - 2)))))
    return dict(x=m, s=[rng.randrange(6) for _ in range(n)], out=out)


def draw_est(rng, n, calls, first_out=False):
    cs, out = [], []
    for k in range(calls):
        c = draw_call(rng, n, out)
        if k == 0 and not first_out:
            c['out'] = []
        out = c['out']
        cs.append(c)
    return dict(calls=cs, p=rng.choice([1, 2, 2]), seed=rng.randrange(10 ** 6), factor=rng.choice(FACTORS),
                lever=[[rng.randrange(n), rng.choice([3, 10])]] if rng.random() < .6 else [])


def draw_obj(rng):
    return rng.choice([['Huber'], ['Huber', [5, 2]], ['Huber', [1, 1]], ['Thomson'], ['Thomson', 2.], ['Thomson', 3.5]])


def draw_bounded(rng):
    inner = draw_obj(rng)
    if rng.random() < .5:
        from scipy.special import gammaincinv
        p = rng.choice([.01, .05, .1, .2])
        i = rng.choice([0, 0, 1, 2])
        d = rng.choice([1, 2, 2, 3])
        return ['BI', inner, float(gammaincinv(d, p / 2) / d * 2 ** -i), float(gammaincinv(d, 1 - p / 2) / d * 2 ** i)]
    return ['BI', inner, rng.choice([.02, .1, .3, .5, .8]), rng.choice([1.2, 2., 3., 5.])]


def draw(rng):
    kind = rng.choice(['huber'] * 3 + ['thomson'] * 2 + ['bounded'] * 3 + ['same'] * 3 + ['steps'] * 2 + ['live'])
    dtype = rng.choice('ccf')
    n = rng.randint(1, 12) if kind in ('huber',) else rng.randint(4, 12)
    if kind == 'huber':
        al = rng.choice([[3, 2], [3, 2], [1, 1], [5, 2], [2, 1], [1, 2]])
        return dict(op=kind, call=draw_call(rng, n), alpha=al, default=al == [3, 2] and rng.random() < .6,
                    dtype=dtype, factor=rng.choice(FACTORS), again=draw_call(rng, 5) if rng.random() < .3 else None)
    if kind == 'thomson':
        obj = rng.choice([['Thomson'], ['Thomson'], ['Thomson', 2.], ['Thomson', 2.8]])
        ns = [n, n] + ([rng.randint(4, 12)] if rng.random() < .4 else [])
        return dict(op=kind, obj=obj, dtype=dtype, ests=[draw_est(rng, m, rng.randint(1, 3), rng.random() < .6) for m in ns])
    if kind == 'bounded':
        n = rng.randint(6, 12)
        return dict(op=kind, obj=draw_bounded(rng), dtype=dtype,
                    ests=[draw_est(rng, n, rng.randint(1, 4)) for _ in range(rng.choice([1, 2]))])
    if kind == 'same':
        n = rng.randint(6, 12)
        est = draw_est(rng, n, rng.randint(1, 3))
        perm = rng.sample(range(n), n) if rng.random() < .6 else None
        return dict(op=kind, obj=draw_bounded(rng) if rng.random() < .5 else draw_obj(rng), dtype=dtype, ests=[est], perm=perm)
    if kind == 'steps':
        n = rng.randint(8, 14)
        est = draw_est(rng, n, 1)
        est['lever'] = [[rng.randrange(n), rng.choice([1.5, 2, 2.5, 4])]]
        return dict(op=kind, kind=rng.choice(['ls', 'mest', 'bi', 'bi', 'bi']), nstep=rng.choice([0, 1, 2, 3]),
                    prob=rng.choice([.01, .05, .1, .2]), dim=rng.choice([[], [], [1], [2], [3]]), dtype=dtype, ests=[est])
    return dict(op=kind, kind=rng.choice(['mest', 'bi']), n=rng.choice([16, 25, 40]), q=rng.choice([1, 2]),
                seed=rng.randrange(10 ** 6), outlier=rng.choice([2, 5, 20]), prob=rng.choice([.005, .02, .05]),
                nstep=rng.choice([1, 2]), lever=[[rng.randrange(16), rng.choice([2, 4])]])


def generate(profile, seed, k):
    rng = random.Random('weights/%s/%s' % (seed, k))
    op = draw(rng)
    return {'script': [op]}, [RUN[op['op']](op)]


def truncate(case, l):
    return case


def replay(case):
    return [RUN[op['op']](op) for op in case['script']]
