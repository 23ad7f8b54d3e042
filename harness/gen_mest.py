"""Chained robust estimations with scripted weightings."""
import random
import warnings

import numpy as np

TRACE_MODULE, TRACE_CFG = 'TraceMEst', 'TraceMEst.cfg'
UNIT, LIMIT = 10000, 3400000
CLASSES = 5


def cplx(x):
    return complex(x[0], x[1])


def integer(z):
    """exact Gaussian integer"""
    z = complex(z)
    out = []
    for v in (z.real, z.imag):
        out.append(int(round(v)) if v == v and abs(v) < 1e6 and abs(v - round(v)) < 1e-9 else -99999)
    return out


def approx(z):
    z = complex(z)
    out = []
    for v in (z.real, z.imag):
        k = v * UNIT
        out.append(LIMIT if not k == k else int(max(-LIMIT, min(LIMIT, round(k)))))
    return out


class Near(Exception):
    pass


class Weighting:
    """a weighting of the specification, as a function"""
    def __init__(self, wf, log, div):
        self.wf, self.log, self.div, self.near = wf, log, div, False

    def __call__(self, it, residual, e, b, invalid_idx):
        wf, e, residual = self.wf, e * self.div, residual * self.div
        self.log.append(dict(it=int(it), e=[integer(x) for x in e],
                             b=[[integer(x) for x in col] for col in b.T],
                             res=[approx(x) for x in residual],
                             rej=[int(i) for i in invalid_idx]))
        if wf['k'] == 'fail':
            if it >= wf['at']:
                raise RuntimeError('weighting failed')
            return np.ones(len(e))
        if wf['k'] == 'clip':
            r2 = abs(residual) ** 2
            lim = wf['num'] / wf['den']
            if np.any(abs(r2 - lim) < 1e-6):
                self.near = True
            return np.where(r2 > lim, 0., 1.)
        row = wf['t'][min(it, len(wf['t']) - 1)]
        if not row:
            return None
        out = []
        for x, y in zip(e, b):
            v = x.real + 3 * x.imag + 5 * y[0].real + 7 * y[0].imag
            if len(y) > 1:
                v += 2 * y[1].real + 11 * y[1].imag
            w = row[int(round(v)) % CLASSES]
            out.append(1e-15 if w == -1 else 1e-12 if w == -2 else w / 2)
        return np.array(out)


def given_arg(op):
    g = op['given']
    how = op['ghow']
    if how == 'none':
        return None
    if how == 'empty':
        return ()
    if how == 'one':
        return np.array(g[0], dtype=int)
    if how == 'onelist':
        return list(g[0])
    if how == 'lists':
        return [list(x) for x in g]
    return [np.array(x, dtype=int) for x in g]


def execute_op(op):
    if op['op'] == 'real':
        from razorback.utils import transfer_function_real_prob as transfer_function
    else:
        from razorback.mestimator import transfer_function
    from razorback.errors import NonConvergence
    log = []
    def conv(x, dtype):
        if dtype in ('c', 'c8'):
            return np.array([cplx(v) for v in x], dtype='c16' if dtype == 'c' else 'c8')
        return np.array([v[0] for v in x], dtype=dtype)
    # outputs are those of the specification over div
    div = op['div']
    outputs = [conv(x, op['odtype']) for x in op['outputs']]
    if div > 1:
        outputs = [x / div for x in outputs]
    inputs = [conv(x, op['dtype']) for x in op['inputs']]
    if op['arr']:
        outputs, inputs = np.array(outputs), np.array(inputs)
    wfs = [None if w['k'] == 'none' else Weighting(w, log, div) for w in op['wfs']]
    given = given_arg(op)
    kw = {}
    if op['init']:
        kw['init'] = [np.array([cplx(v) for v in z]) / div for z in op['init']]
    if op['explicit']:
        kw.update(tol=op['opts']['tn'] / op['opts']['td'], maxit=op['opts']['maxit'])
        if op['opts']['eps']:
            kw.update(eps=1e-10)
    ev = {k: op[k] for k in ('op', 'outputs', 'inputs', 'wfs', 'opts', 'init', 'given')}
    ev.update(z=[], rej=[], out='ok')
    before = repr((np.array(outputs), np.array(inputs), given, kw.get('init')))
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            if op['wseq'] == 'tuple':
                wfs = tuple(wfs)
            elif op['wseq'] == 'Weights':
                from razorback.weights import Weights
                wfs = Weights(wfs, 'scripted')
            if op['op'] == 'step':
                from razorback.mestimator import m_estimate
                z0 = kw.get('init', [None])[0]
                z, rej = m_estimate(np.array(outputs[0]), np.array(inputs).T, z0, wfs[0],
                                    given[0] if given is not None and len(given) else None,
                                    **{k: v for k, v in kw.items() if k != 'init'})
                res = [z], [rej]
            elif given is None and op['explicit']:
                res = transfer_function(outputs, inputs, weights=wfs, **kw)
            else:
                res = transfer_function(outputs, inputs, wfs, invalid_idx=given, **kw)
        z, rej = res
        ev['z'] = [[approx(v * div) for v in line] for line in z]
        ev['rej'] = [[int(i) for i in r] for r in rej]
    except NonConvergence:
        ev['out'] = 'nonconv'
    except Exception as ex:
        ev['out'] = 'fail'
        execute_op.last = ex
    ev['mutated'] = repr((np.array(outputs), np.array(inputs), given, kw.get('init'))) != before
    ev['calls'] = log
    ev['ok'] = ev['out'] == 'ok'
    ev['near'] = any(getattr(w, 'near', False) for w in wfs)
    return ev


def weighting(rng, first):
    x = rng.random()
    if x < (.75 if first else .15):
        return dict(k='none')
    if x < .97:
        if rng.random() < .25:
            return dict(k='clip', num=rng.choice([1, 2, 3, 5, 1, 9]), den=rng.choice([1, 1, 2, 4]))
        rows = rng.randint(1, 4)
        zeros = rng.choice([0, .1, .1, .2, .5])
        t = []
        for _ in range(rows):
            if rng.random() < .06:
                t.append([])
            else:
                t.append([rng.choice([0, 0, -1, -2]) if rng.random() < zeros else rng.choice([1, 2, 2])
                          for _ in range(CLASSES)])
        return dict(k='table', t=t)
    return dict(k='fail', at=rng.randint(0, 3))


def draw(rng):
    Q = rng.choice([1, 1, 2, 2, 2])
    P = rng.choice([1, 1, 2, 2, 3])
    N = rng.randint(Q + 1, rng.choice([8, 8, 14]) if Q == 1 else 7)
    kind = rng.choice(['c', 'c', 'float', 'int'])
    vals = [-1, 0, 1] if Q == 2 and kind == 'c' else [-2, -1, 0, 1, 2]
    if Q == 2 and kind != 'c':
        vals = [-1, 0, 1, 1]

    def num():
        return [rng.choice(vals), rng.choice(vals) if kind == 'c' else 0]
    inputs = [[num() for _ in range(N)] for _ in range(Q)]
    okind, ikind = kind, kind
    if kind != 'c' and rng.random() < .3:
        okind = kind = 'c'
    outputs = [[num() for _ in range(N)] for _ in range(P)]
    kind = ikind
    if rng.random() < .15:      # exact fits
        z = [[rng.choice([-1, 0, 1, 2]) for _ in range(Q)] for _ in range(P)]
        outputs = [[[sum(z[p][q] * inputs[q][i][k] for q in range(Q)) for k in range(2)]
                    for i in range(N)] for p in range(P)]
    nsteps = rng.choice([1, 2, 2, 3, 3, 4])
    init = []
    if rng.random() < .3:
        init = [[[rng.randint(-2, 2), rng.randint(-2, 2) if kind == 'c' else 0] for _ in range(Q)]
                for _ in range(P)]
    wfs = [weighting(rng, i == 0) for i in range(nsteps)]
    if not init:
        wfs[0] = dict(k='none')
    if rng.random() < .02:
        wfs = [dict(k='none')]
    ghow = rng.choice(['none', 'none', 'empty', 'one', 'onelist', 'lists', 'arrays', 'arrays'])
    if ghow in ('none', 'empty'):
        given = [[]] * P
    else:
        few = lambda: sorted(rng.sample(range(N), rng.choice([0, 1, 1, 2, min(3, N), N if rng.random() < .1 else 1])))
        given = [few() for _ in range(P)]
        if rng.random() < .2:
            given = [rng.sample(g, len(g)) for g in given]
        if ghow in ('one', 'onelist'):
            given = [given[0]] * P
            if not given[0]:
                given = [[rng.randrange(N)]] * P
    explicit = rng.random() < .6
    opts = dict(tn=1, td=100, maxit=100, eps=0)
    if explicit:
        opts = dict(tn=1, td=rng.choice([100, 10, 4, 2, 3]), maxit=rng.choice([1, 2, 3, 4, 5, 8, 20]),
                    eps=rng.choice([0, 0, 1]))
    if Q == 2 and kind == 'c' and opts['td'] == 100 and N > 6:
        opts['td'] = 10
        explicit = True
    return dict(op='estimate', outputs=outputs, inputs=inputs, wfs=wfs, opts=opts, init=init, odtype=okind, div=rng.choice([1, 1, 1, 2, 4]),
                given=given, ghow=ghow, explicit=explicit, dtype=kind, arr=rng.random() < .5,
                wseq=rng.choice(['list', 'tuple', 'Weights']))


def draw_step(rng):
    """a single step of the chain"""
    op = draw(rng)
    op.update(op='step', outputs=op['outputs'][:1], given=op['given'][:1], init=op['init'][:1], wseq='list',
              arr=True)
    op['wfs'] = [weighting(rng, rng.random() < .3)]
    if op['wfs'][0]['k'] != 'none' and not op['init']:
        op['init'] = [[[rng.randint(-2, 2), rng.randint(-2, 2) if op['dtype'] == 'c' else 0] for _ in op['inputs']]]
    op['ghow'] = rng.choice(['lists', 'arrays'] if op['given'][0] else ['none', 'lists'])
    return op


def draw_real(rng):
    """real and imaginary parts as separate observations"""
    op = draw(rng)
    plain = rng.random() < .25
    Q = rng.choice([1, 2]) if plain else 1
    N = rng.randint(Q + 1, 6 if plain else 5)
    P = rng.choice([1, 1, 2, 3])
    kind = rng.choice(['c', 'c', 'c', 'c', 'float', 'int'])
    vals = [-1, 0, 1] if not plain else [-2, -1, 0, 1, 2] if Q == 1 else [-1, 0, 1]
    num = lambda: [rng.choice(vals), rng.choice(vals) if kind == 'c' else 0]
    inputs = [[num() for _ in range(N)] for _ in range(Q)]
    okind, ikind = kind, kind
    if kind != 'c' and rng.random() < .4:
        okind = kind = 'c'
    outputs = [[num() for _ in range(N)] for _ in range(P)]
    kind = ikind
    if rng.random() < .2:
        okind = kind
        z = [[num() for _ in range(Q)] for _ in range(P)]
        outputs = [[[sum(z[p][q][0] * inputs[q][i][0] - z[p][q][1] * inputs[q][i][1] for q in range(Q)),
                     sum(z[p][q][0] * inputs[q][i][1] + z[p][q][1] * inputs[q][i][0] for q in range(Q))]
                    for i in range(N)] for p in range(P)]
        if rng.random() < .6:
            outputs[rng.randrange(P)][rng.randrange(N)] = num()
    wfs = [dict(k='none')]
    if not plain:
        wfs += [weighting(rng, False) for _ in range(rng.choice([1, 1, 2]))]
    ghow = rng.choice(['none', 'none', 'empty', 'one', 'onelist', 'lists', 'arrays', 'arrays'])
    given = [[]] * P
    if ghow not in ('none', 'empty'):
        few = lambda: sorted(rng.sample(range(N), rng.choice([0, 1, 1, 2, N if rng.random() < .1 else 1])))
        given = [few() for _ in range(P)]
        if rng.random() < .2:
            given = [rng.sample(g, len(g)) for g in given]
        if ghow in ('one', 'onelist'):
            given = [given[0] or [rng.randrange(N)]] * P
    op.update(op='real', inputs=inputs, outputs=outputs, wfs=wfs, init=[], given=given, ghow=ghow, dtype=kind, odtype=okind,
              explicit=True, opts=dict(tn=1, td=rng.choice([10, 4, 2, 3]), maxit=rng.choice([1, 2, 3, 4, 5, 8, 20]),
                                        eps=rng.choice([0, 0, 1])))
    return op


def generate(profile, seed, k):
    rng = random.Random('mest/%s/%s' % (seed, k))
    while True:
        op = draw_real(rng) if profile == 'C26' else draw_step(rng) if rng.random() < .12 else draw(rng)
        ev = execute_op(op)
        if not ev.pop('near'):
            return {'script': [op]}, [ev]


def truncate(case, l):
    return case


def replay(case):
    out = []
    for op in case['script']:
        ev = execute_op(op)
        ev.pop('near')
        out.append(ev)
    return out
