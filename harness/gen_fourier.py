"""Fourier coefficients of signal sets on sliding windows."""
import math
import random
import warnings
from fractions import Fraction

import numpy as np

TRACE_MODULE, TRACE_CFG = 'TraceFourier', 'TraceFourier.cfg'
BAD = -1000000007
UNITY = 100000


def sample(d, n):
    j = np.arange(n)
    return (d[0] * j * j + d[1] * j + d[2]) % 19 - 9


def taper(w, n):
    return (w[0] * np.arange(n) + w[1]) % w[2] + 1.


def phased(w, op):
    if op['ph']:
        return w * 1j ** op['ph']
    return w.astype(op['wtype'])


def make_cal(cal, kind, freq):
    c = complex(*cal)
    if cal[1] == 0:
        c = c.real
    if kind == 'const':
        return c
    if kind == 'none':
        return lambda f: None
    if kind == 'raise':
        def fail(f):
            raise ValueError('no calibration')
        return fail
    # only right at the frequency asked for
    return lambda f: c * (1. if abs(f / freq - 1) < 1e-12 else 3.5)


def storage(x, kind):
    if kind == 'f8':
        return x.astype(float)
    if kind == 'f4':
        return x.astype(np.float32)
    if kind == 'i8':
        return x
    if kind == 'list':
        return [float(v) for v in x]
    if kind == 'rev':
        return x[::-1].copy()[::-1]
    import dask.array as da
    y = da.from_array(x.astype(float), chunks=int(kind[4:]))
    return y


def code(z):
    if not np.isfinite(z):
        return [BAD, BAD]
    out = []
    for v in (z.real, z.imag):
        k = round(v * UNITY)
        out.append(int(k) if abs(k) < 2**30 else BAD)
    return out


def execute_op(op):
    import razorback as rb
    freq = op['freq']
    ev = {k: op[k] for k in ('op', 'nper', 'on', 'od', 'win', 'wlen', 'ph')}
    ev['runs'] = [dict(n=r['n'], p=r['p'], m=r['m'], data=r['data'], cals=r['cals'],
                       bad=any(k in ('none', 'raise') for k in r['kinds'])) for r in op['runs']]
    ev.update(ok=True, geo=[], co=[])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            sigs, t = [], 0.
            for r in op['runs']:
                data = [storage(sample(d, r['n']), s) for d, s in zip(r['data'], r['store'])]
                cals = [make_cal(c, k, freq) for c, k in zip(r['cals'], r['kinds'])]
                rate = abs(op['base'] * r['m'] / (r['p'] or 1))
                sigs.append(rb.SyncSignal(data, rate, t, cals))
                t += r['n'] / rate + op['gap']
            if op['wkind'] == 'none':
                win = None
            elif op['wkind'] == 'fun':
                win = lambda n: phased(taper(op['win'], n), op)
            else:
                win = phased(taper(op['win'], op['wlen']), op)
            overlap = op['on'] / op['od']
            if op['od'] == 1:
                overlap = op['on']
            kw = {} if op['compute'] else {'compute': False}
            args = (freq, op['nper'], overlap, win)
            if op['style'] == 'sync':
                co, (a, b, c) = sigs[0].fourier_coefficients(*args, **kw)
                geo = [[a, b, c]]
            else:
                order = list(range(len(sigs)))
                random.Random(op['shuffle']).shuffle(order)
                n = len(op['runs'][0]['data'])
                S = rb.SignalSet({'T%d' % i: i for i in range(n)}, *[sigs[i] for i in order])
                co, (a, b, c) = S.fourier_coefficients(*args, **kw)
                assert len(a) == len(b) == len(c)
                geo = list(zip(a, b, c))
            ev['geo'] = [[int(x) if int(x) == x else BAD for x in g] for g in geo]
            for z in co:
                z = np.asarray(z)
                assert z.ndim == 1
                half, k = [], 0
                for g in ev['geo']:
                    half += [g[1] / 2.] * g[0]
                if len(half) != len(z):
                    ev['co'].append([])
                else:
                    ev['co'].append([code(complex(v * h)) for v, h in zip(z, half)])
    except Exception as ex:
        ev.update(ok=False, geo=[], co=[], )
        execute_op.last = ex
    return ev


def certain(nper, p, m, base, on, od):
    """whether lengths and shifts are the same however they are computed in floating point"""
    if p <= 0:
        return True
    freq = base
    rate = base * m / p
    exact = -(-nper * m // p)
    for x in (nper / (freq / rate), nper * rate / freq, nper * (rate / freq), nper / freq * rate):
        if math.ceil(x) != exact:
            return False
    ov = on / od
    want = exact * (od - on) // od
    for x in (exact * (1 - ov), exact - exact * ov):
        if int(x) != want:
            return False
    if 2 * p <= m and not freq / rate <= .5:
        return False
    return 2 * p <= m or freq / rate > .5


MS = [2, 3, 4, 5, 6, 8, 10, 12, 15, 16, 20, 24, 30, 40, 48, 60]


def draw(rng):
    nper = rng.choice([1, 1, 2, 2, 3, 4, 6])
    on, od = rng.choice([(0, 1), (0, 1), (1, 2), (1, 4), (3, 4), (71, 100), (1, 3), (1, 10), (9, 10),
                         (4, 5), (99, 100)])
    if rng.random() < .04:
        on, od = rng.choice([(-1, 4), (5, 4), (1, 1), (-1, 100), (101, 100)])
    base = rng.choice([1., 1., .5, 8., .001, 7.3, 1e-4, 1024., 3.])
    nruns = rng.choice([1, 1, 1, 2, 2, 3, 4])
    nch = rng.choice([1, 1, 2, 3])
    runs = []
    bad = rng.random()
    m1 = rng.choice(MS)
    for i in range(nruns):
        m, p = (m1 if rng.random() < .5 else rng.choice(MS)), 1
        if rng.random() < .35 and m > 4:
            p = rng.randint(1, m // 2)
        if bad < .05 and i == nruns - 1:
            p = rng.randint(m // 2 + 1, m)
        ln = -(-nper * m // p)
        sh = ln * (od - on) // od
        x = rng.random()
        if x < .08:
            n = max(1, ln + sh - 1)
        elif x < .16:
            n = ln + sh
        elif x < .2:
            n = max(1, ln + rng.randint(-3, 2))
        else:
            n = ln + sh * rng.randint(1, 5) + rng.randint(0, max(0, sh - 1) if rng.random() < .7 else 0)
        if sh > 0 and (n - ln) // sh > 40:
            n = ln + 40 * sh
        n = max(1, min(n, 220))
        chunk = rng.choice([1, 2, 3, 7, ln - 1, ln, ln + 1, 100])
        runs.append(dict(
            n=n, p=p, m=m,
            data=[[rng.randint(0, 18), rng.randint(0, 18), rng.randint(0, 18)] for _ in range(nch)],
            cals=[rng.choice([[1, 0], [2, 0], [0, 1], [3, -4], [-5, 0], [2, 7], [1, 1]]) for _ in range(nch)],
            kinds=[rng.choice(['const', 'fun', 'fun']) for _ in range(nch)],
            store=[rng.choice(['f8', 'f8', 'i8', 'f4', 'rev', 'list', 'dask%d' % max(1, chunk),
                               'dask%d' % max(1, chunk)]) for _ in range(nch)]))
    if bad > .97:
        r = rng.choice(runs)
        r['kinds'][rng.randrange(nch)] = rng.choice(['none', 'raise'])
    if not all(certain(nper, r['p'], r['m'], base, on, od) for r in runs):
        return None
    freq = base
    if .05 < bad < .07:
        freq = rng.choice([0., -base])
        for r in runs:
            r['p'] = 0 if freq == 0 else -r['p']
    wkind = rng.choice(['none', 'fun', 'fun', 'array'])
    wlen = -1
    r0 = runs[0]
    if wkind == 'array':
        wlen = -(-nper * r0['m'] // r0['p']) if r0['p'] > 0 else 3
        if rng.random() < .1:
            wlen += rng.choice([-1, 1])
        wlen = max(wlen, 0)
    return dict(op='fourier', freq=freq, base=base, nper=nper, on=on, od=od, runs=runs, wkind=wkind, wlen=wlen,
                win=[] if wkind == 'none' else [rng.randint(0, 4), rng.randint(0, 6), rng.randint(1, 7)],
                ph=rng.choice([1, 2, 3]) if wkind != 'none' and rng.random() < .15 else 0,
                wtype=rng.choice(['f8', 'f8', 'f8', 'f4', 'i8', 'i2']),
                style='sync' if nruns == 1 and rng.random() < .5 else 'set',
                shuffle=rng.randint(0, 99), gap=rng.choice([.5, 100., 1e6]) / base,
                compute=rng.random() < .85)


def generate(profile, seed, k):
    rng = random.Random('fourier/%s/%s' % (seed, k))
    op = None
    while op is None:
        op = draw(rng)
    return {'script': [op]}, [execute_op(op)]


def truncate(case, l):
    return case


def replay(case):
    return [execute_op(op) for op in case['script']]
