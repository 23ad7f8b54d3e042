"""Tones through Slepian tapers, given or by default."""
import contextlib
import io
import random
import warnings

import numpy as np

from gen_fourier import BAD, UNITY, certain

TRACE_MODULE, TRACE_CFG = 'TraceTones', 'TraceTones.cfg'
CALS = [[1, 0], [1, 0], [2, 0], [-1, 0], [0, 1], [1, 1], [3, -1]]


def signal(tones, n, shift):
    t = np.arange(n)
    y = np.zeros(n)
    for j, a, b in tones:
        y += ((a + 1j * b) * np.exp(2j * np.pi * (j * t % 240) / 240)).real
    return y


def code(z):
    if not np.isfinite(z):
        return [BAD, BAD]
    return [int(round(v * UNITY)) if abs(v * UNITY) < 2 ** 28 else BAD for v in (z.real, z.imag)]


class Recorder:
    """prefilter keeping what it is given"""
    def __init__(self):
        self.e, self.b = [], None

    def value(self, e, b):
        self.e.append(np.array(e))
        self.b = np.array(b)
        return np.abs(e)

    def __call__(self, e, b):
        self.value(e, b)
        return np.empty(0, dtype=int)


def execute_op(op):
    import razorback as rb
    from razorback.fourier_transform import slepian_window
    from razorback import utils
    ev = {k: op[k] for k in ('op', 'nper', 'on', 'od', 'tau2', 'runs')}
    ev.update(ok=True, co=[])
    n = len(op['runs'][0]['tones'])
    chan = list(range(n))
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            sigs, t = [], op['epoch']
            for r in op['runs']:
                data = [signal(x, r['n'], 0) for x in r['tones']]
                if op['lazy']:
                    import dask.array as da
                    data = [da.from_array(y, chunks=op['lazy']) for y in data]
                rate = op['freq'] * r['m'] / r['p']
                cals = [complex(*c) if c[1] else c[0] for c in r['cals']]
                sigs.append(rb.SyncSignal(data, rate, t, cals))
                t += r['n'] / rate + op['gap']
            S = rb.SignalSet({'E': list(range(n - 1)), 'B': n - 1}, *sigs)
            fo = {}
            if op['nper'] != 8 or op['give'] & 1:
                fo['Nper'] = op['nper']
            if [op['on'], op['od']] != [71, 100] or op['give'] & 2:
                fo['overlap'] = op['on'] / op['od']
            if op['tau2'] != 8 or op['give'] & 4:
                fo['window'] = slepian_window(op['tau2'] / 2)
            if op['path'] == 'set':
                co, _ = S.fourier_coefficients(op['freq'], op['nper'], op['on'] / op['od'],
                                               slepian_window(op['tau2'] / 2))
            else:
                rec = Recorder()
                kw = dict(fourier_opts=fo) if fo or op['give'] & 8 else {}
                if op['path'] == 'values':
                    utils.prefilter_values(S, [op['freq']], rec, **kw)
                else:
                    utils.impedance(S, [op['freq']], prefilter=rec, **kw)
                if rec.b is None:
                    raise ValueError('refused')
                co = rec.e + [rec.b[:, 0]]
            assert len(co) == n
            ev['co'] = [[code(z) for z in c] for c in co]
    except Exception as ex:
        ev.update(ok=False, co=[])
        execute_op.last = ex
    ev['chan'] = [c + 1 for c in chan]
    return ev


def fold(d):
    d %= 240
    return min(d, 240 - d)


def draw(rng):
    tau2 = rng.choice([8, 8, 8, 8, 6, 10, 12, 5, 7, 9])
    tau = tau2 / 2
    nper = rng.choice([8, 8, 8, 6, 10, 12, tau2])
    on, od = rng.choice([(71, 100), (71, 100), (0, 1), (1, 2), (9, 10), (1, 4)])
    freq = rng.choice([1., 0.5, 8., 0.03125, 64., 1 / 3., 50., 0.001])
    for _ in range(100):
        m = rng.choice([4, 5, 6, 8, 10, 12, 15, 16, 20, 24, 30, 40, 48, 60, 80, 120, 240])
        p = 1 if rng.random() < .8 else rng.choice([1, 2, 3, 7])
        if 240 % m or 2 * p >= m:
            continue
        ms = [m]
        if m <= 120 and rng.random() < .3:
            ms.append(2 * m if 240 % (2 * m) == 0 else m)
        elif rng.random() < .4:
            ms.append(m)
        if all(certain(nper, p, x, freq, on, od) and -(-nper * x // p) > 2 * tau for x in ms):
            break
    else:
        return None
    rng.shuffle(ms)
    nch = rng.choice([2, 2, 3])
    runs = []
    for x in ms:
        L = -(-nper * x // p)
        s = L * (od - on) // od
        if s < 1:
            return None
        if rng.random() < .05:
            n = L + rng.randint(1, s) - 1 if s > 1 else L
        else:
            n = L + s * rng.randint(1, 4 if L > 300 else 7) + rng.randint(0, s - 1)
        j0 = 240 * p // x
        tones = []
        for _ in range(nch):
            line = []
            if rng.random() < .85:
                line.append([j0, rng.randint(-4, 4), rng.randint(-4, 4)])
            for _ in range(rng.choice([0, 1, 2, 3])):
                if rng.random() < .3:
                    j = 0
                else:
                    need = -(-120 * tau2 // L)
                    j = rng.choice([j0 + need, j0 - need, j0 + need + 1, rng.randint(0, 120), 2 * j0, 3 * j0, 120])
                    if not 0 <= j <= 120:
                        continue
                if j != j0 and fold(j - j0) * L >= 120 * tau2 and fold(j + j0) * L >= 120 * tau2:
                    line.append([j, rng.randint(-9, 9), rng.randint(-9, 9)])
            rng.shuffle(line)
            tones.append(line)
        runs.append(dict(n=n, p=p, m=x, tones=tones, cals=[rng.choice(CALS) for _ in range(nch)]))
    return dict(op='tones', nper=nper, on=on, od=od, tau2=tau2, freq=freq, runs=runs,
                path=rng.choice(['set', 'values', 'values', 'impedance']), give=rng.randrange(16),
                lazy=rng.choice([0, 0, 64, 1000]), gap=rng.choice([0., 3.]), epoch=rng.choice([0., 1e6, 1.4e9]))


def generate(profile, seed, k):
    rng = random.Random('tones/%s/%s/%s' % (profile, seed, k))
    while True:
        op = draw(rng)
        if op:
            return {'script': [op]}, [execute_op(op)]


def truncate(case, l):
    return case


def replay(case):
    return [execute_op(op) for op in case['script']]
