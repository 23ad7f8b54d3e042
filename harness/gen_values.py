"""Values of prefilters on windows, one set or massively."""
import contextlib
import io
import random
import warnings

import numpy as np

import gen_imp
from gen_imp import TICKS, build, frequency, ticks, reduce_, zoom_and_base

TRACE_MODULE, TRACE_CFG = 'TraceValues', 'TraceValues.cfg'
FAR = 10 ** 6
GAUSS = [[1, 0], [-1, 0], [0, 1], [0, -1], [1, 0], [1, 0], [2, 0], [1, 1]]


def whole(x):
    r = round(x)
    return int(r) if abs(x - r) < 1e-3 else -999999


class Prefilter:
    """value() depends on each coefficient; calling it is never expected"""
    def __init__(self, K):
        self.K = K

    def value(self, e, b):
        e, b = np.asarray(e), np.asarray(b)
        assert e.ndim == 1 and b.ndim == 2 and len(b) == len(e)
        w = lambda z: self.K * (z.real + 3 * z.imag)
        return w(e) + sum((c + 5) * w(b[:, c]) for c in range(b.shape[1]))


def bound(op, t):
    return t * op.get('zoom', 1) / TICKS + op['base'] if abs(t) < FAR else np.sign(t) * np.inf


def execute_op(op):
    from razorback import utils
    q = op['q']
    K = 1 if q['tone'] else 2 * q['nper']
    data = build(op)
    ev = {k: op[k] for k in ('op', 'q', 'freqs', 'ints', 'nrem')}
    ev.update(ok=True, out=[])
    freqs = [frequency(op, f) for f in op['freqs']]
    if op['fform'] == 'array':
        freqs = np.array(freqs)
    look = lambda: repr((dict(data.tags), sorted(data.tags.indices), data.intervals, data.sampling_rates,
                         [np.asarray(y).tolist() for s in data.signals for y in s.data], kw, names, ints))
    kw, names, ints = {}, [], []
    pf = Prefilter(K)
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            if op['op'] == 'values':
                fo = {}
                if not q['tone']:
                    fo = dict(Nper=q['nper'], window=None)
                    if q['win']:
                        fo['window'] = (lambda n: np.array((q['win'] + [1] * n)[:n], dtype=float))
                    if [q['on'], q['od']] != [71, 100]:
                        fo['overlap'] = q['on'] / q['od']
                    kw['fourier_opts'] = fo
                elif op['fokw']:
                    kw['fourier_opts'] = op['fokw'] == 1 and {} or None
                if op['names'][:2] != ['E', 'B']:
                    kw.update(tag_elec=op['names'][0], tag_mag=op['names'][1])
                if op['remkw'] and op['names'][2:] and op['names'][2] in op['tags']:
                    kw['remote'] = op['names'][2]
                if op['realpb']:
                    kw['real_pb'] = True
                before = look()
                values, times = utils.prefilter_values(data, freqs, pf, **kw)
                values, times = [[values]], [[times]]
            else:
                names = list(op['rnames'])
                ints = [(bound(op, a), bound(op, b)) for a, b in op['ints']]
                before = look()
                values, times = utils.prefilter_values_mass_proc(data, names, freqs, ints, pf)
        assert len(values) == len(times)
        for v, t in zip(values, times):
            assert len(v) == len(t)
            line = []
            for vi, ti in zip(v, t):
                assert len(vi) == len(ti)
                line.append([dict(v=[[whole(x) for x in row] for row in a], t=[ticks((x - op['base']) / op.get('zoom', 1)) for x in b])
                             for a, b in zip(vi, ti)])
            ev['out'].append(line)
    except Exception as ex:
        ev.update(ok=False, out=[])
        execute_op.last = ex
    ev['mutated'] = look() != before
    return ev


def tone(z, n):
    y, out = list(z), []
    for _ in range(n):
        out.append(y[0])
        y = [-y[1], y[0]]
    return out


def draw_tone(rng, mass):
    """pure tones seen through the default windows"""
    Ne, Nb = rng.choice([1, 2, 3]), rng.choice([1, 2, 2])
    nrem = rng.choice([0, 1, 1, 2, 2, 3]) if mass else rng.choice([0, 1])
    names = ['E', 'B'] if mass or rng.random() < .5 else rng.choice([['elec', 'mag'], ['B', 'E']])
    rnames = rng.sample(['R', 'far', 'Bremote', 'site1', 'a'], nrem)
    kinds = [('e', i) for i in range(Ne)] + [('b', i) for i in range(Nb)]
    kinds += [(r, i) for r in rnames for i in range(rng.choice([1, 2]))]
    kinds += [('x', 0)] * rng.choice([0, 0, 1])
    rng.shuffle(kinds)
    tags = {}
    for i, (kind, _) in sorted(enumerate(kinds), key=lambda x: x[1]):
        name = dict(zip('eb', names)).get(kind, kind)
        if kind != 'x':
            tags.setdefault(name, []).append(i)
    if rng.random() < .3:
        tags.setdefault('Bremote', [rng.randrange(len(kinds))])
    R = rng.choice([2, 4, 8, 3, 6])
    f = rng.choice([[R, 4], [R, 2]])
    nruns = rng.choice([1, 2, 2, 3])
    rates = [rng.choice([R, R, 2 * R]) if f == [R, 2] else R for _ in range(nruns)]
    runs, t = [], rng.randint(-500, 500)
    for rate in rates:
        quarter = 4 * f[0] == f[1] * rate
        n = (32 if quarter else 16) + rng.randint(9 if quarter else 4, 50)
        y = []
        for _ in kinds:
            z = [rng.randint(-3, 3), rng.randint(-3, 3)]
            if not quarter:
                z[1] = 0
                y.append([z[0] * (-1) ** j for j in range(n)])
            else:
                y.append(tone(z, n))
        runs.append(dict(start=t, rate=rate, n=n, y=y))
        t += n * TICKS // rate + rng.choice([0, 0, 7, 500])
    cals = [[rng.choice(GAUSS) for _ in kinds] for _ in runs]
    freqs = [list(f)]
    while rng.random() < .3:
        freqs.append(list(f))
    if rng.random() < .12:
        freqs.insert(rng.randint(0, len(freqs)), rng.choice([[R, 64], [2 * R, 1], [0, 1]]))
    if rng.random() < .04:
        freqs = []
    ints = []
    if mass:
        lo, hi = runs[0]['start'], t
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
            x = rng.random()
            if x < .3:
                ints.append([-2 * FAR, 2 * FAR])
            elif x < .7:    # close to the ends of runs
                r, s = rng.choice(runs), rng.choice(runs)
                a = r['start'] + rng.randint(0, 5) * (TICKS // r['rate']) + rng.choice([0, 0, -1, 1])
                b = s['start'] + (s['n'] - rng.randint(0, 5)) * (TICKS // s['rate']) + rng.choice([0, 0, -1, 1])
                ints.append([a, b] if a < b else [r['start'], 2 * FAR])
            elif x < .9:
                k = rng.randrange(len(runs))
                r = runs[k]
                ints.append([r['start'], r['start'] + r['n'] * (TICKS // r['rate']) - TICKS // r['rate']])
            else:
                ints.append(sorted([rng.randint(lo, hi), rng.randint(lo, hi)]))
    q = dict(runs=runs, cals=cals, noval=[], elec=[i + 1 for i in tags[names[0]]], mag=[i + 1 for i in tags[names[1]]],
             rem=[], nper=8, on=71, od=100, win=[], tone=True)
    return dict(op='mass' if mass else 'values', q=q, freqs=[reduce_(f) for f in freqs], ints=ints, nrem=nrem,
                rnames=rnames, names=names + rnames, tags=tags, tup=rng.random() < .5, fokw=rng.choice([0, 1, 2]),
                dtype=rng.choice(['f8', 'i4', 'i2', 'f4']), lazy=rng.choice([0, 0, 5, 64]), badchan=[-1, -1],
                calkind=rng.choice(['const', 'fun']), calhow='none', **zoom_and_base(rng),
                shuffle=rng.randint(0, 99), remkw=rng.random() < .5, realpb=rng.random() < .2,
                fform=rng.choice(['list', 'list', 'array']))


def generate(profile, seed, k):
    rng = random.Random('values/%s/%s/%s' % (profile, seed, k))
    x = rng.random()
    if x < .45:
        op = gen_imp.draw(rng, rng.choice(['C13', 'C14', 'C14']))
        q = op['q']
        for key in ('wfs', 'rwfs', 'pf', 'rpf', 'opts'):
            del q[key]
        q['tone'] = False
        # coefficients are compared as integers: no windows of other turns than quarters
        op['freqs'] = [f for f in op['freqs'] if not (f[0] > 0 and any(
            4 * f[0] % (r['rate'] * f[1]) for r in q['runs']) and all(
                q['nper'] * r['rate'] * f[1] <= r['n'] * f[0] for r in q['runs']))]
        op.update(op='values', ints=[], nrem=0, fform=rng.choice(['list', 'array']))
    else:
        op = draw_tone(rng, x > .65)
    return {'script': [op]}, [execute_op(op)]


def truncate(case, l):
    return case


def replay(case):
    return [execute_op(op) for op in case['script']]
