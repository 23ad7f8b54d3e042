"""The impedance pipeline, on data with exact Fourier coefficients."""
import contextlib
import io
import random
import warnings

import numpy as np

from gen_mest import CLASSES, UNIT, LIMIT, integer, approx
from gen_stats import decimal

TRACE_MODULE, TRACE_CFG = 'TraceImp', 'TraceImp.cfg'
TICKS = 192


def classof(x):
    return int(round(x.real + 3 * x.imag)) % CLASSES


class Spy:
    near = False

    def __init__(self, who, f, K, log):
        self.who, self.f, self.K, self.log = who, f, K, log

    def lines(self, cols):
        return [[approx(v * self.K) for v in c] for c in cols]


class Prefilter(Spy):
    def __call__(self, e, b):
        f, K = self.f, self.K
        self.log.append(dict(who=self.who, kind='p', e=[integer(v * K) for v in e],
                             x=self.lines(np.asarray(b).T), it=0, res=[], rej=[]))
        if f['k'] == 'fail' or f['k'] == 'failn' and len(e) == f['n']:
            raise f.get('exc') == 'key' and KeyError('prefilter') or ValueError('prefilter')
        idx = [i for i, v in enumerate(e) if f['t'][classof(v * K)]] if f['k'] == 'line' else []
        if f.get('how') == 'list':
            return idx
        if f.get('how') == 'twice':
            return np.array(idx[::-1] + idx, dtype=int)
        return np.array(idx, dtype=int)


class Weighting(Spy):
    def __call__(self, it, residual, e, b, invalid_idx):
        f, K = self.f, self.K
        self.log.append(dict(who=self.who, kind='w', it=int(it), e=[integer(v * K) for v in e],
                             x=self.lines(b.T), res=[approx(v * K) for v in residual],
                             rej=[int(i) for i in invalid_idx]))
        if f['k'] == 'fail' and it >= f['at'] or f['k'] == 'failn' and len(e) == f['n']:
            raise RuntimeError('weighting failed')
        if f['k'] == 'clip':
            r2 = abs(residual) ** 2
            lim = f['num'] / f['den']
            if np.any(abs(r2 - lim) < 1e-6):
                self.near = True
            return np.where(r2 > lim, 0., 1.)
        if f['k'] == 'line':
            row = f['t'][min(it, len(f['t']) - 1)]
            if not row:
                return None
            return np.array([1e-15 if w == -1 else 1e-12 if w == -2 else w / 2 for w in (row[classof(v * K)] for v in e)])
        return np.ones(len(e))


def calibration(g, kind, freqs, how):
    c = 1 / complex(*g)
    if c.imag == 0:
        c = c.real
    if not freqs:
        return c if kind == 'const' else (lambda f: c)

    def cal(f):
        if any(abs(f - x) < 1e-9 for x in freqs):
            if how == 'raise':
                raise ValueError('no calibration')
            return None
        return c
    return cal


def fnum(f):
    return f[0] / f[1] if f[0] % f[1] else (f[0] // f[1] if f[0] // f[1] % 2 else f[0] / f[1])


def frequency(op, f):
    x = fnum(f)
    return x / op['zoom'] if op.get('zoom', 1) != 1 else x


def build(op):
    import razorback as rb
    q = op['q']
    zoom = op.get('zoom', 1)        # a unit of time; the rates and frequencies are in its inverse
    sigs = []
    for i, r in enumerate(q['runs']):
        data = [np.array(y, dtype=op['dtype']) for y in r['y']]
        if op['lazy']:
            import dask.array as da
            data = [da.from_array(y, chunks=op['lazy']) for y in data]
        cals = []
        for c in range(len(r['y'])):
            bad = [frequency(op, f) for f in q['noval']] if op['badchan'] == [i, c] else []
            cals.append(calibration(q['cals'][i][c], op['calkind'], bad, op['calhow']))
        sigs.append(rb.SyncSignal(data, r['rate'] / zoom if zoom != 1 else r['rate'],
                                  op['base'] + r['start'] * zoom / TICKS, cals))
    order = list(range(len(sigs)))
    random.Random(op['shuffle']).shuffle(order)
    tags = {k: tuple(v) if len(v) != 1 or op['tup'] else v[0] for k, v in op['tags'].items()}
    return rb.SignalSet(rb.Tags(len(q['runs'][0]['y']), **tags), *[sigs[i] for i in order])


def shape2(a):
    return list(np.shape(a)) if np.ndim(a) == 2 else [-1, -1]


def execute_op(op):
    from razorback.utils import impedance
    from razorback.weights import Weights
    q = op['q']
    K = 2 * q['nper']
    log, spies = [], []

    def spy(cls, who, f):
        s = cls(who, f, K, log)
        spies.append(s)
        return s

    def weights(who, wfs):
        w = [None if f['k'] == 'none' else spy(Weighting, who, f) for f in wfs]
        return dict(list=list, tuple=tuple, Weights=Weights)[op['wseq']](w)

    data = build(op)
    kw = {}
    if not (op['defw'] and q['wfs'] == [dict(k='none')]):
        kw['weights'] = weights('w', q['wfs'])
    if q['pf']['k'] != 'none':
        kw['prefilter'] = spy(Prefilter, 'w', q['pf'])
    if q['rem']:
        kw['remote'] = op['names'][2]
        if q['rwfs']:
            kw['remote_weights'] = weights('r', q['rwfs'])
        if q['rpf']['k'] != 'same':
            kw['remote_prefilter'] = spy(Prefilter, 'r', q['rpf'])
    elif op['remkw']:
        kw['remote'] = None
    fo = dict(Nper=q['nper'], window=None)
    if q['win']:
        fo['window'] = (lambda n: np.array((q['win'] + [1] * n)[:n], dtype=float))
    if [q['on'], q['od']] != [71, 100]:
        fo['overlap'] = q['on'] / q['od']
    kw['fourier_opts'] = fo
    if op['names'][:2] != ['E', 'B']:
        kw.update(tag_elec=op['names'][0], tag_mag=op['names'][1])
    if op['explicit']:
        kw['mest_opts'] = dict(tol=q['opts']['tn'] / q['opts']['td'], maxit=q['opts']['maxit'])
        if q['opts']['eps']:
            kw['mest_opts']['eps'] = 1e-10
    if op['realpb']:
        kw['real_pb'] = True
    if not op['silent']:
        kw['silent_fail'] = False
    if op['keep']:
        kw['keep_invalid_times'] = True
    ev = {k: op[k] for k in ('op', 'q', 'freqs', 'silent', 'keep', 'realpb')}
    ev.update(ok=True, entries=[])
    look = lambda: repr((data.tags, data.intervals, data.sampling_rates, sorted(fo), kw.get('mest_opts')))
    before = look()
    freqs = [frequency(op, f) for f in op['freqs']]
    if op['fform'] == 'array':
        freqs = np.array(freqs)
    elif op['fform'] == 'iter':
        freqs = iter(freqs)
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            res = impedance(data, freqs, **kw)
        n = len(op['freqs'])
        same = {len(x) for x in (res.impedance, res.invalid_time, res.error, res.transfer_mag)}
        assert len(same) == 1, 'results are not aligned'
        for z, t, err, T in zip(*res):
            fin = [np.isfinite(np.asarray(x)) for x in (z, err)]
            d = [[decimal(float(x) ** 2) if np.isfinite(x) and x >= 0 else (-1, -1 if np.isfinite(x) else -1)
                  for x in line] for line in np.atleast_2d(err)]
            ev['entries'].append(dict(
                zs=shape2(z), es=shape2(err), ts=shape2(T),
                z=[[approx(x) for x in line] for line in np.atleast_2d(z)],
                T=[[approx(x) for x in line] for line in np.atleast_2d(T)],
                v=[[x[0] for x in line] for line in d], k=[[x[1] for x in line] for line in d],
                finite=bool(np.all(fin[0])), efinite=bool(np.all(fin[1])), nan=not any(np.any(f) for f in fin),
                ivt=[[ticks((x - op['base']) / op.get('zoom', 1)) for x in np.atleast_1d(line)] for line in t]))
    except Exception as ex:
        ev.update(ok=False, entries=[])
        execute_op.last = ex
    ev['mutated'] = look() != before
    ev['calls'] = log
    ev['near'] = any(s.near for s in spies)
    return ev


def ticks(t):
    v = t * TICKS
    return int(round(v)) if np.isfinite(v) and abs(v - round(v)) < 1e-2 and abs(v) < 1e9 else -999999999


# ---------------------------------------------------------------------------
def cmul(a, b):
    return [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]


def combine(M, lines):
    """lines of M.lines, all Gaussian"""
    out = []
    for row in M:
        line = []
        for i in range(len(lines[0])):
            s = [0, 0]
            for m, l in zip(row, lines):
                p = cmul(m, l[i])
                s = [s[0] + p[0], s[1] + p[1]]
            line.append(s)
        out.append(line)
    return out


UNITS = [[1, 0], [-1, 0], [0, 1], [0, -1]]


def samples_of(rng, line, extra):
    """samples whose windows of 4 have coefficients line/2 at a quarter of the rate"""
    y = []
    for re, im in line:
        y2, y3 = rng.randint(-1, 1), rng.randint(-1, 1)
        y += [y2 + re, y3 - im, y2, y3]
    return y + [rng.randint(-2, 2) for _ in range(extra)]


def matrix(rng, n, m, small):
    while True:
        M = [[rng.choice(UNITS + [[0, 0]] * (2 if small else 1) + ([] if small else [[1, 1], [2, 0], [-1, 1]]))
              for _ in range(m)] for _ in range(n)]
        if all(any(x != [0, 0] for x in row) for row in M):
            return M


def weightings(rng, rich, n):
    wfs = [dict(k='none')]
    if not rich:
        return wfs
    for _ in range(rng.choice([1, 1, 2])):
        x = rng.random()
        if x < .4:
            wfs.append(dict(k='clip', num=rng.choice([1, 2, 3, 4, 9]), den=rng.choice([1, 2, 4])))
        elif x < .9:
            t = [[rng.choice([0, 0, 0, -1, -2]) if rng.random() < .15 else rng.choice([1, 2, 2]) for _ in range(CLASSES)]
                 for _ in range(rng.randint(1, 3))]
            wfs.append(dict(k='line', t=t))
        else:
            wfs.append(dict(k='none'))
    return wfs


def prefilter(rng, marked):
    x = rng.random()
    if x < .45 and not marked:
        return dict(k='none')
    t = [0] * CLASSES
    for c in marked or [rng.randrange(CLASSES)]:
        t[c] = 1
    return dict(k='line', t=t, how=rng.choice(['array', 'array', 'list', 'twice']))


def draw(rng, profile):
    faults = profile == 'C13'
    Ne = rng.choice([1, 2, 2, 2, 3])
    Nb = rng.choice([1, 1, 2, 2])
    remote = rng.random() < .5
    Nr = rng.choice([1, 2, 2, 3]) if remote else 0
    if remote and Nr < Nb:
        Nr = Nb
    mode = rng.choice(['coef', 'coef', 'time', 'time2'])
    nper, on, od, win = 1, 0, 1, []
    R = rng.choice([2, 4, 8, 3, 6])
    nruns = rng.choice([1, 1, 2, 2, 3])
    rates = [R] * nruns
    if mode == 'coef':
        f0 = [R, 4]
        wins = [rng.randint(2, 4) for _ in range(nruns)]
        if nruns == 1:
            wins = [rng.randint(4, 8)]
        lens = [4 * w for w in wins]
        extra = [rng.randint(0, 3) for _ in wins]
    else:
        f0 = rng.choice([[R, 4], [R, 2]])
        if mode == 'time2':
            nper = rng.choice([1, 1, 2])
            on, od = rng.choice([(0, 1), (1, 2), (1, 4), (71, 100)])
            if rng.random() < .3:
                win = [rng.randint(1, 2) for _ in range(8)]
            if rng.random() < .5:
                rates = [rng.choice([R, 2 * R]) for _ in rates]
                f0 = [R, 2]
        if [on, od] == [71, 100] and f0 == [R, 2] and nper == 1:
            on, od = 1, 2
        lens, extra = [], []
        for r in rates:
            L = nper * r * f0[1] // f0[0]
            s = max(1, L * (od - on) // od)
            lens.append(L + s * rng.randint(1, 5 if nruns > 1 else 8))
            extra.append(rng.randint(0, s - 1))
    N = sum(lens)
    small = Nb > 1
    T0 = matrix(rng, Nb, Nr, small) if remote else None
    Z0 = matrix(rng, Ne, Nb, small)
    if mode != 'coef':
        T0 = [[[x[0] + x[1], 0] for x in row] for row in T0] if remote else None
        Z0 = [[[x[0] + x[1], 0] for x in row] for row in Z0]
    marked = []

    def noise(lines, outliers, rich):
        for line in lines:
            if rich:
                v = rng.random()
                if v < .6:
                    for i in range(0, len(line) - 1, 2):
                        d = [rng.randint(-1, 1), rng.randint(-1, 1)] if mode == 'coef' else [rng.randint(-1, 1), 0]
                        line[i] = [line[i][0] + d[0], line[i][1] + d[1]]
                        line[i + 1] = [line[i + 1][0] - d[0], line[i + 1][1] - d[1]]
                else:
                    for i in range(len(line)):
                        if rng.random() < .4:
                            line[i] = [line[i][0] + rng.randint(-1, 1), line[i][1]]
            for _ in range(outliers):
                i = rng.randrange(len(line))
                line[i] = [line[i][0] + rng.choice([-3, 2, 3, 1]), line[i][1]]
                if mode == 'coef':
                    marked.append(int(line[i][0] + 3 * line[i][1]) % CLASSES)

    count = sum(wins) if mode == 'coef' else N
    top = 1 if mode == 'coef' or small else 2

    def fresh(n):
        out = [[[rng.randint(-top, top), rng.randint(-top, top) if mode == 'coef' else 0] for _ in range(count)]
               for _ in range(n)]
        if pairs:
            for line in out:
                for i in range(0, count - 1, 2):
                    line[i + 1] = list(line[i])
        return out
    rich = rng.random() < .55
    rrich = rng.random() < .3
    pairs = mode == 'coef' and rng.random() < .7
    outl = rng.choice([0, 1, 1, 2])
    lines = {}
    if remote:
        lines['R'] = fresh(Nr)
        lines['B'] = combine(T0, lines['R'])
        noise(lines['B'], rng.choice([0, 0, 0, 1]), rrich and rng.random() < .8)
    else:
        lines['B'] = fresh(Nb)
    mb, marked[:] = list(marked), []
    lines['E'] = combine(Z0, lines['B'])
    noise(lines['E'], outl, rich)
    own = remote and rng.random() < .1 and Nr == Nb
    # channels in any order, with some others
    kinds = [('E', i) for i in range(Ne)] + [('B', i) for i in range(Nb)]
    kinds += [] if own else [('R', i) for i in range(Nr)]
    kinds += [('X', i) for i in range(rng.choice([0, 0, 1]))]
    rng.shuffle(kinds)
    names = rng.choice([['E', 'B', 'R'], ['E', 'B', 'Bremote'], ['elec', 'mag', 'far']])
    at = {k: i for i, k in enumerate(kinds)}
    elec = [at['E', i] for i in range(Ne)]
    mag = [at['B', i] for i in range(Nb)]
    rem = [] if not remote else mag[:] if own else [at['R', i] for i in range(Nr)]
    tags = {names[0]: elec, names[1]: mag}
    if remote:
        tags[names[2]] = rem
    if rng.random() < .3:
        tags['other'] = [rng.randrange(len(kinds))]
    runs, t, a = [], rng.randint(-500, 500), 0
    for j, (rate, L) in enumerate(zip(rates, lens)):
        y = []
        for kind, i in kinds:
            if kind == 'X':
                y.append([rng.randint(-3, 3) for _ in range(L + extra[j])])
            elif mode == 'coef':
                y.append(samples_of(rng, lines[kind][i][a:a + wins[j]], extra[j]))
            else:
                y.append([v[0] for v in lines[kind][i][a:a + L]] + [rng.randint(-2, 2) for _ in range(extra[j])])
        a += wins[j] if mode == 'coef' else L
        n = L + extra[j]
        runs.append(dict(start=t, rate=rate, n=n, y=y))
        t += (n * TICKS) // rate + rng.choice([0, 0, 7, 500])
    gs = [rng.choice(UNITS + [[1, 0]] * 4 + ([[2, 0]] if not small else [])) for _ in kinds]
    cals = [list(gs) for _ in runs]
    if rng.random() < .1:
        cals[rng.randrange(len(runs))] = [rng.choice(UNITS) for _ in kinds]
    # frequencies
    good = [f0] + ([[R, 4]] if f0 == [R, 2] and rng.random() < .4 else []) + \
        ([[R, 2]] if f0 == [R, 4] and set(rates) == {R} and rng.random() < .4 else [])
    bad = [[R, 1], [R, 64], [2 * R, 1], [0, 1], [-R, 4], [3 * R, 5]]
    noval = []
    freqs = list(good)
    if faults or rng.random() < .2:
        freqs += [rng.choice(bad) for _ in range(rng.choice([0, 1, 1, 2]))]
        freqs += [rng.choice(good) for _ in range(rng.choice([0, 0, 1]))]
        if rng.random() < .2:
            noval = [rng.choice(freqs)]
        rng.shuffle(freqs)
    if faults and rng.random() < .05:
        freqs = []
    elif faults and rng.random() < .1:
        freqs = [rng.choice(bad)]
    freqs = [reduce_(f) for f in freqs]
    noval = [reduce_(f) for f in noval]
    realpb = rng.random() < .12
    wfs = weightings(rng, rich and not realpb and (Nb == 1 or mode == 'coef'), count)
    rwfs = weightings(rng, rrich and not realpb and (Nr == 1 or mode == 'coef'), count) if remote and rng.random() < .6 else []
    pf = prefilter(rng, marked[:2] if rng.random() < .8 else [])
    rpf = dict(k='same')
    if remote and rng.random() < .6:
        rpf = prefilter(rng, mb[:1])
        if rpf['k'] == 'none':
            rpf = dict(k='line', t=[0] * CLASSES)
    if faults:
        ns = [rng.choice([sum(wins) if mode == 'coef' else 4, 3, 4, 5, 6, 8])]
        x = rng.random()
        who = rng.choice(['m', 'm', 'r'])
        f = dict(k='failn', n=ns[0], exc=rng.choice(['key', 'value'])) if rng.random() < .8 else dict(k='fail', exc='value')
        g = dict(k='failn', n=ns[0]) if rng.random() < .8 else dict(k='fail', at=rng.randint(0, 1))
        if x < .3:
            if who == 'm':
                pf = f
            elif remote:
                rpf = f
        elif x < .55 and not realpb:
            if who == 'm':
                wfs = wfs + [g]
            elif remote:
                rwfs = (rwfs or [dict(k='none')]) + [g]
        elif x < .65:
            t = dict(k='line', t=[1] * CLASSES, how='array')    # nothing left
            if who == 'm':
                pf = t
            elif remote:
                rpf = t
        elif x < .75:       # singular inputs at some frequencies
            c = rng.choice(rem or mag)
            flat = rng.random() < .5
            for r in runs:
                r['y'][c] = [rng.choice([0, 1])] * r['n'] if flat else [1, -1] * (r['n'] // 2) + [1] * (r['n'] % 2)
    explicit = rng.random() < .7
    opts = dict(tn=1, td=rng.choice([2, 4, 10]), maxit=rng.choice([1, 2, 3, 6, 20]),
                eps=rng.choice([0, 0, 1])) if explicit else dict(tn=1, td=100, maxit=100, eps=0)
    q = dict(runs=runs, cals=cals, noval=noval, elec=[i + 1 for i in elec], mag=[i + 1 for i in mag],
             rem=[i + 1 for i in rem], nper=nper, on=on, od=od, win=win, wfs=wfs, rwfs=rwfs, pf=pf, rpf=rpf,
             opts=opts)
    return dict(op='impedance', q=q, freqs=freqs, silent=rng.random() < (.6 if faults else .8), keep=rng.random() < .75,
                realpb=realpb, names=names, tags=tags, tup=rng.random() < .5, explicit=explicit,
                dtype=rng.choice(['f8', 'f8', 'i4', 'i2', 'f4']), lazy=rng.choice([0, 0, 5, 64]),
                badchan=[rng.randrange(len(runs)), rng.randrange(len(kinds))], calkind=rng.choice(['const', 'fun']),
                calhow=rng.choice(['none', 'raise']), shuffle=rng.randint(0, 99),
                wseq=rng.choice(['list', 'tuple', 'Weights']), defw=rng.random() < .5, remkw=rng.random() < .5,
                fform=rng.choice(['list', 'list', 'array', 'iter']), **zoom_and_base(rng))


def zoom_and_base(rng):
    zoom = rng.choice([1, 1, 1, 64, 1024, 8192, 1 / 64])
    return dict(zoom=zoom, base=rng.choice([0, 0, 86400.] + [1.4e9] * (zoom >= 1)))


def lines_at(q, f):
    """coefficients of all channels at f, as in the specification"""
    K = 2 * q['nper']
    out = None
    for r, g in zip(q['runs'], q['cals']):
        L = q['nper'] * r['rate'] * f[1] // f[0]
        s = L * (q['od'] - q['on']) // q['od']
        if s < 1 or r['n'] < L + s or f[0] * 4 % (r['rate'] * f[1]) or 2 * f[0] > r['rate'] * f[1]:
            return None
        k = np.arange(L) * (4 * f[0] // (r['rate'] * f[1])) % 4
        x = np.array([1, -1j, -1, 1j])[k] * (np.array(q['win'][:L]) if q['win'] else 1) * (2 * K // L)
        c = [[complex(*gc) * np.dot(x, y[a:a + L]) for a in range(0, r['n'] - L + 1, s)] for y, gc in zip(r['y'], g)]
        out = c if out is None else [u + v for u, v in zip(out, c)]
    return out


def affordable(q, freqs):
    plain = all(w['k'] == 'none' for w in q['wfs']), all(w['k'] == 'none' for w in q['rwfs'] or q['wfs'])

    def stage(es, xs, plain, en):
        m = max([en[i] for i in es + xs])
        if plain:
            return m <= {1: 2.5e8, 2: 22000}.get(len(xs), 600)
        p = 2 ** (2 * len(xs) + 3) * max(16, q['opts']['td'])
        for i in xs:
            p *= (en[i] + 2) ** 2
        return all(p * (en[i] + 2) < 2e9 for i in es)
    for f in freqs:
        c = lines_at(q, f) if f[0] > 0 else None
        if c is None:
            continue
        en = {i + 1: sum(abs(v) ** 2 for v in line) for i, line in enumerate(c)}
        if not stage(q['elec'], q['mag'], plain[0], en):
            return False
        if q['rem'] and not stage(q['mag'], q['rem'], plain[1], en):
            return False
    return True


def reduce_(f):
    from math import gcd
    g = gcd(f[0], f[1]) or 1
    return [f[0] // g, f[1] // g]


# ---------------------------------------------------------------------------
# centre times, for windows of any length
TRATES = [1, 2, 3, 4, 5, 6, 8, 10]
TTICKS = 240


def certain(n, p, m, rate, f, nper, on, od):
    """window length and shift, None if rounding matters or they are refused"""
    from fractions import Fraction
    if p <= 0 or 2 * p > m:
        return None
    x = Fraction(nper * m, p)
    L = -(-x.numerator // x.denominator)
    if x.denominator == 1 and {nper / (p / m), nper / (f / rate), nper * rate / f, nper * (rate / f)} != {L}:
        return None
    s = L * (od - on) // od
    if int(float(L) * (1 - on / od)) != s or s < 1 or n < L + s:
        return None
    return L, s


def draw_times(rng):
    while True:
        f = rng.choice([[1, 2], [1, 4], [2, 3], [1, 7], [3, 10], [1, 1], [1, 12], [2, 15], [5, 4], [2, 1]])
        nper, (on, od) = rng.choice([1, 2, 3, 3, 4, 8]), rng.choice([(0, 1), (1, 2), (1, 4), (3, 4), (71, 100), (1, 3)])
        runs, t = [], rng.randint(-500, 500) * (TTICKS // 4)
        for _ in range(rng.choice([1, 1, 2, 3])):
            rate, n = rng.choice(TRATES), rng.randint(20, 160)
            runs.append(dict(start=t, rate=rate, n=n, p=f[0], m=f[1] * rate))
            t += (n * TTICKS) // rate + rng.choice([0, 60, 240, 6000])
        geo = [certain(r['n'], r['p'], r['m'], r['rate'], f[0] / f[1], nper, on, od) for r in runs]
        if None in geo:
            continue
        count = sum((r['n'] - L) // s + 1 for r, (L, s) in zip(runs, geo))
        if 5 <= count <= 300:
            break
    rej = sorted(rng.sample(range(count), rng.randint(0, min(count - 4, 12))))
    return dict(op='times', runs=runs, f=f, nper=nper, on=on, od=od, rej=rej, ne=rng.choice([1, 2, 3]), nb=rng.choice([1, 2]),
                seed=rng.randrange(10 ** 6), shuffle=rng.randint(0, 99), **zoom_and_base(rng))


def execute_times(op):
    import razorback as rb
    from razorback.utils import impedance
    r = np.random.RandomState(op['seed'])
    ne, nb = op['ne'], op['nb']
    sigs = [rb.SyncSignal([r.standard_normal(x['n']) for _ in range(ne + nb)], x['rate'] / op.get('zoom', 1),
                          op['base'] + x['start'] * op.get('zoom', 1) / TTICKS)
            for x in op['runs']]
    random.Random(op['shuffle']).shuffle(sigs)
    data = rb.SignalSet(rb.Tags(ne + nb, E=tuple(range(ne)), B=tuple(range(ne, ne + nb))), *sigs)
    kept = []

    def prefilter(e, b):
        kept.append(len(e))
        return np.array(op['rej'], dtype=int)
    ev = {k: op[k] for k in ('op', 'runs', 'nper', 'on', 'od', 'rej', 'ne')}
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            res = impedance(data, [op['f'][0] / op['f'][1] / op.get('zoom', 1)], weights=[None], prefilter=prefilter, silent_fail=False,
                            fourier_opts=dict(Nper=op['nper'], overlap=op['on'] / op['od'], window=None), keep_invalid_times=True)
        tick = lambda v: int(round(v)) if np.isfinite(v) and abs(v - round(v)) < 2e-3 and abs(v) < 1e9 else -999999999
        ev.update(ok=True, counts=kept,
                  ivt=[[tick((x - op['base']) / op.get('zoom', 1) * TTICKS) for x in np.atleast_1d(line)] for line in res.invalid_time[0]])
    except Exception as ex:
        execute_times.last = ex
        ev.update(ok=False, counts=kept, ivt=[])
    return ev


def execute(op):
    return execute_times(op) if op['op'] == 'times' else execute_op(op)


def generate(profile, seed, k):
    rng = random.Random('imp/%s/%s/%s' % (profile, seed, k))
    if profile == 'times':
        op = draw_times(rng)
        return {'script': [op]}, [execute_times(op)]
    while True:
        op = draw(rng, profile)
        q = op['q']
        if not affordable(q, op['freqs']) and not (
                rng.random() < .7 and affordable(dict(q, wfs=[dict(k='none')], rwfs=[]), op['freqs'])):
            continue
        if not affordable(q, op['freqs']):
            q.update(wfs=[dict(k='none')], rwfs=[])
        ev = execute_op(op)
        if not ev.pop('near'):
            return {'script': [op]}, [ev]


def truncate(case, l):
    return case


def replay(case):
    out = []
    for op in case['script']:
        ev = execute(op)
        ev.pop('near', None)
        out.append(ev)
    return out
