"""Calibration files of Metronix and Phoenix devices."""
import atexit
import cmath
import math
import os
import random
import shutil
import tempfile

TRACE_MODULE, TRACE_CFG = 'TraceCal', 'TraceCal.cfg'
BAD = -999999937
# alpha and the frequencies f making (f, alpha) of integer length
PYTH = {3: [4], 4: [3], 6: [8], 8: [6, 15], 12: [5, 9, 16, 35], 24: [7, 10, 18, 32, 45], 15: [8, 20, 36]}
DIRS = ['site', 'site', 'MFS06', 'MFS07 site']
_dir = None


def scratch():
    global _dir
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix='cal', dir=os.getcwd())
        atexit.register(shutil.rmtree, _dir, True)
    return _dir


def num(rng, x):
    s = rng.choice(['%r', '%+.10E', '%.12g']) % x
    return s if float(s) == x else repr(x)


def metronix_text(op, u):
    rng = random.Random(op['fmt'])
    out = []
    for l in op['lines']:
        if l['k'] == 'mark':
            s = 'Chopper On' if l['on'] else 'Chopper Off'
            s = rng.choice([s, s.lower(), s.upper(), s.replace(' ', '   '), '  ' + s, s + ' :'])
        elif l['k'] == 'row':
            s = rng.choice(['\t', '  ', ' ']).join(num(rng, float(x)) for x in (l['f'] * u, l['m'], l['ph']))
            s = rng.choice(['', ' ']) + s
        elif l['k'] == 'blank':
            s = rng.choice(['', '   '])
        else:
            s = rng.choice(['Metronix GmbH', 'FREQUENCY  MAGNITUDE  PHASE', 'Hz V/(nT*Hz) deg', 'Date: 01/02/14',
                            'The Chopper On table'])
        out.append(s)
    return '\n'.join(out) + rng.choice(['', '\n'])


def phoenix_text(op, u):
    rng = random.Random(op['fmt'])
    head = ['2014/01/01', '1234', 'E', str(op['nch'])]
    lines = [', '.join(head) + rng.choice(['', ',', ', ,'])]
    if rng.random() < .4:
        lines.append('Frequency, Level, ' + ', '.join('re, im' for _ in range(op['nch'])))
    for r in op['rows']:
        v = [r['f'] * u, r['lev']] + [x for c in r['ch'] for x in c]
        lines.append(rng.choice([',', ', ']).join(num(rng, float(x)) if i != 1 else str(x)
                                                  for i, x in enumerate(v)))
    return '\n'.join(lines) + '\n'


def decode(v, d, u):
    """v = (re + i im) / d * u ?"""
    try:
        z = complex(v)
        a, b = z.real * d / u, z.imag * d / u
        ra, rb = round(a), round(b)
        tol = 1e-6 + 1e-9 * max(abs(a), abs(b))
        if abs(a - ra) > tol or abs(b - rb) > tol or max(abs(ra), abs(rb)) > 10**6:
            return False, 0, 0
        return True, ra, rb
    except Exception:
        return False, 0, 0


class World:
    """files may be written again, under the same names"""

    def __init__(self):
        self.root = tempfile.mkdtemp(dir=scratch())

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def run(self, op):
        import razorback as rb
        cal = rb.calibrations
        u = op['un'] / op['ud']
        d = os.path.join(self.root, op['dir'])
        os.makedirs(d, exist_ok=True)
        ev = {k: v for k, v in op.items() if k not in ('fmt', 'where', 'name', 'dir', 'un', 'ud', 'custom')}
        ev['nf'] = ev['wantnf'] = 1
        old = os.getcwd()
        try:
            if op['op'] == 'metronix':
                arg = op['name']
                if op['where'] == 'local':
                    os.makedirs(os.path.join(d, 'data', 'metronix_calibration'), exist_ok=True)
                    path = os.path.join(d, 'data', 'metronix_calibration', op['name'])
                else:
                    path = arg = os.path.join(d, op['name'])
                with open(path, 'w') as f:
                    f.write(metronix_text(op, u))
                kw = {}
                if op['custom']:
                    kw['alpha_map'] = {'MFS06': op['alpha'] * u, 'MFS07': 77., 'MFS06e': 1.}
                    if op['alpha'] == 0:
                        kw['alpha_map'] = {'MFS05': 1.}
                if op['limit'] != 512000:
                    kw['chopper_on_limit'] = op['limit'] / 1000
                os.chdir(d)
                fs = [cal.metronix(arg, op['rate'] / 1000, **kw)]
            else:
                path = os.path.join(d, 'x.cts')
                with open(path, 'w') as f:
                    f.write(phoenix_text(op, u))
                fs = cal.phoenix(path, op['lev'])
                ev['nf'], ev['wantnf'] = len(fs), op['nch']
            ev['ok'] = True
        except Exception as ex:
            self.last_error = ex
            ev['ok'] = False
            fs = []
        finally:
            os.chdir(old)
        out = []
        for x in op['ev']:
            x = dict(x)
            try:
                v = fs[x['c'] - 1](x['f'] * u) if ev['ok'] else None
                x['ok'] = ev['ok']
            except Exception:
                x['ok'] = False
            x['exact'], x['re'], x['im'] = decode(v, x['d'], u if op['op'] == 'metronix' else 1) \
                if x['ok'] else (False, 0, 0)
            out.append(x)
        ev['ev'] = out
        return ev


def points(rng, fs, extra):
    """frequencies to evaluate with the denominator their value needs"""
    out = []
    fs = sorted(set(fs))
    for _ in range(rng.randint(2, 6)):
        x = rng.random()
        if x < .3:
            out.append((rng.choice(fs), 1))
        elif x < .7 and len(fs) > 1:
            i = rng.randrange(len(fs) - 1)
            out.append((rng.randint(fs[i], fs[i + 1]), fs[i + 1] - fs[i]))
        elif x < .8:
            out.append((fs[-1] + rng.randint(1, 5), 1))
        elif x < .88 and fs[0] > 1:
            out.append((rng.randint(1, fs[0] - 1), 1))
        else:
            out += extra
    return out


def metronix_op(rng):
    alpha = rng.choice(list(PYTH))
    fa = rng.choice(PYTH[alpha])
    tables = {}
    for on in (True, False):
        n = rng.randint(2, 5)
        f0 = fa + rng.randint(0, 4) if rng.random() < .8 else rng.randint(1, 40)
        fs = sorted(rng.sample(range(f0, f0 + 40), n))
        tables[on] = [dict(k='row', f=f, m=rng.randint(1, 9), ph=rng.choice([0, 90, 180, -90, 270]))
                      for f in fs]
    B, T = dict(k='blank'), dict(k='text')
    lines = [dict(T) for _ in range(rng.randint(0, 3))]
    order = [True, False] if rng.random() < .7 else [False, True]
    if rng.random() < .08:
        order = [rng.choice(order)]
    for on in order:
        lines += [dict(B)] * rng.randint(0, 1) + [dict(k='mark', on=on)]
        if rng.random() < .03:
            lines.append(dict(T))
        lines += tables[on] + [dict(B)] * rng.randint(1, 2) + [dict(T)] * rng.randint(0, 1)
    if rng.random() < .4:
        while lines[-1]['k'] in ('blank', 'text'):
            lines.pop()
    limit = rng.choice([512000, 512000, 512000, 128000, 0, 1000])
    rate = rng.choice([limit, limit + 1, max(1, limit - 1), 2 * limit + 1, max(1, limit // 2),
                       511999, 512000, 512001, 64000, 4096000])
    name = rng.choice(['%s', 'cal_%s', '%s_021', 'x-%s-TYPE6 a']) + '.txt'
    ver = rng.choice(['MFS06', 'MFS06', 'MFS07', 'MFS08', 'FGS02', 'new']) if rng.random() < .5 else 'MFS06'
    custom = rng.random() < .5
    un, ud = 1, 1
    if custom:
        un, ud = rng.choice([(1, 1), (1, 10), (1000, 1), (1, 3), (7, 2)])
        if ver != 'MFS06':
            alpha = 0
        elif rng.random() < .05:
            alpha = 0
    else:
        a = {'MFS06': 4, 'MFS07': 32}.get(ver)
        if a:
            un, ud = a, alpha
        else:
            alpha = 0
    on = rate <= limit
    extra = []
    if alpha and fa < tables[on][0]['f']:
        extra = [(fa, math.isqrt(fa * fa + alpha * alpha))] * (2 if on else 1)
    ev = []
    for f, d in points(rng, [r['f'] for r in tables[on]], extra):
        h = math.isqrt(f * f + alpha * alpha)
        if h * h != f * f + alpha * alpha:
            if f < tables[on][0]['f'] and on:
                continue
            h = 1
        elif f < tables[on][0]['f'] and on:
            d = h
        ev.append(dict(f=f, c=1, h=h, d=d))
    return dict(op='metronix', lines=lines, rate=rate, limit=limit, alpha=alpha, name=name % ver,
                where=rng.choice(['abs', 'local']), dir=rng.choice(DIRS), custom=custom, un=un, ud=ud, ev=ev,
                fmt=rng.random())


def phoenix_op(rng):
    nch = rng.choice([1, 2, 2, 3, 5])
    levels = rng.sample([2, 3, 4, 5], rng.randint(1, 3))
    rows = []
    for lev in levels:
        for f in sorted(rng.sample(range(1, 60), rng.randint(2, 5)), reverse=rng.random() < .5):
            rows.append(dict(f=f, lev=lev, ch=[[rng.randint(-30, 30), rng.randint(-30, 30)]
                                               for _ in range(nch)]))
    if rng.random() < .3:
        rng.shuffle(rows)
    lev = rng.choice(levels) if rng.random() < .9 else rng.choice([1, 2, 3, 6])
    fs = [r['f'] for r in rows if r['lev'] == lev] or [5]
    ev = [dict(f=f, c=rng.randint(1, nch), h=1, d=d) for f, d in points(rng, fs, [])]
    un, ud = rng.choice([(1, 1), (1, 10), (7, 2), (100, 1)])
    return dict(op='phoenix', rows=rows, lev=lev, nch=nch, ev=ev, un=un, ud=ud, dir=rng.choice(DIRS), fmt=rng.random())


def generate(profile, seed, k):
    rng = random.Random('cal/%s/%s' % (seed, k))
    w = World()
    script = [metronix_op(rng) if rng.random() < .65 else phoenix_op(rng) for _ in range(3)]
    if rng.random() < .6:       # written again at the same place
        for op in script[1:]:
            op['dir'] = script[0]['dir']
            if op['op'] == script[0]['op'] == 'metronix' and op['alpha'] and script[0]['alpha'] and \
                    version(op) == version(script[0]):
                op.update(name=script[0]['name'], where=script[0]['where'])
    return {'script': script}, execute(script, w)


def version(op):
    return next((v for v in ('MFS06', 'MFS07') if v in op['name']), '')


def execute(script, w):
    try:
        return [w.run(op) for op in script]
    finally:
        w.close()


def truncate(case, l):
    return {'script': case['script'][:l]}


def replay(case):
    return execute(case['script'], World())
