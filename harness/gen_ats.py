"""Recordings loaded from ATS files, and what is computed from them together."""
import os
import pathlib
import random
import shutil
import struct
import tempfile
import warnings

import numpy as np

from world import make_cal, cal_id

TRACE_MODULE, TRACE_CFG = 'TraceAts', 'Trace.cfg'
BAD = -999999937
# scale factors are multiples of one of these
UNITS = [2.0 ** -20, 2.0 ** -20, 1.2345678912345e-5, 1 / 3, 9.999999e-4, 1.0]
RATE = 64               # rates are multiples of 1/RATE
DIRS = ['a', 'b', 'a/deep', 'x[1]', 'with space', 'été']
NAMES = ['ch0.ats', 'ch1.ats', 'Ex [2].ats', 'array-1234.ats', 'a', '085_V01_C00_R000_TEx_BL_128H.ats']


def write_ats(path, op):
    head = struct.pack('<hhifid', op['hlen'], 80, op['ann'], op['rate'] / RATE, op['start'],
                       op['m'] * UNITS[op['unit']])
    body = np.asarray(op['vals'], dtype='<i4').tobytes()
    n = op['hlen'] - len(head)
    raw = head + bytes((7 * i + op['m']) % 251 for i in range(max(n, 0)))
    raw = raw[:max(op['hlen'], len(head))]
    raw += body + b'\x01' * op['extra']
    raw = raw[:op['bytes']]
    with open(path, 'wb') as f:
        f.write(raw)
    assert len(raw) == op['bytes'], (len(raw), op)


def enc(a, unit, size=0.):
    """the integers that are multiplied by a unit; size: what rounding is relative to"""
    out = []
    for v in np.asarray(a).ravel().tolist():
        x = v / unit
        if x != x or abs(x) >= 2**31 - 1:
            out.append(BAD)
            continue
        r = round(x)
        out.append(int(r) if abs(x - r) <= 2e-15 * max(abs(x), size / unit) else BAD)
    return out


class World:
    def __init__(self):
        self.home = os.getcwd()
        self.root = os.path.realpath(tempfile.mkdtemp(prefix='ats', dir=self.home))
        for d in DIRS:
            os.makedirs(os.path.join(self.root, d))
        self.paths, self.recs, self.unit = [], [], 0

    def close(self):
        os.chdir(self.home)
        shutil.rmtree(self.root, ignore_errors=True)

    def name(self, i, form):
        p = os.path.join(self.root, 'nowhere.ats') if i == 0 else self.paths[i - 1]
        if form == 'abs':
            return p
        if form == 'path':
            return pathlib.Path(os.path.relpath(p))
        if form == 'link':
            q = os.path.join(self.root, 'link%d' % i)
            if not os.path.lexists(q):
                os.symlink(p, q)
            return os.path.relpath(q)
        if form == 'dot':
            return os.path.join('.', os.path.relpath(p))
        return os.path.relpath(p)

    def sets(self, op):
        import razorback as rb
        out = []
        for j, r in enumerate(op['rs']):
            rec = self.recs[r - 1]
            n = len(rec.data)
            pre = 'ABCDEF'[j] if op['op'] == 'merge' else 'T'
            out.append(rb.SignalSet({'%s%d' % (pre, i): i for i in range(n)}, rec))
        return out

    def do(self, op, ev):
        import dask
        import razorback as rb
        from razorback.io import ats
        o, u = op['op'], UNITS[self.unit]
        if o == 'file':
            self.unit = op['unit']
            p = os.path.join(self.root, op['dir'], op['name'])
            write_ats(p, op)
            self.paths.append(p)
        elif o in ('load', 'loaddir'):
            os.chdir(os.path.join(self.root, op['cwd']))
            with dask.config.set({'array.chunk-size': '%d B' % op['chunk']}), \
                    warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                if o == 'loaddir':
                    d = os.path.join(self.root, op['dir'])
                    res = ats.load_ats_from(os.path.relpath(d) if op['form'] == 'rel' else d)
                else:
                    names = [self.name(i, op['form']) for i in op['fs']]
                    cals = [make_cal(c) for c in op['cals']]
                    if op['ncal'] == 0:
                        res = rb.io.load_ats(names)
                    else:
                        res = rb.io.load_ats(tuple(names) if op['chunk'] % 2 else names, cals)
                ev['warn'] = len(w) > 0
            os.chdir(self.home)
            if o == 'loaddir':
                ev['vals'] = [enc(d, u) for d in res.data]
                return
            ev['start'] = int(res.start) if res.start == int(res.start) else BAD
            r = res.sampling_rate * RATE
            ev['rate'] = int(r) if r == int(r) else BAD
            ev['n'], ev['nch'] = int(res.size), len(res.data)
            ev['rcals'] = [cal_id(c) for c in res.calibrations]
            if any(tuple(d.shape) != (res.size,) for d in res.data):
                ev['n'] = BAD
            self.recs.append(res)
        elif o == 'read':
            d = self.recs[op['r'] - 1].data[op['c'] - 1]
            ev['vals'] = enc(d[op['lo']:op['hi']], u)
        elif o == 'all':
            ev['vals'] = [[enc(x, u) for x in ds]
                          for ds in dask.compute([list(self.recs[r - 1].data) for r in op['rs']])[0]]
        elif o == 'diff':
            x = self.recs[op['r'] - 1].data[op['c'] - 1]
            y = self.recs[op['r2'] - 1].data[op['c2'] - 1]
            n = min(len(x), len(y))
            ev['vals'] = enc(x[:n] - y[:n], u, max([0.] + [abs(float(v)) for a in (x, y) for v in np.asarray(a).tolist()]))
        elif o == 'merge':
            sets = self.sets(op)
            res = sets[0].merge(*sets[1:])
            if res.nb_runs:
                run, = res.signals
                ev['vals'] = [enc(x, u) for x in dask.compute(*run.data)]
                ev['rcals'] = [cal_id(c) for c in run.calibrations]
        elif o == 'join':
            sets = self.sets(op)
            res = sets[0].join(*sets[1:])
            ev['vals'] = [[enc(x, u) for x in r]
                          for r in dask.compute([list(r.data) for r in res.signals])[0]]
            ev['rcals'] = [[cal_id(c) for c in r.calibrations] for r in res.signals]

    def run(self, op):
        o = op['op']
        if o == 'file':
            ev = dict(op='file', file={k: op[k] for k in ('bytes', 'hlen', 'start', 'rate', 'ann', 'm', 'vals')})
            self.do(op, ev)
            return ev
        ev = {k: v for k, v in op.items() if k not in ('cwd', 'form', 'chunk', 'dir')}
        ev.update(ok=True, vals=[], rcals=[])
        if o == 'load':
            ev.update(start=0, rate=0, n=0, nch=0, warn=False)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.do(op, ev)
        except Exception as ex:
            self.last_error = ex
            ev.update(ok=False, vals=[], rcals=[])
        finally:
            os.chdir(self.home)
        return ev


def generate(profile, seed, k):
    rng = random.Random('ats/%s/%s' % (seed, k))
    w = World()
    script, events = [], []
    unit = rng.randrange(len(UNITS))

    def do(**op):
        script.append(op)
        events.append(w.run(op))
        return events[-1]

    try:
        files, taken = [], set()
        clocks = [(rng.choice([0, 1, 1400000000, 2**31 - 1 - 10**6, -5]) + 1000 * j,
                   rng.choice([32, 64, 128, 8192, 33554432, 1, 3])) for j in range(2)]
        x = rng.random()
        if x < .2:          # nearly alike
            clocks[1] = clocks[0][0] + 1, clocks[0][1]
        elif x < .4 and clocks[0][1] <= 8192:
            clocks[1] = clocks[0][0], clocks[0][1] + 1
        n0 = rng.choice([1, 2, 3, 5, 9, 17])
        names = rng.sample(NAMES, rng.randint(1, 3))
        dirs = rng.sample(DIRS, rng.randint(1, 3))
        for _ in range(rng.randint(2, 6)):
            free = [(d, n) for d in dirs for n in names if (d, n) not in taken]
            if not free:
                break
            d, name = rng.choice(free)
            taken.add((d, name))
            start, rate = clocks[rng.random() < .25]
            n = n0 if rng.random() < .8 else rng.choice([0, 1, 2, 5, 9])
            extra = rng.choice([0, 0, 0, 1, 3])
            hlen = rng.choice([1024, 1024, 1024, 1026, 1100, 2048])
            if rng.random() < .02:
                hlen = rng.choice([24, 100, 1023])
            m = rng.choice([1, 2, 3, 5, -1, 7])
            vals = [rng.choice([rng.randint(-2**27, 2**27), rng.randint(-9, 9)]) for _ in range(n)]
            if abs(m) == 1 and n and rng.random() < .3:
                vals[rng.randrange(n)] = rng.choice([2**30 - 1, -2**30 + 1])
            size = hlen + 4 * n + extra
            if rng.random() < .02:
                size = rng.choice([0, 1, 24, 600, 1024, 1027])
                n = 0
                vals = []
                hlen = 1024
                extra = max(0, size - hlen)
            ann = rng.choice([n] * 8 + [n + 1, n + 100, max(n - 1, 0), n0])
            if rng.random() < .02:
                ann = rng.choice([0, -1])
            vals_ok = vals
            do(op='file', dir=d, name=name, hlen=hlen, ann=ann, start=start, rate=rate, m=m,
               vals=vals_ok, unit=unit, extra=extra, bytes=size)
            files.append(dict(start=start, rate=rate, n=min(n, ann), dir=d, name=name))
        recs = []
        for _ in range(rng.randint(3, 9)):
            x = rng.random()
            if not recs or x < .45:
                lead = rng.randrange(len(files))
                alike = [i + 1 for i, f in enumerate(files)
                         if all(f[q] == files[lead][q] for q in ('start', 'rate', 'n'))]
                fs = rng.sample(alike, rng.randint(1, len(alike)))
                if rng.random() < .25:
                    fs.insert(rng.randint(0, len(fs)), rng.randint(0 if rng.random() < .2 else 1, len(files)))
                if rng.random() < .02:
                    fs = []
                ncal = rng.choice([0, len(fs)])
                if rng.random() < .05:
                    ncal = rng.randint(1, 4)
                form = rng.choice(['abs', 'rel', 'rel', 'rel', 'dot', 'path', 'link'])
                cwd = rng.choice(DIRS)
                if form == 'rel' and fs and fs[0] and rng.random() < .6:
                    cwd = files[fs[0] - 1]['dir']
                ev = do(op='load', fs=fs, ncal=ncal, cals=[rng.randint(2, 30) for _ in range(ncal)],
                        cwd=cwd, form=form, chunk=rng.choice([16, 17, 40, 10**6]))
                if ev['ok']:
                    recs.append(dict(start=ev['start'], rate=ev['rate'], n=ev['n'], nch=ev['nch']))
                    if 0 in fs or not fs or recs[-1]['n'] <= 0:
                        break
                continue
            if x < .52:
                d = rng.choice(dirs)
                do(op='loaddir', dir=d, cwd=rng.choice(DIRS), form=rng.choice(['abs', 'rel']), chunk=40,
                   fs=[i + 1 for i, f in enumerate(files) if f['dir'] == d and f['name'].endswith('.ats')])
                continue
            a = rng.randrange(len(recs))
            if x < .62:
                lo = rng.randint(0, recs[a]['n'])
                do(op='read', r=a + 1, c=rng.randint(1, recs[a]['nch']), lo=lo,
                   hi=rng.randint(lo, recs[a]['n']))
            elif x < .72:
                do(op='all', rs=[i + 1 for i in rng.sample(range(len(recs)), rng.randint(1, len(recs)))])
            elif x < .82:
                b = rng.randrange(len(recs))
                do(op='diff', r=a + 1, c=rng.randint(1, recs[a]['nch']), r2=b + 1,
                   c2=rng.randint(1, recs[b]['nch']))
            elif x < .92:
                same = [i for i, r in enumerate(recs)
                        if (r['start'], r['rate']) == (recs[a]['start'], recs[a]['rate'])]
                rs = rng.sample(same, rng.randint(1, min(len(same), 4)))
                if len(rs) > 1:
                    do(op='merge', rs=[i + 1 for i in rs])
            else:
                rs = []
                for i in rng.sample(range(len(recs)), len(recs)):
                    if recs[i]['nch'] == recs[a]['nch'] and recs[i]['n'] * RATE / recs[i]['rate'] < 900 \
                            and all(abs(recs[i]['start'] - recs[j]['start']) > 900 for j in rs):
                        rs.append(i)
                if len(rs) > 1:
                    do(op='join', rs=[i + 1 for i in rs])
    finally:
        w.close()
    return {'script': script}, events


def truncate(case, l):
    return {'script': case['script'][:l]}


def replay(case):
    w = World()
    events = []
    try:
        for op in case['script']:
            used = op.get('rs', []) + [op[q] for q in ('r', 'r2') if q in op]
            if used and max(used) > len(w.recs):
                break
            events.append(w.run(op))
    finally:
        w.close()
    return events
