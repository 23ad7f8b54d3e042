"""Recordings loaded from files that come, go and change, and the reading of their samples."""
import copy
import os
import random
import shutil
import tempfile
import warnings

import numpy as np

from gen_ats import write_ats, UNITS
from world import Clock, make_cal

TRACE_MODULE, TRACE_CFG = 'TraceLazy', 'Trace.cfg'
BAD = -999999937
UNIT = 4                # ticks per second
TRACK, VERSION = 1 << 20, 1 << 14
TAGS = ['Ex', 'Ey', 'Hx', 'Hy', 'Bz', 'E', 'H', 'R1_x', 'all']


def samples(f, ver):
    return [f['track'] * TRACK + ver * VERSION + i for i in range(f['n'])]


def segments(data):
    out = []
    for x in np.asarray(data).ravel().tolist():
        v = x / UNITS[0] if isinstance(x, (int, float)) else -1
        if v != v or v != int(v) or v < 0:
            v = -1
        v = int(v)
        tr, ver, ix = (v // TRACK, v % TRACK // VERSION, v % VERSION) if v >= 0 else (-1, 0, 0)
        if out and out[-1][:2] == [tr, ver] and out[-1][2] + out[-1][3] == ix:
            out[-1][3] += 1
        else:
            out.append([tr, ver, ix, 1])
    return out


class World:
    def __init__(self):
        import razorback as rb
        self.rb = rb
        self.home = os.getcwd()
        self.root = os.path.realpath(tempfile.mkdtemp(prefix='lazy', dir=self.home))
        self.clock = Clock(1400000000, UNIT)
        self.files, self.sets, self.last_error = [], [], None
        self.later = []

    def close(self):
        os.chdir(self.home)
        shutil.rmtree(self.root, ignore_errors=True)

    def path(self, f):
        return os.path.join(self.root, 'f%d.ats' % f)

    def write(self, f, ver):
        d = self.files[f - 1]
        write_ats(self.path(f) + '.new', dict(
            hlen=1024, ann=d['n'], rate=64 * UNIT // d['p'], start=1400000000 + d['s'] // UNIT, m=1,
            unit=0, vals=samples(d, ver), extra=0, bytes=1024 + 4 * d['n']))
        os.replace(self.path(f) + '.new', self.path(f) + ('.away' if d['away'] else ''))

    def shape(self, S):
        """what is known of a set without any sample"""
        runs = []
        for k, r in enumerate(S.signals):
            s, p, n = self.clock.tick(r.start), self.clock.period(r.sampling_rate), int(r.size)
            if (self.clock.tick(r.stop) != s + (n - 1) * p or any(tuple(d.shape) != (n,) for d in r.data)
                    or (S.sizes[k], S.starts[k], S.stops[k]) != (r.size, r.start, r.stop)
                    or len(r.calibrations) != len(r.data) or len(r.data) != S.nb_channels):
                s = BAD
            runs.append([s, p, n])
        str(S), repr(S)
        return {'n': int(S.nb_channels), 't': sorted([k, len(v)] for k, v in dict(S.tags).items()), 'r': runs}

    def names(self, S, op):
        return op['tags'] or sorted(S.tags)

    def do(self, op):
        import dask
        rb, o = self.rb, op['op']
        if o == 'load':
            names = [self.path(f) for f in op['fs']]
            with dask.config.set({'array.chunk-size': '%d B' % op['chunk']}):
                rec = rb.io.load_ats(names, [make_cal(c) for c in op['cals']] or None)
            tags = dict(op['tags'])
            return rb.Tags(len(names), **tags) | rec if op['form'] == 'or' else rb.SignalSet(tags, rec)
        S = self.sets[op['h'] - 1] if 'h' in op else None
        form = op.get('form')
        if o == 'channels':
            if form == 'attr' and len(op['tags']) == 1:
                return getattr(S, op['tags'][0])
            return S[list(op['tags'])] if form == 'get' else S.select_channels(op['tags'])
        if o == 'runs':
            return S[:, list(op['idx'])] if form == 'get' else S.select_runs(op['idx'])
        if o == 'extract':
            return S.extract_t(self.clock.time(op['a']), self.clock.time(op['b']), exclude=op['excl'])
        if o == 'join':
            sets = [self.sets[h - 1] for h in op['hs']]
            if form == 'op':
                res = sets[0]
                for x in sets[1:]:
                    res = res | x
                return res
            return sets[0].join(*sets[1:])
        if o == 'merge':
            sets = [self.sets[h - 1] for h in op['hs']]
            if form == 'op' and len(sets) == 2:
                return sets[0] & sets[1]
            return sets[0].merge(*sets[1:])
        if o == 'fuse':
            return S.merge_consecutive_runs()
        if o == 'copy':
            return copy.copy(S)
        if o == 'pack':
            return rb.Inventory([self.sets[h - 1] for h in op['hs']]).pack()
        if o == 'compute':
            want = {k: [[r.data[i] for i in S.tags[k]] for r in S.signals] for k in self.names(S, op)}
            if form == 'select':
                want = {k: [list(r.data) for r in S.select_channels(k).signals] if len(S.tags[k]) == 1 else v
                        for k, v in want.items()}
            if form == 'array':
                got = {k: [[np.asarray(d) for d in r] for r in v] for k, v in want.items()}
            else:
                got, = dask.compute(want)
            return [[k, [[segments(d) for d in r] for r in got[k]]] for k in sorted(got)]
        if o in ('fourier', 'later'):
            fo = dict(Nper=1, overlap=0, window=None)
            if op['tags']:
                S = S.select_channels(op['tags'])
            if o == 'later':
                fo['compute'] = False
            with np.errstate(all='ignore'):
                res, (nw, lw, shift) = S.fourier_coefficients(self.clock.rate(op['p']) / 2, **fo)
            if o == 'later':
                self.later.append(res)
            return [int(x) for x in nw]
        if o == 'now':
            dask.compute(*self.later[op['k'] - 1])
            return []
        raise RuntimeError(o)

    def run(self, op):
        o = op['op']
        ev = {k: v for k, v in op.items() if k not in ('form', 'chunk')}
        if o == 'file':
            d = {k: op[k] for k in ('s', 'p', 'n')}
            d.update(track=len(self.files) + 1, away=False)
            self.files.append(d)
            self.write(len(self.files), 0)
            return ev
        if o == 'move':
            d = self.files[op['f'] - 1]
            p = self.path(op['f'])
            if op['away'] != d['away']:
                os.rename(*((p, p + '.away') if op['away'] else (p + '.away', p)))
                d['away'] = op['away']
            return ev
        if o == 'rewrite':
            self.write(op['f'], op['ver'])
            return ev
        new = o in ('load', 'channels', 'runs', 'extract', 'join', 'merge', 'fuse', 'copy', 'pack')
        nlater = len(self.later)
        ok = True
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                res = self.do(op)
                val = self.shape(res) if new else res
        except Exception as ex:
            self.last_error = ex
            ok, val = False, {'n': 0, 't': [], 'r': []} if new else []
            del self.later[nlater:]
        if ok and new:
            self.sets.append(res)
        ev.update(ok=ok, res=val)
        return ev


def generate(profile, seed, k):
    rng = random.Random('lazy/%s/%s' % (seed, k))
    w = World()
    script, events = [], []
    geo = []            # what the sets look like, for the choice of operations

    def do(**op):
        script.append(op)
        ev = w.run(op)
        events.append(ev)
        if ev.get('ok') and isinstance(ev['res'], dict):
            geo.append(ev['res'])
        return ev

    try:
        # recordings: groups of files of one clock; groups follow, overlap or are apart
        groups, at, nf = [], 4 * rng.randint(0, 3), 0
        names = rng.sample(TAGS, len(TAGS))
        nch = rng.randint(1, 3)
        for g in range(rng.randint(1, 4)):
            p = rng.choice([4, 4, 4, 2, 1]) if g == 0 or rng.random() < .15 else groups[-1]['p']
            n = rng.choice([2, 3, 4, 5, 8, 12])
            if p < 4:
                n = max(n // (4 // p), 1) * (4 // p) + rng.choice([0, 0, 1])
            m = nch if rng.random() < .8 else rng.randint(1, 3)
            groups.append(dict(s=at, p=p, n=n, fs=list(range(nf + 1, nf + m + 1))))
            for _ in range(m):
                do(op='file', s=at, p=p, n=n)
            nf += m
            end = at + n * p
            x = rng.random()
            if x < .45:
                at = -(-end // 4) * 4
            elif x < .65:
                at = -(-end // 4) * 4 + 4 * rng.randint(1, 3)
            elif x < .85:
                at = at
            else:
                at = at + 4 * rng.randint(0, max((end - at) // 4, 1))
        away = set()
        old = []            # coefficients asked for
        for step in range(rng.randint(6, 16)):
            x = rng.random()
            if x < .18 and (geo or rng.random() < .2):
                f = rng.randint(1, nf)
                if f in away:
                    away.discard(f)
                    do(op='move', f=f, away=False)
                elif rng.random() < .7:
                    away.add(f)
                    do(op='move', f=f, away=True)
                else:
                    do(op='rewrite', f=f, ver=rng.randint(1, 60))
                continue
            if not geo or (x < .42 and len(geo) < 10):
                g = rng.choice(groups)
                fs = g['fs'] if rng.random() < .7 else rng.sample(g['fs'], rng.randint(1, len(g['fs'])))
                if rng.random() < .06:
                    fs = fs + [rng.randint(1, nf)]
                if away & set(fs) and rng.random() < .7:
                    for f in sorted(away & set(fs)):
                        away.discard(f)
                        do(op='move', f=f, away=False)
                c = rng.choice([0, 0, 0, 3])
                tags = [[names[(i + c) % len(names)], [i]] for i in range(len(fs))]
                if rng.random() < .45:
                    order = rng.sample(range(len(fs)), len(fs))
                    tags = [[names[(i + c) % len(names)], [j]] for i, j in enumerate(order)]
                if rng.random() < .3:
                    tags.append([names[(6 + c) % len(names)], rng.sample(range(len(fs)), rng.randint(1, len(fs)))])
                do(op='load', fs=fs, cals=[rng.randint(2, 30) for _ in fs] if rng.random() < .5 else [],
                   tags=tags, form=rng.choice(['or', 'set']), chunk=rng.choice([16, 40, 10**6]))
                continue
            gone = []
            if x < .84 and rng.random() < .35:      # out of reach during the operation
                gone = [f for f in range(1, nf + 1) if f not in away and rng.random() < .7]
                for f in gone:
                    do(op='move', f=f, away=True)
                away |= set(gone)
            back = gone if rng.random() < .7 else []
            h = rng.randrange(len(geo))
            G = geo[h]
            tags = [t[0] for t in G['t']]
            part = rng.sample(tags, rng.randint(1, len(tags))) if tags else []
            if x < .48:
                if part:
                    do(op='channels', h=h + 1, tags=part, form=rng.choice(['attr', 'get', '']))
            elif x < .52:
                if G['r']:
                    idx = [i for i in range(len(G['r'])) if rng.random() < .6] or [0]
                    do(op='runs', h=h + 1, idx=idx, form=rng.choice(['get', '']))
            elif x < .60:
                ends = [e for s, p, n in G['r'] for e in (s, s + (n - 1) * p, s + p, s + (n // 2) * p)] or [0]
                a, b = sorted([rng.choice(ends) + rng.choice([-1, 0, 0, 1]),
                               rng.choice(ends) + rng.choice([-1, 0, 0, 1])])
                excl = rng.random() < .3 and a < b
                do(op='extract', h=h + 1, a=a, b=b, excl=excl)
            elif x < .70:
                key = G['t']
                hs = [i for i in range(len(geo)) if geo[i]['t'] == key and i != h and (
                    rng.random() < .1 or all(r[0] + (r[2] - 1) * r[1] <= q[0] or q[0] + (q[2] - 1) * q[1] <= r[0]
                                             for r in geo[i]['r'] for q in G['r']))]
                hs = rng.sample(hs, min(len(hs), rng.randint(1, 2)))
                do(op='join', hs=[h + 1] + [i + 1 for i in hs], form=rng.choice(['op', '']))
            elif x < .77:
                hs = [i for i in range(len(geo)) if not {t[0] for t in geo[i]['t']} & set(tags) and i != h]
                hs = rng.sample(hs, min(len(hs), 1))
                do(op='merge', hs=[h + 1] + [i + 1 for i in hs], form=rng.choice(['op', '']))
            elif x < .80:
                do(op='fuse', h=h + 1)
            elif x < .81:
                do(op='copy', h=h + 1)
            elif x < .84:
                hs = rng.sample(range(len(geo)), rng.randint(1, min(3, len(geo))))
                if all(geo[i]['t'] for i in hs):
                    do(op='pack', hs=[i + 1 for i in hs])
            elif x < .93:
                do(op='compute', h=h + 1, tags=part if rng.random() < .5 else [],
                   form=rng.choice(['', 'select', 'array']))
            elif G['r'] and len({r[1] for r in G['r']}) == 1:
                o = rng.choice(['fourier', 'later'])
                ev = do(op=o, h=h + 1, tags=part if rng.random() < .5 else [], p=G['r'][0][1])
                if o == 'later' and ev['ok']:
                    old.append(1)
            away -= set(back)
            for f in back:
                do(op='move', f=f, away=False)
            if old and rng.random() < .3:
                do(op='now', k=rng.randint(1, len(old)))
        # in the end, which of them can be read?
        for h in rng.sample(range(len(geo)), min(len(geo), 3)):
            do(op='compute', h=h + 1, tags=[], form=rng.choice(['', 'select']))
    finally:
        w.close()
    return {'script': script}, events


CLOCKS = [(0, 4, 4), (0, 4, 4), (16, 4, 5), (16, 4, 5), (0, 4, 8), (48, 4, 5)]     # of MCLazy
FORMS = {'load': ['or', 'set'], 'channels': ['attr', 'get', ''], 'runs': ['get', ''], 'join': ['op', ''],
         'merge': ['op', ''], 'compute': ['', 'select', 'array']}


def execute(program, seed, k):
    """a program generated from MCLazy"""
    rng = random.Random('lazy/sim/%s/%s' % (seed, k))
    script = [dict(op='file', s=s, p=p, n=n) for s, p, n in CLOCKS]
    for e in program:
        op = dict(e)
        if op['op'] in FORMS:
            op['form'] = rng.choice(FORMS[op['op']])
        if op['op'] == 'load':
            op['chunk'] = rng.choice([16, 40, 10**6])
        script.append(op)
    events = replay({'script': script})
    return {'script': script[:len(events)]}, events


def truncate(case, l):
    return {'script': case['script'][:l]}


def replay(case):
    w = World()
    events = []
    try:
        for op in case['script']:
            if max(op.get('hs', []) + [op.get('h', 0)]) > len(w.sets) or op.get('k', 0) > len(w.later):
                break
            events.append(w.run(op))
    finally:
        w.close()
    return events
