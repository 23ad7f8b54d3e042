"""Random programs over signal sets and inventories (one profile per property)."""
import random

from world import World, Clock

CLOCKS = [
    (0, 1), (0, 8), (-1000, 4), (1461870000, 2048), (1461870000, 1), (0, 512),
    (1461870000, 15), (1461870000, 24), (1461870000, 150), (1461870000, 2400),
    (0, 10), (1000000000, 24000), (-3.3, 50), (1600000000, 300), (0.1, 10), (12345, 3),
]
NAMES = ['Ex', 'Ey', 'Hx', 'Hy', 'Hz', 'E', 'B', 'r1', 'Rx', 'site100_Hx', 'site100_Hy',
         'site100_Ex', 'siteA_Hx', 'q', 'Bremote', 'abc', 'a-b', 'x.y', 'H[xy]', 'E?', 'R*']
EDITNAMES = NAMES + ['zz', '1a', '_a', '', 'a b']
INF = 10**8


class Gen:
    def __init__(self, rng, clock=None, world=None):
        self.rng = rng
        self.clock = clock or rng.choice(CLOCKS)
        self.w = World(Clock(*self.clock))
        self.script, self.events = [], []
        self.track = 0
        # one or two families of sampling periods
        self.ps = rng.choice([[1], [2], [3], [5], [1, 2], [2, 3], [4, 1], [1, 5], [2, 4],
                              [64], [100, 101], [1, 2, 3], [2, 3, 5]])

    # ------------------------------------------------------------------ helpers
    def do(self, **op):
        ev = self.w.run(op)
        self.script.append(op)
        self.events.append(ev)
        return ev

    def last(self):
        return len(self.w.sets)

    def newtrack(self):
        self.track += 1
        return self.track

    def run(self, nch, s, n, p=None):
        rng = self.rng
        p = p or rng.choice(self.ps)
        ch = []
        for _ in range(nch):
            ch.append({'g': [[self.newtrack(), rng.choice([0, 0, 7]), n]],
                       'c': rng.choice([2, 2, 2, 3, 4, 5, 6, 7])})
        return {'s': s, 'p': p, 'n': n, 'ch': ch}

    def kind(self):
        return self.rng.choice(['f8'] * 7 + ['i8', 'list', 'dask2', 'dask5'])

    def layout(self, nch, names, groups=0.5, untagged=0.1):
        """name -> channel numbers"""
        rng, d = self.rng, {}
        names = list(names)
        rng.shuffle(names)
        for c in range(nch):
            if rng.random() >= untagged and names:
                d[names.pop()] = [c]
        while names and rng.random() < groups:
            k = rng.randint(1, nch)
            d[names.pop()] = rng.sample(range(nch), k) if rng.random() < .9 else \
                [rng.randrange(nch) for _ in range(k)]
        return d

    def permuted(self, d, nch):
        perm = list(range(nch))
        self.rng.shuffle(perm)
        items = list(d.items())
        self.rng.shuffle(items)
        return {k: [perm[c] for c in v] for k, v in items}

    def slots(self, count, gap=None, lo=0):
        """starts and sizes of runs following each other"""
        rng, out = self.rng, []
        t = lo + rng.randint(0, 6)
        for _ in range(count):
            p = rng.choice(self.ps)
            n = rng.choice([1, 2, 2, 3, 4, 5, 7, 9, 12])
            out.append((t, n, p))
            stop = t + (n - 1) * p
            g = rng.choice([0, 1, p, p, p, 2 * p, 3, 7]) if gap is None else gap(p)
            t = stop + g
        return out

    def build(self, d, runs, tn=None, style='', **kw):
        nch = len(runs[0]['ch']) if runs else 1 + max([c for v in d.values() for c in v] or [-1])
        if tn is None:
            tn = self.rng.choice([-1, nch])
        op = dict(op='build', t=[[k, list(v)] for k, v in d.items()], tn=tn,
                  parts=[{'sync': True, 'r': r} for r in runs], style=style, kind=self.kind(),
                  scalar=self.rng.random() < .5)
        op.update(kw)
        ev = self.do(**op)
        return self.last() if ev['ok'] else None

    def simple_set(self, nch=None, names=None, count=None, slots=None, d=None, **kw):
        nch = nch or self.rng.choice([1, 1, 2, 2, 3, 4])
        names = names if names is not None else self.rng.sample(NAMES, 7)
        d = d if d is not None else self.layout(nch, names)
        slots = slots if slots is not None else self.slots(
            count if count is not None else self.rng.choice([0, 1, 1, 2, 2, 3, 4]))
        runs = [self.run(nch, s, n, p) for (s, n, p) in slots]
        self.rng.shuffle(runs)
        if not runs:
            kw.setdefault('tn', nch)
        return self.build(d, runs, **kw)

    def view(self, h):
        return self.w.seen[h - 1]

    def ticks(self, h):
        """interesting times of a set"""
        v = self.view(h)
        t = [0]
        for r in v['r']:
            stop = r['s'] + (r['n'] - 1) * r['p']
            t += [r['s'], stop, r['s'] - 1, stop + 1, r['s'] + r['p'], stop - r['p'],
                  r['s'] + self.rng.randint(0, max(1, r['n'])) * r['p'],
                  self.rng.randint(r['s'] - 2, stop + 2)]
        return t

    def pick(self, q=None):
        n = len(self.w.sets)
        return self.rng.randint(max(1, n - 5), n) if n else None

    # -------------------------------------------------------------- operations
    def op_extract(self, h, excl=None):
        rng = self.rng
        t = self.ticks(h)
        lo, hi = rng.choice(t), rng.choice(t)
        if lo > hi and rng.random() < .85:
            lo, hi = hi, lo
        if rng.random() < .06:
            lo = -INF
        if rng.random() < .06:
            hi = INF
        excl = rng.random() < .35 if excl is None else excl
        if excl and lo > hi:
            lo, hi = hi, lo
        if excl and (abs(lo) == INF or abs(hi) == INF):
            excl = False
        return self.do(op='extract', h=h, lo=lo, hi=hi, excl=excl,
                       via=rng.choice(['calc', 'obj']), style=rng.choice(['', 'kw']))

    def op_sextract(self, h):
        rng, v = self.rng, self.view(h)
        if not v['r']:
            return
        j = rng.randrange(len(v['r']))
        r = v['r'][j]
        a, b = r['s'], r['s'] + (r['n'] - 1) * r['p']
        strict = rng.random() < .5
        lo, hi = rng.randint(a - 2, b + 1), rng.randint(a - 1, b + 2)
        if rng.random() < .3:
            lo = rng.choice([a, a + r['p'] if r['n'] > 1 else a])
        if rng.random() < .3:
            hi = rng.choice([b, b - r['p'] if r['n'] > 1 else b])
        if not strict and (lo > hi or hi < a or lo > b):
            lo, hi = a, b
        if strict and lo > hi:
            lo, hi = hi, lo
        return self.do(op='sextract', h=h, j=j, lo=lo, hi=hi, strict=strict,
                       via=rng.choice(['calc', 'obj']))

    def op_icopy(self, i):
        V = self.w.invs[i - 1]
        if len({id(S) for S in V}) == len(V):   # one copy of each element
            return self.do(op='icopy', i=i)

    def op_sindex(self, h):
        rng, v = self.rng, self.view(h)
        if not v['r']:
            return
        j = rng.randrange(len(v['r']))
        n = v['r'][j]['n']
        strict = rng.random() < .6
        if strict:
            lo, hi, last = rng.randint(-1, n), rng.randint(-1, n + 1), rng.random() < .4
            if rng.random() < .6:
                lo, hi = sorted([rng.randint(0, n), rng.randint(0, n)])
        else:
            lo, hi, last = rng.randint(-n, n - 1), rng.randint(-n, n), False
            if hi >= 0 and hi < n:
                last = rng.random() < .4
        lo, hi = [[x] if rng.random() < .85 else [] for x in (lo, hi)]
        return self.do(op='sindex', h=h, j=j, lo=lo, hi=hi, strict=strict, last=last,
                       style=rng.choice(['', 'kw']))

    def selector(self, h, bad=0.06):
        rng, v = self.rng, self.view(h)
        names = [k for k, _ in v['t']]
        if rng.random() < bad:
            return rng.choice([dict(tag=True, name='nope', idx=0),
                               dict(tag=False, name='', idx=v['n']),
                               dict(tag=False, name='', idx=-1)])
        if names and rng.random() < .65 or not v['n']:
            return dict(tag=True, name=rng.choice(names) if names else 'nope', idx=0)
        return dict(tag=False, name='', idx=rng.randrange(v['n']))

    def op_channels(self, h):
        rng, v = self.rng, self.view(h)
        style = rng.choice(['one', 'getone', 'attr', 'list', 'list', 'tuple', 'getitem',
                            'array', 'getarray', 'slice', 'getslice'])
        op = dict(op='channels', h=h, style=style)
        if style in ('slice', 'getslice'):
            op['slice'] = [rng.choice([None, 0, 1, 2, -1]), rng.choice([None, 1, 2, 3, -1]),
                           rng.choice([None, None, 1, 2, -1])]
            op['sel'] = [dict(tag=False, name='', idx=i)
                         for i in range(v['n'])[slice(*op['slice'])]]
        elif style in ('one', 'getone', 'attr'):
            op['sel'] = [self.selector(h)]
            name = op['sel'][0]['name']
            if style == 'attr' and not name.isidentifier():
                op['style'] = 'one'
        else:
            op['sel'] = [self.selector(h, .03) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
            if len(op['sel']) and rng.random() < .04:
                op['sel'] = []
        if op['sel'] == [] and style in ('slice', 'getslice') and not v['r']:
            pass
        return self.do(**op)

    def op_sselect(self, h):
        rng, v = self.rng, self.view(h)
        if not v['r']:
            return
        j = rng.randrange(len(v['r']))
        idx = [rng.randrange(-v['n'], v['n']) for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < .05:
            idx.append(v['n'])
        return self.do(op='sselect', h=h, j=j, idx=idx)

    def runs_op(self, h):
        rng, v = self.rng, self.view(h)
        n = len(v['r'])
        form = rng.choice(['int', 'list', 'list', 'array', 'slice', 'slice', 'mask', 'mask', 'rates'])
        op = dict(form=form)
        if form == 'int':
            op['idx'] = [rng.randrange(-n, n) if n and rng.random() < .9 else n + 1]
        elif form in ('list', 'array'):
            op['idx'] = [rng.randrange(-n, n) for _ in range(rng.randint(0, 3))] if n else []
            if rng.random() < .8:
                seen = []
                for i in op['idx']:
                    if i % n not in [x % n for x in seen]:
                        seen.append(i)
                op['idx'] = seen
            if rng.random() < .05:
                op['idx'] = op['idx'] + [n]
        elif form == 'slice':
            op['slice'] = [rng.choice([None, 0, 1, 2, -1, -2]), rng.choice([None, 1, 2, 3, -1]),
                           rng.choice([None, None, 1, 2, -1])]
            op['idx'] = list(range(n))[slice(*op['slice'])]
        elif form == 'mask':
            op['mask'] = [int(rng.random() < .5) for _ in range(n)]
            op['idx'] = [i for i, b in enumerate(op['mask']) if b]
            if n and rng.random() < .04:
                op['mask'].append(1)
                op['idx'] = [n + 3]
        else:
            op['p'] = rng.choice(self.ps)
            op['idx'] = [i for i, r in enumerate(v['r']) if r['p'] == op['p']]
        return op

    def op_runs(self, h):
        return self.do(op='runs', h=h, style=self.rng.choice(['', 'getitem']), **self.runs_op(h))

    def op_both(self, h):
        op = self.runs_op(h)
        sel = [self.selector(h, .03) for _ in range(self.rng.choice([1, 2, 3]))]
        return self.do(op='both', h=h, sel=sel, **op)

    def op_fuse(self, h):
        return self.do(op='fuse', h=h)

    def op_settag(self, h):
        rng, v = self.rng, self.view(h)
        names = [k for k, _ in v['t']]
        key = rng.choice(names) if names and rng.random() < .5 else rng.choice(EDITNAMES)
        val = [rng.randrange(v['n']) for _ in range(rng.choice([1, 1, 2, 3]))] if v['n'] else [0]
        if rng.random() < .08:
            val = []
        elif rng.random() < .08:
            val[rng.randrange(len(val))] = rng.choice([-1, v['n'], v['n'] + 3])
        style = rng.choice(['item', 'attr', 'update'])
        if style == 'attr' and not (key.isidentifier() and key[:1].isalpha()):
            style = 'item'
        return self.do(op='settag', h=h, key=key, v=val, style=style, fa=key[:1].isalpha(),
                       form=rng.choice(['list', 'tuple', 'scalar', 'iter', 'array']))

    def op_deltag(self, h):
        rng, v = self.rng, self.view(h)
        names = [k for k, _ in v['t']]
        key = rng.choice(names) if names and rng.random() < .9 else 'nope'
        return self.do(op='deltag', h=h, key=key, style=rng.choice(['item', 'attr', 'pop']))

    def op_retag(self, h):
        rng, v = self.rng, self.view(h)
        if rng.random() < .25:      # the very table of another set
            h2 = rng.randint(1, len(self.w.sets))
            u = self.view(h2)
            return self.do(op='retag', h=h, t=[list(x) for x in u['t']], tn=u['n'], style='share', src=h2)
        n = v['n'] or rng.randint(1, 3)
        tn = rng.choice([-1, -1, n, n, max(1, n - 1), n + 1])
        m = tn if tn >= 0 else n + (rng.random() < .15)
        m = max(1, m)
        d = self.layout(m, rng.sample(NAMES, 5), untagged=.3)
        return self.do(op='retag', h=h, t=[[k, x] for k, x in d.items()], tn=tn,
                       scalar=rng.random() < .5)

    def op_merge(self, hs):
        return self.do(op='merge', a=list(hs), style=self.rng.choice(['merge', 'and']))

    def op_join(self, h, parts):
        return self.do(op='join', h=h, parts=parts,
                       style=self.rng.choice(['join', 'or', 'ctor', 'ctordict', 'ror']))

    # inventories
    def op_iextract(self, i):
        rng = self.rng
        hs = [self.w.sets.index(e) + 1 for e in self.w.invs[i - 1] if e in self.w.sets]
        t = [x for h in hs for x in self.ticks(h)] or [0, 5]
        lo, hi = sorted([rng.choice(t), rng.choice(t)])
        return self.do(op='iextract', i=i, lo=lo, hi=hi, excl=rng.random() < .3,
                       via=rng.choice(['calc', 'obj']), style=rng.choice(['', 'kw']))

    def inv_names(self, i):
        return sorted({k for v in self.w.iseen[i - 1] for k, _ in v['t']})

    def op_ichannels(self, i):
        rng, names = self.rng, self.inv_names(i)
        k = rng.randint(0, min(3, len(names)))
        q = rng.sample(names, k) + (['nope'] if rng.random() < .2 else [])
        if not q:
            q = ['nope']
        return self.do(op='ichannels', i=i, names=q)

    def op_iruns(self, i):
        rng, idx = self.rng, []
        for v in self.w.iseen[i - 1]:
            n = len(v['r'])
            idx.append(sorted(rng.sample(range(n), rng.randint(0, n))))
        if rng.random() < .05:
            idx.append([0])
        style = rng.choice(['', 'mask', 'iter']) if len(idx) == len(self.w.iseen[i - 1]) else ''
        return self.do(op='iruns', i=i, idx=idx, style=style)

    def pattern(self, names):
        rng = self.rng
        base = rng.choice(names) if names and rng.random() < .8 else rng.choice(NAMES)
        out = ''
        for c in base:
            x = rng.random()
            if x < .12:
                out += '*'
                if rng.random() < .6:
                    break
            elif x < .2:
                out += '?'
            elif x < .28:
                out += '[' + rng.choice([c, c + 'z', 'a-z', 'A-Z', '!' + c, '!0-9', '0-9' + c]) + ']'
            else:
                out += c
        if rng.random() < .1:
            out = rng.choice(['*', '?x', '*x', 'H*', '*_H?', 'E[xy]', '[EH]x', '[!E]*', '*[', 'e*'])
        return out

    def op_ifilter(self, i):
        names = self.inv_names(i)
        pats = [self.pattern(names) for _ in range(self.rng.choice([1, 1, 2, 3, 4, 5]))]
        return self.do(op='ifilter', i=i, nc=[[k, [ord(c) for c in k]] for k in names],
                       pats=[[ord(c) for c in p] for p in pats])

    def op_pack(self, i, multi=None):
        multi = self.rng.random() < .75 if multi is None else multi
        return self.do(op='pack', i=i, multi=multi, style=self.rng.choice(['', 'kw']))

    def op_igroups(self, i):
        rng, names = self.rng, self.inv_names(i)
        groups = []
        for _ in range(rng.choice([1, 1, 2])):
            old = rng.sample(names, rng.randint(1, min(3, len(names)))) if names else ['nope']
            odd = [x for x in names if set(x) & set('*?[')]
            if odd and rng.random() < .3:
                old = [rng.choice(odd)]
            if rng.random() < .05:
                old.append('nope')
            groups.append({'k': rng.choice(['Bremote', 'G', 'E', 'new1']), 'old': old})
        return self.do(op='igroups', i=i, groups=groups)


# ------------------------------------------------------------------- profiles
def prof_C01(g):
    rng = g.rng
    nch = rng.choice([1, 2, 2, 3, 3, 4])
    base = g.layout(nch, rng.sample(NAMES, 7), untagged=rng.choice([0, 0, 0, .3]))
    t, made = rng.randint(-5, 10), []
    for _ in range(rng.randint(2, 4)):
        x = rng.random()
        k = rng.choice([0, 1, 1, 2, 2, 3])
        sl = g.slots(k, lo=t if x < .8 else t - rng.randint(0, 12))
        if sl:
            t = sl[-1][0] + (sl[-1][1] - 1) * sl[-1][2] + rng.choice([0, 0, 1, 1, 5])
            if t < 0:
                t += 1
        d, m = base, nch
        y = rng.random()
        if y < .6:
            d = g.permuted(base, nch)
        elif y < .66:
            d = g.layout(nch, rng.sample(NAMES, 7))
        elif y < .70:
            m = nch + 1
        elif y < .74 and base:
            d = dict(base)
            k0 = rng.choice(list(d))
            d[k0] = d[k0] + [rng.randrange(nch)]
        elif y < .78 and base:
            d = dict(base)
            d.pop(rng.choice(list(d)))
        elif y < .82:
            d = {k: [rng.randrange(m) for _ in v] for k, v in base.items()}
        runs = [g.run(m, s, n, p) for (s, n, p) in sl]
        rng.shuffle(runs)
        h = g.build(d, runs, style=rng.choice(['', 'or']), tn=m if not runs else rng.choice([-1, m]))
        if h:
            made.append(h)
    if len(made) >= 2 and rng.random() < .3:      # derived operands
        g.op_extract(rng.choice(made), excl=False)
        if g.events[-1]['ok']:
            made.append(g.last())
    if made and rng.random() < .2:
        g.op_settag(rng.choice(made))
    for _ in range(rng.randint(2, 5)):
        if not made:
            break
        k = rng.choice([1, 2, 2, 3, len(made)])
        hs = rng.sample(made, min(k, len(made)))
        parts = [{'sync': False, 'h': h} for h in hs[1:]]
        if rng.random() < .2:
            parts.insert(rng.randint(0, len(parts)), {
                'sync': True, 'r': g.run(nch, t + rng.choice([0, 1, 9]), rng.choice([1, 2, 3]))})
            t += 40
        if rng.random() < .15:
            d = g.permuted(base, nch)
            g.do(op='build', t=[[k, v] for k, v in d.items()], tn=rng.choice([-1, nch]),
                 parts=[{'sync': False, 'h': hs[0]}] + parts, style=rng.choice(['', 'or']))
        elif rng.random() < .05 and g.view(hs[0])['r']:
            # raw recordings with another number of channels, or overlapping
            g.op_join(hs[0], parts + [{'sync': True, 'r': g.run(nch + rng.choice([0, 1]), t, 3)}])
            t += 40
        else:
            g.op_join(hs[0], parts)
        if g.events[-1]['ok'] and rng.random() < .4:
            made.append(g.last())


def prof_C02(g):
    rng = g.rng
    names = rng.sample(NAMES, len(NAMES))
    made = []
    for _ in range(rng.randint(2, 4)):
        nch = rng.choice([1, 1, 2, 3])
        mine = [names.pop() for _ in range(min(len(names), rng.randint(1, 4)))]
        if rng.random() < .06:
            mine = rng.sample(NAMES, 3)
        k = rng.choice([0, 1, 1, 2, 2, 3]) if rng.random() < .25 else rng.choice([1, 2, 3])
        p = rng.choice(g.ps)
        if rng.random() < .6:       # one rate, one grid
            sl, t = [], p * rng.randint(0, 4)
            if rng.random() < .1:
                t += 1
            for _ in range(k):
                n = rng.choice([1, 2, 3, 4, 6, 9, 14])
                sl.append((t, n, p))
                t += (n - 1) * p + p * rng.choice([0, 1, 1, 2, 3])
        else:
            sl = g.slots(k)
        h = g.simple_set(nch=nch, d=g.layout(nch, mine), slots=sl)
        if h:
            made.append(h)
    for _ in range(rng.randint(2, 4)):
        if len(made) < 1:
            break
        hs = rng.sample(made, min(len(made), rng.choice([1, 2, 2, 2, 3, 4])))
        g.op_merge(hs)
        if g.events[-1]['ok'] and rng.random() < .4:
            made.append(g.last())
        x = rng.random()
        if x < .2:
            g.op_extract(rng.choice(made), excl=False)
            if g.events[-1]['ok']:
                made.append(g.last())


def prof_C03(g):
    rng = g.rng
    h = g.simple_set(count=rng.choice([1, 1, 2, 3]))
    if not h:
        return
    for _ in range(rng.randint(4, 8)):
        h = rng.randint(1, len(g.w.sets)) if rng.random() < .7 else 1
        x = rng.random()
        if x < .2:
            g.op_sextract(h)
        elif x < .25:
            g.op_fuse(h)
        elif x < .38:
            g.op_sindex(h)
        else:
            g.op_extract(h)


def prof_C04(g):
    rng = g.rng
    h = g.simple_set(nch=rng.choice([1, 2, 3, 4, 5]), count=rng.choice([0, 1, 1, 2]))
    if not h:
        return
    for _ in range(rng.randint(3, 7)):
        h = rng.randint(1, len(g.w.sets))
        x = rng.random()
        if x < .12:
            g.op_sselect(h)
        elif x < .22:
            g.op_both(h)
        elif x < .32:
            g.op_settag(h)
        else:
            g.op_channels(h)


def prof_C05(g):
    rng = g.rng
    gap = (lambda p: rng.choice([p, p, p, 0, 2 * p, p + 1])) if rng.random() < .7 else None
    h = g.simple_set(slots=g.slots(rng.choice([0, 1, 2, 3, 4, 5, 6]), gap))
    if not h:
        return
    for _ in range(rng.randint(3, 6)):
        h = rng.randint(1, len(g.w.sets))
        x = rng.random()
        if x < .35:
            g.op_fuse(h)
        elif x < .8:
            g.op_runs(h)
        elif x < .9:
            g.op_both(h)
        else:
            g.op_extract(h)


def prof_C06(g):
    rng = g.rng
    h = g.simple_set(count=rng.choice([0, 1, 2]))
    if not h:
        return
    for _ in range(rng.randint(5, 10)):
        h = rng.randint(1, len(g.w.sets))
        x = rng.random()
        if x < .5:
            g.op_settag(h)
        elif x < .65:
            g.op_deltag(h)
        elif x < .85:
            g.op_retag(h)
        else:
            g.op_channels(h)


def mixed_sets(g, k):
    rng, made = g.rng, []
    nch = rng.choice([1, 2, 3])
    base = g.layout(nch, rng.sample(NAMES, 5))
    t = 0
    for _ in range(k):
        if rng.random() < .5:
            sl = g.slots(rng.choice([1, 2]), lo=t)
            t = sl[-1][0] + (sl[-1][1] - 1) * sl[-1][2] + rng.choice([0, 1, 2])
            h = g.simple_set(nch=nch, d=g.permuted(base, nch) if rng.random() < .5 else base, slots=sl)
        else:
            h = g.simple_set(count=rng.choice([1, 2]))
        if h:
            made.append(h)
    return made


def estimation(g):
    """a set on which an estimation can run, and the estimation"""
    rng = g.rng
    p = rng.choice(g.ps)
    d = {'E': [0], 'B': [1], 'R': [2], 'Ex': [0]}
    h = g.build(d, [g.run(3, rng.randint(0, 9), rng.choice([12, 20]), p)])
    if h:
        for what in rng.sample(['fourier', 'impedance', 'prefilter'], rng.randint(1, 3)):
            g.do(op='estimate', h=h, p=p, what=what, E='E', B='B',
                 remote=rng.choice(['', 'R']))
        if rng.random() < .5:
            g.op_channels(h)
            g.do(op='inv', a=[h])
            g.do(op='estimate', i=len(g.w.invs), p=p, what='massproc', remotes=['R'])
            g.do(op='estimate', h=h, p=p, what='prefilter', E='E', B='R', remote='')


def prof_C07(g):
    rng = g.rng
    made = mixed_sets(g, rng.randint(2, 3))
    if rng.random() < .3:
        estimation(g)
    for _ in range(rng.randint(6, 12)):
        if not g.w.sets:
            return
        n = len(g.w.sets)
        h, h2 = rng.randint(1, n), rng.randint(1, n)
        x = rng.random()
        if x < .1:
            g.op_join(h, [{'sync': False, 'h': h2}] if rng.random() < .7 else [])
        elif x < .2:
            g.op_merge([h, h2] if h != h2 else [h])
        elif x < .3:
            g.op_extract(h)
        elif x < .38:
            g.op_channels(h)
        elif x < .44:
            g.op_runs(h)
        elif x < .48:
            g.op_fuse(h)
        elif x < .52:
            g.do(op='copy', h=h, deep=rng.random() < .5)
        elif x < .55:
            g.op_retag(h)
        elif x < .58:
            g.op_deltag(h)
        elif x < .74:
            g.op_settag(h)
        elif x < .8:
            g.do(op='inv', a=rng.sample(range(1, n + 1), min(n, rng.randint(1, 3))))
        elif g.w.invs:
            i = rng.randint(1, len(g.w.invs))
            rng.choice([g.op_iextract, g.op_ichannels, g.op_iruns, g.op_ifilter, g.op_pack,
                        g.op_igroups, g.op_pack,
                        lambda i: g.do(op='joinmerge', i=i), g.op_icopy,
                        lambda i: g.do(op='add', i=i, i2=rng.randint(1, len(g.w.invs))),
                        lambda i: g.do(op='append', i=i, h=h)])(i)
    if len(g.w.sets) > 0 and rng.random() < .8:
        g.op_settag(rng.randint(1, len(g.w.sets)))


def prof_C08(g):
    rng = g.rng
    for _ in range(rng.randint(1, 4)):
        g.simple_set(count=rng.choice([0, 1, 1, 2, 3]), names=rng.sample(NAMES, 6))
    n = len(g.w.sets)
    if not n:
        return
    g.do(op='inv', a=[rng.randint(1, n) for _ in range(rng.randint(0, 4))])
    for _ in range(rng.randint(4, 8)):
        i = rng.randint(1, len(g.w.invs))
        x = rng.random()
        if x < .18:
            g.op_iextract(i)
        elif x < .36:
            g.op_ichannels(i)
        elif x < .5:
            g.op_iruns(i)
        elif x < .72:
            g.op_ifilter(i)
        elif x < .8:
            g.do(op='iquery', i=i)
        elif x < .85:
            g.do(op='add', i=i, i2=rng.randint(1, len(g.w.invs)))
        elif x < .9:
            g.do(op='append', i=i, h=rng.randint(1, n))
        elif x < .95:
            g.do(op='extend', i=i, a=[rng.randint(1, n) for _ in range(rng.randint(0, 2))])
        else:
            g.do(op='badappend', i=i, what=rng.choice(['none', 'str', 'dict', 'inv', 'sync']),
                 style=rng.choice(['', 'ctor', 'extend']))


def prof_C09(g):
    """stations recording one or several tags, in pieces"""
    rng = g.rng
    ntag = rng.choice([1, 2, 2, 3, 3, 4])
    names = rng.sample(['Ex', 'Ey', 'Hx', 'Hy', 'r1', 'Rx', 'site100_Hx', 'R*', 'H[xy]'], ntag)
    ps = g.ps if rng.random() < .4 else [rng.choice(g.ps)]
    made, t0 = [], {}
    # groups of tags recorded together by one instrument
    groups, rest = [], list(names)
    while rest:
        k = rng.randint(1, len(rest))
        groups.append(rest[:k])
        rest = rest[k:]
    multi = rng.random() < .5
    for grp in groups:
        nch = len(grp)
        d = {k: [i] for i, k in enumerate(grp)}
        if multi and nch > 1 and rng.random() < .7:
            d[rng.choice(['E', 'B', 'all'])+grp[0]] = rng.sample(range(nch), rng.randint(1, nch))
        t = 0
        for _ in range(rng.choice([1, 1, 2, 3])):
            sl = []
            for _ in range(rng.choice([1, 1, 2])):
                p = rng.choice(ps)
                t = -(-t // p) * p
                n = rng.choice([1, 2, 4, 6, 9, 14])
                sl.append((t, n, p))
                t += (n - 1) * p + p * rng.choice([1, 1, 1, 2, 3])
            if rng.random() < .04:
                t -= rng.randint(1, 6)
            dd = d
            if rng.random() < .4:
                dd = g.permuted(d, nch)
            if rng.random() < .06 and len(dd) > 1:
                dd = dict(dd)
                dd.pop(rng.choice(list(dd)))
            h = g.simple_set(nch=nch, d=dd, slots=sl)
            if h:
                made.append(h)
    if not made:
        return
    if rng.random() < .3:
        g.op_fuse(rng.choice(made))
    order = made[:]
    rng.shuffle(order)
    g.do(op='inv', a=order)
    i = len(g.w.invs)
    g.op_pack(i, True)
    if rng.random() < .5:
        g.do(op='inv', a=order[::-1])
        g.op_pack(len(g.w.invs), True)
    for _ in range(rng.randint(1, 3)):
        i = rng.randint(1, len(g.w.invs))
        x = rng.random()
        if x < .25:
            g.op_pack(i, False)
        elif x < .4:
            g.op_pack(i)
        elif x < .6:
            g.op_igroups(i)
        elif x < .7:
            g.do(op='joinmerge', i=i)
        elif x < .8:
            g.op_ichannels(i)
        elif x < .9:
            g.op_iextract(i)
        else:
            g.do(op='inv', a=rng.sample(made, rng.randint(1, len(made))))


PROFILES = {k[5:]: v for k, v in list(globals().items()) if k.startswith('prof_')}


def generate(prop, seed, k):
    """one recorded program"""
    rng = random.Random('%s/%s/%s' % (prop, seed, k))
    clock = CLOCKS[k % len(CLOCKS)] if rng.random() < .7 else None
    g = Gen(rng, clock)
    PROFILES[prop](g)
    return {'clock': list(g.clock), 'script': g.script}, g.events


def replay(case):
    w = World(Clock(*case['clock']))
    events = []
    for op in case['script']:
        if not in_range(w, op):     # an earlier operation failed
            break
        events.append(w.run(op))
    return events


TRACE_MODULE, TRACE_CFG = 'TraceStore', 'Trace.cfg'


def truncate(case, l):
    return dict(case, script=case['script'][:l])


def in_range(w, op):
    hs = [op[k] for k in ('h',) if k in op] + list(op['a'] if op['op'] in (
        'merge', 'inv', 'extend') else []) + [
            p['h'] for p in op.get('parts', []) if not p['sync']]
    iv = [op[k] for k in ('i', 'i2') if k in op]
    return (all(0 < h <= len(w.sets) for h in hs) and all(0 < i <= len(w.invs) for i in iv)
            and ('j' not in op or op['j'] < len(w.sets[op['h'] - 1].signals)))


STYLES = {'join': ['join', 'or', 'ctor', 'ctordict'], 'merge': ['merge', 'and'],
          'channels': ['list', 'one', 'getone', 'tuple', 'getitem', 'array'], 'runs': ['', 'getitem'],
          'settag': ['item', 'update'], 'deltag': ['item', 'pop'], 'build': ['', 'or'],
          'pack': ['', 'kw'], 'extract': ['', 'kw']}


def execute(program, seed, k):
    """run a program written by TLC, in one of the equivalent ways of writing it"""
    rng = random.Random('sim/%s/%s' % (seed, k))
    clock = rng.choice(CLOCKS)
    script = []
    for op in program:
        op = dict(op)
        if op['op'] in STYLES:
            op['style'] = rng.choice(STYLES[op['op']])
        if op['op'] in ('extract', 'iextract'):
            op['via'] = rng.choice(['calc', 'obj'])
        if op['op'] == 'runs':
            op['form'] = rng.choice(['list', 'array'])
        if op['op'] == 'settag':
            op['form'] = rng.choice(['list', 'tuple', 'scalar', 'iter', 'array'])
        script.append(op)
    case = {'clock': list(clock), 'script': script}
    events = replay(case)
    return truncate(case, len(events)), events
