"""Programs over tag tables."""
import random

import numpy as np

from gen_sets import Gen, NAMES

TRACE_MODULE, TRACE_CFG = 'TraceTags', 'Trace.cfg'
BAD = -999999937
WORDS = ['Ex', 'Ey', 'E', 'B', 'Hx', 'x1', 'abc', 'a-b', 'a_b', 'site100_Hx', 'site100_Hy', 'Q',
         'é', 'n1', 'selfie']
REJ = ['1a', '_a', '', ' a', '-', '[x]']


def project(t):
    """a table, as seen by all ways of reading it"""
    try:
        d = {k: t[k] for k in t}
        agree = (dict(t.items()) == d and set(t.keys()) == set(d) and len(t) == len(d)
                 and sorted(t.values()) == sorted(d.values())
                 and all(getattr(t, k) == v for k, v in d.items())
                 and all(k in t and t.get(k) == v for k, v in d.items())
                 and 'nope' not in t and t.get('nope') is None
                 and not hasattr(t, 'nope')
                 and all(isinstance(v, tuple) for v in d.values()))
        idx = sorted(t.indices) if 'indices' not in t else list(range(nrange(t)))
        agree = agree and idx == list(range(len(idx)))
        return {'n': len(idx), 't': [[k, enc(v)] for k, v in sorted(d.items())], 'agree': bool(agree)}
    except Exception:
        return {'n': BAD, 't': [], 'agree': False}


def nrange(t):
    return len(t.indices) if 'indices' not in t else len(type(t).indices.__get__(t))


def enc(v):
    return [int(i) if isinstance(i, (int, np.integer)) and not isinstance(i, bool) else BAD for i in v]


class World:
    def __init__(self):
        import razorback as rb
        self.rb, self.T = rb, []

    def value(self, x):
        v, f = x['v'], x.get('form', 'list')
        if f == 'bad':
            return x['raw']
        if f == 'scalar' and len(v) == 1:
            return v[0]
        return {'tuple': tuple, 'iter': iter, 'np': lambda q: np.array(q, dtype=int),
                'range': lambda q: range(q[0], q[0] + len(q)) if q else [],
                'gen': lambda q: (i for i in q)}.get(f, list)(v)

    def do(self, op):
        o, st = op['op'], op.get('style', '')
        t = self.T[op['i'] - 1] if op['i'] else None
        if o == 'new':
            d = {x['k']: self.value(x) for x in op['q']}
            r = self.rb.Tags(op['n'], **d) if op['n'] >= 0 else self.rb.Tags(**d)
            self.T.append(r)
        elif o == 'copy':
            r = self.rb.Tags(nrange(t), **t)
            self.T.append(r)
        elif o == 'set':
            x = op['q'][0]
            if st == 'attr':
                setattr(t, x['k'], self.value(x))
            else:
                t[x['k'] if st != 'int' else 3] = self.value(x)
        elif o == 'update':
            d = [(x['k'], self.value(x)) for x in op['q']]
            t.update(d if st == 'pairs' else dict(d))
        elif o == 'default':
            x = op['q'][0]
            t.setdefault(x['k'], self.value(x))
        elif o == 'del':
            if st == 'attr':
                delattr(t, op['k'])
            else:
                del t[op['k']]
        elif o == 'pop':
            return enc(t.pop(op['k']))
        elif o == 'popitem':
            return enc(t.popitem()[1])
        elif o == 'clear':
            t.clear()
        elif o == 'get':
            if st == 'attr':
                return enc(getattr(t, op['k']))
            if st == 'get':
                v = t.get(op['k'], t)
                if v is t:
                    raise KeyError
                return enc(v)
            return enc(t[op['k']])
        elif o == 'in':
            return [int(op['k'] in t)]
        elif o == 'eq':
            u = self.T[op['j'] - 1]
            r = t == u
            if r is not (u == t) or r is (t != u):
                return [BAD]
            return [int(r)]
        elif o == 'filter':
            return list(t.filter(*[''.join(map(chr, p)) for p in op['pats']]))
        elif o == 'fget':
            r = t.filter_get(*[''.join(map(chr, p)) for p in op['pats']])
            return enc(r)
        return []

    def run(self, op):
        ev = {k: v for k, v in op.items() if k not in ('style',)}
        if 'q' in ev:
            ev['q'] = [dict(k=x['k'], fa=x['fa'], v=x['v']) for x in ev['q']]
        n = len(self.T)
        try:
            ev['res'], ev['ok'] = self.do(op), True
        except Exception as ex:
            ev['res'], ev['ok'] = [], False
        ev['obs'] = [project(t) for t in self.T]
        return ev


def entry(rng, n, words, key=None):
    k = key or (rng.choice(words) if rng.random() < .9 else rng.choice(REJ))
    m = max(1, n)
    v = [rng.randrange(m) for _ in range(rng.choice([1, 1, 2, 3]))]
    x = dict(k=k, fa=k[:1].isalpha(), v=v, form=rng.choice(
        ['list', 'tuple', 'scalar', 'iter', 'np', 'gen']))
    y = rng.random()
    if y < .06:
        x['v'] = []
    elif y < .13:
        x['v'][rng.randrange(len(v))] = rng.choice([-1, n, n + 2])
    elif y < .18:
        x.update(form='bad', v=[BAD], raw=rng.choice(
            ['a', None, 1.5, 'Ex', [0, 'a'], [None], [[0]], [0, .5, n - 1], [n - 1, 1.5, 0]]))
    return x


# names that mean something else for the class
RESERVED = ['indices', 'filter', 'filter_get', 'n', 'self']


def generate(profile, seed, k):
    rng = random.Random('tags/%s/%s/%s' % (profile, seed, k))
    words = WORDS if profile != 'reserved' else WORDS[:3] + [RESERVED[k % len(RESERVED)]] * 4
    w, script, events = World(), [], []
    pat = Gen.pattern

    class G:
        pass
    g = G()
    g.rng = rng

    def do(**op):
        op.setdefault('i', 0)
        op.setdefault('k', '')
        script.append(op)
        events.append(w.run(op))

    def pats(i):
        names = [a for a, _ in events[-1]['obs'][i - 1]['t']] + words[:3]
        return [[ord(c) for c in pat(g, names)] for _ in range(rng.choice([0, 1, 1, 2, 3]))]

    for _ in range(rng.randint(6, 14)):
        if not w.T or rng.random() < .12:
            n = rng.choice([-1, 0, 1, 2, 3, 4])
            q, used = [], set()
            for _ in range(rng.randint(0, 4)):
                x = entry(rng, 4 if n < 0 else n, words)
                if x['k'] not in used and not (n < 0 and x['form'] == 'bad'):
                    if n < 0 and x['form'] in ('iter', 'gen'):
                        x['form'] = 'list'
                    used.add(x['k'])
                    q.append(x)
            do(op='new', n=n, q=q)
            continue
        i = rng.randint(1, len(w.T))
        cur = events[-1]['obs'][i - 1]
        names = [a for a, _ in cur['t']]
        key = rng.choice(names) if names and rng.random() < .75 else rng.choice(words)
        x = rng.random()
        if x < .3:
            e = entry(rng, cur['n'], words, key if rng.random() < .5 else None)
            st = rng.choice(['item', 'attr', 'item']) if profile != 'reserved' else 'item'
            if not e['fa'] and st == 'attr' and e['k'].startswith('_'):
                st = 'item'
            if rng.random() < .03:
                st, e['fa'] = 'int', False
            do(op='set', i=i, q=[e], style=st)
        elif x < .4:
            q, used = [], set()
            for _ in range(rng.randint(0, 3)):
                e = entry(rng, cur['n'], words)
                if e['k'] not in used:
                    used.add(e['k'])
                    q.append(e)
            do(op='update', i=i, q=q, style=rng.choice(['', 'pairs']))
        elif x < .45:
            e = entry(rng, cur['n'], words, key)
            do(op='default', i=i, k=e['k'], q=[e])
        elif x < .53:
            st = 'item' if key in RESERVED else rng.choice(['item', 'attr'])
            do(op='del', i=i, k=key, style=st)
        elif x < .57:
            do(op='pop', i=i, k=key)
        elif x < .6:
            do(op='popitem', i=i)
        elif x < .61:
            do(op='clear', i=i)
        elif x < .68:
            st = 'item' if key in RESERVED and key not in names else rng.choice(['item', 'attr', 'get'])
            do(op='get', i=i, k=key, style=st)
        elif x < .7:
            do(op='in', i=i, k=key)
        elif x < .74:
            do(op='copy', i=i)
        elif x < .82:
            do(op='eq', i=i, j=rng.randint(1, len(w.T)))
        else:
            cand = [[a, [ord(c) for c in a]] for a in names]
            ops = ['filter', 'fget']
            if profile == 'reserved' and {'filter', 'filter_get'} & set(names):
                ops = ['fget'] if 'filter_get' not in names else ['eq']
            do(op=rng.choice(ops), j=i, i=i, pats=pats(i), nc=cand)
    return {'script': script}, events


def execute(program, seed, k):
    """a program generated from TagTables"""
    rng = random.Random('tags/sim/%s/%s' % (seed, k))
    w, script, events = World(), [], []
    for e in program:
        op = {x: v for x, v in e.items() if x not in ('ok', 'q', 'nc')}
        st = {'set': ['item', 'attr'], 'update': ['', 'pairs'], 'del': ['item', 'attr'],
              'get': ['item', 'attr', 'get']}.get(op['op'], [''])
        op['style'] = rng.choice(st)
        forms = ['list', 'tuple', 'scalar', 'np'] + ([] if e['n'] < 0 else ['iter', 'gen'])
        op['q'] = [dict(x, form=rng.choice(forms)) for x in e['q']]
        if op['op'] in ('filter', 'fget'):
            names = [a for a, _ in events[-1]['obs'][op['i'] - 1]['t']]
            op['nc'] = [[a, [ord(c) for c in a]] for a in names]
        script.append(op)
        events.append(w.run(op))
    return {'script': script}, events


def truncate(case, l):
    return dict(case, script=case['script'][:l])


def replay(case):
    w = World()
    return [w.run(op) for op in case['script']]


def signature(case, event, l):
    """what is special about the input of a mismatch"""
    names = {x['k'] for x in event.get('q', [])}
    if event['op'] == 'copy':
        names = {k for k, _ in event['obs'][event['i'] - 1]['t']}
    if event['op'] in ('new', 'copy') and names & {'n', 'self'}:
        return 'constructor keyword n or self'
    return ''
