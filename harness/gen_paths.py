"""Patterns, templates and file names for tags_from_path."""
import random

TRACE_MODULE, TRACE_CFG = 'TracePaths', 'TracePaths.cfg'

FIELDS = ['a', 'x', 'site', 'ch', 'type_1', 'B2', '_k']
BADFIELDS = ['', '1a', 'a.b', 'a-b', 'a b', 'a[0]', 'a.b.c', '9', 'a!r', 'a:3', '-a', '.a', ' a', 'a ', '0']
PIECES = ['rep', 'A', 'B', 'site', 'Set', 'x', 'T', '_', '-', '.', '.ats', '.txt', '1', '02', 'meas_', 'BL', ' ',
          '+', '(', ')', '^', '$', '|', '&', '~', '#', ',', '=', '@', '\n']


def enc(s):
    return [ord(c) for c in s]


def dec(q):
    return ''.join(map(chr, q))


class World:
    def run(self, op):
        import razorback as rb
        ev = dict(op)
        try:
            fn = rb.utils.tags_from_path
            names = [dec(n) for n in op['names']]
            tpls = [dec(t) for t in op['tpls']]
            r = list(fn(iter(names) if op.get('it') else names, dec(op['pat']), *tpls))
            ev['res'] = [[enc(n), [enc(t) for t in tags]] for n, tags in r]
            ev['ok'] = True
        except Exception:
            ev.update(res=[], ok=False)
        ev.pop('it', None)
        return ev


def wordy(rng):
    return ''.join(rng.choice('abXY019_') for _ in range(rng.randint(1, 3)))


def instance(rng, toks):
    """a name that should match (or nearly)"""
    out = ''
    for kind, s in toks:
        if kind == 'lit':
            out += s
        elif kind == 'field':
            out += wordy(rng) if rng.random() < .93 else rng.choice(['', '-', 'a-b', 'a/b', 'é'])
        elif kind == '*':
            out += rng.choice(['', 'x', 'ab', 'a_b', 'q-r', 'Z', 'u' if rng.random() < .8 else 'u/v'])
        elif kind == '**':
            out += rng.choice(['', 'x', 'a/b', 'r/s/t', 'a_b', '/', 'm/'])
        elif kind == '?':
            out += rng.choice('abXY0_-./')
        elif kind == 'class':
            body = s[1:-1]
            out += rng.choice(body.lstrip('!') + 'bZ5')
    x = rng.random()
    if out and x < .12:
        i = rng.randrange(len(out))
        out = out[:i] + rng.choice(['', 'q', '_', '/', '-']) + out[i + rng.choice([0, 1]):]
    elif x < .18:
        out = rng.choice(['./', 'zz/../', 'zz/', '']) + out.replace('/', rng.choice(['/', '/./', '//', '/k/../']))
    elif x < .21:
        out += rng.choice(['/', 'x', '.bak', '\n', '/x'])
    elif x < .24:
        out = out.upper()
    return out


def tokens(rng, nf):
    fields = rng.sample(FIELDS, nf)
    toks = []
    n = rng.randint(2, 7)
    stars = 0
    for i in range(n + nf):
        x = rng.random()
        if fields and x < .45:
            toks.append(('field', fields.pop()))
        elif x < .5 and stars < 3:
            stars += 1
            toks.append(('*', '*'))
        elif x < .55 and stars < 3:
            stars += 1
            toks.append(('**', '**'))
        elif x < .6:
            toks.append(('?', '?'))
        elif x < .66:
            toks.append(('class', rng.choice(['[ab]', '[!ab]', '[0-9]', '[a-zA-Z]', '[!_]', '[x?]', '[]a]', '[.]'])))
        elif x < .78:
            toks.append(('lit', '/'))
        else:
            toks.append(('lit', rng.choice(PIECES) if rng.random() < .3 else rng.choice(PIECES[:10])))
    for f in fields:
        toks.append(('field', f))
    return toks


def text(toks):
    return ''.join('{%s}' % s if k == 'field' else s for k, s in toks)


def template(rng, names, bad=.05):
    out = ''
    for _ in range(rng.randint(0, 3)):
        if names and rng.random() < .75:
            out += '{%s}' % rng.choice(names)
        else:
            out += rng.choice(['site', '_', 'T', '-', '/', '*', '1', '?', '[x]'])
    if rng.random() < bad:
        out += '{%s}' % rng.choice(BADFIELDS + ['nope', 'other'])
    if rng.random() < .01:
        out += rng.choice('{}')
    return out


def usable(name):
    return not name.startswith('//')


def generate(profile, seed, k):
    rng = random.Random('paths/%s/%s' % (seed, k))
    w, script, events = World(), [], []
    for _ in range(rng.randint(2, 4)):
        nf = rng.choice([0, 1, 1, 2, 2, 3])
        toks = tokens(rng, nf)
        fields = [s for kd, s in toks if kd == 'field']
        if rng.random() < .08:
            bad = rng.choice(BADFIELDS)
            toks.insert(rng.randint(0, len(toks)), ('field', bad))
        pat = text(toks)
        if rng.random() < .02:
            pat += rng.choice(['{', '}'])
        if rng.random() < .05:
            pat = './' + pat
        if not usable(pat):
            pat = 'a' + pat
        names = [instance(rng, toks) for _ in range(rng.randint(0, 5))]
        names += [rng.choice(['', '.', 'rep/A/X.txt', 'a', 'site1/T2.ats'])] if rng.random() < .2 else []
        names = [n for n in names if usable(n) and len(n) <= 48]
        rng.shuffle(names)
        if names and rng.random() < .15:
            names.append(rng.choice(names))
        tpls = [template(rng, fields) for _ in range(rng.choice([0, 1, 1, 2]))]
        op = dict(op='tags', pat=enc(pat), tpls=[enc(t) for t in tpls],
                  names=[enc(n) for n in names], it=rng.random() < .3)
        script.append(op)
        events.append(w.run(op))
    return {'script': script}, events


def truncate(case, l):
    return {'script': case['script'][l - 1:l]}


def replay(case):
    w = World()
    return [w.run(op) for op in case['script']]
