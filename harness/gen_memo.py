"""Histories of estimations (C12) and massive processing (C15).

Each request is first made alone in a process that never estimated anything, with weighting
objects of its own; then histories of requests sharing their objects are run.
"""
import contextlib
import io
import json
import os
import random
import warnings

import numpy as np

TRACE_MODULE, TRACE_CFG = 'TraceMemo', 'TraceMemo.cfg'
NAN = -2100000000


class Interrupted(BaseException):
    pass


def alone(f, *args):
    """f(*args) in a process of its own"""
    import razorback, razorback.utils, razorback.weights, scipy.special   # noqa: F401,E401
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with warnings.catch_warnings(), np.errstate(all='ignore'), \
                    contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter('ignore')
                try:
                    res = {'ok': f(*args)}
                except BaseException:
                    import traceback
                    res = {'error': traceback.format_exc()[-3000:]}
            with os.fdopen(w, 'w') as out:
                out.write(json.dumps(res))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r) as src:
            text = src.read()
    except BaseException:
        os.kill(pid, 9)
        raise
    finally:
        os.waitpid(pid, 0)
    res = json.loads(text) if text else {'error': 'the process died'}
    if 'error' in res:
        raise RuntimeError(res['error'])
    return res['ok']


# ---- values ---------------------------------------------------------------------------------

def num(v, unit=1e5):
    v = float(v) * unit
    if v != v:
        return NAN
    return int(round(max(-1.9e9, min(1.9e9, v))))


def row(line):
    out = []
    for v in np.ravel(line):
        v = complex(v)
        out += [num(v.real), num(v.imag)]
    return out


def blank(out):
    return dict(out=out, z=[], rej=[], shape=[])


# ---- weighting objects --------------------------------------------------------------------

class Kit:
    """the weighting objects of a process"""
    def __init__(self, defs):
        self.defs, self.objs, self.chains = defs, {}, {}
        self.data, self.sets = {}, {}

    def arrays(self, name):
        """the observations of a process, the same objects for every request"""
        if name not in self.data:
            self.data[name] = make_data(self.defs['data'][name])
        return self.data[name]

    def signals(self, name):
        if name not in self.sets:
            self.sets[name] = make_set(self.defs['sets'][name])
        return self.sets[name]

    def obj(self, name):
        from razorback import weights as W
        if name is None or name == '-':
            return None
        if name not in self.objs:
            d = self.defs['objs'][name]
            if d[0] == 'Huber':
                o = W.Huber(*d[1:])
            elif d[0] == 'Thomson':
                o = W.Thomson(*d[1:])
            else:
                o = W.BoundedInfluenceStep(self.obj(d[1]), d[2], d[3])
            self.objs[name] = o
        return self.objs[name]

    def chain(self, name):
        from razorback import weights as W
        if name not in self.chains:
            d = self.defs['chains'][name]
            if d[0] == 'mest':
                c = W.mest_weights
            elif d[0] == 'ls':
                c = W.least_square
            elif d[0] == 'bi':
                c = W.bi_weights(*d[1:])
            elif d[0] == 'Weights':
                c = W.Weights([self.obj(o) for o in d[1:]])
            else:
                c = [self.obj(o) for o in d[1:]]
            self.chains[name] = c
        return self.chains[name]

    def prefilter(self, d):
        from razorback.prefilters import cod_filter
        key = json.dumps(d)
        if d is None:
            return None
        if key not in self.objs:
            self.objs[key] = cod_filter(*d)
        return self.objs[key]


class Trap:
    """a weighting stopped in the middle of an estimation"""
    def __init__(self, w, state, where, early, exc):
        self.w, self.state, self.where, self.early, self.exc = w, state, where, early, exc

    def __call__(self, it, *a):
        self.state['n'] += 1
        hit = self.where == ['n', self.state['n']] or self.where == ['at', self.state.get('pos'), it]
        if hit and self.early:
            raise self.exc('stopped')
        res = self.w(it, *a)
        if hit:
            raise self.exc('stopped')
        return res


class Stage:
    def __init__(self, w, state, pos):
        self.w, self.state, self.pos = w, state, pos

    def __call__(self, *a):
        self.state['pos'] = self.pos
        return self.w(*a)


def trapped(chain, stop):
    state = {'n': 0}
    exc = {'key': KeyboardInterrupt, 'mem': MemoryError, 'own': Interrupted}[stop['exc']]
    out = []
    for pos, w in enumerate(chain):
        if w is not None:
            w = Stage(Trap(w, state, stop['where'], stop['early'], exc), state, pos)
        out.append(w)
    return out


# ---- data -----------------------------------------------------------------------------------

def make_data(d):
    r = np.random.RandomState(d['seed'])
    n, p, q = d['n'], d['p'], d['q']
    real = d['dtype'] == 'f'

    def g(*s):
        x = r.standard_normal(s)
        return x if real else x + 1j * r.standard_normal(s)
    b = g(q, n)
    z = g(p, q) * 2
    e = z.dot(b) + .3 * g(p, n)
    for i in range(p):
        k = r.choice(n, max(1, n // 8), replace=False)
        e[i, k] += d['outlier'] * g(len(k))
    if d['leverage']:
        k = r.choice(n, max(1, n // 12), replace=False)
        b[:, k] *= d['leverage']
    for i in d['zeroout']:
        e[i % p] = r.standard_normal(n) * (r.rand(n) < .2)
    if d['singular']:
        b[-1] = 0
    return e, b


def kwargs(req):
    kw = {}
    if req.get('tol'):
        kw['tol'] = req['tol']
    if req.get('maxit'):
        kw['maxit'] = req['maxit']
    return kw


def ask(defs, kit, req):
    """one call of transfer_function; an answer per output"""
    from razorback.mestimator import transfer_function
    from razorback.errors import NonConvergence
    d = defs['data'][req['data']]
    e, b = kit.arrays(req['data'])
    if req['outs'] != list(range(len(e))):
        e = np.array([e[i] for i in req['outs']])
    chain = kit.chain(req['chain'])
    if req.get('stop'):
        chain = trapped(chain, req['stop'])
    given = None
    if req['given']:
        given = [np.array(d['given'][i], dtype=int) for i in req['outs']]
    if req['lists']:
        e, b = list(e), list(b)
    try:
        z, rej = transfer_function(e, b, chain, invalid_idx=given, **kwargs(req))
    except NonConvergence:
        return 'nonconv', []
    except (KeyboardInterrupt, Interrupted):
        if req.get('stop'):
            return 'stopped', []
        raise
    except Exception as ex:
        return 'fail', []
    ans = [dict(out='ok', z=[row(z[i])], rej=[[int(x) for x in rej[i]]], shape=[int(np.shape(z)[1])])
           for i in range(len(z))]
    if req.get('scribble'):        # results belong to the caller
        z[:] = 1e3
        for x in rej:
            if isinstance(x, np.ndarray) and x.flags.writeable:
                x[:] = 0
        e[0][:] = 0
        b[0][:] = 1
        kit.data.pop(req['data'])
    return 'ok', ans


def poke(defs, kit, req):
    """a weighting object called directly"""
    o = kit.obj(req['obj'])
    e, b = kit.arrays(req['data'])
    try:
        o(req['it'], abs(e[0]) if req['abs'] else e[0] * 3., e[0], b.T, np.array([], dtype=int))
    except Exception:
        pass
    return 'effect', []


def make_set(d):
    import razorback as rb
    r = np.random.RandomState(d['seed'])
    runs = []
    for start, n in zip(d['starts'], d['lens']):
        t = np.arange(n)
        h = r.standard_normal((2, n))
        if d['spikes']:
            k = r.choice(n, d['spikes'], replace=False)
            h[:, k] *= 20
        rem = h + .3 * r.standard_normal((2, n))
        e = np.array([[1., 2.], [-1., .5]]).dot(h) + d['noise'] * r.standard_normal((2, n))
        if d['dead']:
            rem = np.zeros_like(rem)
        k = r.choice(n, 3, replace=False)
        e[:, k] += 30
        runs.append(rb.SyncSignal([*e, *h, *rem], d['rate'], start, [1., 2., 1., 1j, 1., .5]))
    tags = dict(E=(0, 1), B=(2, 3), R=(4, 5))
    return rb.SignalSet(rb.Tags(6, **tags), *runs)


def entry(res, i):
    z, err, T = res.impedance[i], res.error[i], res.transfer_mag[i]
    times = [[num(t, 1e4) for t in line] for line in res.invalid_time[i]]
    return dict(out='ok', z=[row(z), row(err), row(T)] + times,
                rej=[], shape=[list(np.shape(z)), list(np.shape(T)), len(times)])


def survey(defs, kit, req):
    """one call of impedance(); an answer per frequency"""
    from razorback.utils import impedance
    data = kit.signals(req['set'])
    o = defs['opts'][req['opts']]
    kw = dict(keep_invalid_times=True)
    chain = kit.chain(o['chain'])
    if req.get('stop'):
        chain = trapped(chain, req['stop'])
    kw['weights'] = chain
    if o['remote']:
        kw['remote'] = 'R'
        if o['rchain']:
            kw['remote_weights'] = kit.chain(o['rchain'])
        if o['rpf']:
            kw['remote_prefilter'] = kit.prefilter(o['rpf'])
    if o['pf']:
        kw['prefilter'] = kit.prefilter(o['pf'])
    if o['mest']:
        kw['mest_opts'] = dict(o['mest'])
    if o['fopts']:
        kw['fourier_opts'] = dict(o['fopts'])
    if o['real']:
        kw['real_pb'] = True
    try:
        res = impedance(data, req['freqs'], **kw)
    except (KeyboardInterrupt, Interrupted):
        if req.get('stop'):
            return 'stopped', []
        raise
    ans = [entry(res, i) for i in range(len(req['freqs']))]
    return 'ok', ans


def single(defs, what, req):
    return {'estimate': ask, 'impedance': survey}[what](defs, Kit(defs), req)


def session(defs, reqs):
    kit = Kit(defs)
    return [{'estimate': ask, 'impedance': survey, 'poke': poke}[r['op']](defs, kit, r) for r in reqs]


def keys_of(r):
    if r['op'] == 'estimate':
        opts = [r['chain'], r.get('tol'), r.get('maxit'), r['given']]
        return ['e %s %s %s' % (r['data'], i, opts) for i in r['outs']]
    if r['op'] == 'impedance':
        return ['i %s %s %s' % (r['set'], f, r['opts']) for f in r['freqs']]
    return []


def parts_of(r):
    for i, key in enumerate(keys_of(r)):
        s = {k: v for k, v in r.items() if k not in ('stop', 'scribble')}
        if r['op'] == 'estimate':
            s['outs'] = [r['outs'][i]]
        else:
            s['freqs'] = [r['freqs'][i]]
        yield key, s


def run_history(case):
    defs, events, known = case['defs'], [], set()
    for r in case['script']:
        for key, s in parts_of(r):
            if key in known:
                continue
            known.add(key)
            out, ans = alone(single, defs, s['op'], s)
            events.append(dict(op='each', ok=True, prop='C12', keys=[key], out=out,
                               ans=ans or [blank(out)], what=s['op'] + ' alone'))
    for r, (out, ans) in zip(case['script'], alone(session, defs, case['script'])):
        op = r['op'] if r['op'] == 'estimate' else 'each'
        if out in ('effect', 'stopped') or r.get('stop'):
            op = 'effect'
        events.append(dict(op=op, ok=out in ('ok', 'effect'), prop='C12', keys=keys_of(r), out=out, ans=ans,
                           what=r['op']))
    return events


# ---- generated histories ----------------------------------------------------------------------

OBJS = {
    'H': ['Huber'], 'H2': ['Huber', 2.5], 'T': ['Thomson'], 'U': ['Thomson', 2.8],
    'B': ['BI', 'H', .02, 5.], 'V': ['BI', 'T', .04, 4.],
    'C': ['BI', 'H2', .01, 7.], 'D': ['BI', 'T', .02, 6.],
}
CHAINS = {
    'mest': ['mest'], 'ls': ['ls'], 'bi1': ['bi', .01, 1], 'bi2': ['bi', .003, 2], 'bi0': ['bi', .03, 0, 1],
}


def draw_data(rng):
    p = rng.choice([1, 2, 2, 3])
    n = rng.choice([12, 24, 40, 40, 60, 90])
    return dict(seed=rng.randrange(10 ** 6), n=n, p=p, q=rng.choice([1, 2, 2]),
                dtype=rng.choice('cccf'), outlier=rng.choice([0, 3, 10, 100]),
                leverage=rng.choice([0, 0, 2, 6]), zeroout=[rng.randrange(3)] if rng.random() < .1 else [],
                singular=rng.random() < .06,
                given=[sorted(rng.sample(range(n), rng.choice([0, 1, 3]))) for _ in range(p)])


def draw_chain(rng):
    x = rng.choice(['pre'] + [rng.choice('HTUTBVCD') for _ in range(1)] * 2)
    objs = [None] + [rng.choice(['H', 'T', 'U', 'T', 'B', 'V', 'C', 'D']) for _ in range(rng.choice([1, 2, 2, 3]))]
    if rng.random() < .25:
        objs.append(objs[1])
    return [rng.choice(['list', 'Weights'])] + objs


def draw_stop(rng):
    return dict(where=['n', rng.choice([1, 1, 2, 2, 3, 4, 5, 7, 10])], early=rng.random() < .5,
                exc=rng.choice(['key', 'own', 'mem']))


def draw_history(rng):
    data = {'d%d' % i: draw_data(rng) for i in range(rng.choice([2, 2, 3]))}
    if rng.random() < .4:        # same sizes, other values
        data['d1'] = dict(data['d0'], seed=rng.randrange(10 ** 6))
    chains = dict(CHAINS)
    for i in range(2):
        chains['c%d' % i] = draw_chain(rng)
    use = rng.sample(sorted(chains), rng.choice([1, 2, 2, 3]))
    defs = dict(data=data, objs=OBJS, chains=chains)
    script, pool = [], []
    for _ in range(rng.randint(3, 8)):
        x = rng.random()
        if x < .12 and any(c not in CHAINS for c in use):
            script.append(dict(op='poke', obj=rng.choice(sorted(OBJS)), data=rng.choice(sorted(data)),
                               it=rng.choice([0, 0, 1, 4]), abs=rng.random() < .5))
            continue
        if pool and x < .35:
            r = dict(rng.choice(pool))
            outs = list(r['outs'])
            rng.shuffle(outs)
            r['outs'] = outs[:rng.randint(1, len(outs))]
        else:
            name = rng.choice(sorted(data))
            p = data[name]['p']
            outs = [rng.randrange(p) for _ in range(rng.choice([1, 2, 2, 3]))]
            if rng.random() < .5:
                outs = list(range(p))
            r = dict(op='estimate', data=name, outs=outs, chain=rng.choice(use), given=rng.random() < .3,
                     lists=rng.random() < .3)
            if rng.random() < .3:
                r['tol'] = rng.choice([1e-4, 1e-3, .1])
            if rng.random() < .2:
                r['maxit'] = rng.choice([2, 3, 4, 6])
            pool.append(dict(r))
        if rng.random() < .25:
            r['stop'] = draw_stop(rng)
        r['scribble'] = rng.random() < .3
        script.append(r)
    script.append(dict(rng.choice(pool)))
    return dict(defs=defs, script=script)


def draw_survey(rng):
    def one():
        nr = rng.choice([1, 1, 2])
        rate = rng.choice([1., 2., 16.])
        lens = [rng.choice([150, 220, 300]) for _ in range(nr)]
        starts, t = [], 100.
        for n in lens:
            starts.append(t)
            t += (n + 10) / rate
        return dict(seed=rng.randrange(10 ** 6), rate=rate, lens=lens, starts=starts,
                    spikes=rng.choice([0, 0, 4]), noise=rng.choice([.1, .5]), dead=rng.random() < .05)
    sets = {'s0': one(), 's1': one()}
    if rng.random() < .5:
        sets['s1'] = dict(sets['s0'], seed=rng.randrange(10 ** 6))
    chains = dict(CHAINS, c0=draw_chain(rng))

    def opts():
        return dict(chain=rng.choice(sorted(chains)), remote=rng.random() < .5,
                    rchain=rng.choice([None, None, 'mest', 'c0', 'bi1', 'ls']),
                    pf=rng.choice([None, None, [.3], [.5, 1., 6]]), rpf=rng.choice([None, None, [.2, 1., 7]]),
                    mest=rng.choice([{}, {}, {'tol': 1e-3}, {'maxit': 3}, {'maxit': 6}]),
                    fopts=rng.choice([{}, {}, {'overlap': .5}, {'Nper': 4, 'overlap': .3}]),
                    real=rng.random() < .1)
    defs = dict(sets=sets, objs=OBJS, chains=chains, opts={'o0': opts(), 'o1': opts()})
    script = []
    fr = [.1, .13, .2, .25, .3, .4, .02, .6]
    pick = rng.sample(fr, 3)
    for i in range(rng.choice([2, 3, 3])):
        name = rng.choice(sorted(sets))
        freqs = [rng.choice(pick) * sets[name]['rate'] for _ in range(rng.choice([1, 2, 3]))]
        r = dict(op='impedance', set=name, freqs=freqs, opts=rng.choice(['o0', 'o0', 'o1']))
        if rng.random() < .15:
            r['stop'] = dict(draw_stop(rng), exc=rng.choice(['key', 'own']))
        script.append(r)
    last = dict(rng.choice(script))
    last.pop('stop', None)
    last['freqs'] = rng.sample(last['freqs'], len(last['freqs']))
    script.append(last)
    return dict(defs=defs, script=script)


def execute(program, seed, k):
    """a history generated from SharedWeights"""
    rng = random.Random('memo/sim/%s/%s' % (seed, k))
    data = {d: dict(draw_data(rng), p=2, singular=False) for d in ('d1', 'd2', 'd3')}
    chains, script, again = {}, [], []
    for s in program:
        if s['how'] == 'poke':
            script.append(dict(op='poke', obj=s['c'][0], data=s['d'], it=s['it'], abs=rng.random() < .5))
            continue
        name = '-'.join(s['c'])
        chains[name] = ['list', None] + list(s['c'])
        r = dict(op='estimate', data=s['d'], outs=rng.choice([[0], [1], [0, 1], [1, 0]]), chain=name,
                 given=False, lists=False)
        if s['how'] == 'nonconv':
            r['maxit'] = 2 + s['pos']
            r['tol'] = 1e-9
        elif s['how'] == 'interrupt':
            r['stop'] = dict(where=['at', s['pos'], s['it']], early=rng.random() < .5,
                             exc=rng.choice(['key', 'own', 'mem']))
        script.append(r)
        again.append({k: v for k, v in r.items() if k not in ('stop', 'maxit', 'tol')})
    rng.shuffle(again)
    script += again[:2]
    case = dict(defs=dict(data=data, objs=OBJS, chains=chains), script=script)
    return case, run_history(case)


# ---- massive processing --------------------------------------------------------------------------

def sites(d):
    """samples of every channel of the sites, on the grid of the survey"""
    r = np.random.RandomState(d['seed'])
    h = r.standard_normal((2, d['n']))
    out = {'B': h, 'E': np.array([[1., 2.], [-1., .5]]).dot(h) + .2 * r.standard_normal((2, d['n']))}
    for name in d['remotes']:
        m = d['width'][name]
        out[name] = (h if m == 2 else h[:1]) + .3 * r.standard_normal((m, d['n']))
    return out


def runs_of(pieces):
    """maximal intervals [a, b) of a union of pieces"""
    out = []
    for a, b in sorted(pieces):
        if out and out[-1][1] == a:
            out[-1][1] = b
        else:
            out.append([a, b])
    return out


def common(lists):
    cur = lists[0]
    for other in lists[1:]:
        cur = [[max(a, c), min(b, d)] for a, b in cur for c, d in other if min(b, d) - max(a, c) >= 2]
    return sorted(cur)


def signal(d, names, samples, a, b):
    import razorback as rb
    cols, cals = [], []
    for n in names:
        cols += [y[a:b] for y in samples[n]]
        cals += d['cals'][n]
    return rb.SyncSignal(cols, d['rate'], d['t0'] + a / d['rate'], cals)


def numbered(names, samples, **more):
    import razorback as rb
    tags, i = {}, 0
    for n in names:
        tags[n] = tuple(range(i, i + len(samples[n])))
        i += len(samples[n])
    for k, v in more.items():
        tags[k] = sum((tags[n] for n in v), ())
    return rb.Tags(i, **tags)


def packed(d, samples, remotes):
    import razorback as rb
    names = ['E', 'B'] + list(remotes)
    runs = common([runs_of(d['pieces'][n]) for n in names])
    more = {'Bremote': remotes} if remotes else {}
    return rb.SignalSet(numbered(names, samples, **more), *[signal(d, names, samples, a, b) for a, b in runs])


def inventory(d, samples):
    import razorback as rb
    out = []
    for el in d['elements']:
        names = el['names']
        out.append(rb.SignalSet(numbered(names, samples), *[signal(d, names, samples, a, b) for a, b in el['pieces']]))
    return rb.Inventory(out)


def mass_opts(d, kit):
    kw = dict(weights=kit.chain(d['chain']), fourier_opts=dict(d['fopts']), keep_invalid_times=d['times'])
    if d['pf']:
        kw['prefilter'] = kit.prefilter(d['pf'])
    if d['rchain']:
        kw['remote_weights'] = kit.chain(d['rchain'])
    if d['mest']:
        kw['mest_opts'] = dict(d['mest'])
    return kw


def mass_single(defs, remotes, interval, freq):
    from razorback.utils import impedance
    d = defs['mass']
    kit = Kit(defs)
    data = packed(d, sites(d), remotes)
    a, b = interval
    t0 = d['t0']
    data = data.extract_t(t0 + a / d['rate'], t0 + b / d['rate'])
    kw = mass_opts(d, kit)
    if remotes:
        kw['remote'] = 'Bremote'
    return entry(impedance(data, [freq], **kw), 0)


def mass_run(defs, calls):
    from razorback.utils import impedance_mass_proc
    d = defs['mass']
    kit = Kit(defs)
    inv = inventory(d, sites(d))
    opts = mass_opts(d, kit)
    if d.get('remote', 'no') != 'no':
        opts['remote'] = d['remote']     # what the combinations decide
    t0 = d['t0']
    out = []
    for c in calls:
        l_int = [tuple(t0 + x / d['rate'] for x in i) for i in c['intervals']]
        kw = {} if c['combine'] and c['default'] else dict(combines_remotes=c['combine'])
        given = (list(c['remotes']), list(c['freqs']), l_int, opts)

        def look():
            return repr(given) + repr([
                (id(e), sorted(e.tags.items()), [(r.start, r.sampling_rate, [id(f) for f in r.calibrations],
                                                  [np.asarray(x).tobytes() for x in r.data]) for r in e.signals])
                for e in inv])
        before = look()
        try:
            res = impedance_mass_proc(inv, *given, **kw)
        except Exception as ex:
            out.append(dict(out='fail', keys=[], ans=[], err=repr(ex)[:300], combs=[], mutated=look() != before))
            continue
        keys, ans, ok = [], [], True
        combs = [[int(x) for x in rc if x is not None] for rc in res.remote_combination]
        lens = {len(x) for x in (res.impedance, res.invalid_time, res.error, res.transfer_mag)}
        ok &= lens == {len(combs)}
        for ci, comb in enumerate(combs):
            if not ok or any(len(x[ci]) != len(l_int) for x in res[1:]):
                ok = False
                break
            for ii, interval in enumerate(c['intervals']):
                if any(len(x[ci][ii]) != len(c['freqs']) for x in res[1:]):
                    ok = False
                    break
                one = type('R', (), dict(impedance=res.impedance[ci][ii], error=res.error[ci][ii],
                                         invalid_time=res.invalid_time[ci][ii],
                                         transfer_mag=res.transfer_mag[ci][ii]))
                for fi, f in enumerate(c['freqs']):
                    rem = [c['remotes'][x] if 0 <= x < len(c['remotes']) else '?' for x in comb]
                    keys.append(mass_key(rem, interval, f))
                    ans.append(entry(one, fi))
        out.append(dict(out='ok' if ok else 'ragged', keys=keys, ans=ans, combs=combs, mutated=look() != before))
    return out


def mass_key(rem, interval, f):
    return 'm %s %s %s' % (','.join(rem), interval, f)


def subsets(n):
    for m in range(1 << n):
        yield [i for i in range(n) if m >> i & 1]


def run_mass(case):
    defs, events, known = case['defs'], [], set()
    for c in case['script']:
        n = len(c['remotes'])
        combs = list(subsets(n)) if c['combine'] else [list(range(n))]
        for comb in combs:
            rem = [c['remotes'][i] for i in comb]
            for interval in c['intervals']:
                for f in c['freqs']:
                    key = mass_key(rem, interval, f)
                    if key in known:
                        continue
                    known.add(key)
                    ans = alone(mass_single, defs, rem, interval, f)
                    events.append(dict(op='each', ok=True, prop='C15', keys=[key], out='ok', ans=[ans],
                                       what='single'))
    for c, r in zip(case['script'], alone(mass_run, defs, case['script'])):
        events.append(dict(op='mass', ok=r['out'] == 'ok', prop='C15', keys=r['keys'], out=r['out'], ans=r['ans'],
                           combs=r['combs'], mutated=r['mutated'], nrem=len(c['remotes']), combine=c['combine'],
                           nint=len(c['intervals']), nfreq=len(c['freqs']), what='mass', err=r.get('err', '')))
    return events


def draw_mass(rng):
    n = rng.choice([260, 320])
    rate = rng.choice([1., 2., 8.])
    nrem = rng.choice([0, 1, 1, 2, 2, 2, 3])
    pool = ['R1', 'R2', 'Ra', 'site9_B', 'Z', 'R?']
    remotes = rng.sample(pool, nrem)
    width = {r: rng.choice([2, 2, 2, 1]) for r in remotes}
    names = ['E', 'B'] + remotes
    groups = [['E', 'B']] if rng.random() < .6 else [['E'], ['B']]
    rest = list(remotes)
    while rest:
        k = min(len(rest), rng.choice([1, 1, 2]))
        groups.append(rest[:k])
        rest = rest[k:]
    rng.shuffle(groups)
    pieces, elements = {}, []
    for g in groups:
        x = rng.random()
        if x < .35:
            ps = [[0, n]]
        elif x < .6:
            a = rng.randint(1, 60)
            ps = [[a, n - rng.randint(0, 40)]]
        elif x < .8:
            m = rng.randint(120, 160)
            ps = [[0, m], [m + rng.randint(3, 20), n]]
        else:
            m = rng.randint(80, 200)
            ps = [[0, m], [m, n]]
        for nm in g:
            pieces[nm] = ps
        if len(ps) == 2 and rng.random() < .5:
            elements += [dict(names=g, pieces=[p]) for p in ps]
        else:
            elements.append(dict(names=g, pieces=ps))
    cuts = {x for ps in pieces.values() for p in ps for x in p}
    if any(x + 1 in cuts for x in cuts):        # pieces of a single sample are left out of packings
        return draw_mass(rng)
    rng.shuffle(elements)
    cals = {nm: [rng.choice([1., 2., .5, 1.]) for _ in range(2 if nm in 'EB' else width[nm])] for nm in names}
    d = dict(seed=rng.randrange(10 ** 6), n=n, rate=rate, t0=rng.choice([0., 1000., 1e6]), remotes=remotes,
             width=width, pieces=pieces, elements=elements, cals=cals,
             chain=rng.choice(['ls', 'mest', 'bi1', 'mest']), rchain=rng.choice([None, None, 'mest', 'ls', 'bi1']),
             pf=rng.choice([None, None, [.3], [.5, 1., 6]]), fopts=rng.choice([{}, {'overlap': .5}, {'Nper': 4}]),
             mest=rng.choice([{}, {}, {'maxit': 4}]), times=rng.random() < .7, remote=rng.choice(['no', 'no', 'no', None, 'Bremote']))

    def interval():
        a = rng.choice([-1000, 0, rng.randint(0, 80)])
        b = rng.choice([2000, n, n - 1, rng.randint(180, n), rng.randint(90, 130)])
        x = rng.random()
        if x < .06:
            return [b, a]
        if x < .12:         # hardly anything, or nothing
            return rng.choice([[a, a], [a, a + 1], [3000, 4000], [-500, -1]])
        return [a, b]
    freqs = [rng.choice([.1, .125, .2, .25, .3, .05, .45]) * rate for _ in range(rng.choice([1, 2, 2, 3]))]
    ints = [interval() for _ in range(rng.choice([1, 2, 2, 3]))]
    combine = rng.random() < .7
    script = [dict(remotes=remotes, intervals=ints, freqs=freqs, combine=combine, default=rng.random() < .5)]
    if nrem >= 2 and rng.random() < .4:
        rs = rng.sample(remotes, rng.randint(1, nrem))
        script.append(dict(remotes=rs, intervals=ints[::-1], freqs=freqs, combine=not combine or len(rs) < 3,
                           default=False))
    return dict(defs=dict(mass=d, objs=OBJS, chains=CHAINS), script=script)


def run_case(case):
    return run_mass(case) if 'mass' in case['defs'] else run_history(case)


def generate(profile, seed, k):
    rng = random.Random('memo/%s/%s/%s' % (profile, seed, k))
    case = {'C12': draw_history, 'C12i': draw_survey, 'C15': draw_mass}[profile](rng)
    return case, run_case(case)


def truncate(case, l):
    return case


def replay(case):
    return run_case(case)
