"""Drives razorback's signal sets and inventories and records what they do.

A script is a list of operations on numbered objects (signal sets h, inventories i),
all times being integer ticks.  World.run(op) applies one to the real code and returns
the event to be judged by spec/TraceStore.tla.
"""
import copy
import math
import warnings

import numpy as np

warnings.simplefilter('ignore')

SHIFT = 1 << 21
BADTICK = -999999937
# how an operation is written, which the specification need not know
ONLY_PY = ('slice', 'mask', 'style', 'form', 'via', 'kind', 'scalar', 'src')


class Clock:
    """tick k is at epoch + k / unit seconds"""
    def __init__(self, epoch, unit):
        self.epoch, self.unit = epoch, unit

    def time(self, tick):
        if tick <= -10**8:
            return -math.inf
        if tick >= 10**8:
            return math.inf
        return self.epoch + tick / self.unit

    def tick(self, t):
        x = (float(t) - self.epoch) * self.unit
        if not math.isfinite(x):
            return BADTICK
        k = round(x)
        return k if abs(x - k) <= 0.06 and abs(k) < 10**8 else BADTICK

    def rate(self, p):
        return self.unit / p

    def period(self, rate):
        x = self.unit / float(rate)
        k = round(x)
        return k if k > 0 and abs(x - k) <= 1e-7 * x else BADTICK


# calibrations: 2k = constant k, 2k+1 = the function f -> k*f
def make_cal(c):
    k = c // 2
    if c % 2 == 0:
        return k
    return lambda f: k * f


def cal_id(cal):
    try:
        a, b = cal(1.0), cal(2.0)
        if a == b:
            return int(2 * a) if float(a).is_integer() else BADTICK
        if b == 2 * a and float(a).is_integer():
            return int(2 * a + 1)
    except Exception:
        pass
    return BADTICK


def make_data(track, start, n, kind):
    base = np.arange(start, start + n) + track * SHIFT
    if kind == 'f8':
        return base.astype(float)
    if kind == 'i8':
        return base.astype(np.int64)
    if kind == 'list':
        return [float(x) for x in base]
    if kind.startswith('dask'):
        import dask.array as da
        return da.from_array(base.astype(float), chunks=int(kind[4:] or 3))
    raise ValueError(kind)


def segments(data):
    a = np.asarray(data)
    out = []
    for x in a.tolist():
        if isinstance(x, complex) or x != x or x in (math.inf, -math.inf):
            tr, ix = -1, 0
        else:
            k = int(x)
            tr, ix = (k // SHIFT, k % SHIFT) if k == x and 0 <= k < 2000 * SHIFT else (-1, 0)
        if out and out[-1][0] == tr and out[-1][1] + out[-1][2] == ix:
            out[-1][2] += 1
        else:
            out.append([tr, ix, 1])
    return out


def project_run(clock, r):
    n = int(r.size)
    s = clock.tick(r.start)
    p = clock.period(r.sampling_rate)
    if n > 0 and s != BADTICK and p != BADTICK:
        a, b = r.interval
        if (clock.tick(b) != s + (n - 1) * p or clock.tick(r.stop) != s + (n - 1) * p
                or clock.tick(a) != s):
            s = BADTICK
    ch = [{'g': segments(d), 'c': cal_id(c)} for d, c in zip(r.data, r.calibrations)]
    if len(r.data) != len(r.calibrations):
        ch.append({'g': [], 'c': BADTICK})
    if any(sum(x[2] for x in c['g']) != n for c in ch):
        n = BADTICK
    return {'s': s, 'p': p, 'n': n, 'ch': ch}


def project_tags(t):
    return sorted([k, [int(i) for i in v]] for k, v in dict(t).items())


def project_set(clock, S):
    runs = [project_run(clock, r) for r in S.signals]
    for k, r in enumerate(S.signals):     # the set and its runs agree
        if (len(S.sizes), len(S.starts), len(S.stops), len(S.intervals), len(S.sampling_rates),
                int(S.nb_runs)) != (len(runs),) * 6 or (
                    S.sizes[k], S.starts[k], S.stops[k], S.intervals[k][0], S.intervals[k][1],
                    S.sampling_rates[k]) != (r.size, r.start, r.stop, r.start, r.stop, r.sampling_rate):
            runs[k]['p'] = BADTICK
    return {'n': int(S.nb_channels), 't': project_tags(S.tags), 'r': runs}


class World:
    def __init__(self, clock):
        import razorback as rb
        self.rb = rb
        self.clock = clock
        self.sets, self.invs = [], []
        self.seen, self.iseen = [], []
        self.lists = []      # lists given, and what was in them

    # ------------------------------------------------------------------ objects
    def proj(self, S):
        return project_set(self.clock, S)

    def iproj(self, inv):
        return [self.proj(e) for e in inv]

    def sync(self, r, kind='f8'):
        """a raw synchronous recording from its description"""
        data = []
        for c in r['ch']:
            parts = [make_data(tr, fr, ln, 'f8') for tr, fr, ln in c['g']]
            if len(parts) == 1:
                tr, fr, ln = c['g'][0]
                data.append(make_data(tr, fr, ln, kind))
            else:
                data.append(np.concatenate(parts))
        cals = [make_cal(c['c']) for c in r['ch']]
        if all(c['c'] == 2 for c in r['ch']) and r.get('nocal', True):
            cals = None
        return self.rb.SyncSignal(data, self.clock.rate(r['p']), self.clock.time(r['s']), cals)

    def tagtable(self, op):
        d = {}
        for k, v in op['t']:
            d[k] = v[0] if len(v) == 1 and op.get('scalar') else list(v)
        if op['tn'] >= 0:
            return self.rb.Tags(op['tn'], **d)
        return d

    def parts(self, op):
        return [self.sync(x['r'], op.get('kind', 'f8')) if x['sync'] else self.sets[x['h'] - 1]
                for x in op['parts']]

    def when(self, tick, via, objs):
        """the float for a tick: computed, or as reported by an object"""
        if via == 'obj':
            for o in objs:
                for r in o.signals:
                    for t in (r.start, r.stop):
                        if self.clock.tick(t) == tick:
                            return t
        return self.clock.time(tick)

    # --------------------------------------------------------------- operations
    def do(self, op):
        rb, o = self.rb, op['op']
        style = op.get('style', '')
        S = self.sets[op['h'] - 1] if 'h' in op else None
        V = self.invs[op['i'] - 1] if 'i' in op else None
        if o == 'build':
            tags, parts = self.tagtable(op), self.parts(op)
            if style == 'or' and op['tn'] >= 0 and parts:
                res = tags | parts[0]
                for x in parts[1:]:
                    res = res | x
                return res
            return rb.SignalSet(tags, *parts)
        if o == 'join':
            parts = self.parts(op)
            if style == 'or' and parts:
                res = S
                for x in parts:
                    res = res | x
                return res
            if style == 'ror' and len(parts) == 1 and op['parts'][0]['sync']:
                return parts[0] | S
            if style == 'ctor':
                return rb.SignalSet(S.tags, S, *parts)
            if style == 'ctordict' and all(x.signals for x in [S] + parts):
                # (names alone do not tell how many channels there are)
                return rb.SignalSet(dict(S.tags), S, *parts)
            return S.join(*parts)
        if o == 'merge':
            q = [self.sets[h - 1] for h in op['a']]
            if style == 'and' and len(q) == 2:
                return q[0] & q[1]
            return q[0].merge(*q[1:])
        if o in ('extract', 'iextract'):
            objs = [S] if S is not None else list(V)
            lo = self.when(op['lo'], op.get('via'), objs)
            hi = self.when(op['hi'], op.get('via'), objs)
            T = S if S is not None else V
            if op['excl']:
                return T.extract_t(lo, hi, exclude=True)
            return T.extract_t(lo, hi) if style != 'kw' else T.extract_t(lo, hi, exclude=False)
        if o == 'sextract':
            r = S.signals[op['j']]
            lo = self.when(op['lo'], op.get('via'), [S])
            hi = self.when(op['hi'], op.get('via'), [S])
            return r.extract_t(lo, hi, strict=True) if op['strict'] else r.extract_t(lo, hi)
        if o == 'sindex':
            r = S.signals[op['j']]
            kw = {}
            if not op['strict'] or style == 'kw':
                kw['strict'] = op['strict']
            if op['last'] or style == 'kw':
                kw['include_last'] = op['last']
            return r.extract_i((op['lo'] + [None])[0], (op['hi'] + [None])[0], **kw)
        if o == 'channels':
            return self.select_channels(S, op, style)
        if o == 'both':
            return S[self.chanarg(op), self.runarg(op, S)]
        if o == 'sselect':
            return S.signals[op['j']].select(*op['idx'])
        if o == 'runs':
            arg = self.runarg(op, S)
            return S[:, arg] if style == 'getitem' else S.select_runs(arg)
        if o == 'copy':
            return copy.deepcopy(S) if op['deep'] else copy.copy(S)
        if o == 'icopy':
            return copy.deepcopy(V)
        if o == 'fuse':
            return S.merge_consecutive_runs()
        if o == 'settag':
            v = op['v']
            form = op.get('form', 'list')
            v = {'list': lambda: list(v), 'tuple': lambda: tuple(v), 'scalar': lambda: v[0],
                 'iter': lambda: iter(v), 'array': lambda: np.array(v, dtype=int)}[
                     form if (form != 'scalar' or len(v) == 1) else 'list']()
            if style == 'attr':
                setattr(S.tags, op['key'], v)
            elif style == 'update':
                S.tags.update({op['key']: v})
            else:
                S.tags[op['key']] = v
            return None
        if o == 'deltag':
            if style == 'attr':
                delattr(S.tags, op['key'])
            elif style == 'pop':
                S.tags.pop(op['key'])
            else:
                del S.tags[op['key']]
            return None
        if o == 'retag':
            S.tags = self.sets[op['src'] - 1].tags if style == 'share' else self.tagtable(op)
            return None
        if o == 'inv':
            L = [self.sets[h - 1] for h in op['a']]
            self.lists.append((L, tuple(L)))
            return rb.Inventory(L)
        if o == 'append':
            V.append(S)
            return V
        if o == 'extend':
            L = [self.sets[h - 1] for h in op['a']]
            self.lists.append((L, tuple(L)))
            V.extend(L)
            return V
        if o == 'badappend':
            bad = {'none': None, 'str': 'x', 'dict': {}, 'inv': V,
                   'sync': self.sync({'s': 0, 'p': 1, 'n': 2, 'ch': [{'g': [[1, 0, 2]], 'c': 2}]})}
            x = bad[op['what']]
            try:
                if style == 'ctor':
                    rb.Inventory(list(V) + [x])
                elif style == 'extend':
                    V.extend([x])
                else:
                    V.append(x)
            except ValueError:
                raise
            except Exception:
                return None      # refused, but not with the documented ValueError
            return None
        if o == 'add':
            return V + self.invs[op['i2'] - 1]
        if o == 'ichannels':
            return V.select_channels(*op['names'])
        if o == 'iruns':
            idx = [list(x) for x in op['idx']]
            if style == 'mask':
                idx = [np.isin(np.arange(s.nb_runs), x) for s, x in zip(V, idx)]
            return V.select_runs(iter(idx) if style == 'iter' else idx)
        if o == 'ifilter':
            return V.filter(*[''.join(map(chr, q)) for q in op['pats']])
        if o == 'igroups':
            return V.extract_groups([(g['k'], list(g['old'])) for g in op['groups']])
        if o == 'pack':
            if op['multi'] and style != 'kw':
                return V.pack()
            return V.pack(keep_multi_tags=op['multi'])
        if o == 'joinmerge':
            return V.merge()
        if o == 'iquery':
            return {'tags': sorted(V.tags),
                    'rates': [[self.clock.period(x) for x in s] for s in V.sampling_rates],
                    'starts': [[self.clock.tick(x) for x in s] for s in V.starts],
                    'stops': [[self.clock.tick(x) for x in s] for s in V.stops],
                    'intervals': [[[self.clock.tick(x) for x in e] for e in s] for s in V.intervals]}
        if o == 'estimate':
            return self.estimate(S, V, op)
        raise RuntimeError('unknown operation ' + o)

    def chanarg(self, op):
        return [x['name'] if x['tag'] else x['idx'] for x in op['sel']]

    def select_channels(self, S, op, style):
        arg = self.chanarg(op)
        if style == 'slice' or style == 'getslice':
            sl = slice(*op['slice'])
            return S.select_channels(sl) if style == 'slice' else S[sl]
        if style in ('one', 'getone', 'attr') and len(arg) == 1:
            if style == 'attr' and isinstance(arg[0], str):
                return getattr(S, arg[0])
            return S[arg[0]] if style == 'getone' else S.select_channels(arg[0])
        if style == 'tuple':
            return S.select_channels(tuple(arg))
        if style in ('array', 'getarray'):
            kinds = {type(x) for x in arg}
            arg = np.array(arg, dtype=kinds.pop() if len(kinds) == 1 else object)
            return S.select_channels(arg) if style == 'array' else S[arg]
        if style == 'getitem':
            return S[arg]
        return S.select_channels(arg)

    def runarg(self, op, S):
        form = op.get('form', 'list')
        if form == 'int':
            return op['idx'][0]
        if form == 'slice':
            return slice(*op['slice'])
        if form == 'mask':
            return np.array(op['mask'], dtype=bool)
        if form == 'rates':
            return S.sampling_rates == self.clock.rate(op['p'])
        if form == 'array':
            return np.array(op['idx'], dtype=int)
        return list(op['idx'])

    def estimate(self, S, V, op):
        rb = self.rb
        what = op['what']
        fo = dict(Nper=1, overlap=0, window=None)
        import io, contextlib
        with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
            if what == 'fourier':
                S.fourier_coefficients(self.clock.rate(op['p']) / 2, **fo)
            elif what == 'impedance':
                rb.utils.impedance(
                    S, [self.clock.rate(op['p']) / 2], weights=rb.weights.mest_weights,
                    prefilter=rb.prefilters.cod_filter(0., size=2), fourier_opts=fo,
                    remote=op.get('remote') or None, tag_elec=op['E'], tag_mag=op['B'],
                    keep_invalid_times=True)
            elif what == 'prefilter':
                rb.utils.prefilter_values_mass_proc(
                    S, [op['B']], [self.clock.rate(op['p']) / 2],
                    [(-math.inf, math.inf)], rb.prefilters.cod_filter(0., size=2))
            elif what == 'massproc':
                rb.utils.impedance_mass_proc(
                    V, list(op['remotes']), [self.clock.rate(op['p']) / 2],
                    [(-math.inf, math.inf)], dict(fourier_opts=fo))
        return None

    # -------------------------------------------------------------------- events
    def run(self, op):
        ev = {k: x for k, x in op.items() if k not in ONLY_PY}
        try:
            res = self.do(op)
            ok = True
        except Exception as ex:
            res, ok = None, False
            self.last_error = ex
        chg = []
        for k, S in enumerate(self.sets):
            try:
                now = self.proj(S)
            except Exception:
                now = {'n': BADTICK, 't': [], 'r': []}
            if now != self.seen[k]:
                chg.append([k + 1, now])
                self.seen[k] = now
        o = op['op']
        val = 0
        if ok:
            try:
                if o in ('build', 'join', 'merge', 'extract', 'channels', 'runs', 'both', 'fuse',
                         'copy', 'pack', 'joinmerge'):
                    val = self.proj(res)
                    self.sets.append(res)
                    self.seen.append(val)
                elif o in ('sextract', 'sindex', 'sselect'):
                    val = project_run(self.clock, res)
                elif o in ('iextract', 'ichannels', 'iruns', 'ifilter', 'igroups', 'icopy'):
                    val = self.iproj(res)
                    for e, v in zip(res, val):
                        self.sets.append(e)
                        self.seen.append(v)
                elif o in ('inv', 'add', 'append', 'extend'):
                    val = self.iproj(res)
                elif o == 'iquery':
                    val = res
                    iv = val.pop('intervals')
                    for a, b, x in zip(val['starts'], val['stops'], iv):
                        if [[u, v] for u, v in zip(a, b)] != x:
                            val['starts'] = [[BADTICK]]
            except Exception as ex:      # the result is not even a usable object
                self.last_error = ex
                ok = False
        ichg = []
        for k, V in enumerate(self.invs):
            try:
                now = self.iproj(V)
            except Exception:
                now = []
            if now != self.iseen[k]:
                ichg.append([k + 1, now])
                self.iseen[k] = now
        if ok and o in ('iextract', 'ichannels', 'iruns', 'ifilter', 'igroups', 'icopy', 'inv', 'add'):
            self.invs.append(res)
            self.iseen.append(val)
        lists = sum(list(map(id, L)) != list(map(id, x)) for L, x in self.lists)
        self.lists = [(L, tuple(L)) for L, _ in self.lists]
        ev.update(ok=ok, res=val, chg=chg, ichg=ichg, lists=lists)
        return ev
