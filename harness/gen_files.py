"""Lazily read binary files."""
import atexit
import os
import random
import shutil
import tempfile
import warnings

import numpy as np

TRACE_MODULE, TRACE_CFG = 'TraceFiles', 'Trace.cfg'
BAD = -999999937
DTYPES = ['<i4', '>i4', '<i2', '<f8', '<f4', 'u1', '<i8', '<u2']


def enc_index(q):
    """the index for the specification"""
    out = []
    for x in q:
        if x['k'] == 'slice':
            out.append(dict(k='slice', a=[] if x['a'] is None else [x['a']],
                            b=[] if x['b'] is None else [x['b']],
                            c=[] if x['c'] is None else [x['c']]))
        elif x['k'] == 'int':
            out.append(dict(k='int', i=x['i']))
        else:
            out.append(dict(k='bad'))
    return out


def py_index(q, form, rng):
    out = []
    for x in q:
        if x['k'] == 'slice':
            conv = (lambda v: v if v is None else np.int64(v)) if form == 'np' else (lambda v: v)
            out.append(slice(conv(x['a']), conv(x['b']), conv(x['c'])))
        elif x['k'] == 'int':
            out.append(np.int64(x['i']) if form == 'np' else x['i'])
        else:
            out.append({'str': 'a', 'float': 1.5, 'none': {}, 'obj': object()}[x['what']])
    if len(out) == 1 and form != 'tuple':
        return out[0]
    return tuple(out)


def values(r):
    a = np.asarray(r)
    flat = []
    for v in a.ravel().tolist():
        flat.append(int(v) if v == v and abs(v) < 1e9 and int(v) == v else BAD)
    return [int(d) for d in a.shape], flat


class Grid:
    pass


class World:
    def __init__(self):
        self.root = tempfile.mkdtemp(prefix='bin', dir=os.getcwd())
        self.home = os.getcwd()
        self.files, self.arrays = [], []
        os.mkdir(os.path.join(self.root, 'sub'))

    def close(self):
        os.chdir(self.home)
        shutil.rmtree(self.root, ignore_errors=True)

    def grid(self, dims):
        from razorback.io.binary_file_array import BaseArrayProxy
        data = (np.arange(dims[0])[:, None] * 100 + np.arange(dims[1])[None, :])

        class Mem(BaseArrayProxy):
            def extract(self, index):
                return data[index]
        return Mem(source=None, shape=tuple(dims), dtype=data.dtype)

    def do(self, op, ev):
        import dask
        from razorback.io import binary_file_array as B
        o = op['op']
        if o == 'write':
            name = 'f%d.bin' % len(self.files)
            dt = np.dtype(op['dtype'])
            n = (op['bytes'] - op['off']) // dt.itemsize + 1
            body = (np.arange(max(n, 0)) + op['base']).astype(dt).tobytes()
            raw = (b'\xa7' * op['off'] + body)[:op['bytes']]
            raw += b'\x55' * (op['bytes'] - len(raw))
            with open(os.path.join(self.root, name), 'wb') as f:
                f.write(raw)
            self.files.append(name)
        elif o == 'resize':
            p = os.path.join(self.root, self.files[op['f'] - 1])
            if op['bytes'] < 0:
                os.remove(p)
            else:
                with open(p, 'r+b') as f:
                    f.truncate(op['bytes'])
        elif o == 'load':
            name = self.files[op['f'] - 1]
            if op['how'] == 'rel':
                os.chdir(self.root)
            else:
                name = os.path.join(self.root, name)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                a = B.BinaryFileArray_1D(filename=name, offset=op['off'], size=op['size'],
                                         dtype=np.dtype(op['dtype']))
                ev['warn'] = len(w) > 0
            ev['n'] = int(a.shape[0])
            if a.dtype != np.dtype(op['dtype']) or a.ndim != 1 or len(a.shape) != 1:
                ev['n'] = BAD
            self.arrays.append(a)
            os.chdir(os.path.join(self.root, 'sub'))
        else:
            if o == 'grid':
                a = self.grid(op['dims'])
            else:
                a = self.arrays[op['a'] - 1]
            if o == 'array':
                r = np.asarray(a)
            elif o == 'dask':
                with dask.config.set({'array.chunk-size': '%d B' % op['chunk']}):
                    d = B.to_dask_array(a)
                    r = d[py_index(op['ix'], op['form'], None)].compute()
            else:
                r = a[py_index(op['ix'], op['form'], None)]
            ev['shape'], ev['vals'] = values(r)

    def run(self, op):
        ev = {k: v for k, v in op.items() if k not in ('dtype', 'how', 'form', 'chunk', 'ix')}
        ev.update(ok=True, shape=[], vals=[])
        if 'ix' in op:
            ev['ix'] = enc_index(op['ix'])
        if op['op'] == 'load':
            ev.update(n=0, warn=False)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.do(op, ev)
        except Exception as ex:
            self.last_error = ex
            ev.update(ok=False, shape=[], vals=[])
        finally:
            os.chdir(self.home)
        return ev


def index(rng, dim, bad=.05):
    x = rng.random()
    if x < .3:
        return dict(k='int', i=rng.choice([0, dim - 1, -1, -dim, rng.randrange(dim), -rng.randint(1, dim),
                                           dim, -dim - 1, dim + 5, rng.randrange(dim)]))
    if x < .3 + bad:
        return dict(k='bad', what=rng.choice(['str', 'float', 'none', 'obj']))

    def bound():
        return rng.choice([None, 0, dim, dim - 1, -1, -dim, rng.randint(-dim - 3, dim + 3),
                           rng.randint(0, dim), rng.randint(0, dim), dim + 7, -dim - 9])
    return dict(k='slice', a=bound(), b=bound(),
                c=rng.choice([None, None, 1, 1, 2, 3, -1, -1, -2, -3, dim, -dim, dim + 2, 7,
                              0 if rng.random() < .3 else 1]))


def generate(profile, seed, k):
    rng = random.Random('files/%s/%s' % (seed, k))
    w = World()
    script, events = [], []

    def do(**op):
        script.append(op)
        events.append(w.run(op))
        return events[-1]

    meta, loaded, grown = [], [], set()
    try:
        for _ in range(rng.randint(1, 2)):
            dt = rng.choice(DTYPES)
            item = np.dtype(dt).itemsize
            off = rng.choice([0, 0, 4, 7, 16, 1024, 3])
            n = rng.choice([0, 1, 2, 3, 5, 8, 13, 21, 40])
            nbytes = off + n * item + rng.choice([0, 0, 0, 1, item - 1])
            if rng.random() < .03:
                nbytes = max(0, off - 1)
            base = rng.randint(1, 60)
            do(op='write', bytes=nbytes, off=off, dtype=dt, base=base)
            meta.append([off, dt, item, n, base, nbytes, nbytes])
        for _ in range(rng.randint(6, 16)):
            x = rng.random()
            if not loaded or x < .12:
                f = rng.randrange(len(meta))
                off, dt, item, n, base, nbytes, _ = meta[f]
                size = rng.choice([n, n, n, max(1, n - 1), n + 1, n + 5, max(1, n // 2), 0])
                if f in grown:
                    size = min(size, n)     # what is beyond is not numbered
                ev = do(op='load', f=f + 1, off=off, item=item, size=size, base=base, dtype=dt,
                        how=rng.choice(['abs', 'rel']))
                if ev['ok']:
                    loaded.append((f, ev['n']))
                continue
            a = rng.randrange(len(loaded))
            f, n = loaded[a]
            if n <= 0:
                break
            if x < .16:
                cur = meta[f][5]
                new = rng.choice([cur - 1, cur - meta[f][2], meta[f][0], max(0, meta[f][0] - 1),
                                  meta[f][0] + meta[f][2] * rng.randint(0, n), -1])
                if -1 <= new < cur:
                    do(op='resize', f=f + 1, bytes=new)
                    meta[f][5] = new
            elif x < .19 and meta[f][5] >= meta[f][6]:
                do(op='resize', f=f + 1, bytes=meta[f][5] + rng.randint(1, 20))
                meta[f][5] = script[-1]['bytes']
                grown.add(f)
            elif x < .23:
                do(op='array', a=a + 1, ix=[])
            elif x < .4:
                # dask refuses indices on its own; what it accepts must be right
                # (dask itself mishandles slices starting before the array with a negative step)
                ix = [index(rng, n, 0)]
                if ix[0]['k'] == 'slice' and (ix[0]['a'] or 0) < -n and (ix[0]['c'] or 1) < 0:
                    ix[0]['a'] = None
                do(op='dask', a=a + 1, ix=ix, form=rng.choice(['', 'np', 'tuple']),
                   chunk=rng.choice([1, 16, 40, 100, 10**6]))
            elif x < .5:
                dims = [rng.randint(1, 5), rng.randint(1, 6)]
                m = rng.choice([0, 1, 1, 2, 2, 2, 3])
                do(op='grid', dims=dims, ix=[index(rng, (dims + [1])[j]) for j in range(m)],
                   form='tuple')
            else:
                m = rng.choice([1] * 14 + [0, 2])
                do(op='read', a=a + 1, ix=[index(rng, n) for _ in range(m)],
                   form=rng.choice(['', '', 'np', 'tuple']))
    finally:
        w.close()
    return {'script': script}, events


def truncate(case, l):
    return {'script': case['script'][:l]}


def replay(case):
    w = World()
    events = []
    try:
        for op in case['script']:
            if 'a' in op and op['a'] > len(w.arrays):
                break
            events.append(w.run(op))
    finally:
        w.close()
    return events
