"""Error estimates (profile C23) and coherence prefilters (profile C21)."""
import math
import random
import warnings

import numpy as np

TRACE_MODULE, TRACE_CFG = 'TraceStats', 'TraceStats.cfg'
BAD = 2000000000


def arr(x, scale=1., dtype='c'):
    if dtype == 'c':
        return np.array([complex(*v) for v in x]) * scale
    return np.array([v[0] for v in x], dtype=float) * scale


def decimal(v, shift=0):
    """(m, k) such as v = m * 10^-(k-shift), m having 8 digits"""
    if not math.isfinite(v) or v < 0:
        return BAD, 8
    v = v * 10. ** -shift
    k = 8
    while v >= 1 and k > 1 and v * 10 ** k >= 1e9:
        k -= 1
    m = round(v * 10 ** k)
    return (int(m), k) if m < 2e9 else (BAD, k)


def run_error(op):
    from razorback.mestimator import transfer_error
    ev = {k: op[k] for k in ('op', 'outputs', 'inputs', 'z', 'zden', 'rej')}
    ev.update(ok=True, v=[], k=[], neg=False)
    so, si = op['so'], op['si']
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            out = [arr(x, 10. ** so, op['dtype']) for x in op['outputs']]
            inp = [arr(x, 10. ** si, op['dtype']) for x in op['inputs']]
            z = np.array([arr(x, 10. ** (so - si) / op['zden'], op['dtype']) for x in op['z']])
            rej = [np.array(r, dtype=int) if op['how'] == 'arr' else tuple(r) for r in op['rej']]
            if op['form'] == 'arr':
                out, inp = np.array(out), np.array(inp)
            err = transfer_error(out, inp, z, rej)
            for line in err:
                ev['neg'] |= bool(np.any(np.asarray(line) < 0)) or bool(np.any(np.iscomplex(line)))
                d = [decimal(float(x) ** 2, 2 * (so - si)) for x in line]
                ev['v'].append([x[0] for x in d])
                ev['k'].append([x[1] for x in d])
    except Exception as ex:
        run_error.last = ex
        ev.update(ok=False, v=[], k=[])
    return ev


def run_cod(op):
    from razorback.prefilters import CoefficientOfDeterminationFilter, cod_filter
    ev = {k: op[k] for k in ('op', 'e', 'b', 'size', 'lo', 'hi')}
    ev.update(ok=True, v=[], rej=[], mutated=False)
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            # values do not depend on common complex factors
            turn = np.exp(1j * np.array(op['turn'])) if op['dtype'] == 'c' else [1, 1]
            e = arr(op['e'], op['se'] * turn[0], op['dtype'])
            b = np.transpose([arr(x, op['sb'] * turn[1], op['dtype']) for x in op['b']])
            copies = e.copy(), b.copy()
            kw = {}
            if op['hi'] != [1, 1] or op['explicit']:
                kw['cod_max'] = op['hi'][0] / op['hi'][1]
            if op['size'] != 10 or op['explicit']:
                kw['size'] = op['size']
            f = (cod_filter if op['alias'] else CoefficientOfDeterminationFilter)(op['lo'][0] / op['lo'][1], **kw)
            if op['again']:
                try:
                    f(e[::-1], b[::-1])
                except Exception:
                    pass
            v = f.value(e, b)
            ev['v'] = [decimal(float(x) ** 2 if x >= 0 else -1.)[0] for x in v]
            ev['rej'] = [int(i) for i in f(e, b)]
            ev['mutated'] = not (np.array_equal(e, copies[0]) and np.array_equal(b, copies[1]))
    except Exception as ex:
        run_cod.last = ex
        ev.update(ok=False, v=[], rej=[])
    return ev


def draw_error(rng):
    Q = rng.choice([1, 2, 2, 2, 3])
    P = rng.choice([1, 2, 2, 3])
    n = rng.randint(Q + 1, 9 if Q < 3 else 6)
    dtype = rng.choice(['c', 'c', 'f'])
    m = 2 if Q < 3 else 1

    def num(m):
        return [rng.randint(-m, m), rng.randint(-m, m) if dtype == 'c' else 0]
    zden = rng.choice([1, 1, 2])
    inputs = [[num(m) for _ in range(n)] for _ in range(Q)]
    outputs = [[num(3) for _ in range(n)] for _ in range(P)]
    z = [[num(2) for _ in range(Q)] for _ in range(P)]
    if rng.random() < .2:       # an exact fit
        p = rng.randrange(P)
        zden = 1
        outputs[p] = [[sum(z[p][q][0] * inputs[q][i][0] - z[p][q][1] * inputs[q][i][1] for q in range(Q)),
                       sum(z[p][q][0] * inputs[q][i][1] + z[p][q][1] * inputs[q][i][0] for q in range(Q))]
                      for i in range(n)]
    rej = [sorted(rng.sample(range(n), min(n - 1, rng.choice([0, 0, 1, 2, n - 1])))) for _ in range(P)]
    return dict(op='error', outputs=outputs, inputs=inputs, z=z, zden=zden, rej=rej, dtype=dtype,
                so=rng.choice([0, 0, 3, -5]), si=rng.choice([0, 0, -2, 4]),
                how=rng.choice(['arr', 'tuple']), form=rng.choice(['arr', 'list']))


def draw_cod(rng):
    Q = rng.choice([1, 1, 2, 2])
    size = rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 10])
    n = rng.choice([1, size - 1, size, size + 1, 2 * size - 1, 2 * size, 2 * size + 1, 3 * size + 2,
                    rng.randint(1, 25)])
    n = max(1, n)
    dtype = rng.choice(['c', 'c', 'f'])
    # sizes such that exact arithmetic stays within 31 bits
    m = 1 if size > 5 or Q == 2 else 2

    def num(m):
        return [rng.randint(-m, m), rng.randint(-m, m) if dtype == 'c' else 0]
    b = [[num(m) for _ in range(n)] for _ in range(Q)]
    e = [num(m) for _ in range(n)]
    j = 0
    while j < n:
        k = j + size
        x = rng.random()
        if x < .35:     # coherent block, with some noise
            z = [rng.choice([-1, 0, 1]) for _ in range(Q)]
            for i in range(j, min(n, k)):
                e[i] = [sum(z[q] * b[q][i][c] for q in range(Q)) for c in range(2)]
                if rng.random() < .2:
                    e[i] = num(m)
        elif x < .45:   # incoherent block
            for i in range(j, min(n, k)):
                for q in range(Q):
                    if (i - j) % 2:
                        b[q][i] = list(b[q][i - 1])
                if (i - j) % 2:
                    e[i] = [-e[i - 1][0], -e[i - 1][1]]
        elif x < .6:    # the same, less obviously
            last = min(n, k) if n - k >= size else n
            for _ in range(300):
                c = [num(m) for _ in range(j, last)]
                if any(v != [0, 0] for v in c) and all(
                        sum(complex(*v) * complex(*b[q][j + i]).conjugate() for i, v in enumerate(c)) == 0
                        for q in range(Q)):
                    e[j:last] = c
                    break
        j = k
    lo = rng.choice([[0, 1], [1, 2], [8, 10], [9, 10], [1, 3], [3, 4], [1, 1], [7, 10], [99, 100]])
    hi = rng.choice([[1, 1], [1, 1], [1, 1], [9, 10], [3, 4], [99, 100]])
    return dict(op='cod', e=e, b=b, size=size, lo=lo, hi=hi, dtype=dtype, explicit=rng.random() < .5,
                alias=rng.random() < .5, again=rng.random() < .2,
                turn=rng.choice([[0, 0], [.7, 0], [1, 2.3], [-.4, 3]]),
                se=rng.choice([1., 1e-4, 1.7, .1]), sb=rng.choice([1., 1., .3, 1e3 / 7]))


def generate(profile, seed, k):
    rng = random.Random('stats/%s/%s/%s' % (profile, seed, k))
    op = draw_error(rng) if profile == 'C23' else draw_cod(rng)
    return {'script': [op]}, replay({'script': [op]})


def truncate(case, l):
    return case


def replay(case):
    return [run_error(op) if op['op'] == 'error' else run_cod(op) for op in case['script']]
