"""check.py <property> [--replay FILE]

Decides one property: explores the bounded models of the specification with TLC, runs
programs on the code of /repo, and has TLC judge every recorded step (trace validation).
Exit 0: held on everything explored; 1: VIOLATION line(s); 2: the check itself failed.
"""
import collections
import concurrent.futures as cf
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import tlc                          # noqa: E402
from suites import SUITES, MODELS, ASSUMPTIONS   # noqa: E402

PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
REPO = os.environ.get('VERIF_REPO', '/repo')
CORES = int(os.environ.get('VERIF_CORES', '8'))
FINDINGS = os.path.join(VERIF, 'findings.jsonl')


class CheckError(Exception):
    pass


def child_env(hashseed):
    e = dict(os.environ)
    e.update(PYTHONPATH=os.path.join(REPO, 'src'), PYTHONDONTWRITEBYTECODE='1',
             PYTHONHASHSEED=str(hashseed), OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             MKL_NUM_THREADS='1', PYTHONWARNINGS='ignore', LC_ALL='C.UTF-8')
    return e


def run_chunk(prop, suite, seed, lo, hi, work):
    """generate, execute and validate cases lo..hi-1 of a suite, in a process of its own"""
    out = os.path.join(work, '%s_%d.json' % (suite['name'], lo))
    log = out + '.log'
    hashseed = (seed * 7919 + lo) % 4294967295
    job = dict(prop=prop, domain=suite['domain'], profile=suite['profile'], seed=seed,
               lo=lo, hi=hi, out=out, timeout=suite.get('case_timeout', 120),
               programs=suite.get('programs'))
    with open(log, 'wb') as f:
        try:
            p = subprocess.run([PY, os.path.join(HERE, 'chunk.py'), json.dumps(job)],
                               env=child_env(hashseed), stdout=f, stderr=subprocess.STDOUT,
                               timeout=suite.get('chunk_timeout', 3000), cwd=work)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 'timeout'
    res = None
    if os.path.exists(out):
        with open(out) as f:
            res = json.load(f)
    if res is None or not res.get('done'):
        prog = {}
        if os.path.exists(out + '.progress'):
            with open(out + '.progress') as f:
                prog = json.load(f)
        with open(log, 'rb') as f:
            tail = f.read()[-6000:].decode('utf-8', 'replace')
        if isinstance(rc, int) and rc < 0 and rc not in (-9, -15) and 'k' in prog:
            return dict(cases=[], bad=[dict(k=prog['k'], l=0, prop=prop, clause='crash',
                                            detail='signal %d' % -rc)],
                        events=0, ops={}, states=0, generated=0, hashseed=hashseed)
        raise CheckError('chunk %s %d: %s\n%s' % (suite['name'], lo, rc, tail))
    res['hashseed'] = hashseed
    return res


def known_findings(prop):
    out = []
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as f:
            for line in f:
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get('status') == 'known' and d['property'] == prop:
                        out.append(d)
    return out


def matches(finding, viol):
    m = finding['match']
    return all(str(viol.get(k)) == str(v) for k, v in m.items())


def sim_programs(prop, suite, seed, tier, work):
    """programs generated by TLC from the specification itself"""
    mod, cfg, num, depth = suite['simulate'][tier]
    progs = []
    per = -(-num // CORES)
    r = tlc.run(mod, cfg, workers=CORES, timeout=1500,
                extra=['-simulate', 'num=%d' % per, '-depth', str(depth), '-seed', str(seed)])
    if r['violated']:
        raise CheckError('model %s: %s' % (cfg, r['violated']))
    for line in r['out'].splitlines():
        if line.startswith('"PROGRAM '):
            progs.append(json.loads(json.loads(line)[8:]))
    progs = progs[:num]
    path = os.path.join(work, suite['name'] + '.programs')
    with open(path, 'w') as f:
        json.dump(progs, f)
    suite['programs'] = path
    return len(progs)


def main(argv):
    prop = argv[0]
    if len(argv) > 2 and argv[1] == '--replay':
        return replay(prop, argv[2])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1 and argv[1] in ('quick', 'thorough'):
        tier = argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    for old in os.listdir(os.path.join(VERIF, "evidence", "replay")):
        if old.startswith(prop + "_"):
            os.remove(os.path.join(VERIF, "evidence", "replay", old))
    work = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    try:
        return check(prop, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, tier, seed, work, t0):
    states = transitions = 0
    models = []
    # 1. the specification itself, exhaustively within the constants of each configuration
    for mod, cfg, when in MODELS.get(prop, []):
        if when == 'thorough' and tier == 'quick':
            continue
        r = tlc.run(mod, cfg, workers=CORES, timeout=3000)
        if r['violated'] or not r.get('distinct'):
            raise CheckError('model %s: %s\n%s' % (cfg, r['violated'], r['out'][-1500:]))
        models.append({'model': cfg, 'distinct_states': r['distinct'], 'generated': r['generated']})
        states += r['distinct']
        transitions += r['generated']
    # 2. behaviours executed on the code and judged by the specification
    suites = [dict(s) for s in SUITES[prop]]
    jobs = []
    for s in suites:
        n = s[tier]
        if 'simulate' in s:
            n = sim_programs(prop, s, seed, tier, work)
            s['generated'] = n
        size = s.get('chunk') or max(1, min(s.get('maxchunk', 250), -(-n // CORES)))
        for lo in range(0, n, size):
            jobs.append((s, lo, min(n, lo + size)))
    ops, samples, viols = collections.Counter(), [], []
    traces = events = 0
    others = collections.Counter()
    with cf.ThreadPoolExecutor(CORES) as pool:
        futs = [(pool.submit(run_chunk, prop, s, seed, lo, hi, work), s, lo, hi)
                for s, lo, hi in jobs]
        for fut, s, lo, hi in futs:
            r = fut.result()
            traces += r.get('traces', 0)
            events += r['events']
            states += r['states']
            transitions += r['generated']
            ops.update(r['ops'])
            if len(samples) < 3 or (lo == 0 and len(samples) < 8):
                samples += [dict(suite=s['name'], **c) for c in r['cases'][:2]]
            for b in r['bad']:
                if b['prop'] == prop:
                    b.update(suite=s['name'], domain=s['domain'], profile=s['profile'],
                             seed=seed, hashseed=r['hashseed'])
                    viols.append(b)
                else:
                    others[b['prop'] + '/' + b['clause']] += 1
    # 3. verdict
    known = known_findings(prop)
    hit = collections.Counter()
    real = []
    for v in viols:
        ks = [f for f in known if matches(f, v)]
        if ks:
            hit[ks[0]['id']] += 1
        else:
            real.append(v)
    for f in known:
        if hit[f['id']] or f.get('always'):
            print('KNOWN-FINDING: property=%s %s' % (prop, f['text']))
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': states, 'transitions': transitions,
            'traces_validated_against_impl': traces,
            'events_validated': events,
            'operations': dict(sorted(ops.items())),
            'models': models,
            'suites': [{k: s[k] for k in ('name', 'domain', 'profile')} for s in suites],
            'findings_hit': dict(hit),
            'mismatches_owned_by_other_properties': dict(others),
            'samples': samples[:5],
        },
        'assumptions': ASSUMPTIONS.get(prop, []) + ASSUMPTIONS['all'],
        'wall_s': round(wall, 2),
        'violations': len(real),
    }
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    seen = set()
    for i, v in enumerate(sorted(real, key=lambda v: (len(json.dumps(v.get('case', ''))), v['k']))):
        key = (v['clause'], v.get('op'))
        if key in seen or len(seen) >= 8:
            continue
        seen.add(key)
        path = os.path.join(VERIF, 'evidence', 'replay', '%s_%s_%d.json' % (prop, v['clause'], i))
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print('%s: clause "%s", operation %s, suite %s, case %s, step %s' % (
            prop, v['clause'], v.get('op'), v['suite'], v['k'], v['l']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    print('%s %s seed=%d: %d traces, %d events, %d states, %d violations, %.1fs' % (
        prop, tier, seed, traces, events, states, len(real), wall))
    return 1 if real else 0


def replay(prop, path):
    """run one recorded case again and say what the specification expects"""
    with open(path) as f:
        v = json.load(f)
    work = tempfile.mkdtemp(prefix='verif_replay_')
    try:
        job = dict(prop=prop, domain=v['domain'], replay=v['case'], detail=True,
                   out=os.path.join(work, 'o.json'))
        p = subprocess.run([PY, os.path.join(HERE, 'chunk.py'), json.dumps(job)],
                           env=child_env(v.get('hashseed', 0)), cwd=work)
        if p.returncode:
            return 2
        with open(job['out']) as f:
            r = json.load(f)
        bad = [b for b in r['bad'] if b['prop'] == prop]
        for b in bad:
            print('step %s clause "%s" operation %s' % (b['l'], b['clause'], b.get('op')))
            print(' observed:', json.dumps(b.get('event')))
            print(' specification:', b.get('spec'))
        if bad:
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    try:
        sys.exit(main(sys.argv[1:]))
    except (CheckError, tlc.TLCError) as ex:
        print('CHECK-ERROR %s' % ex)
        sys.exit(2)
