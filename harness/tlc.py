"""Running TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')


class TLCError(Exception):
    pass


def run(module, cfg=None, env=None, workers=8, timeout=800, extra=(), heap='6g', check=True):
    """run TLC on spec/<module>.tla; returns dict(out, generated, distinct, error)"""
    meta = tempfile.mkdtemp(prefix='tlcmeta')
    try:
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', JARS, 'tlc2.TLC',
               '-config', os.path.join(SPEC, cfg or module + '.cfg'), '-metadir', meta,
               '-workers', str(workers), '-noGenerateSpecTE'] + list(extra) + [
                   os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as ex:
        raise TLCError('TLC timed out on %s after %ss' % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = {'out': out, 'rc': p.returncode}
    m = re.findall(r'([\d,]+) states generated.*?, ([\d,]+) distinct states found', out)
    if m:
        res['generated'], res['distinct'] = (int(x.replace(',', '')) for x in m[-1])
    m = re.search(r'Invariant (\S+) is violated|Action property (\S+) is violated|'
                  r'Temporal properties were violated|Assumption .* is false', out)
    res['violated'] = m.group(0) if m else None
    res['finished'] = 'Model checking completed' in out or 'Finished in' in out
    res['error'] = 'Error:' in out and not res['violated']
    if res['error'] and check:
        raise TLCError('TLC failed on %s:\n%s' % (module, out[out.index('Error:'):][:5000]))
    return res


def dump_traces(path, traces):
    with open(path, 'w') as f:
        for t in traces:
            f.write(json.dumps(t) + '\n')
