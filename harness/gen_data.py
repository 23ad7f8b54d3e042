"""Data files, the path commands and plugins, in a scratch copy of the package."""
import atexit
import os
import random
import shutil
import sys
import tempfile

TRACE_MODULE, TRACE_CFG = 'TraceData', 'Trace.cfg'
REPO = os.environ.get('VERIF_REPO', '/repo')
PLUGINS = [[], ['hello'], ['hello', 'zap'], ['aaa', 'inventory']]
ROOT = None
PLUG = None

PLUGIN_CODE = '''
import click
%s
'''


def setup(plug):
    """a scratch root with a copy of the package, and its plugins"""
    global ROOT, PLUG
    if ROOT is not None:
        return
    PLUG = plug
    ROOT = os.path.realpath(tempfile.mkdtemp(prefix='data', dir=os.getcwd()))
    atexit.register(shutil.rmtree, ROOT, True)
    pkg = os.path.join(ROOT, 'pkg')
    shutil.copytree(os.path.join(REPO, 'src', 'razorback'), os.path.join(pkg, 'razorback'),
                    ignore=shutil.ignore_patterns('__pycache__', 'data'))
    os.makedirs(os.path.join(pkg, 'verifplug-1.0.dist-info'))
    with open(os.path.join(pkg, 'verifplug-1.0.dist-info', 'METADATA'), 'w') as f:
        f.write('Metadata-Version: 2.1\nName: verifplug\nVersion: 1.0\n')
    with open(os.path.join(pkg, 'verifplug-1.0.dist-info', 'entry_points.txt'), 'w') as f:
        f.write('[rzb.commands]\n' + ''.join('%s = verifplug:%s\n' % (p, p) for p in PLUGINS[plug])
                + '[other.group]\nintruder = verifplug:intruder\n')
    with open(os.path.join(pkg, 'verifplug.py'), 'w') as f:
        f.write('import click\n')
        for p in PLUGINS[plug] + ['intruder']:
            f.write('@click.command()\ndef %s():\n    " plugin "\n    click.echo("ran %s")\n\n' % (p, p))
    sys.path.insert(0, pkg)
    import razorback
    assert os.path.realpath(razorback.__file__).startswith(ROOT), razorback.__file__


def real(path):
    return os.path.join(ROOT, *path)


def model(p):
    """path of the model for an absolute path"""
    p = os.fspath(p)
    if not os.path.isabs(p):
        return ['not absolute', p]
    q = os.path.realpath(p)
    if q != p:
        return ['not resolved', p]
    if q != ROOT and not q.startswith(ROOT + os.sep):
        return ['outside']
    r = os.path.relpath(q, ROOT)
    return [] if r == '.' else r.split(os.sep)


def tree():
    out = []
    for d, dirs, files in os.walk(ROOT):
        rel = os.path.relpath(d, ROOT).split(os.sep)
        if rel[0] == 'pkg' and rel[:3] != ['pkg', 'razorback', 'data'] and rel[:2] != ['pkg', 'razorback']:
            if rel != ['pkg']:
                dirs[:] = []
                continue
        if rel[:2] == ['pkg', 'razorback'] and len(rel) == 2:
            dirs[:] = [x for x in dirs if x == 'data']
            files = [x for x in files if x == 'data']
        elif rel == ['pkg']:
            dirs[:] = [x for x in dirs if x == 'razorback']
            files = []
        if rel != ['.']:
            out.append([rel, 0])
        for f in files:
            with open(os.path.join(d, f)) as g:
                txt = g.read()
            out.append([([] if rel == ['.'] else rel) + [f], int(txt) if txt.isdigit() else 99999])
    return sorted(out)


def reset():
    for p in ('w', os.path.join('pkg', 'razorback', 'data')):
        q = os.path.join(ROOT, p)
        if os.path.isdir(q):
            shutil.rmtree(q)
        elif os.path.exists(q):
            os.remove(q)
    for d in ('w/a/b', 'w/c'):
        os.makedirs(os.path.join(ROOT, d))


class World:
    def __init__(self):
        reset()

    def cli(self, args):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            from click.testing import CliRunner
            import razorback.cli as c
        r = CliRunner().invoke(c.cli, args)
        return r

    def do(self, op, ev):
        import razorback as rb
        o = op['op']
        if o == 'mk':
            p = real(op['p'])
            if op['kind'] == 0:
                os.mkdir(p)
            else:
                with open(p, 'w') as f:
                    f.write(str(op['kind']))
        elif o == 'rm':
            p = real(op['p'])
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        elif o == 'path':
            ev['res'] = model(rb.data.data_path('/'.join(op['t'])))
        elif o == 'file':
            ev['res'] = model(rb.data.get_data_file('/'.join(op['name']), '/'.join(op['t'])))
        elif o in ('show', 'create'):
            cmd = 'base' if op['t'] == [] else 'metronix'
            r = self.cli(['path'] + ([] if o == 'show' else [op.get('flag', '-c')]) + [cmd])
            if r.exit_code:
                ev['ok'] = False
                return
            txt = r.output
            lines = txt.splitlines()
            if len(lines) != 1:
                ev['said'] = 'other'
                return
            line = lines[0]
            said = 'shown'
            for tail, word in ((' already exists', 'exists'), (' created', 'created')):
                if line.endswith(tail):
                    line, said = line[:-len(tail)], word
            ev['res'], ev['said'] = model(line), said
        elif o == 'noop':
            r = self.cli(op['args'])
            ev['ok'] = not r.exit_code
        elif o == 'commands':
            r = self.cli(['--help'])
            lines = r.output.splitlines()
            i = lines.index('Commands:')
            ev['res'] = [x.split()[0] for x in lines[i + 1:] if x.startswith('  ') and x[2:3].strip()]
        elif o == 'plugin':
            r = self.cli([op['name']])
            ev['ok'] = not r.exit_code
            ev['said'] = r.output.strip()[4:] if r.output.startswith('ran ') else 'other'

    def run(self, op):
        ev = {k: v for k, v in op.items() if k not in ('flag', 'args')}
        ev.update(ok=True, res=[], said='')
        old = os.getcwd()
        try:
            if 'cwd' in op:
                os.chdir(real(op['cwd']))
            self.do(op, ev)
        except Exception as ex:
            self.last_error = ex
            ev['ok'] = False
        finally:
            os.chdir(old)
        ev['F'] = tree()
        return ev


MET = 'metronix_calibration'
CWDS = [['w'], ['w', 'a'], ['w', 'a', 'b'], ['w', 'c']]
PACK = ['pkg', 'razorback', 'data']
TARGETS = [[], [MET], ['m'], ['m', 's']]
FNAMES = [['f'], ['g.txt'], ['s', 'f'], ['s']]


def generate(profile, seed, k):
    rng = random.Random('data/%s/%s' % (seed, k))
    setup((k // 25) % len(PLUGINS))
    w = World()
    script, events = [], []

    def do(**op):
        script.append(op)
        events.append(w.run(op))

    do(op='start')
    cands = set()
    for root in [c + ['data'] for c in CWDS] + [PACK, PACK]:
        for t in TARGETS + [[MET], []]:
            cands.add(tuple(root + t))
            for f in FNAMES:
                cands.add(tuple(root + t + f))
    cands = sorted(cands)
    mine = rng.choice(CWDS)
    for _ in range(rng.randint(8, 18)):
        F = {tuple(p): kd for p, kd in events[-1]['F']}
        cwd = mine if rng.random() < .6 else rng.choice(CWDS)
        x = rng.random()
        if x < .45:
            ok = [p for p in cands if p not in F and F.get(p[:-1]) == 0]
            focus = [p for p in ok if p[:len(mine) + 1] == tuple(mine + ['data']) or p[0] == 'pkg']
            if focus and rng.random() < .8:
                ok = focus
            if ok:
                p = rng.choice(ok)
                isdir = p[-1] in ('data', MET, 'm', 's') and rng.random() < .88
                do(op='mk', p=list(p), kind=0 if isdir else rng.randint(1, 50))
        elif x < .5:
            ok = [p for p in cands if p in F]
            if ok:
                do(op='rm', p=list(rng.choice(ok)))
        elif x < .62:
            do(op='path', cwd=cwd, t=rng.choice(TARGETS))
        elif x < .78:
            name, t = rng.choice(FNAMES), rng.choice(TARGETS)
            have = [p[3:] for p in F if p[:3] == tuple(PACK) and len(p) > 3]
            have += [p[len(cwd) + 1:] for p in F if p[:len(cwd) + 1] == tuple(cwd + ['data'])
                     and len(p) > len(cwd) + 1]
            if have and rng.random() < .8:
                p = rng.choice(have)
                j = rng.randint(max(0, len(p) - 2), len(p) - 1)
                t, name = list(p[:j]), list(p[j:])
            do(op='file', cwd=cwd, name=name, t=t)
        elif x < .86:
            do(op='show', cwd=cwd, t=rng.choice([[], [MET]]))
        elif x < .95:
            do(op='create', cwd=cwd, t=rng.choice([[], [MET]]), flag=rng.choice(['-c', '--create']))
        elif x < .97:
            do(op='noop', cwd=cwd, args=rng.choice([
                ['path'], ['path', '-c'], ['-h'], ['path', '-h'], ['version'], [], ['path', 'nope'],
                ['path', '-c', 'nope'], ['path', '-c', 'metronix', '--help'], ['nope'],
                ['path', 'base', '-c']]))
        elif x < .985 or not PLUGINS[PLUG]:
            do(op='commands', cwd=cwd, plugins=PLUGINS[PLUG])
        else:
            do(op='plugin', cwd=cwd, name=rng.choice(PLUGINS[PLUG]))
    do(op='commands', cwd=mine, plugins=PLUGINS[PLUG])
    return {'plug': PLUG, 'script': script}, events


def truncate(case, l):
    return dict(case, script=case['script'][:l])


def replay(case):
    setup(case['plug'])
    w = World()
    return [w.run(op) for op in case['script']]
