"""Generates, executes and validates a range of cases (one process per chunk)."""
import collections
import importlib
import json
import os
import re
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import tlc          # noqa: E402


class Hang(BaseException):
    pass


def on_alarm(*a):
    raise Hang()


def main():
    job = json.loads(sys.argv[1])
    dom = importlib.import_module('gen_' + job['domain'])
    prop, out = job['prop'], job['out']
    bad, cases, traces, ks = [], [], [], []
    if 'replay' in job:
        todo = [(0, lambda: (job['replay'], dom.replay(job['replay'])))]
    elif job.get('programs'):
        with open(job['programs']) as f:
            progs = json.load(f)
        todo = [(k, lambda k=k: dom.execute(progs[k], job['seed'], k))
                for k in range(job['lo'], job['hi'])]
    else:
        todo = [(k, lambda k=k: dom.generate(job['profile'], job['seed'], k))
                for k in range(job['lo'], job['hi'])]
    signal.signal(signal.SIGALRM, on_alarm)
    for k, make in todo:
        with open(out + '.progress', 'w') as f:
            json.dump({'k': k}, f)
        signal.alarm(int(job.get('timeout', 120)))
        try:
            case, events = make()
        except Hang:
            bad.append(dict(k=k, l=0, prop=prop, clause='hang', op=None))
            continue
        except (OSError, MemoryError):
            raise
        except Exception:
            # the driver could not even carry on with what the code returned
            bad.append(dict(k=k, l=0, prop=prop, clause='driver', op=None,
                            detail=traceback.format_exc()[-2000:]))
            continue
        finally:
            signal.alarm(0)
        cases.append(case)
        traces.append(events)
        ks.append(k)
    ops = collections.Counter()
    for t in traces:
        for e in t:
            ops['%s %s' % (e['op'], 'done' if e.get('ok', True) else 'refused')] += 1
    res = {'generated': 0, 'distinct': 0}
    if traces:
        path = out + '.ndjson'
        shown = [list(t) for t in traces]
        found, extra = {}, []
        while True:
            tlc.dump_traces(path, shown)
            res = tlc.run(dom.TRACE_MODULE, dom.TRACE_CFG, workers=1, heap='1500m', timeout=3000,
                          env={'TRACE': path, 'DETAIL': '1' if job.get('detail') else '0'},
                          extra=['-lncheck', 'final'], check=False)
            if res['violated']:
                raise SystemExit('trace specification: ' + res['out'][-3000:])
            for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*"(\w+)",\s*"([^"]*)"\s*>>', res['out']):
                found.setdefault((int(m.group(1)) - 1, int(m.group(2)) - 1), set()).add((m.group(3), m.group(4)))
            want = sum(len(t) + 1 for t in shown)
            if not res['error'] and res.get('distinct') == want:
                break
            # the specification cannot be evaluated any further: after a step that it refuses, the
            # observed state may be one that it does not describe (such traces end there) ...
            cut = False
            for (tid, l) in found:
                if len(shown[tid]) > l + 1:
                    del shown[tid][l + 1:]
                    cut = True
            if cut:
                continue
            # ... otherwise what was observed is not even a value of the specification
            m = (re.findall(r'^(?:/\\ )?tid = (\d+)', res['out'], re.M), re.findall(r'^(?:/\\ )?l = (\d+)', res['out'], re.M))
            if not (res['error'] and m[0] and m[1]) or re.search('OutOfMemory|StackOverflow', res['out']):
                raise SystemExit('trace validation visited %s states instead of %s\n%s' % (
                    res.get('distinct'), want, res['out'][-6000:]))
            tid, l = int(m[0][-1]) - 1, int(m[1][-1])
            if l >= len(shown[tid]) or (tid, l) in found:
                raise SystemExit('trace validation failed\n' + res['out'][-6000:])
            extra.append((tid, l))
            found[tid, l] = {(job['prop'], 'type')}
            del shown[tid][l:]
        specs = re.findall(r'<<\s*"SPEC",.*?(?=\n\S|\Z)', res['out'], re.S)
        for (tid, l), what in sorted(found.items()):
            ev = traces[tid][l]
            sig = dom.signature(cases[tid], ev, l + 1) if hasattr(dom, 'signature') else ''
            for p, clause in sorted(what):
                bad.append(dict(k=ks[tid], l=l + 1, prop=p, clause=clause, op=ev['op'], sig=sig,
                                case=dom.truncate(cases[tid], l + 1), event=ev,
                                spec=specs[0].strip()[:4000] if specs else None))
        os.remove(path)
    with open(out, 'w') as f:
        json.dump(dict(done=True, bad=bad, traces=len(traces), events=sum(map(len, traces)),
                       ops=ops, states=res.get('distinct', 0), generated=res.get('generated', 0),
                       cases=[dict(case=c, events=t) for c, t in zip(cases[:2], traces[:2])]), f)


main()
