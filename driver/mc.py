"""Model checking of the specification itself (spec/MC_*.tla), and scenarios taken from its behaviours (spec/Sim_sys.tla)."""
import concurrent.futures as cf
import json
import os
import re

import gen
import run
from model import enc

WORKERS = {'quick': 3, 'thorough': 4}


def cfgfile(name, tier):
    src = open(os.path.join(run.SPEC, 'MC_%s.cfg' % name)).read()
    if tier == 'thorough':
        src = src.replace('Deep = FALSE', 'Deep = TRUE')
        src = re.sub(r'MaxOps = \d+', 'MaxOps = 5', src)
        src = src.replace('MaxOpts = 3', 'MaxOpts = 4').replace('MaxCalls = 5', 'MaxCalls = 6')
    path = os.path.join(run.scratch(), 'MC_%s.%s.cfg' % (name, tier))
    with open(path, 'w') as f:
        f.write(src)
    return path


def check_model(name, tier):
    rc, out = run.tlc('MC_%s.tla' % name, cfgfile(name, tier), workers=WORKERS[tier], heap='3g' if tier == 'quick' else '6g')
    st = re.search(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', out)
    if rc != 0 or not st or st.group(3) != '0' or 'No error has been found' not in out:
        # the specification contradicts itself: that says nothing about the implementation, so it is an error, not a violation
        raise run.ToolError('model MC_%s fails:\n%s' % (name, '\n'.join(l[:400] for l in out.split('\n')[-60:])))
    return {'model': 'MC_' + name, 'tier': tier, 'states': int(st.group(2)), 'transitions': int(st.group(1)), 'exhaustive': True}


def start(names, tier):
    ex = cf.ThreadPoolExecutor(1)
    return ex, [ex.submit(check_model, n, tier) for n in names]


def finish(h):
    ex, fs = h
    runs = [f.result() for f in fs]
    ex.shutdown()
    return {'states': sum(r['states'] for r in runs), 'transitions': sum(r['transitions'] for r in runs), 'runs': runs}


# ---- behaviours of the specification as scenarios -------------------------

def simulate(seed, n):
    rc, out = run.tlc('Sim_sys.tla', 'Sim_sys.cfg', workers=1, extra=['-simulate', 'num=%d' % n, '-depth', '20', '-seed', str(seed)])
    hs = [json.loads(json.loads(l)[4:]) for l in out.split('\n') if l.startswith('"SIM ')]
    if rc != 0 or len(hs) < n:
        raise run.ToolError('simulation fails:\n' + '\n'.join(l[:400] for l in out.split('\n')[-30:] if not l.startswith('"SIM ')))
    return hs[:n]


def lookup_tokens(keys):
    q = []
    for k in ('arr', 'wav', 'cor'):
        q += [(k, nm, 0) for nm in sorted(keys[k]) + ['nowhere', '']]
    q += [('tid', '', i) for i in sorted(keys['tid'])] + [('tname', nm, 0) for nm in sorted(keys['tname'])]
    q += [('elem', nm, i) for nm in sorted(keys['arr']) + ['nowhere'] for i in (0, 1, 2, 3, 4)]
    return [str(len(q))] + [x for k, nm, i in q for x in (k, enc(nm), str(i))]


def scenario(h):
    s = gen.Sc()
    live = []
    for e in h:
        op = e['op']
        others = gen.dumps(*[x for x in live if not (op == 'free' and x == e['slot'])])
        if op == 'build':
            s.build(e['slot'], e['ds'])
        elif op == 'merge':
            s.op('merge', e['slot'], len(e['in']), e['in'], others)
        elif op == 'filter':
            s.op('filter', e['slot'], e['in'], s.flt(e['flt']), others)
        elif op == 'dup':
            s.op('dup', e['slot'], e['in'], others)
        elif op == 'free':
            s.op('free', e['slot'], others)
        elif op == 'write':
            s.op('write', e['slot'], e['file'], 0, others)
        elif op == 'read':
            s.op('read', e['slot'], e['file'], 0)
        elif op == 'iterinit':
            s.op('iterinit', e['id'], e['kind'], e['slot'], s.flt(e['flt']))
        elif op == 'iternext':
            s.op('iternext', e['id'], e['n'], 0)
        elif op == 'lookup':
            s.op('lookup', e['slot'], lookup_tokens(e['keys']))
        elif op == 'check':
            s.op('check', e['slot'], others)
        elif op == 'query':
            s.op('query', e['slot'], 3, ['0.0', '1.0', '1000.0'])
        elif op in ('summary', 'upgrade'):
            s.op(op, e['slot'])
        else:
            raise run.ToolError('operation %s of the model has no counterpart' % op)
        if op in ('build', 'merge', 'filter', 'dup', 'read'):
            live.append(e['slot'])
        elif op == 'free':
            live.remove(e['slot'])
    for x in live:
        s.op('dump', x)
    return s


def simulated(seed, n, tier):
    k = max(1, min(run.NPROC, n // 20))
    per = (n + k - 1) // k
    with cf.ThreadPoolExecutor(k) as ex:
        res = list(ex.map(lambda j: simulate(1000 * seed + j, per), range(k)))
    return [scenario(h) for hs in res for h in hs]
