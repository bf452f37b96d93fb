"""Runs scenarios through the real library and validates the recorded traces with TLC."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

import conv

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'
NPROC = min(8, os.cpu_count() or 1)


class ToolError(Exception):
    pass


def classpath():
    cm = [os.path.join('/opt/veriftools/tla', f) for f in os.listdir('/opt/veriftools/tla') if f.endswith('.jar')]
    cm.sort(key=lambda p: (os.path.basename(p) != 'tla2tools.jar', p))
    return ':'.join(cm)


def tlc(module, cfg, env=None, workers=1, metadir=None, extra=(), timeout=1500, heap='3g', opts=()):
    e = dict(os.environ, **(env or {}))
    own = metadir is None
    metadir = metadir or tempfile.mkdtemp(dir=scratch())
    jit = ['-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1'] if workers == 1 else ['-XX:+UseParallelGC']
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + scratch()] + jit + list(opts) + ['-cp', classpath(), 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', metadir,
           '-workers', str(workers), '-config', cfg] + list(extra) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        o = x.stdout or ''
        return -1, (o.decode('utf-8', 'replace') if isinstance(o, bytes) else o) + '\n[timeout]'
    finally:
        if own:
            shutil.rmtree(metadir, ignore_errors=True)


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = os.path.join(VERIF, '.work')
        os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix='run.', dir=base)
    return _scratch


def cleanup():
    global _scratch
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None


def build(kind=''):
    out = os.path.join(scratch(), 'build' + kind)
    p = subprocess.run(['bash', os.path.join(HERE, 'build.sh'), out] + ([kind] if kind else []), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise ToolError('build failed:\n' + p.stdout[-3000:])
    return out


def harness(bld, batch, wd, asan=False):
    """batch: list of (id, Sc).  -> {id: (events, ...)}"""
    os.makedirs(wd)
    script = os.path.join(wd, 'script')
    trace = os.path.join(wd, 'trace')
    with open(script, 'w') as f:
        for i, s in batch:
            d = os.path.join(wd, i)
            os.makedirs(d)
            for n, b in s.files.items():
                with open(os.path.join(d, n), 'wb') as g:
                    g.write(b)
            f.write('scenario %s\n' % i)
            for tk, _ in s.ops:
                if tk[0] != 'putfile':
                    f.write(' '.join(tk) + '\n')
    env = dict(os.environ, OIH_UTIL=os.path.join(bld, 'lib/src/util'), LC_ALL='C', TZ='UTC',
               ASAN_OPTIONS='exitcode=77:detect_leaks=0:allocator_may_return_null=1:log_path=/dev/null',
               G_SLICE='always-malloc')
    env.pop('G_DEBUG', None)
    p = subprocess.run([os.path.join(bld, 'oih'), script, trace], cwd=wd, env=env, stdout=subprocess.DEVNULL,
                       stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
    if p.returncode:
        raise ToolError('harness exit %d: %s' % (p.returncode, p.stderr.decode('utf-8', 'replace')[-1500:]))
    res, cur, name = {}, None, None
    with open(trace, encoding='utf-8', errors='replace') as f:
        for line in f:
            line = line.strip()
            if not line:
                continue
            try:
                e = json.loads(line)
            except ValueError:
                e = None
            if e is None:
                cur.append(None)
                continue
            if e['op'] == 'begin':
                cur = []
                name = e['sc']
                res[name] = cur
            else:
                cur.append(e)
    out = {}
    stuck = any(l and l[-1] and l[-1]['op'] == 'crash' and l[-1]['sig'] == 14 for l in res.values())
    for i, s in batch:
        l = res.get(i)
        if l is None and stuck:
            continue        # the harness gives up after two scenarios that do not end
        if l is None or not l or l[-1] is None or l[-1]['op'] not in ('end', 'crash'):
            raise ToolError('trace of scenario %s incomplete' % i)
        if None in l[:-1]:
            if l[-1]['op'] != 'crash' or l.index(None) != len(l) - 2:
                raise ToolError('trace of scenario %s garbled' % i)
            del l[-2]
        if l[-1]['op'] == 'crash' and l[-1].get('rc') == 99:
            raise ToolError('scenario %s rejected by the harness' % i)
        out[i] = conv.scenario_events(s, l, os.path.join(wd, i))
    return out


def judge(evs, wd):
    """evs: list of (scenario id, op index, event) -> list of (index, tags), stats"""
    os.makedirs(wd, exist_ok=True)
    path = os.path.join(wd, 'trace.ndjson')
    with open(path, 'w') as f:
        for _, _, e in evs:
            f.write(json.dumps(e) + '\n')
    rc, out = tlc('Trace.tla', 'Trace.cfg', env={'TRACE': path}, metadir=os.path.join(wd, 'meta'))
    bad = []
    for m in re.finditer(r'^"?BAD (\{.*\})"?$', out, re.M):
        j = json.loads(m.group(1).replace('\\"', '"'))
        bad.append((j['i'] - 1, j['tags']))
    done = re.search(r'DONE (\d+)', out)
    if not done or int(done.group(1)) != len(evs):
        err = [l for l in out.split('\n') if l.strip()]
        first = next((k for k, l in enumerate(err) if l.startswith('Error:')), max(0, len(err) - 40))
        return None, '\n'.join(err[first:first + 60])
    st = re.search(r'(\d+) states generated, (\d+) distinct', out)
    shutil.rmtree(os.path.join(wd, 'meta'), ignore_errors=True)
    return bad, (int(st.group(2)) if st else len(evs))


def bisect(evs, wd, msg):
    """TLC could not evaluate the trace: find the scenarios for which it cannot.  An observation the specification cannot
    even be evaluated on is no behaviour of the specification (tag eval); any other failure of TLC is an error."""
    if not re.search(r'TLC threw an unexpected exception|evaluating|Attempted to', msg):
        raise ToolError('TLC failed:\n' + msg)
    starts = [k for k, (_, _, e) in enumerate(evs) if e['op'] == 'begin'] + [len(evs)]
    nsc = len(starts) - 1
    if nsc > 1:
        mid = starts[nsc // 2]
        bad, states = [], 0
        for part, off, nm in ((evs[:mid], 0, 'a'), (evs[mid:], mid, 'b')):
            b, st = judge(part, wd + nm)
            if b is None:
                b, st = bisect(part, wd + nm, st)
            bad += [(ix + off, t) for ix, t in b]
            states += st
        return bad, states
    bad = []
    for n in range(2, len(evs) + 1):
        b, st = judge(evs[:n], wd + 'p%d' % n)
        if b is None:
            if n < 2 or not re.search(r'TLC threw an unexpected exception|evaluating|Attempted to', st):
                raise ToolError('TLC failed:\n' + st)
            return bad + [(n - 1, ['eval.' + evs[n - 1][2]['op']])], n
        bad = b
    raise ToolError('TLC fails irregularly:\n' + msg)


def validate(bld, scs, keep=None, shards=NPROC):
    """scs: list of (id, Sc).  -> (bad: list of dicts, stats)"""
    base = tempfile.mkdtemp(dir=scratch())
    n = max(1, min(shards, len(scs)))
    parts = [scs[k::n] for k in range(n)]
    tim = {}

    def one(k):
        t0 = time.time()
        evs = []
        r = harness(bld, parts[k], os.path.join(base, 'h%d' % k))
        t1 = time.time()
        for i, s in parts[k]:
            evs += [(i, j, e) for e, j in r.get(i, ())]
        bad, st = judge(evs, os.path.join(base, 't%d' % k))
        if bad is None:
            bad, st = bisect(evs, os.path.join(base, 't%d' % k), st)
        tim[k] = (t1 - t0, time.time() - t1)
        return evs, bad, st
    bads, states, nev, ops = [], 0, 0, {}
    samples = []
    with cf.ThreadPoolExecutor(n) as ex:
        for evs, bad, st in ex.map(one, range(n)):
            states += st
            nev += len(evs)
            for _, _, e in evs:
                ops[e['op']] = ops.get(e['op'], 0) + 1
            if evs and len(samples) < 2:
                samples.append(short(evs))
            for ix, tags in bad:
                i, j, e = evs[ix]
                bads.append({'sc': i, 'op': j, 'ev': e, 'tags': tags})
    shutil.rmtree(base, ignore_errors=True)
    return bads, {'states': states, 'events': nev, 'traces': len(scs), 'ops': ops, 'samples': samples}


def short(evs):
    i = evs[0][0]
    out = []
    for s, _, e in evs:
        if s != i:
            break
        d = {'op': e['op']}
        for k in ('slot', 'in', 'file', 'st', 'rv', 'flt', 'kind', 'name', 'tool', 'rc', 'q'):
            if k in e:
                d[k] = e[k] if not isinstance(e[k], list) else e[k][:3]
        if 'obs' in e:
            d['tables'] = e['obs']['n']
        out.append(d)
    return out[:14]
