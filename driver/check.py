#!/usr/bin/env python3
"""Decides one property:  check.py PID quick|thorough      (environment: VERIF_SEED)
Replays a saved violation: check.py replay FILE

Scenarios of the property's profile are executed by the real library (built from /repo's working tree); TLC decides for the
recorded trace of each whether it is a behaviour of the specification, and which obligation is broken if not.  The property's
own model (spec/MC_*.tla) is checked by TLC in the same run."""
import base64
import json
import os
import re
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cases          # noqa: E402
import gen            # noqa: E402
import known          # noqa: E402
import mc             # noqa: E402
import props          # noqa: E402
import run            # noqa: E402

BATCH = 1600


def relevant(p, tags):
    """the tags, among those of a rejected event, that break property p"""
    out = []
    for t in tags:
        head, _, op = t.partition('.')
        if head in ('crash', 'eval'):
            if '*' in p.ops or op in p.ops or (op == 'exit' and head == 'crash'):
                out.append(t)
        elif re.fullmatch(p.tags, t):
            out.append(t)
    return sorted(out)


def scenarios(p, seed, n, tier):
    """generator of (id, maker, Sc)"""
    if p.pid == 'C23':
        lo, hi = 0, 200000            # 1858-11-17 .. 2406-06-24 for MJD -> date
        step = 2000
        for k, a in enumerate(range(lo, hi, step)):
            yield 'd%d' % k, 'dates', gen.sc_dates(gen.Gen('d'), a, a + step)
        return
    tot = sum(w for _, w, _ in p.profile)
    for j, (maker, w, kw) in enumerate(p.profile):
        if maker == 'model':
            for k, s in enumerate(cases.cases(kw['name'], tier, seed, kw['every'][1 if tier == 'thorough' else 0])):
                yield 'model%d_%d' % (j, k), 'model', s
            continue
        if maker == 'sim':
            for k, s in enumerate(mc.simulated(seed, max(8, int(n * w / tot)), tier)):
                yield 'sim%d' % k, 'sim', s
            continue
        fn = getattr(gen, 'sc_' + maker)
        for k in range(max(1, int(n * w / tot))):
            s = fn(gen.Gen('%s/%d/%s/%d' % (maker, seed, j, k)), **kw)
            yield '%s%d_%d' % (maker, j, k), maker, s
    for k, (maker, s) in enumerate(known.probes(p.pid)):
        yield 'kf%d' % k, maker, s


def dump_sc(s):
    return {'ops': [[tk, meta] for tk, meta in s.ops], 'hints': s.hints,
            'files': {n: base64.b64encode(b).decode() for n, b in s.files.items()}}


def load_sc(j):
    s = gen.Sc()
    s.ops = [(tk, meta) for tk, meta in j['ops']]
    s.hints = j['hints']
    s.files = {n: base64.b64decode(b) for n, b in j['files'].items()}
    return s


def check(pid, tier):
    t0 = time.time()
    p = next(x for x in props.PROPS if x.pid == pid)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    n = p.n[1 if tier == 'thorough' else 0]
    model = mc.start(p.mc, tier)              # runs beside the replay
    bld = run.build('asan' if p.asan else '')
    stats = {'states': 0, 'events': 0, 'traces': 0, 'ops': {}, 'samples': [], 'skipped': 0, 'makers': {}}
    viol, findings = [], {}
    batch = []

    def flush():
        if not batch:
            return
        bads, st = run.validate(bld, [(i, s) for i, _, s in batch])
        for k in ('states', 'events', 'traces'):
            stats[k] += st[k]
        for k, v in st['ops'].items():
            stats['ops'][k] = stats['ops'].get(k, 0) + v
        if len(stats['samples']) < 2:
            stats['samples'] += st['samples'][:1]
        by = {i: (m, s) for i, m, s in batch}
        for _, m, _ in batch:
            stats['makers'][m] = stats['makers'].get(m, 0) + 1
        seen = set()
        for b in bads:
            if 'skip' in b['tags']:
                stats['skipped'] += 1
            tags = relevant(p, b['tags'])
            if not tags or b['sc'] in seen or len(viol) >= 3:
                continue
            maker, s = by[b['sc']]
            kf = known.match(pid, maker, s, b, tags)
            if kf:
                findings[kf] = findings.get(kf, 0) + 1
                continue
            seen.add(b['sc'])
            again = []
            for _ in range(3):            # a rejection counts only if a fresh run repeats it
                b2, _ = run.validate(bld, [(b['sc'], s)])
                again = [x for x in b2 if set(relevant(p, x['tags'])) & set(tags)]
                if again:
                    break
            if not again:
                print('note: rejection of %s (%s) was not repeated' % (b['sc'], ','.join(tags)), flush=True)
                continue
            viol.append((b['sc'], maker, s, again[0], sorted(set(relevant(p, again[0]['tags'])))))
        batch.clear()

    for item in scenarios(p, seed, n, tier):
        batch.append(item)
        if len(batch) >= BATCH:
            flush()
            if viol:
                break
    if not viol:
        flush()
    m = mc.finish(model)
    os.makedirs(os.path.join(run.VERIF, 'evidence'), exist_ok=True)
    for kf in findings:
        print('KNOWN-FINDING: property=%s %s' % (pid, known.text(kf)), flush=True)
    for k, (i, maker, s, b, tags) in enumerate(viol):
        d = os.path.join(run.VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (pid, k))
        json.dump({'property': pid, 'maker': maker, 'scenario': i, 'seed': seed, 'op': b['op'], 'tags': tags, 'event': b['ev'],
                   'sc': dump_sc(s)}, open(path, 'w'), indent=1)
        print('broken: %s at operation %d (%s) of scenario %s' % (', '.join(tags), b['op'], b['ev']['op'], i))
        print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
    cov = {'states': m['states'] + stats['states'], 'transitions': m['transitions'] + stats['events'],
           'traces_validated_against_impl': stats['traces'], 'samples': stats['samples'] or ['none'],
           'trace_events_by_operation': stats['ops'], 'scenarios_by_profile': stats['makers'],
           'model_runs': m['runs'], 'not_judged_precondition': stats['skipped']}
    if p.pid == 'C23' and not viol:
        cov['exhaustive'] = True
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
               'assumptions': ['the abstraction function in driver/model.py and driver/fitsio.py represents values faithfully',
                               'CFITSIO, GLib, TLC and the C library behave as documented'],
               'wall_s': round(time.time() - t0, 1), 'violations': len(viol)},
              open(os.path.join(run.VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d traces, %d events, %d model states, %.0f s' % (pid, tier, stats['traces'], stats['events'], m['states'], time.time() - t0))
    return 1 if viol else 0


def replay(path):
    j = json.load(open(path))
    p = next(x for x in props.PROPS if x.pid == j['property'])
    s = load_sc(j['sc'])
    bld = run.build('asan' if p.asan else '')
    bads, _ = run.validate(bld, [('r', s)])
    rc = 0
    for b in bads:
        tags = relevant(p, b['tags'])
        if tags:
            print('broken: %s at operation %d (%s)' % (', '.join(tags), b['op'], b['ev']['op']))
            rc = 1
    if rc:
        print('VIOLATION property=%s replay=%s' % (j['property'], path))
    return rc


def main():
    try:
        if sys.argv[1] == 'replay':
            return replay(sys.argv[2])
        return check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    except run.ToolError as e:
        print('ERROR', e)
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        if not os.environ.get('VERIF_KEEP'):
            run.cleanup()


if __name__ == '__main__':
    sys.exit(main())
