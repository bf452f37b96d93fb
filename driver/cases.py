"""States of the exhaustive models (spec/MC_*.tla) as scenarios: TLC enumerates them (spec/Gen_*.tla), the real library runs them."""
import json
import os
import random
import re

import fitsio
import gen
import run
from model import enc

DATA = ('vis', 'vis2', 't3', 'flux')
TABS = ('tg', 'arr', 'wav', 'cor', 'pol') + DATA


def cfgfile(name, tier, seed, every):
    src = open(os.path.join(run.SPEC, 'MC_%s.cfg' % name)).read()
    src = re.sub(r'(?m)^(INVARIANTS?|PROPERTY) .*\n', '', src)
    if name == 'iter':
        src = src.replace('INIT Init', 'INIT GInit').replace('NEXT Next', 'NEXT GNext')
    else:
        src += 'INVARIANT Emit\n'
    src += 'CONSTANTS Every = %d\n Salt = %d\n' % (every, seed)
    if tier == 'thorough' and name != 'sys':
        src = src.replace('Deep = FALSE', 'Deep = TRUE')
    path = os.path.join(run.scratch(), 'Gen_%s.%s.cfg' % (name, tier))
    with open(path, 'w') as f:
        f.write(src)
    return path


def enumerate_states(name, tier, seed, every, n):
    extra = ['-seed', str(seed), '-fp', '1']
    if name == 'iter':
        extra += ['-simulate', 'num=%d' % n, '-depth', '20']
    rc, out = run.tlc('Gen_%s.tla' % name, cfgfile(name, tier, seed, every), workers=1 if name in ('iter', 'sys') else 4, heap='4g', extra=extra)
    res = [json.loads(json.loads(l)[5:]) for l in out.split('\n') if l.startswith('"CASE ')]
    if rc != 0 or not res:
        raise run.ToolError('enumeration of MC_%s fails:\n%s' % (name, '\n'.join(l[:300] for l in out.split('\n')[-30:] if not l.startswith('"CASE '))))
    res.sort(key=lambda j: json.dumps(j, sort_keys=True))
    return res


def names(d):
    return {'arr': [t['name'] for t in d['arr']], 'wav': [t['name'] for t in d['wav']], 'cor': [t['name'] for t in d['cor']],
            'tid': [t['id'] for t in d['tg']['t']] + [0, 99], 'tname': [t['name'] for t in d['tg']['t']] + ['nobody']}


def c_merge(j):
    s = gen.Sc()
    n = len(j['in'])
    for k, d in enumerate(j['in']):
        s.build(k, d)
    s.op('merge', 10, n, list(range(n)), gen.dumps(*range(n)))
    s.op('merge', 11, 2, [10, 0], gen.dumps(10, 0))
    return s


def c_filter(j):
    s = gen.Sc()
    s.build(0, j['d'])
    s.op('filter', 1, 0, s.flt(j['f']), gen.dumps(0))
    s.op('filter', 2, 1, s.flt(j['again']), gen.dumps(1), again=1)
    import mc
    s.op('lookup', 1, mc.lookup_tokens(names(j['d'])))
    return s


def c_iterall(j):
    """every iterator to its end, beside filtering with the same filter"""
    s = gen.Sc()
    s.build(0, j['d'])
    for kind in (1, 2, 3):
        s.op('iterinit', kind, kind, 0, s.flt(j['f']))
        s.op('iternext', kind, 1 + sum(len(t['r']) * t['nw'] for t in j['d'][('', 'vis', 'vis2', 't3')[kind]]), 0)
    s.op('filter', 1, 0, s.flt(j['f']), gen.dumps(0))
    s.op('query', 1, 1, ['0.0'])
    return s


def c_check(j):
    s = gen.Sc()
    for t in j['d']['vis']:
        if t['useref']:           # an item in use has values
            for r in t['r']:
                r['ref'] = r['ref'] or [0] * (t['nw'] * t['nw'])
    s.build(0, j['d'])
    s.op('check', 0, gen.dumps(0))
    return s


def changed(j):
    """the file of a state of MC_io; None if it has no counterpart"""
    h = fitsio.encode_ds(j['d'], j['v'])
    c = j['chg']
    if c['k'] in ('key', 'col', 'rev', 'sum', 'swap', 'image') and c['h'] > len(h):
        return None
    if c['k'] == 'key':
        h[c['h'] - 1]['keys'] = [(k, v) for k, v in h[c['h'] - 1]['keys'] if k != c['x']]
    elif c['k'] == 'col':
        if len(h[c['h'] - 1]['cols']) > 1:
            h[c['h'] - 1]['cols'] = [x for x in h[c['h'] - 1]['cols'] if x['name'] != c['x']]
    elif c['k'] == 'rev':
        h[c['h'] - 1]['keys'] = [(k, 9 if k == 'OI_REVN' else v) for k, v in h[c['h'] - 1]['keys']]
    elif c['k'] == 'sum':
        for k, x in enumerate(h):
            x['sums'] = 'ok' if k != c['h'] - 1 else {'data': 'datasum', 'hdu': 'checksum'}[c['x']]
    elif c['k'] == 'swap' and c['h'] < len(h):
        k = c['h'] - 1
        h[k], h[k + 1] = h[k + 1], h[k]
    elif c['k'] == 'image':
        h.insert(c['h'], {'kind': 'image', 'ext': 'OI_VIS', 'cols': [], 'keys': [('INSNAME', 'I')]})
    return h


def c_demo(j):
    h = changed(j)
    if h is None:
        return None
    s = gen.Sc()
    s.putfile('a.fits', fitsio.write_file(h))
    for k, x in enumerate(('a.fits', 'o0.fits', 'o0.fits')):
        s.files['t%d.txt' % k] = gen.demo_text(gen.Gen(k), j['x'])
        s.op('demo', 't%d.txt' % k, 'o%d.fits' % min(k, 1), x, ds=j['x'])
    return s


def c_io(j):
    h = changed(j)
    if h is None:
        return None
    s = gen.Sc()
    c = j['chg']
    s.putfile('a.fits', fitsio.write_file(h))
    s.op('read', 0, 'a.fits', 0)
    s.op('fopen', 'a.fits', 1)
    first = True
    for kd in TABS:
        n = sum(1 for x in h if x['ext'] == {'tg': 'OI_TARGET', 'arr': 'OI_ARRAY', 'wav': 'OI_WAVELENGTH', 'cor': 'OI_CORR', 'pol': 'OI_INSPOL',
                                             'vis': 'OI_VIS', 'vis2': 'OI_VIS2', 't3': 'OI_T3', 'flux': 'OI_FLUX'}[kd])
        for _ in range(n + 1 if kd != 'tg' else 1):
            s.op('tnext', kd, 0)
        s.op('fseek', 1)
    for kd in ('arr', 'wav', 'cor'):
        for t in j['d'][kd]:
            s.op('tname', kd, enc(t['name']), 0)
    s.op('fclose')
    if c['k'] == 'none':
        s.build(1, j['d'])
        s.op('write', 1, 'b.fits', 0, gen.dumps(1))
        s.op('read', 2, 'b.fits', 0)
    return s


def c_upgrade(j):
    s = gen.Sc()
    s.build(0, j['d'])
    s.op('query', 0, 1, ['0.0'])
    s.op('write', 0, 'a.fits', 0, gen.dumps(0))
    s.op('read', 1, 'a.fits', 0)
    s.op('upgrade', 0)
    s.op('query', 0, 1, ['0.0'])
    return s


def c_iter(j):
    s = gen.Sc()
    s.build(0, j['d'])
    for e in j['s']:
        if e['o'] == 'start':
            s.op('iterinit', e['i'], e['kind'], 0, s.flt(e['f']))
        else:
            s.op('iternext', e['i'], 1, 0)
    s.op('dump', 0)
    return s


def c_sys(j):
    import mc
    return mc.scenario(j)


def cli_file(x):
    """what MC_cli puts in a file at first"""
    h = fitsio.encode_ds(gen.short_names(x['ds'], x['v']), x['v'])
    if x['k'] == 'junk':
        return b'precious, but not FITS\n'
    if x['k'] == 'notarget':
        h = [t for t in h if t['ext'] != 'OI_TARGET']
    elif x['k'] == 'mixed':
        h[0]['keys'] = [q for q in h[0]['keys'] if q[0] != 'CONTENT']
        for t in h:
            if t['ext'] == 'OI_TARGET':
                t['keys'] = [(k, 1 if k == 'OI_REVN' else v) for k, v in t['keys']]
    return fitsio.write_file(h)


def c_cli(j):
    s = gen.Sc()
    for nm, x in sorted(j['init'].items()):
        if x['k'] != 'absent':
            s.putfile(nm, cli_file(x))
    for k, c in enumerate(j['cmds']):
        t, n = c['tool'], len(c['in'])
        if not c['argsok']:
            args = {'merge': [c['out'], 'a.fits'], 'filter': ['a.fits'], 'upgrade': ['a.fits', c['out'], 'ESO'], 'check': []}[t]
        elif t == 'merge':
            args = [c['out']] + c['in']
        elif t == 'filter':
            args = gen.option_args(c['opts']) + (['--clobber'] if c['clobber'] else []) + c['in'] + [c['out']]
        elif t == 'upgrade':
            args = c['in'] + [c['out']] + c['hdr']
        else:
            args = c['in']
        s.op('cli', t, 5 + k, enc(c['out']), len(args), [enc(a) for a in args], argsok=c['argsok'], hdr=c['hdr'], opts=c['opts'],
             clobber=c['clobber'], **{'in': c['in']})
    return s


def c_opt(j):
    s = gen.Sc()
    for opts in j:                # in one program: every parse starts afresh
        a = gen.option_args(opts)
        s.op('optparse', len(a), [enc(x) for x in a], opts=opts, bad=0, wantleft=0)
    return s


def c_status(j):
    s = gen.Sc()
    s.op('hush', 0)
    h = fitsio.encode_ds(j['d'], 2)
    s.putfile('good.fits', fitsio.write_file(h))
    bad = [t for t in h if t['ext'] != 'OI_INSPOL' and ('CORRNAME', 'D') not in (t['keys'] if t['ext'] == 'OI_CORR' else [])]
    v = [t for t in bad if t['ext'] == 'OI_VIS'][0]
    v['keys'] = [q for q in v['keys'] if q[0] != 'INSNAME']
    s.putfile('hurt.fits', fitsio.write_file(bad))
    s.putfile('junk.fits', b'junk' * 10)
    s.build(0, j['d'])
    open_ = False
    for c in j['calls']:
        o = c['o']
        st = '0' if c.get('fresh') else '@'
        if o == 'read':
            s.op('read', 1, c['f'], st)
        elif o == 'write':
            s.op('write', 0, c['f'], st, gen.dumps(0))
        elif o == 'open':
            s.op('fopen', c['f'], 1)
        elif o == 'create':
            s.op('fopen', c['f'], 0)
            s.op('twrite', 'hdr', 0, 0, 1, 0)
        elif o == 'seek':
            s.op('fseek', c['p'])
        elif o == 'close':
            s.op('fclose')
        elif o == 'next':
            s.op('tnext', c['kind'], st)
        elif o == 'named':
            s.op('tname', c['kind'], enc(c['name']), st)
        else:
            s.op('twrite', c['kind'], 0, 0, 1, st)
        open_ = o in ('open', 'create') or open_ and o != 'close'
    if open_:
        s.op('fclose')
    return s


MODEL = {'status': 'status', 'opt': 'opt', 'cli': 'cli', 'demo': 'demo', 'merge': 'merge', 'filter': 'filter', 'iterall': 'filter', 'check': 'check', 'io': 'io', 'upgrade': 'upgrade', 'iter': 'iter', 'sys': 'sys'}


def cases(name, tier, seed, every):
    """one in so many (every) of the states; for iterators, that many behaviours"""
    make = globals()['c_' + name]
    js = enumerate_states(MODEL[name], tier, seed, every, every)
    if name == 'opt':
        random.Random(seed).shuffle(js)
        js = [[x['opts'] for x in js[k:k + 6]] for k in range(0, len(js), 6)]
    return [s for s in map(make, js) if s is not None]
