"""Abstraction function between concrete OIFITS data and the values of the TLA+
specification, and its inverse.

In the specification all numbers are (32-bit) integers.  Each floating point
quantity has a fixed unit, so that the values the generators use are represented
exactly; any other value (e.g. from real data files) is interned, i.e. mapped to
a number >= 2000000000 that stands for "this exact value" and takes part in
equality comparisons only.
"""
import math
import struct

NAN = 1999999999
PINF = 1999999998
NINF = 1999999997
INTERN0 = 2000000000
LIMINF = 1500000000      # "no limit" in filter specifications

_intern = {}
_unintern = {}


def intern(x):
    key = repr(x)
    if key not in _intern:
        _intern[key] = INTERN0 + len(_intern)
        _unintern[_intern[key]] = x
        if len(_intern) > 140000000:
            raise RuntimeError('intern table full')
    return _intern[key]


def f32(x):
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


WUNIT = 4e-11
SCALE = {'D': 64, 'M': 1024, 'Q': 4, 'U': 1, 'A': 8192, 'd': 64}


def num2m(kind, x):
    """concrete -> model number"""
    if isinstance(x, str):
        x = float(x)
    if x != x:
        return NAN
    if x == math.inf:
        return PINF
    if x == -math.inf:
        return NINF
    if kind == 'W':
        n = round(x / WUNIT)
        if abs(n) < 1000000000 and f32(n * WUNIT) == x:
            return n
        return intern(x)
    y = x * SCALE[kind]
    if abs(y) < 1400000000 and y == int(y):
        return int(y)
    return intern(x)


def num2c(kind, n):
    """model -> concrete number (a Python float)"""
    if n == NAN:
        return math.nan
    if n == PINF:
        return math.inf
    if n == NINF:
        return -math.inf
    if n >= INTERN0:
        return _unintern[n]
    if kind == 'W':
        return f32(n * WUNIT)
    return n / SCALE[kind]


# ---- schema -------------------------------------------------------------
# field kinds: s string, i integer, D/M/U/A/W number, [x] list of x, b 0/1
# The order is the order in which the harness' "build" reads the fields.
HDR = [(k, 's') for k in ('origin date date_obs content telescop instrume observer insmode '
                          'object referenc author prog_id procsoft obstech').split()]
TARG = [('id', 'i'), ('name', 's'), ('ra', 'D'), ('dec', 'D'), ('eqx', 'D'), ('raerr', 'D'), ('decerr', 'D'),
        ('sysvel', 'D'), ('veltyp', 's'), ('veldef', 's'), ('pmra', 'D'), ('pmdec', 'D'), ('pmraerr', 'D'),
        ('pmdecerr', 'D'), ('plx', 'D'), ('plxerr', 'D'), ('spectyp', 's'), ('cat', 's')]
ELEM = [('tel', 's'), ('sta', 's'), ('idx', 'i'), ('dia', 'A'), ('sx', 'D'), ('sy', 'D'), ('sz', 'D'),
        ('fov', 'D'), ('fovtype', 's')]
POLR = [('tid', 'i'), ('ins', 's'), ('mjd', 'M'), ('mjdend', 'M'), ('jxx', '[D]'), ('jyy', '[D]'),
        ('jxy', '[D]'), ('jyx', '[D]'), ('sta', 'i')]
VISR = [('tid', 'i'), ('time', 'D'), ('mjd', 'M'), ('it', 'D'), ('a', '[D]'), ('ae', '[D]'), ('ca', 'i'),
        ('p', '[D]'), ('pe', '[D]'), ('cp', 'i'), ('ref', '[b]'), ('rv', '[D]'), ('rve', '[D]'), ('crv', 'i'),
        ('iv', '[D]'), ('ive', '[D]'), ('civ', 'i'), ('u', 'U'), ('v', 'U'), ('s', '[i]'), ('f', '[b]')]
VIS2R = [('tid', 'i'), ('time', 'D'), ('mjd', 'M'), ('it', 'D'), ('a', '[D]'), ('ae', '[D]'), ('ca', 'i'),
         ('u', 'U'), ('v', 'U'), ('s', '[i]'), ('f', '[b]')]
T3R = [('tid', 'i'), ('time', 'D'), ('mjd', 'M'), ('it', 'D'), ('a', '[D]'), ('ae', '[D]'), ('ca', 'i'),
       ('p', '[D]'), ('pe', '[D]'), ('cp', 'i'), ('u', 'U'), ('v', 'U'), ('u2', 'U'), ('v2', 'U'),
       ('s', '[i]'), ('f', '[b]')]
FLUXR = [('tid', 'i'), ('mjd', 'M'), ('it', 'D'), ('a', '[D]'), ('ae', '[D]'), ('ca', 'i'), ('sta', 'i'),
         ('f', '[b]')]
TG = [('rev', 'i'), ('usecat', 'b'), ('t', TARG)]
ARR = [('rev', 'i'), ('name', 's'), ('frame', 's'), ('x', 'D'), ('y', 'D'), ('z', 'D'), ('e', ELEM)]
WAV = [('rev', 'i'), ('name', 's'), ('w', '[W]'), ('b', '[W]')]
COR = [('rev', 'i'), ('name', 's'), ('ndata', 'i'), ('i', '[i]'), ('j', '[i]'), ('c', '[D]')]
POL = [('rev', 'i'), ('date', 's'), ('npol', 'i'), ('arr', 's'), ('orient', 's'), ('model', 's'), ('nw', 'i'),
       ('r', POLR)]
VIS = [('rev', 'i'), ('date', 's'), ('arr', 's'), ('ins', 's'), ('cor', 's'), ('amptyp', 's'), ('phityp', 's'),
       ('amporder', 'i'), ('phiorder', 'i'), ('useref', 'b'), ('usecpx', 'b'), ('cunit', 's'), ('aunit', 's'),
       ('nw', 'i'), ('r', VISR)]
VIS2 = [('rev', 'i'), ('date', 's'), ('arr', 's'), ('ins', 's'), ('cor', 's'), ('nw', 'i'), ('r', VIS2R)]
T3 = [('rev', 'i'), ('date', 's'), ('arr', 's'), ('ins', 's'), ('cor', 's'), ('nw', 'i'), ('r', T3R)]
FLUX = [('rev', 'i'), ('date', 's'), ('arr', 's'), ('ins', 's'), ('cor', 's'), ('fov', 'D'), ('fovtype', 's'),
        ('cal', 's'), ('funit', 's'), ('nw', 'i'), ('r', FLUXR)]
TABLES = [('arr', ARR), ('wav', WAV), ('cor', COR), ('pol', POL), ('vis', VIS), ('vis2', VIS2), ('t3', T3),
          ('flux', FLUX)]
KINDS = [k for k, _ in TABLES]
SCHEMA = dict(TABLES, hdr=HDR, tg=TG)
EXTNAME = {'tg': 'OI_TARGET', 'arr': 'OI_ARRAY', 'wav': 'OI_WAVELENGTH', 'cor': 'OI_CORR', 'pol': 'OI_INSPOL',
           'vis': 'OI_VIS', 'vis2': 'OI_VIS2', 't3': 'OI_T3', 'flux': 'OI_FLUX'}


def rec2m(schema, r):
    out = {}
    for k, ty in schema:
        x = r[k]
        if isinstance(ty, list):
            out[k] = [rec2m(ty, e) for e in x]
        elif ty[0] == '[':
            t = ty[1]
            out[k] = list(x) if t in 'ib' else [num2m(t, e) for e in x]
        elif ty == 's':
            out[k] = x.rstrip(' ')      # trailing blanks are not significant in FITS
        elif ty in 'ib':
            out[k] = x
        else:
            out[k] = num2m(ty, x)
    return out


def ds2m(d):
    """concrete dataset (harness JSON) -> model dataset"""
    out = {'hdr': rec2m(HDR, d['hdr']), 'tg': rec2m(TG, d['tg'])}
    for k, s in TABLES:
        out[k] = [rec2m(s, t) for t in d[k]]
    out['n'] = d['n']
    return out


def enc(s):
    if s == '':
        return '~'
    return ''.join(c if (c.isalnum() or c in '-_.:+/') and ord(c) < 128 else '%%%02X' % ord(c) for c in s)


def _num(kind, n):
    x = num2c(kind, n)
    return 'nan' if x != x else repr(float(x))


def rec2c(schema, r, tokens, special=None):
    for k, ty in schema:
        x = r[k]
        if isinstance(ty, list):
            tokens.append(str(len(x)))
            for e in x:
                rec2c(ty, e, tokens)
        elif ty[0] == '[':
            t = ty[1]
            tokens.extend(str(e) if t in 'ib' else _num(t, e) for e in x)
        elif ty == 's':
            tokens.append(enc(x))
        elif ty in 'ib':
            tokens.append(str(x))
        else:
            tokens.append(_num(ty, x))


def ds2c(d):
    """model dataset -> token list for the harness' build command"""
    tk = []
    rec2c(HDR, d['hdr'], tk)
    rec2c(TG, d['tg'], tk)
    for k, s in TABLES:
        tk.append(str(len(d[k])))
        for t in d[k]:
            if k == 'wav':
                tk += [str(t['rev']), enc(t['name']), str(len(t['w']))]
                for a, b in zip(t['w'], t['b']):
                    tk += [_num('W', a), _num('W', b)]
            elif k == 'cor':
                tk += [str(t['rev']), enc(t['name']), str(t['ndata']), str(len(t['i']))]
                for a, b, c in zip(t['i'], t['j'], t['c']):
                    tk += [str(a), str(b), _num('D', c)]
            elif k == 'vis':
                rec2c([f for f in VIS if f[0] != 'r'], t, tk)
                tk.append(str(len(t['r'])))
                sch = [f for f in VISR if (t['useref'] or f[0] != 'ref') and
                       (t['usecpx'] or f[0] not in ('rv', 'rve', 'crv', 'iv', 'ive', 'civ'))]
                for r in t['r']:
                    rec2c(sch, r, tk)
            else:
                rec2c(s, t, tk)
    return tk


# ---- filter specifications ---------------------------------------------
# model: arr ins cor tid mjd<<lo,hi>> wave<<lo,hi>> bas<<lo,hi>> (m)
#        uv << [b,w], [b,w] >> (baseline in 0.1 m / wavelength in model units; b=LIMINF: no limit)
#        snr <<lo,hi>> in quarters (LIMINF: no upper limit) and 0/1 flags
FDEF = {'arr': '*', 'ins': '*', 'cor': '*', 'tid': -1, 'mjd': [0, LIMINF], 'wave': [0, 2500000],
        'bas': [0, 10000], 'uv': [{'b': 0, 'w': 1}, {'b': LIMINF, 'w': 1}], 'snr': [-20, LIMINF],
        'vis': 1, 'vis2': 1, 't3amp': 1, 't3phi': 1, 'flux': 1, 'flagged': 1}


def uv2c(l):
    if l['b'] == LIMINF:
        return 1e11
    return (l['b'] / 10.0) / f32(l['w'] * WUNIT)


def flt2c(f):
    if f == 'null' or f == 'def':
        return [f]
    tk = ['spec', enc(f['arr']), enc(f['ins']), enc(f['cor']), str(f['tid'])]
    tk += ['10000000.0' if x == LIMINF else _num('M', x) for x in f['mjd']]
    tk += [repr(x * WUNIT) for x in f['wave']]
    tk += [repr(float(x)) for x in f['bas']]
    tk += [repr(uv2c(x)) for x in f['uv']]
    tk += [repr(1e10 if x == LIMINF else x / 4.0) for x in f['snr']]
    tk += [str(f[k]) for k in ('vis', 'vis2', 't3amp', 't3phi', 'flux', 'flagged')]
    return tk


def flt2m(f, uvhint=()):
    """concrete filter (harness JSON) -> model, given the candidate uv limits"""
    def uv(x):
        if x == 1e11:
            return {'b': LIMINF, 'w': 1}
        if x == 0:
            return {'b': 0, 'w': 1}
        for h in uvhint:
            if uv2c(h) == x:
                return h
        # none of the limits that were asked for: nearly the same ratio
        if not 1e-3 < x < 1e14:
            return {'b': intern(x), 'w': 1} if not x > 1e11 else {'b': LIMINF, 'w': 2}
        w = min(10000, max(1, round(100 / (x * 10 * WUNIT))))
        return {'b': max(1, round(x * 10 * w * WUNIT)), 'w': w}

    def wave(x):
        for lim in (0, 2500000):
            if x == f32(lim * WUNIT):
                return lim
        return num2m('W', x)
    return {'arr': f['arr'], 'ins': f['ins'], 'cor': f['cor'], 'tid': f['tid'],
            'mjd': [LIMINF if x == 1e7 else num2m('M', x) for x in f['mjd']], 'wave': [wave(x) for x in f['wave']],
            'bas': [num2m('U', x) for x in f['bas']], 'uv': [uv(x) for x in f['uv']],
            'snr': [LIMINF if x == f32(1e10) else num2m('Q', x) for x in f['snr']],
            'vis': f['vis'], 'vis2': f['vis2'], 't3amp': f['t3amp'], 't3phi': f['t3phi'],
            'flux': f['flux'], 'flagged': f['flagged']}
