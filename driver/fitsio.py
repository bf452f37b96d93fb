"""Minimal FITS writer and parser (independent of cfitsio), and the mapping of FITS
HDUs to the HDU records of spec/File.tla.

raw HDU: {'ext': EXTNAME or None, 'kind': 'prim'|'bin'|'image', 'keys': [(key, value)],
          'cols': [{'name','ty','rep','unit','rows'}]}   rows: one list (or str) per row
"""
import datetime
import math
import struct

from model import num2m, num2c, f32, NAN

BLOCK = 2880
SIZE = {'L': 1, 'B': 1, 'A': 1, 'I': 2, 'J': 4, 'K': 8, 'E': 4, 'D': 8, 'C': 8, 'M': 16}
FMT = {'B': 'B', 'I': 'h', 'J': 'i', 'K': 'q', 'E': 'f', 'D': 'd'}


# ---- writer ---------------------------------------------------------------
def card(key, val):
    if isinstance(val, str):
        v = "'%-8s'" % val.replace("'", "''")
        c = '%-8s= %-20s' % (key, v)
    elif isinstance(val, bool):
        c = '%-8s= %20s' % (key, 'T' if val else 'F')
    elif isinstance(val, int):
        c = '%-8s= %20d' % (key, val)
    else:
        c = '%-8s= %20s' % (key, repr(float(val)).upper())
    if len(c) > 80:
        raise ValueError('card too long: ' + c)
    return '%-80s' % c


def pack_cell(ty, rep, x):
    if ty == 'A':
        b = x.encode('latin-1')[:rep]
        return b + b'\0' * (rep - len(b)) if len(b) < rep else b
    if ty == 'L':
        return bytes(ord('T') if e else ord('F') for e in x)
    if ty == 'C':
        return struct.pack('>%df' % (2 * rep), *[f32(y) for y in x])
    if ty == 'M':
        return struct.pack('>%dd' % (2 * rep), *x)
    if ty == 'E':
        x = [f32(y) for y in x]
    return struct.pack('>%d%s' % (rep, FMT[ty]), *x)


def write_hdu(h):
    cards = []
    data = b''
    if h['kind'] == 'prim':
        cards += [card('SIMPLE', True), card('BITPIX', 8), card('NAXIS', 0), card('EXTEND', True)]
    elif h['kind'] == 'image':
        n = h.get('npix', 10)
        cards += ['%-80s' % "XTENSION= 'IMAGE   '", card('BITPIX', 8), card('NAXIS', 1), card('NAXIS1', n),
                  card('PCOUNT', 0), card('GCOUNT', 1)]
        data = bytes(range(n))
    elif h['kind'] == 'ascii':
        rows = [('%15.7E' % x).encode() for x in h.get('vals', [1.5, 2.5])]
        cards += ['%-80s' % "XTENSION= 'TABLE   '", card('BITPIX', 8), card('NAXIS', 2), card('NAXIS1', 15),
                  card('NAXIS2', len(rows)), card('PCOUNT', 0), card('GCOUNT', 1), card('TFIELDS', 1),
                  card('TBCOL1', 1), card('TFORM1', 'E15.7'), card('TTYPE1', h.get('col', 'X'))]
        data = b''.join(rows)
    else:
        nrow = h['nrow']
        width = sum(SIZE[c['ty']] * c['rep'] for c in h['cols'])
        cards += ['%-80s' % "XTENSION= 'BINTABLE'", card('BITPIX', 8), card('NAXIS', 2), card('NAXIS1', width),
                  card('NAXIS2', nrow), card('PCOUNT', 0), card('GCOUNT', 1), card('TFIELDS', len(h['cols']))]
        for i, c in enumerate(h['cols'], 1):
            cards.append(card('TTYPE%d' % i, c['name']))
            cards.append(card('TFORM%d' % i, '%d%s' % (c['rep'], c['ty'])))
            if c.get('unit'):
                cards.append(card('TUNIT%d' % i, c['unit']))
            if c.get('dim'):
                cards.append(card('TDIM%d' % i, c['dim']))
        data = b''.join(pack_cell(c['ty'], c['rep'], c['rows'][r]) for r in range(nrow) for c in h['cols'])
    if h.get('ext') is not None:
        cards.append(card('EXTNAME', h['ext']))
    for k, v in h['keys']:
        cards.append(card(k, v))
    sums = h.get('sums')          # None: no checksums; 'ok', or what is wrong: 'datasum', 'checksum', 'pad', 'head'
    pad = bytearray((b' ' if h['kind'] == 'ascii' else b'\0') * (-len(data) % BLOCK))
    if sums:
        cards.append('%-80s' % 'COMMENT checked')
        dsum = checksum(data + pad)
        cards.append(card('DATASUM', str(dsum if sums != 'datasum' else dsum ^ 1)))
        cards.append(card('CHECKSUM', '0' * 16))
    cards.append('%-80s' % 'END')
    head = ''.join(cards).encode('latin-1')
    head += b' ' * (-len(head) % BLOCK)
    if sums:
        c = encode_sum(checksum(head + data + pad))
        if sums == 'checksum':
            c = c[:3] + ('A' if c[3] != 'A' else 'B') + c[4:]
        head = head.replace(card('CHECKSUM', '0' * 16).encode(), card('CHECKSUM', c).encode(), 1)
        if sums == 'head':
            head = head.replace(b'COMMENT checked', b'COMMENT chucked', 1)
        if sums == 'pad' and pad:
            pad[-1] = 7
    return head + data + bytes(pad)


def encode_sum(s):
    """the ASCII form of the complement of a checksum (FITS standard, appendix J)"""
    s = 0xffffffff - s
    asc = [0] * 16
    ex = set(range(0x3a, 0x41)) | set(range(0x5b, 0x61))
    for i in range(4):
        b = (s >> (24 - 8 * i)) & 0xff
        q, r = b // 4 + 0x30, b % 4
        ch = [q + r, q, q, q]
        again = True
        while again:
            again = False
            for j in (0, 2):
                if ch[j] in ex or ch[j + 1] in ex:
                    ch[j] += 1
                    ch[j + 1] -= 1
                    again = True
        for j in range(4):
            asc[4 * j + i] = ch[j]
    return ''.join(chr(asc[(i + 15) % 16]) for i in range(16))


def write_file(hdus):
    return b''.join(write_hdu(h) for h in hdus)


# ---- parser ---------------------------------------------------------------
class BadFits(Exception):
    pass


def parse_value(s):
    s = s.strip()
    if s.startswith("'"):
        out, i = '', 1
        while True:
            if i >= len(s):
                raise BadFits('unterminated string')
            if s[i] == "'":
                if i + 1 < len(s) and s[i + 1] == "'":
                    out += "'"
                    i += 2
                    continue
                break
            out += s[i]
            i += 1
        return out.rstrip(' ')
    s = s.split('/')[0].strip()
    if s in ('T', 'F'):
        return s == 'T'
    try:
        return int(s)
    except ValueError:
        return float(s.replace('D', 'E'))


def checksum(block):
    if len(block) % 4:
        raise BadFits('length')
    s = sum(struct.unpack('>%dI' % (len(block) // 4), block))
    while s >> 32:
        s = (s & 0xffffffff) + (s >> 32)
    return s


def parse(data):
    """-> (list of parsed HDUs, checksums valid?)"""
    if not data or len(data) % BLOCK:
        raise BadFits('file length %d' % len(data))
    out = []
    pos = 0
    good = True
    while pos < len(data):
        start = pos
        keys = {}
        last = None
        done = False
        while not done:
            if pos >= len(data):
                raise BadFits('no END')
            blk = data[pos:pos + BLOCK].decode('latin-1')
            pos += BLOCK
            for i in range(0, BLOCK, 80):
                c = blk[i:i + 80]
                k = c[:8].rstrip()
                if k == 'END':
                    done = True
                    break
                if k == 'CONTINUE' and last and isinstance(keys[last], str) and keys[last].endswith('&'):
                    keys[last] = keys[last][:-1] + parse_value(c[8:])
                elif c[8:10] == '= ':
                    keys[k] = parse_value(c[10:])
                    last = k
        naxis = keys['NAXIS']
        size = 0
        if naxis:
            size = abs(keys['BITPIX']) // 8
            for a in range(1, naxis + 1):
                size *= keys['NAXIS%d' % a]
            size = (size + keys.get('PCOUNT', 0)) * keys.get('GCOUNT', 1)
        body = data[pos:pos + size]
        if len(body) < size:
            raise BadFits('truncated data')
        pad = -size % BLOCK
        if pos + size + pad > len(data):
            raise BadFits('truncated padding')
        dblock = data[pos:pos + size + pad]
        pos += size + pad
        sums = [0, 0]
        if 'DATASUM' in keys:
            sums[0] = 1 if int(keys['DATASUM']) == checksum(dblock) % 0x100000000 else -1
        if 'CHECKSUM' in keys:
            sums[1] = 1 if checksum(data[start:pos]) in (0xffffffff, 0) else -1
        if sums != [1, 1]:
            good = False
        h = {'keys': keys, 'cols': [], 'bin': keys.get('XTENSION') == 'BINTABLE',
             'ext': keys.get('EXTNAME', ''), 'nrow': 0, 'sums': sums}
        if h['bin']:
            n = keys['NAXIS2']
            w = keys['NAXIS1']
            h['nrow'] = n
            off = 0
            for i in range(1, keys['TFIELDS'] + 1):
                tf = keys['TFORM%d' % i]
                j = 0
                while j < len(tf) and tf[j].isdigit():
                    j += 1
                rep = int(tf[:j]) if j else 1
                ty = tf[j]
                if ty not in SIZE:
                    raise BadFits('TFORM ' + tf)
                cs = SIZE[ty] * rep
                rows = []
                for r in range(n):
                    cell = body[r * w + off:r * w + off + cs]
                    if ty == 'A':
                        rows.append(cell.split(b'\0')[0].decode('latin-1').rstrip(' '))
                    elif ty == 'L':
                        rows.append([1 if b == 84 else 0 for b in cell])
                    elif ty in 'CM':
                        rows.append(list(struct.unpack('>%d%s' % (2 * rep, 'f' if ty == 'C' else 'd'), cell)))
                    else:
                        rows.append(list(struct.unpack('>%d%s' % (rep, FMT[ty]), cell)))
                h['cols'].append({'name': keys['TTYPE%d' % i], 'ty': ty, 'rep': rep,
                                  'unit': keys.get('TUNIT%d' % i, ''), 'dim': keys.get('TDIM%d' % i),
                                  'rows': rows})
                off += cs
            if off != w:
                raise BadFits('row width')
        out.append(h)
    return out, good


# ---- HDUs as values of the specification ---------------------------------
PRIM = ('ORIGIN DATE DATE-OBS TELESCOP INSTRUME OBSERVER CONTENT INSMODE OBJECT REFERENC AUTHOR PROG_ID '
        'PROCSOFT OBSTECH').split()
TABK = ('OI_REVN EXTVER ARRNAME FRAME ARRAYX ARRAYY ARRAYZ INSNAME CORRNAME NDATA DATE-OBS NPOL ORIENT MODEL '
        'AMPTYP PHITYP AMPORDER PHIORDER CALSTAT FOV FOVTYPE').split()
NUMK = {'ARRAYX', 'ARRAYY', 'ARRAYZ', 'FOV'}
INTK = {'OI_REVN', 'NDATA', 'NPOL', 'AMPORDER', 'PHIORDER'}
INTC = {'TARGET_ID', 'STA_INDEX', 'IINDX', 'JINDX'}
FLOATC = {'EFF_WAVE', 'EFF_BAND', 'DIAMETER', 'EQUINOX', 'PARALLAX', 'PARA_ERR', 'JXX', 'JYY', 'JXY', 'JYX'}
KIND = {'MJD': 'M', 'MJD_OBS': 'M', 'MJD_END': 'M', 'EFF_WAVE': 'W', 'EFF_BAND': 'W', 'DIAMETER': 'A'}
for _c in 'UCOORD VCOORD U1COORD V1COORD U2COORD V2COORD'.split():
    KIND[_c] = 'U'
_today = datetime.date.today()
NOW = {(_today + datetime.timedelta(days=k)).isoformat() for k in (-2, -1, 0, 1, 2)}


def now(s):
    """DATE values of the present day stand for themselves in the specification"""
    return '<now>' if s[:10] in NOW else s


def hdu2m(h, primary):
    keys = {'_': 0}
    bad = []
    for k in (PRIM if primary else TABK):
        if k in h['keys']:
            v = h['keys'][k]
            if k == 'DATE':
                v = now(v)
            if k in NUMK | INTK and isinstance(v, str):
                bad.append(k)
                continue
            if k in NUMK:
                v = num2m('D', float(v))
            elif isinstance(v, bool):
                v = int(v)
            elif isinstance(v, float):
                v = int(v)
            keys[k] = v
    cols = {'_': 0}
    for c in h['cols']:
        nm = c['name'].upper()
        if nm in cols:
            continue          # a repeated column name: the first counts
        ty, rows = c['ty'], c['rows']
        if ty not in 'AL':
            fl = nm in FLOATC
            if nm in INTC or nm.startswith('CORRINDX'):
                rows = [[int(x) for x in r] for r in rows]
            else:
                kind = KIND.get(nm, 'D')
                rows = [[num2m(kind, f32(x) if fl and x == x and abs(x) != math.inf else x) for x in r] for r in rows]
        if nm == 'VISREFMAP' and c.get('dim'):
            keys['TDIM'] = c['dim']
        cols[nm] = {'ty': ty, 'rep': c['rep'], 'unit': c['unit'], 'v': rows}
    return {'ext': h['ext'], 'bin': 1 if h['bin'] else 0, 'keys': keys, 'cols': cols, 'nrow': h['nrow'],
            'bad': bad}


def file2m(data):
    hs, good = parse(data)
    return [hdu2m(h, i == 0) for i, h in enumerate(hs)], good


def sums_of(data):
    return [h['sums'] for h in parse(data)[0]]


def fhash(data):
    h = 5381
    for b in data:
        h = (h * 33 + b) & 0x3fffffff
    return h


# ---- datasets as raw HDUs (generator for files not written by the library) --
def _c(name, ty, rep, unit, rows, **kw):
    return dict(name=name, ty=ty, rep=rep, unit=unit, rows=rows, **kw)


def _tab(ext, keys, cols, nrow):
    return {'ext': ext, 'kind': 'bin', 'keys': keys, 'cols': cols, 'nrow': nrow}


def encode_ds(d, v=2):
    """model dataset -> raw HDUs in the layout of standard version v"""
    from model import HDR
    hd = d['hdr']
    names = {'date_obs': 'DATE-OBS', 'prog_id': 'PROG_ID'}
    prim = {'kind': 'prim', 'ext': None, 'cols': [],
            'keys': [(names.get(k, k.upper()), hd[k]) for k, _ in HDR if hd[k] != '']}
    out = [prim]

    def one(recs, name, ty, unit, f, kind='D'):
        g = (lambda x: int(f(x))) if ty in 'IJ' else (lambda x: num2c(kind, f(x)))
        return _c(name, ty, 1, unit, [[g(r)] for r in recs])

    def st(recs, name, w, f):
        return _c(name, 'A', w, '', [f(r) for r in recs])

    def vec(recs, name, ty, n, unit, f, kind='D'):
        if ty in 'LIJ':
            return _c(name, ty, n, unit, [list(f(r)) for r in recs])
        return _c(name, ty, n, unit, [[num2c(kind, x) for x in f(r)] for r in recs])

    t = d['tg']['t']
    cols = [one(t, 'TARGET_ID', 'I', '', lambda x: x['id']), st(t, 'TARGET', 16 if v == 1 else 32, lambda x: x['name'])]
    for nm, f, ty, u in (('RAEP0', 'ra', 'D', 'deg'), ('DECEP0', 'dec', 'D', 'deg'), ('EQUINOX', 'eqx', 'E', 'yr'),
                         ('RA_ERR', 'raerr', 'D', 'deg'), ('DEC_ERR', 'decerr', 'D', 'deg'),
                         ('SYSVEL', 'sysvel', 'D', 'm/s')):
        cols.append(one(t, nm, ty, u, lambda x, f=f: x[f]))
    cols += [st(t, 'VELTYP', 8, lambda x: x['veltyp']), st(t, 'VELDEF', 8, lambda x: x['veldef'])]
    for nm, f, ty, u in (('PMRA', 'pmra', 'D', 'deg/yr'), ('PMDEC', 'pmdec', 'D', 'deg/yr'),
                         ('PMRA_ERR', 'pmraerr', 'D', 'deg/yr'), ('PMDEC_ERR', 'pmdecerr', 'D', 'deg/yr'),
                         ('PARALLAX', 'plx', 'E', 'deg'), ('PARA_ERR', 'plxerr', 'E', 'deg')):
        cols.append(one(t, nm, ty, u, lambda x, f=f: x[f]))
    cols.append(st(t, 'SPECTYP', 16 if v == 1 else 32, lambda x: x['spectyp']))
    if v >= 2 and d['tg']['usecat']:
        cols.append(st(t, 'CATEGORY', 3, lambda x: x['cat']))
    out.append(_tab('OI_TARGET', [('OI_REVN', v)], cols, len(t)))

    for k, a in enumerate(d['arr'], 1):
        e = a['e']
        keys = [('OI_REVN', v), ('EXTVER', k), ('ARRNAME', a['name']), ('FRAME', a['frame'])]
        keys += [('ARRAY' + q.upper(), num2c('D', a[q])) for q in 'xyz']
        cols = [st(e, 'TEL_NAME', 16, lambda x: x['tel']), st(e, 'STA_NAME', 16, lambda x: x['sta']),
                one(e, 'STA_INDEX', 'I', '', lambda x: x['idx']), one(e, 'DIAMETER', 'E', 'm', lambda x: x['dia'], 'A'),
                vec(e, 'STAXYZ', 'D', 3, 'm', lambda x: [x['sx'], x['sy'], x['sz']])]
        if v >= 2:
            cols += [one(e, 'FOV', 'D', 'arcsec', lambda x: x['fov']), st(e, 'FOVTYPE', 6, lambda x: x['fovtype'])]
        out.append(_tab('OI_ARRAY', keys, cols, len(e)))
    for k, w in enumerate(d['wav'], 1):
        out.append(_tab('OI_WAVELENGTH', [('OI_REVN', v), ('EXTVER', k), ('INSNAME', w['name'])],
                        [one(w['w'], 'EFF_WAVE', 'E', 'm', lambda x: x, 'W'),
                         one(w['b'], 'EFF_BAND', 'E', 'm', lambda x: x, 'W')], len(w['w'])))
    if v >= 2:
        for k, c in enumerate(d['cor'], 1):
            out.append(_tab('OI_CORR', [('OI_REVN', 1), ('EXTVER', k), ('CORRNAME', c['name']), ('NDATA', c['ndata'])],
                            [one(c['i'], 'IINDX', 'J', '', lambda x: x), one(c['j'], 'JINDX', 'J', '', lambda x: x),
                             one(c['c'], 'CORR', 'D', '', lambda x: x)], len(c['i'])))
        for k, p in enumerate(d['pol'], 1):
            r, n = p['r'], p['nw']
            cols = [one(r, 'TARGET_ID', 'I', '', lambda x: x['tid']), st(r, 'INSNAME', 70, lambda x: x['ins']),
                    one(r, 'MJD_OBS', 'D', 'day', lambda x: x['mjd'], 'M'),
                    one(r, 'MJD_END', 'D', 'day', lambda x: x['mjdend'], 'M')]
            cols += [vec(r, q.upper(), 'C', n, '', lambda x, q=q: x[q]) for q in ('jxx', 'jyy', 'jxy', 'jyx')]
            cols.append(one(r, 'STA_INDEX', 'I', '', lambda x: x['sta']))
            out.append(_tab('OI_INSPOL', [('OI_REVN', 1), ('EXTVER', k), ('DATE-OBS', p['date']), ('NPOL', p['npol']),
                                          ('ARRNAME', p['arr']), ('ORIENT', p['orient']), ('MODEL', p['model'])],
                            cols, len(r)))

    def common(t, rev, k):
        keys = [('OI_REVN', rev), ('EXTVER', k), ('DATE-OBS', t['date'])]
        if t['arr']:
            keys.append(('ARRNAME', t['arr']))
        keys.append(('INSNAME', t['ins']))
        if v >= 2 and t['cor']:
            keys.append(('CORRNAME', t['cor']))
        return keys

    def lead(r, time=True):
        cols = [one(r, 'TARGET_ID', 'I', '', lambda x: x['tid'])]
        if time:
            cols.append(one(r, 'TIME', 'D', 's', lambda x: x['time']))
        return cols + [one(r, 'MJD', 'D', 'day', lambda x: x['mjd'], 'M'), one(r, 'INT_TIME', 'D', 's', lambda x: x['it'])]

    def cor(t, name, f):
        return [one(t['r'], name, 'J', '', f)] if v >= 2 and t['cor'] else []
    for k, t in enumerate(d['vis'], 1):
        r, n = t['r'], t['nw']
        keys = common(t, v, k)
        if v >= 2:
            keys += [(a, t[b]) for a, b in (('AMPTYP', 'amptyp'), ('PHITYP', 'phityp')) if t[b]]
            keys += [(a, t[b]) for a, b in (('AMPORDER', 'amporder'), ('PHIORDER', 'phiorder')) if t[b] >= 0]
        cols = lead(r) + [vec(r, 'VISAMP', 'D', n, t['aunit'], lambda x: x['a']),
                          vec(r, 'VISAMPERR', 'D', n, t['aunit'], lambda x: x['ae'])]
        cols += cor(t, 'CORRINDX_VISAMP', lambda x: x['ca'])
        cols += [vec(r, 'VISPHI', 'D', n, 'deg', lambda x: x['p']), vec(r, 'VISPHIERR', 'D', n, 'deg', lambda x: x['pe'])]
        cols += cor(t, 'CORRINDX_VISPHI', lambda x: x['cp'])
        if v >= 2 and t['useref']:
            cols.append(vec(r, 'VISREFMAP', 'L', n * n, '', lambda x: x['ref']))
            cols[-1]['dim'] = '(%d,%d)' % (n, n)
        if v >= 2 and t['usecpx']:
            cols += [vec(r, 'RVIS', 'D', n, t['cunit'], lambda x: x['rv']),
                     vec(r, 'RVISERR', 'D', n, t['cunit'], lambda x: x['rve'])]
            cols += cor(t, 'CORRINDX_RVIS', lambda x: x['crv'])
            cols += [vec(r, 'IVIS', 'D', n, t['cunit'], lambda x: x['iv']),
                     vec(r, 'IVISERR', 'D', n, t['cunit'], lambda x: x['ive'])]
            cols += cor(t, 'CORRINDX_IVIS', lambda x: x['civ'])
        cols += [one(r, 'UCOORD', 'D', 'm', lambda x: x['u'], 'U'), one(r, 'VCOORD', 'D', 'm', lambda x: x['v'], 'U'),
                 vec(r, 'STA_INDEX', 'I', 2, '', lambda x: x['s']), vec(r, 'FLAG', 'L', n, '', lambda x: x['f'])]
        out.append(_tab('OI_VIS', keys, cols, len(r)))
    for k, t in enumerate(d['vis2'], 1):
        r, n = t['r'], t['nw']
        cols = lead(r) + [vec(r, 'VIS2DATA', 'D', n, '', lambda x: x['a']), vec(r, 'VIS2ERR', 'D', n, '', lambda x: x['ae'])]
        cols += cor(t, 'CORRINDX_VIS2DATA', lambda x: x['ca'])
        cols += [one(r, 'UCOORD', 'D', 'm', lambda x: x['u'], 'U'), one(r, 'VCOORD', 'D', 'm', lambda x: x['v'], 'U'),
                 vec(r, 'STA_INDEX', 'I', 2, '', lambda x: x['s']), vec(r, 'FLAG', 'L', n, '', lambda x: x['f'])]
        out.append(_tab('OI_VIS2', common(t, v, k), cols, len(r)))
    for k, t in enumerate(d['t3'], 1):
        r, n = t['r'], t['nw']
        cols = lead(r) + [vec(r, 'T3AMP', 'D', n, '', lambda x: x['a']), vec(r, 'T3AMPERR', 'D', n, '', lambda x: x['ae'])]
        cols += cor(t, 'CORRINDX_T3AMP', lambda x: x['ca'])
        cols += [vec(r, 'T3PHI', 'D', n, 'deg', lambda x: x['p']), vec(r, 'T3PHIERR', 'D', n, 'deg', lambda x: x['pe'])]
        cols += cor(t, 'CORRINDX_T3PHI', lambda x: x['cp'])
        cols += [one(r, nm, 'D', 'm', lambda x, f=f: x[f], 'U')
                 for nm, f in (('U1COORD', 'u'), ('V1COORD', 'v'), ('U2COORD', 'u2'), ('V2COORD', 'v2'))]
        cols += [vec(r, 'STA_INDEX', 'I', 3, '', lambda x: x['s']), vec(r, 'FLAG', 'L', n, '', lambda x: x['f'])]
        out.append(_tab('OI_T3', common(t, v, k), cols, len(r)))
    if v >= 2:
        for k, t in enumerate(d['flux'], 1):
            r, n = t['r'], t['nw']
            keys = common(t, 1, k) + [('CALSTAT', t['cal'])]
            if t['fovtype']:
                keys += ([('FOV', num2c('D', t['fov']))] if t['fov'] == t['fov'] and t['fov'] != NAN else []) + [('FOVTYPE', t['fovtype'])]
            cols = lead(r, False) + [vec(r, 'FLUXDATA', 'D', n, t['funit'], lambda x: x['a']),
                                     vec(r, 'FLUXERR', 'D', n, t['funit'], lambda x: x['ae'])]
            cols += cor(t, 'CORRINDX_FLUXDATA', lambda x: x['ca'])
            if t['arr']:
                cols.append(one(r, 'STA_INDEX', 'I', '', lambda x: x['sta']))
            cols.append(vec(r, 'FLAG', 'L', n, '', lambda x: x['f']))
            out.append(_tab('OI_FLUX', keys, cols, len(r)))
    return out
