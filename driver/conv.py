"""Converts a recorded implementation trace (harness JSON lines) to the events that
spec/Trace.tla judges: numbers to specification units, texts to records, written
files to HDU records.  Nothing is judged here."""
import json
import os
import re

import fitsio
import model

LEVELS = 4


# ---- texts -----------------------------------------------------------------
NORM = [
    (re.compile(r'^(No (?:OI_ARRAY|OI_WAVELENGTH|data))\b.*$'), r'\1'),
    (re.compile(r'^(\S+) value missing from primary header$'), r'\1'),
    (re.compile(r'^(OI_ARRAY #\d+ FRAME)=.*$'), r'\1'),
    (re.compile(r'^(OI_VIS #\d+) (?:AMPTYP|PHITYP)=.* has (?:no )?VISREFMAP.*$'), r'\1'),
    (re.compile(r'^(OI_VIS #\d+ (?:AMPTYP|PHITYP))=.*$'), r'\1'),
    (re.compile(r'^(OI_FLUX #\d+ (?:CALSTAT|FOVTYPE))=.*$'), r'\1'),
    (re.compile(r'^(TARGET_ID=-?\d+) +TARGET=.*$'), r'\1'),
    (re.compile(r'^(OI_FLUX #\d+) Calibrated but (ARRNAME|STA_INDEX|FOVTYPE).*$'), r'\1 \2'),
    (re.compile(r'^(OI_FLUX #\d+) Uncalibrated but (ARRNAME|STA_INDEX|FOVTYPE).*$'), r'\1 \2'),
]


def norm_loc(nm, s):
    if nm == 'visrefmap':
        return re.sub(r'^(OI_VIS #\d+)\b.*', r'\1', s)
    for rx, rep in NORM:
        if rx.match(s):
            return rx.sub(rep, s)
    return s


def parse_check_text(s):
    """-> (occurrences shown, location lines)"""
    lines = s.split('\n')
    shown = -1
    for k, l in enumerate(lines):
        m = re.match(r'^.*, (\d+) occurrences:-$', l)
        if m:
            shown = int(m.group(1))
            lines = lines[k + 1:]
            break
    return shown, [l[4:] for l in lines if l.startswith('    ')]


HL = ['ORIGIN  ', 'DATE    ', 'DATE-OBS', 'TELESCOP', 'INSTRUME', 'OBSERVER', 'OBJECT  ', 'INSMODE ', 'OBSTECH ']
SECT = [('arr', 'OI_ARRAY'), ('wav', 'OI_WAVELENGTH'), ('cor', 'OI_CORR'), ('pol', 'OI_INSPOL'), ('vis', 'OI_VIS'),
        ('vis2', 'OI_VIS2'), ('t3', 'OI_T3'), ('flux', 'OI_FLUX')]


def tenths(s):
    try:
        return int(round(float(s) * 10))
    except (ValueError, OverflowError):
        return -1


def parse_summary(text, mapnow=True):
    """the summary of a dataset, as a record; -> (record, rest of text)"""
    bad = {'ver': -1, 'hdr': [], **{k: {'n': -1, 'l': []} for k, _ in SECT}}
    lines = text.split('\n')
    p = 0
    try:
        m = re.match(r'^OIFITS version (\d+) data:$', lines[p])
        r = {'ver': int(m.group(1)), 'hdr': []}
        p += 1
        for h in HL:
            m = re.match(r"^  %s= '(.*)'$" % re.escape(h), lines[p])
            v = m.group(1)
            r['hdr'].append(fitsio.now(v) if mapnow and h == 'DATE    ' else v)
            p += 1
        p += 1
        for k, nm in SECT:
            m = re.match(r'^  (\d+) %s tables:$' % nm, lines[p])
            r[k] = {'n': int(m.group(1)), 'l': []}
            p += 1
            while p < len(lines) and lines[p].startswith('    #'):
                l = lines[p]
                if k == 'arr':
                    m = re.match(r"^    #(\d+) *ARRNAME='(.*)'  (\d+) elements$", l)
                    x = {'k': int(m.group(1)), 'name': m.group(2), 'ne': int(m.group(3))}
                elif k == 'wav':
                    m = re.match(r"^    #(\d+) *INSNAME='(.*)'  (\d+) channels +(\S+?) *- *(\S+)nm$", l)
                    x = {'k': int(m.group(1)), 'name': m.group(2), 'nc': int(m.group(3)),
                         'lo': tenths(m.group(4)), 'hi': tenths(m.group(5))}
                elif k == 'cor':
                    m = re.match(r"^    #(\d+) *CORRNAME='(.*)'  (\d+)/(\d+) non-zero correlations$", l)
                    x = {'k': int(m.group(1)), 'name': m.group(2), 'nc': int(m.group(3)), 'nd': int(m.group(4))}
                elif k == 'pol':
                    m = re.match(r"^    #(\d+) *ARRNAME='(.*)'$", l)
                    x = {'k': int(m.group(1)), 'name': m.group(2)}
                else:
                    m = re.match(r"^    #(\d+) *DATE-OBS=(.*)$", l)
                    m2 = re.match(r"^    INSNAME='(.*)'  ARRNAME='(.*)'  CORRNAME='(.*)'$", lines[p + 1])
                    m3 = re.match(r"^ +(\d+) records x +(\d+) wavebands$", lines[p + 2])
                    x = {'k': int(m.group(1)), 'date': m.group(2), 'ins': m2.group(1), 'arr': m2.group(2),
                         'cor': m2.group(3), 'nr': int(m3.group(1)), 'nw': int(m3.group(2))}
                    p += 2
                p += 1
                r[k]['l'].append(x)
        return r, '\n'.join(lines[p:])
    except (AttributeError, IndexError):
        return bad, text


def parse_filter_text(text):
    bad = {'ok': 0}
    L = text.split('\n')
    try:
        i = L.index('Filter accepts:')
        L = L[i + 1:]
        r = {'ok': 1}
        r['arr'] = re.match(r"^  ARRNAME='(.*)'$", L[0]).group(1)
        r['ins'] = re.match(r"^  INSNAME='(.*)'$", L[1]).group(1)
        r['cor'] = re.match(r"^  CORRNAME='(.*)'$", L[2]).group(1)
        if L[3] == '  [Any TARGET_ID]':
            r['tid'] = -1
        else:
            r['tid'] = int(re.match(r'^  TARGET_ID=(-?\d+)$', L[3]).group(1))

        def pair(l, head, unit, scale):
            m = re.match(r'^  %s: (\S+) - (\S+?)%s$' % (re.escape(head), unit), l)
            out = []
            for q in m.groups():
                v = float(q)
                out.append(model.LIMINF if v >= 1e8 and scale == 10 else int(round(v * scale)))
            return out
        r['mjd'] = pair(L[4], 'MJD', '', 100)
        r['wave'] = pair(L[5], 'Wavelength', 'nm', 10)
        r['bas'] = pair(L[6], 'Baseline', 'm', 10)
        if not re.match(r'^  UV Radius: \S+ - \S+ waves$', L[7]):
            return bad
        r['snr'] = pair(L[8], 'SNR', '', 10)
        for l, (k, yes, no) in zip(L[9:], [
                ('vis', '  OI_VIS (complex visibilities)', '  [OI_VIS not accepted]'),
                ('vis2', None, '  [OI_VIS2 not accepted]'), ('t3amp', None, '  [OI_T3 T3AMP not accepted]'),
                ('t3phi', None, '  [OI_T3 T3PHI not accepted]'), ('flux', None, '  [OI_FLUX not accepted]'),
                ('flagged', None, '  [All-flagged records not accepted]')]):
            r[k] = 0 if l == no else 1
            if not l.startswith('  '):
                return bad
        if len(L) < 15:
            return bad
        return r
    except (AttributeError, IndexError, ValueError):
        return bad


WKIND = {'targets': 'OI_TARGET', 'array': 'OI_ARRAY', 'wave': 'OI_WAVELENGTH', 'corr': 'OI_CORR', 'inspol': 'OI_INSPOL',
         'vis': 'OI_VIS', 'vis2': 'OI_VIS2', 't3': 'OI_T3', 'flux': 'OI_FLUX'}
SAID = [
    (re.compile(r"WARNING! (Data|HDU) checksum verification failed for HDU #(\d+) \(EXTNAME='(.*)' EXTVER=(-?\d+)\)"),
     lambda m: {'t': m.group(1).lower(), 'hdu': int(m.group(2)), 'ext': m.group(3), 'n': int(m.group(4))}),
    (re.compile(r'WARNING! Expecting OI_REVN <= \d+ in (\S+) table. Got (-?\d+)'),
     lambda m: {'t': 'revn', 'hdu': 0, 'ext': m.group(1), 'n': int(m.group(2))}),
    (re.compile(r'WARNING! (\w+)\.revision != (\d+) on entry'), lambda m: {'t': 'wrev', 'hdu': 0, 'ext': WKIND.get(m.group(1), '?'), 'n': int(m.group(2))}),
    (re.compile(r'WARNING! (\w+)\.arrname not set'), lambda m: {'t': 'noarr', 'hdu': 0, 'ext': WKIND.get(m.group(1), '?'), 'n': 0}),
    (re.compile(r'Skipping bad (\S+) \('), lambda m: {'t': 'skip', 'hdu': 0, 'ext': m.group(1), 'n': 0}),
]


def parse_said(text):
    """reports printed while reading; other lines are of no concern"""
    out = []
    for l in text.split('\n'):
        for rx, f in SAID:
            m = rx.match(l.strip())
            if m:
                out.append(f(m))
    return out


def parse_errs(text):
    """error messages: number of headings, and the status codes explained"""
    return {'heads': len(re.findall(r'(?m)^\s*C?FITSIO error in \S+:\s*$', text)),
            'sts': [int(x) for x in re.findall(r'(?m)^\s*FITSIO status = (-?\d+):', text)]}


# ---- values ----------------------------------------------------------------
def cds(d, mapnow=True):
    m = model.ds2m(d)
    if mapnow:
        m['hdr']['date'] = fitsio.now(m['hdr']['date'])
    return m


def cpost(post):
    return {k: (0 if k == '_' else cds(v)) for k, v in post.items()}


def cuv(x, ew):
    """baseline component in metres of a coordinate in wavelengths"""
    if x is None or ew is None:
        return model.NAN
    x, ew = float(x), float(ew)
    if x != x or ew != ew:
        return model.NAN
    b = x * ew
    if abs(b) > 1e9:
        return model.intern(('uv', x))
    n = round(b)
    if abs(b - n) <= 1e-9 * max(1.0, abs(b)):
        return int(n)
    return model.intern(('uv', x))


def ctab(kind, t):
    if kind == 'hdr':
        r = model.rec2m(model.HDR, t)
        r['date'] = fitsio.now(r['date'])
        return r
    return model.rec2m(model.SCHEMA[kind], t)


def cflt(f, hints, tol=False):
    r = model.flt2m(f, hints)
    if tol:
        for k in (0, 1):
            x = float(f['wave'][k])
            n = round(x / model.WUNIT)
            if r['wave'][k] >= model.INTERN0 and abs(x / model.WUNIT - n) < 0.01:
                r['wave'][k] = int(n)
    return r


class Files:
    """HDU records of the files of one scenario"""
    def __init__(self, d):
        self.d = d

    def get(self, name, fhash):
        """-> (parsed, hdus): 1 parsed, 0 not a valid file, -1 no longer the same file"""
        try:
            with open(os.path.join(self.d, name), 'rb') as f:
                b = f.read()
        except OSError:
            return -1, []
        if fitsio.fhash(b) != fhash:
            return -1, []
        try:
            h, good = fitsio.file2m(b)
        except (fitsio.BadFits, KeyError, ValueError, IndexError, UnicodeDecodeError, OverflowError):
            return 0, []
        return (1 if good else 0), h


def scenario_events(sc, lines, wd):
    """sc: gen.Sc; lines: parsed trace lines after begin (ending in end/crash).
    -> list of (event, op index)"""
    out = [({'op': 'begin'}, -1)]
    files = Files(wd)
    it = iter(lines)
    fname, fmode = '', 0
    full = 0
    for k, (tk, meta) in enumerate(sc.ops):
        if tk[0] == 'putfile':
            b = sc.files[tk[1]]
            try:
                h, _ = fitsio.file2m(b)
                sums = fitsio.sums_of(b)
            except (fitsio.BadFits, KeyError, ValueError, IndexError, UnicodeDecodeError):
                h, sums = [], []
            out.append(({'op': 'putfile', 'file': tk[1], 'hdus': h, 'sums': sums, 'fhash': fitsio.fhash(b)}, k))
            continue
        e = next(it)
        op = e['op']
        if op in ('crash', 'end'):
            during = {'mergev': 'merge'}.get(tk[0], tk[0])
            if op == 'end':
                raise RuntimeError('scenario ended early at op %d %s' % (k, tk[0]))
            out.append(({'op': 'crash', 'during': during, 'sig': e['sig'], 'rc': e['rc']}, k))
            return out
        e.pop('_', None)
        n = dict(e)
        if 'slot' in e:
            sl = 's%d' % e['slot']
            n['slot'] = sl
            if sl in e:
                del n[sl]
                n['obs'] = cds(e[sl])
        if 'said' in e:
            n['said'] = parse_said(e['said'])
            n['errs'] = parse_errs(e['said'])
        if 'post' in e:
            n['post'] = cpost(e['post'])
        if op in ('filter', 'dup'):
            n['in'] = 's%d' % e['in']
            n['isdef'] = 1 if tk[3] == 'def' else 0        # the library's own default, whatever that is
        elif op == 'merge':
            n['in'] = ['s%d' % x for x in e['in']]
        if 'flt' in e:
            n['flt'] = cflt(e['flt'], sc.hints, op == 'optparse')
        if op == 'write':
            n['creatable'] = meta.get('creatable', 1)
            n['full'] = full
            if e['st'] == 0 and e['st0'] == 0:
                full = e['fsize']
            n['parsed'], n['hdus'] = (-1, [])
            if e['st'] == 0 and e['st0'] == 0:
                n['parsed'], n['hdus'] = files.get(e['file'], e['fhash'])
        elif op == 'fopen':
            fname, fmode = e['file'], e['mode']
        elif op == 'fclose':
            n['mode'] = fmode
            n['parsed'], n['hdus'] = (-1, [])
            if fmode == 0:
                n['parsed'], n['hdus'] = files.get(fname, e['fhash'])
        elif op in ('tnext', 'tname'):
            if 'tab' in e:
                n['tab'] = ctab(e['kind'], e['tab'])
        elif op == 'filter':
            if meta.get('again'):
                n['again'] = 1
        elif op == 'iternext':
            ys = []
            for y in e['y']:
                ew = y['ew']
                ys.append({'ok': y['ok'], 'ext': y['ext'], 'tab': y['tab'], 'rec': y['rec'], 'prec': y['prec'], 'wv': y['wv'],
                           'ew': model.num2m('W', float(ew)),
                           'uv': [cuv(y[c], ew) for c in ('u', 'v', 'u2', 'v2')]})
            n['y'] = ys
        elif op == 'check':
            res = {}
            for nm, r in e['res'].items():
                if nm == '_':
                    continue
                shown, nl = parse_check_text(r['fmt'])
                res[nm] = {'ret': r['ret'], 'level': r['level'], 'num': r['num'], 'text': r['text'],
                           'desc': r['desc'], 'shown': shown, 'lines': [norm_loc(nm, x) for x in nl], 'loc': [norm_loc(nm, x) for x in r['loc']]}
            n['res'] = res
        elif op == 'query':
            n['atom'] = [{'d': model.num2m('M', float(x['d'])), 'r': x['r']} for x in e['atom']]
        elif op == 'summary':
            n['sum'] = parse_summary(e['text'])[0]
            del n['text']
        elif op == 'fmtfilter':
            n['sum'] = parse_filter_text(e['text'])
            del n['text']
        elif op == 'optparse':
            n.update(opts=meta['opts'], bad=meta['bad'], wantleft=meta['wantleft'])
            n.pop('argv', None)
        elif op == 'demo':
            text = n.pop('text')
            n['ds'] = meta['ds']
            n['parsed'], n['hdus'] = files.get(e['out'], e['fhash'])
            n['lines'] = [{'k': m.group(1), 'arr': m.group(2), 'ins': m.group(3) or '', 'cor': m.group(4) or ''}
                          for m in re.finditer(r'^Read (\S+) +with  ARRNAME=(.*?)(?: INSNAME=(.*?) CORRNAME=(.*?))?$', text, re.M)]
        elif op == 'cli':
            n.update({q: meta[q] for q in ('argsok', 'in', 'opts', 'clobber', 'hdr')})
            text = n.pop('text')
            n['sums'] = []
            n['fltsum'] = {'ok': 0}
            n['allpassed'] = 1 if re.search(r'^All checks passed$', text, re.M) else 0
            n['nres'] = len(re.findall(r'^\*\*\* ', text, re.M))
            pos = [m.start() for m in re.finditer(r'^OIFITS version', text, re.M)]
            want = {'merge': 1, 'filter': 2, 'check': 1, 'upgrade': 1}[e['tool']]
            for q in pos:
                n['sums'].append(parse_summary(text[q:], True)[0])
            while len(n['sums']) < want:
                n['sums'].append(parse_summary('', True)[0])
            if 'Filter accepts:' in text:
                n['fltsum'] = parse_filter_text(text)
        out.append((n, k))
    e = next(it)
    if e['op'] == 'crash':
        out.append(({'op': 'crash', 'during': 'exit', 'sig': e['sig'], 'rc': e['rc']}, len(sc.ops)))
    return out
