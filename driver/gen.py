"""Seeded random generators of datasets, filters and scenarios.

A scenario is a list of (tokens, meta): the tokens are a command for the harness,
meta holds facts about the inputs that the trace converter attaches to the event.
"""
import copy
import math
import random

import fitsio
import model
from model import NAN, PINF, NINF, LIMINF, enc, ds2c, flt2c, f32, WUNIT

DATA = ('vis', 'vis2', 't3', 'flux')
PYTH = [(3, 4), (6, 8), (5, 12), (8, 15), (20, 21), (9, 40), (12, 35), (28, 45), (33, 56), (48, 55), (60, 80),
        (65, 72), (30, 40), (90, 120), (0, 50), (100, 0), (36, 77), (119, 120)]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.epoch = 200000    # usual modified Julian date, in quarter days
        self.odduv = 0
        self.noname = 0        # fraction of targets without a name
        self.bulk = 0.015      # fraction of datasets that are large in some respect
        self.odd = 0           # fraction of arbitrary values where nothing is computed from them

    # ---- scalars ----
    def p(self, x):
        return self.r.random() < x

    def pick(self, s):
        return self.r.choice(list(s))

    def num(self, lo=-128, hi=640, nan=0.03):
        if self.p(nan):
            return NAN
        if self.p(0.02):
            # needs more than single precision
            x = 2 * self.r.randint(2 ** 23, 2 ** 27) + 1
            return -x if lo < 0 and self.p(0.5) else x
        if nan and self.p(0.006):
            return PINF if lo >= 0 or self.p(0.5) else NINF
        return self.r.randint(lo, hi)

    def free(self, kind='D'):
        """a number nothing is computed from"""
        return model.num2m(kind, self.pick([0.1, 1 / 3, 1e30, 1e300, -123456.78901234567, math.inf, -math.inf, 3.5e38]))

    def cnum(self, *a):
        return self.free() if self.p(self.odd) else self.num(*a)

    def err(self, nan=0.03, odd=0.06):
        if self.p(nan):
            return NAN
        if self.p(odd):
            return self.pick([0, -1, -64, 0, PINF, 2 * self.r.randint(2 ** 23, 2 ** 27) + 1])
        return self.pick([1, 2, 4, 8, 16, 16, 16, 32, 32, 64, 100, 640])

    def word(self, n=None):
        n = n or self.r.randint(1, 8)
        return ''.join(self.r.choice('ABCDEFGHabcdefgh0123456789_-') for _ in range(n))

    def text(self, maxlen, empty=0.2, blank=True):
        if self.p(empty):
            return ''
        if self.p(0.08):
            n = maxlen
        else:
            n = self.r.randint(1, min(maxlen, 14))
        s = ''.join(self.r.choice('ABCabc019_-+./ :%s' % ("'" if n < 16 else '')) for _ in range(n))
        s = s.strip(' ').rstrip('&')
        if s and s[-1] == "'":
            s = s[:-1] + 'q'
        return s.strip(' ')

    def near(self, s):
        """another text that differs little"""
        t = self.pick([s.swapcase(), s.lower(), s.upper(), s + 'x', s[:-1], s.replace(' ', '_'), 'x' + s, s[:-1] + '~',
                       s.replace('-', '_')])
        return t.strip(' ')[:66]

    def name(self, kind, maxlen=64):
        pool = {'arr': ['VLTI', 'CHARA', 'A', 'AB', 'ABC', 'VLTI_002', 'VLTI_003', 'array001', 'array002', 'array003',
                        'IOTA', 'vlti', 'CHARA_002', 'VLTI_001'],
                'wav': ['PIONIER', 'GRAVITY', 'G', 'GR', 'ins001', 'ins002', 'ins003', 'PIONIER_002', 'GRAVITY_002',
                        'MIRC(H)', 'pionier', 'GRAVITY_003', 'MIRC'],
                'cor': ['C1', 'C2', 'C', 'CORR', 'corr001', 'corr002', 'CORR_002', 'C1_002', 'c1', 'corr003']}[kind]
        x = self.r.random()
        if x < 0.75:
            return self.pick(pool)
        if x < 0.9:
            return self.pick(pool)[:10] + self.word(3)
        if x < 0.96:
            return (self.pick(pool) + self.word(80))[:self.r.randint(min(30, maxlen), maxlen)]
        return (self.pick(['X', 'Y']) * 80)[:maxlen]

    def names(self, kind, n, maxlen=64):
        out = []
        while len(out) < n:
            s = self.name(kind, maxlen)
            if s not in out:
                out.append(s)
        return out

    def date(self):
        if self.p(0.85):
            return '%04d-%02d-%02d' % (self.r.randint(1902, 2098) if self.p(0.2) else self.r.randint(1990, 2025),
                                       self.r.randint(1, 12), self.r.randint(1, 28)) + (
                self.pick(['', '', 'T10:00:00', 'T23:59:59.9']))
        return self.pick(['', '', 'UNKNOWN', '01/02/99', '2001', '2001-13', '0000-00-00', '1858-11-17', 'May 2001'])

    # ---- pieces ----
    def header(self, v=2):
        # v1 datasets carry what the library derives on reading
        h = {}
        for k, _ in model.HDR:
            h[k] = self.pick(['', '', 'ESO', 'CHARA', 'MULTIPLE', 'UNKNOWN', 'x']) if self.p(0.7) else self.text(66, 0.1)
        h['date'] = self.pick(['', '2015-03-04', '2012-12-12T11:00:00'])
        h['date_obs'] = self.date()
        h['content'] = 'OIFITS2' if v == 2 else self.pick(['', '', 'OIFITS1', 'OIFITS'])
        return h

    def target(self, tid, name, v=2):
        f = self.cnum
        return dict(id=tid, name=name, ra=f(0, 360 * 64), dec=f(-90 * 64, 90 * 64), eqx=self.pick([2000, 1950]) * 64,
                    raerr=f(0, 9), decerr=f(0, 9), sysvel=f(-6400, 6400), veltyp=self.pick(['', 'LSR', 'BARYCENT', 'TOPOCENT']),
                    veldef=self.pick(['', 'RADIO', 'OPTICAL']), pmra=f(), pmdec=f(), pmraerr=f(0, 9), pmdecerr=f(0, 9),
                    plx=f(0, 64), plxerr=f(0, 9), spectyp=self.text(32 if v == 2 else 16, 0.3),
                    cat=self.pick(['SCI', 'CAL', '', 'S']) if v == 2 else '')

    def tname(self):
        x = self.r.random()
        if x < 0.7:
            return self.pick(['HD 1', 'HD 10', 'HD 100', 'Vega', 'alf Ori', 'VEGA', 'R Car', 'star', 'star2', 'CAL', 'bet Lyr'])
        if self.noname and self.p(self.noname):
            return ''                           # a name like any other (but a file gives back ' ')
        if x < 0.8:
            return ('long target name ' + self.word(30))[:32].strip()
        return self.word()

    def targets(self, n, v=2, dupnames=False):
        ids = []
        while len(ids) < n:
            i = self.pick([1, 2, 3, 4, 5, 7, 10, 11, 50, 99, 100, 101, 0, 1000, 32767]) if self.p(0.7) else self.r.randint(0, 400)
            if i not in ids:
                ids.append(i)
        if self.p(0.4):
            ids = list(range(1, n + 1))
        if self.p(0.1) and 0 not in ids:        # unusual, but a number like any other
            ids[self.r.randrange(n)] = 0
        names = []
        while len(names) < n:
            s = self.tname() if n < 8 else self.word(10)
            if dupnames and names and self.p(0.3):
                s = self.pick(names)
            if dupnames or s not in names:
                names.append(s)
        usecat = self.r.randint(0, 1) if v == 2 else 0
        return dict(rev=v, usecat=usecat, t=[self.target(i, s, v) for i, s in zip(ids, names)])

    def array(self, name, v=2, ne=None, idxs=None):
        ne = ne if ne is not None else self.r.randint(1, 5)
        ids = idxs or self.r.sample([1, 2, 3, 4, 5, 6, 9, 10, 11, 30, 100, 300, 0], ne)
        e = []
        for i in ids:
            e.append(dict(tel=self.text(16, 0.2), sta=self.text(16, 0.2), idx=i, dia=self.pick([8192, 8 * 8192, 14746, 1, 0]) + self.pick([0, 0, 0, 8, 9, 5]),
                          sx=self.cnum(-9999, 9999), sy=self.cnum(-9999, 9999), sz=self.cnum(-99, 99),
                          fov=(self.cnum(0, 640) if v == 2 else NAN), fovtype=(self.pick(['FWHM', 'RADIUS']) if v == 2 else 'FWHM')))
        return dict(rev=v, name=name, frame=self.pick(['GEOCENTRIC', 'GEOCENTRIC', 'SKY']), x=self.num(-10 ** 6, 10 ** 6, 0),
                    y=self.num(-10 ** 6, 10 ** 6, 0), z=self.num(-10 ** 6, 10 ** 6, 0), e=e)

    def wave(self, name, v=2, nw=None, maxnw=6):
        nw = nw or self.r.randint(1, maxnw)
        base = self.pick([12500, 25000, 37500, 40000, 55000, 62000])
        if self.p(0.2):
            base = self.pick([7500, 10000, 75000, 100000, 125000, 200000, 260000, 300000, 520000, 1250000, 2400000])
        step = self.pick([1, 2, 3, 25, 100, 500])
        w = [base + step * i for i in range(nw)]
        x = self.r.random()
        if x < 0.25:
            w.reverse()
        elif x < 0.4:
            self.r.shuffle(w)
        elif x < 0.45:
            w = [self.pick(w) for _ in w]
        return dict(rev=v, name=name, w=w, b=[self.pick([25, 50, 250, 1]) for _ in w])

    def corr(self, name):
        n = self.r.randint(1, 5)
        return dict(rev=1, name=name, ndata=self.r.randint(1, 100), i=[self.r.randint(1, 50) for _ in range(n)],
                    j=[self.r.randint(1, 99) for _ in range(n)], c=[self.cnum(-64, 64, 0.02) for _ in range(n)])

    def uv(self):
        if self.p(self.odduv):
            return self.free('U'), self.free('U')
        if self.p(0.02):
            return NAN, self.r.randint(-50, 50)
        if self.p(0.75):
            a, b = self.pick(PYTH)
            if self.p(0.5):
                a, b = b, a
            return a * self.pick([1, -1]), b * self.pick([1, -1])
        if self.p(0.08):
            return self.r.randint(-1500, 1500), self.r.randint(-1500, 1500)
        return self.r.randint(-300, 300), self.r.randint(-300, 300)

    def mjd(self):
        if self.p(0.04):
            q = self.pick([60000, 160000, 239999, 320000, 1, 400000]) + self.r.randint(0, 6)
        elif self.p(0.01):
            return NAN
        else:
            q = self.epoch + self.pick([0, 1, 2, 3, 4, 8, 9, 400, 4001, 20000]) + self.r.randint(0, 6)
        return 256 * q + (self.pick([1, 2, 5, 64, 100, 255, self.r.randint(0, 255)]) if self.p(0.35) else 0)

    def flags(self, nw):
        x = self.r.random()
        if x < 0.6:
            return [0] * nw
        if x < 0.72:
            return [1] * nw
        return [self.r.randint(0, 1) for _ in range(nw)]

    def nums(self, nw, *a):
        return [self.num(*a) for _ in range(nw)]

    def cnums(self, nw, *a):
        return [self.cnum(*a) for _ in range(nw)]

    def snums(self, nw):
        return [model.num2m('D', f32(model.num2c('D', x))) for x in self.cnums(nw)]

    def errs(self, nw):
        if self.p(0.55):
            return [self.pick([4, 8, 16, 32]) for _ in range(nw)]
        return [self.err() for _ in range(nw)]

    def stas(self, arr, n):
        ids = [e['idx'] for e in arr['e']] if arr else [1, 2, 3]
        return [self.pick(ids) for _ in range(n)]

    def table(self, kind, tids, arr, ins, cor, nw, v=2, nrec=None, maxrec=4):
        nrec = nrec or self.r.randint(1, maxrec)
        t = dict(rev=v, date=self.date(), arr=arr['name'] if arr else '', ins=ins, cor=cor)
        ci = lambda: self.r.randint(1, 50) if cor else 0
        if kind == 'vis':
            t.update(amptyp='', phityp='', amporder=-1, phiorder=-1, useref=0, usecpx=0, cunit='', aunit='')
            if v == 2:
                t.update(amptyp=self.pick(['', 'absolute', 'differential', 'correlated flux']),
                         phityp=self.pick(['', 'absolute', 'differential']),
                         amporder=self.pick([-1, 0, 1, 3]), phiorder=self.pick([-1, 0, 2]),
                         useref=self.r.randint(0, 1), usecpx=self.r.randint(0, 1), cunit='', aunit='')
                if t['usecpx']:
                    t['cunit'] = self.pick(['Jy', 'adu', 'W m-2'])
                if t['amptyp'] == 'correlated flux':
                    t['aunit'] = self.pick(['Jy', 'ct', 'adu/s'])
        if kind == 'flux':
            t['rev'] = 1
            t.update(fov=NAN, fovtype='', cal=self.pick('CU'), funit=self.pick(['Jy', 'ct', 'erg/s']))
            if self.p(0.4):
                t.update(fov=self.num(0, 640, 0), fovtype=self.pick(['FWHM', 'RADIUS']))
        t['nw'] = nw
        recs = []
        for _ in range(nrec):
            r = dict(tid=self.pick(tids))
            if kind != 'flux':
                r['time'] = self.pick([0, 0, 64, 640, 86400 * 64 - 1]) if v == 1 or self.p(0.15) else 0
            r.update(mjd=self.mjd(), it=self.cnum(0, 6400))
            r.update(a=self.nums(nw), ae=self.errs(nw), ca=ci())
            if kind in ('vis', 't3'):
                r.update(p=self.cnums(nw, -180 * 64, 180 * 64), pe=self.errs(nw), cp=ci())
                if self.p(0.06):        # the signal-to-noise ratio of a phase nearly meets a limit
                    r['pe'] = [self.pick([772, 386, 193, 611, 1222]) for _ in range(nw)]
            if kind == 'vis':
                r['ref'] = [self.r.randint(0, 1) for _ in range(nw * nw)] if t['useref'] else []
                if t['usecpx']:
                    r.update(rv=self.cnums(nw), rve=self.errs(nw), crv=ci(), iv=self.cnums(nw), ive=self.errs(nw), civ=ci())
                else:
                    r.update(rv=[], rve=[], crv=0, iv=[], ive=[], civ=0)
            if kind in ('vis', 'vis2'):
                r['u'], r['v'] = self.uv()
                r['s'] = self.stas(arr, 2)
            if kind == 't3':
                r['u'], r['v'] = self.uv()
                r['u2'], r['v2'] = self.uv()
                if self.p(0.3) and all(abs(x) < 10 ** 6 for x in (r['u'], r['v'])):     # one short side
                    du, dv = self.pick(PYTH[:6] + [(0, 0), (3, 4), (6, 8), (1, 2)])
                    x = self.r.random()
                    if x < 0.6:
                        r['u2'], r['v2'] = du - r['u'], dv - r['v']
                    elif x < 0.8:
                        r['u2'], r['v2'] = du, dv
                    else:
                        r['u'], r['v'] = du, dv
                r['s'] = self.stas(arr, 3)
            if kind == 'flux':
                r['sta'] = self.stas(arr, 1)[0] if arr else -1
            r['f'] = self.flags(nw)
            recs.append(r)
        t['r'] = recs
        return t

    def inspol(self, tids, arr, waves, nw):
        names = [w['name'] for w in waves if len(w['w']) == nw]
        recs = []
        for _ in range(self.r.randint(1, self.pick([4, 4, 4, 9]))):
            m = self.mjd()
            recs.append(dict(tid=self.pick(tids), ins=self.pick(names), mjd=m,
                             mjdend=m + self.pick([0, 1, 2, 255, 256, 512, 9 * 256, 7 * 256]) if m != NAN else m,
                             jxx=self.snums(2 * nw), jyy=self.snums(2 * nw), jxy=self.snums(2 * nw), jyx=self.snums(2 * nw),
                             sta=self.stas(arr, 1)[0]))
        return dict(rev=1, date=self.date(), npol=self.r.randint(1, 4), arr=arr['name'], orient=self.pick(['NORTH', 'LABORATORY']),
                    model=self.text(60, 0.2), nw=nw, r=recs)

    # ---- datasets ----
    def dataset(self, v=None, maxtab=3, maxrec=3, maxnw=5, ntarg=None, narr=None, nwav=None, ncor=None, kinds=DATA,
                namelen=64, pol=True, arrname=0.85):
        v = v or (1 if self.p(0.25) else 2)
        if self.p(0.2):
            self.epoch = self.pick([200000, 200000, 240000, 245000, 300000, 100000, 188000])
        if self.p(self.bulk):
            x = self.r.randint(1, 5)
            maxtab, maxrec, maxnw = [(12, 2, 3), (1, 40, 3), (1, 2, 40), (1, 8, 3), (2, 2, 3)][x - 1]
            ntarg = 30 if x == 4 and not ntarg else ntarg
            if x == 5:
                narr, nwav, ncor = narr or 11, nwav or 12, (0 if v == 1 else ncor or 10)
        tg = self.targets(ntarg or self.pick([1, 1, 2, 3, 4]), v)
        tids = [t['id'] for t in tg['t']]
        na = narr if narr is not None else self.pick([1, 1, 2, 3] if v == 2 else [0, 1, 1, 2])
        nwv = nwav or self.pick([1, 1, 2, 3])
        nc = ncor if ncor is not None else (self.pick([0, 0, 1, 2, 3]) if v == 2 else 0)
        arrs = [self.array(s, v) for s in self.names('arr', na, namelen)]
        wnw = self.r.randint(1, maxnw) if self.p(0.3) else None      # setups of equal size
        wavs = [self.wave(s, v, nw=wnw, maxnw=maxnw) for s in self.names('wav', nwv, namelen)]
        cors = [self.corr(s) for s in self.names('cor', nc, namelen)]
        d = dict(hdr=self.header(v), tg=tg, arr=arrs, wav=wavs, cor=cors, pol=[], vis=[], vis2=[], t3=[], flux=[])
        kinds = [k for k in kinds if v == 2 or k != 'flux']
        for k in kinds:
            for _ in range(self.r.randint(0, maxtab)):
                w = self.pick(wavs)
                a = self.pick(arrs) if arrs and self.p(arrname) else None
                c = self.pick(cors)['name'] if cors and self.p(0.5) else ''
                d[k].append(self.table(k, tids, a, w['name'], c, len(w['w']), v, maxrec=maxrec))
        if not any(d[k] for k in kinds):
            w = self.pick(wavs)
            k = self.pick(kinds)
            d[k].append(self.table(k, tids, self.pick(arrs) if arrs else None, w['name'], '', len(w['w']), v, maxrec=maxrec))
        if v == 2 and arrs and pol and self.p(0.5):
            for _ in range(self.r.randint(1, 2)):
                d['pol'].append(self.inspol(tids, self.pick(arrs), wavs, len(self.pick(wavs)['w'])))
        d['n'] = [len(d[k]) for k in model.KINDS]
        return d

    def related(self, d, **kw):
        """another dataset sharing some tables/targets with d, exactly or nearly"""
        e = self.dataset(**kw)
        v = e['tg']['rev']
        ren_a, ren_w = {}, {}
        for i, a in enumerate(e['arr']):
            if d['arr'] and self.p(0.6):
                b = copy.deepcopy(self.pick(d['arr']))
                b['rev'] = v
                mode = self.r.random()
                if mode < 0.2:
                    b['e'] = b['e'][:max(1, len(b['e']) - 1)]
                elif mode < 0.35 and b['e']:
                    x = self.pick(b['e'])
                    x['dia'] += self.pick([8, 9, -8, -9, 20])
                elif mode < 0.45:
                    x = self.pick(b['e'])
                    x[self.pick(['sx', 'sy', 'sz'])] = self.pick([NAN, 5])
                elif mode < 0.5:
                    b[self.pick('xyz')] += 1
                elif mode < 0.55:
                    x, q = (b, self.pick('xyz')) if self.p(0.4) else (self.pick(b['e']), self.pick(['sx', 'sy', 'sz', 'fov']))
                    y = model.num2c('D', x[q])
                    if abs(y) < 1e5:
                        x[q] = model.num2m('D', y + self.pick([1e-3, 1e-6, -1e-8, 1e-9, -1e-4]))
                elif mode < 0.6:
                    x = self.pick(b['e'])
                    if self.p(0.5):
                        x['fov'] = self.num(0, 640)
                    else:
                        x['fovtype'] = self.pick(['FWHM', 'RADIUS'])
                elif mode < 0.7:
                    b['e'].append(dict(b['e'][0], idx=77))
                elif mode < 0.8:
                    self.r.shuffle(b['e'])
                if v == 1:
                    for x in b['e']:
                        x['fov'], x['fovtype'] = NAN, 'FWHM'
                if self.p(0.5):
                    b['name'] = a['name'] if self.p(0.5) else self.name('arr')
                ren_a[a['name']] = b
        for i, w in enumerate(e['wav']):
            if self.p(0.6):
                b = copy.deepcopy(self.pick(d['wav']))
                b['rev'] = v
                mode = self.r.random()
                if mode < 0.3:
                    k = self.r.randrange(len(b['w']))
                    b[self.pick('wb')][k] += self.pick([2, 3, -2, -3, 1, -1])
                elif mode < 0.4 and len(b['w']) > 1:
                    b['w'].pop(), b['b'].pop()
                if self.p(0.5):
                    b['name'] = w['name'] if self.p(0.5) else self.name('wav')
                ren_w[w['name']] = b
        # rebuild e on the replaced tables, keeping names unique
        used = set()
        arrs = []
        for a in e['arr']:
            b = ren_a.get(a['name'], a)
            while b['name'] in used:
                b['name'] = self.name('arr')
            used.add(b['name'])
            arrs.append(b)
        used = set()
        wavs = []
        for w in e['wav']:
            b = ren_w.get(w['name'], w)
            while b['name'] in used:
                b['name'] = self.name('wav')
            used.add(b['name'])
            wavs.append(b)
        if self.p(0.6) and d['cor'] and e['cor']:
            c = e['cor'][0]
            nm = self.pick(d['cor'])['name']
            if nm not in [x['name'] for x in e['cor']]:
                c['name'] = nm
        if self.p(0.7):
            for t in e['tg']['t']:
                if self.p(0.5):
                    nm = self.pick(d['tg']['t'] + [t for t in d['tg']['t'] if t['name'] == ''] * 4)['name']
                    if nm and self.p(0.15):
                        nm = self.near(nm)[:32].strip() or nm
                    if nm not in [x['name'] for x in e['tg']['t']]:
                        t['name'] = nm
        out = dict(hdr=e['hdr'], tg=e['tg'], arr=arrs, wav=wavs, cor=e['cor'], pol=[], vis=[], vis2=[], t3=[], flux=[])
        if self.p(0.5):
            for k in out['hdr']:
                if k not in ('content', 'date') and self.p(0.7):
                    out['hdr'][k] = d['hdr'][k]
                    if k != 'date_obs' and self.p(0.15):
                        out['hdr'][k] = self.near(d['hdr'][k])
        tids = [t['id'] for t in e['tg']['t']]
        for k in DATA:
            for t in e[k]:
                w = self.pick(wavs)
                a = self.pick(arrs) if arrs and t['arr'] else None
                c = self.pick(e['cor'])['name'] if t['cor'] else ''
                out[k].append(self.table(k, tids, a, w['name'], c, len(w['w']), v, nrec=len(t['r'])))
        for t in e['pol']:
            out['pol'].append(self.inspol(tids, self.pick(arrs), wavs, len(self.pick(wavs)['w'])))
        out['n'] = [len(out[k]) for k in model.KINDS]
        return out

    # ---- filters ----
    def pattern(self, names):
        x = self.r.random()
        if x < 0.55 or not names:
            return '*'
        s = self.pick(names)
        if x < 0.7:
            return s
        if x < 0.8:
            return s[:self.r.randint(0, len(s))] + '*'
        if x < 0.86:
            return '*' + s[self.r.randint(0, len(s)):]
        if x < 0.93 and s:
            k = self.r.randrange(len(s))
            return s[:k] + '?' + s[k + 1:]
        if x < 0.97:
            return '*' + s[len(s) // 3:2 * len(s) // 3] + '*'
        return self.pick(['', '?', 'nomatch', '??*', '*_00?'])

    def sides(self, k, r):
        b = [(r['u'], r['v'])]
        if k == 't3':
            b += [(r['u2'], r['v2']), (r['u'] + r['u2'], r['v'] + r['v2'])]
        return b

    def focus(self, d, f):
        """let one criterion of the filter just reject one record, possibly by one side of a triangle"""
        recs = [(k, t, r) for k in ('vis', 'vis2', 't3', 't3') for t in d[k] for r in t['r']]
        recs = [(k, t, r) for k, t, r in recs if all(abs(x) < 10 ** 4 for b in self.sides(k, r) for x in b)]
        if not recs:
            return
        k, t, r = self.pick(recs)
        s = sorted(self.sides(k, r), key=lambda b: math.hypot(*b))
        e = self.r.randint(0, 1)
        b = s[-e]
        if self.p(0.6):
            l = self.uvlimit(d, [(b[0], b[1], t['ins'])], [3, 7, 20] if e == 0 else [-3, -7])
            if l:
                f['uv'][e] = l
        else:
            n = math.hypot(*b)
            n = math.floor(n) + 1 if e == 0 else math.ceil(n) - 1
            if n > 0:
                f['bas'][e] = n
        if self.p(0.6):
            f['flagged'] = 0

    def uvlimit(self, d, near=None, off=(-3, 3, 7, 20, -20, 101)):
        """a uv-radius limit that no datum of d meets exactly or nearly"""
        bases = set()
        for k in ('vis', 'vis2'):
            for t in d[k]:
                for r in t['r']:
                    bases.add((r['u'], r['v'], t['ins']))
        for t in d['t3']:
            for r in t['r']:
                bases |= {(r['u'], r['v'], t['ins']), (r['u2'], r['v2'], t['ins'])}
                if NAN not in (r['u'], r['v'], r['u2'], r['v2']):
                    bases.add((r['u'] + r['u2'], r['v'] + r['v2'], t['ins']))
        bases = [b for b in bases if NAN not in b]
        wv = {}
        for w in d['wav']:
            wv.setdefault(w['name'], []).extend(x for x in w['w'] if x != NAN)
        for _ in range(30):
            if not bases:
                break
            u, v, ins = self.pick(near or bases)
            if not wv.get(ins):
                continue
            w0 = self.pick(wv[ins])
            b = int(10 * math.hypot(u, v)) + self.pick(off)
            if b <= 0:
                continue
            ok = True
            for (u, v, ins) in bases:
                q = 100 * (u * u + v * v)
                fl, ex = math.isqrt(q), math.sqrt(q)
                for w in wv.get(ins, []):
                    x = b * w
                    if fl * w0 >= 2 ** 31 or x >= 2 ** 31 or 100 * (u * u + v * v) >= 2 ** 31:
                        ok = False
                    lo, hi = min(fl, ex) * w0, max(fl, ex) * w0
                    if (lo <= x <= hi) or abs(lo - x) < 1e-5 * x or abs(hi - x) < 1e-5 * x:
                        ok = False
            if ok:
                return {'b': b, 'w': w0}
        return None

    def uvexact(self, d):
        """a uv-radius limit that some datum of d meets exactly, and no other nearly"""
        pairs = set()
        wv = {}
        for w in d['wav']:
            wv.setdefault(w['name'], []).extend(x for x in w['w'] if x != NAN)
        for k in ('vis', 'vis2', 't3'):
            for t in d[k]:
                for r in t['r']:
                    b = [(r['u'], r['v'])]
                    if k == 't3':
                        b.append((r['u2'], r['v2']))
                        if NAN not in (r['u'], r['v'], r['u2'], r['v2']):
                            b.append((r['u'] + r['u2'], r['v'] + r['v2']))
                    pairs |= {(u * u + v * v, w) for u, v in b if NAN not in (u, v) for w in wv.get(t['ins'], [])}
        cand = [(math.isqrt(q), w) for q, w in sorted(pairs) if q > 0 and math.isqrt(q) ** 2 == q and w > 0]
        self.r.shuffle(cand)
        for b, w0 in cand[:10]:
            ok = True
            for q, w in pairs:
                if 10 * b * w >= 2 ** 31 or 100 * q >= 2 ** 31 or 10 * math.isqrt(q) * w0 + 10 * w0 >= 2 ** 31:
                    ok = False
                    break
                if (q, w) == (b * b, w0):
                    continue
                lo, hi, x = math.isqrt(100 * q) * w0, 10 * math.sqrt(q) * w0, 10 * b * w
                if lo <= x <= hi or abs(lo - x) < 1e-5 * x or abs(hi - x) < 1e-5 * x:
                    ok = False
                    break
            if ok:
                return {'b': 10 * b, 'w': w0}
        return None

    def filter(self, d, heavy=False):
        f = copy.deepcopy(model.FDEF)
        q = 0.5 if heavy else 0.25
        if self.p(q):
            f['arr'] = self.pattern([a['name'] for a in d['arr']])
        if self.p(q):
            f['ins'] = self.pattern([a['name'] for a in d['wav']])
        if self.p(q):
            f['cor'] = self.pattern([a['name'] for a in d['cor']] + [''])
        if self.p(q):
            ids = [t['id'] for t in d['tg']['t']]
            f['tid'] = 0 if 0 in ids and self.p(0.4) else self.pick(ids) if self.p(0.85) else self.r.randint(0, 9)
        recs = [r for k in DATA for t in d[k] for r in t['r']]
        mj = [r['mjd'] for r in recs if r['mjd'] != NAN]
        if self.p(q) and mj:
            a, b = self.pick(mj), self.pick(mj)
            f['mjd'] = [min(a, b) + self.pick([0, 0, 1, -1, 256]), max(a, b) + self.pick([0, 0, -1, 1, -256])]
            if self.p(0.5):
                f['mjd'][self.r.randint(0, 1)] = f['mjd'][0]
        wv = [x for w in d['wav'] for x in w['w'] if x != NAN]
        if self.p(q) and wv:
            a, b = self.pick(wv), self.pick(wv)
            f['wave'] = [min(a, b) + self.pick([0, 0, 1, -1]), max(a, b) + self.pick([0, 0, -1, 1])]
            if self.p(0.4):
                f['wave'][self.r.randint(0, 1)] = self.pick([0, 2500000])
        if self.p(q):
            bs = [5, 10, 13, 17, 29, 41, 37, 53, 65, 73, 100, 97, 50, 85, 150]
            a, b = self.pick(bs), self.pick(bs)
            f['bas'] = [min(a, b), max(a, b)]
            if self.p(0.3):
                f['bas'][0] = 0
            if self.p(0.3):
                f['bas'][1] = 10000
        if self.p(q):
            k = self.r.randint(0, 1)
            l = self.uvexact(d) if self.p(0.4) else self.uvlimit(d)
            if l:
                f['uv'][k] = l
        if self.p(q):
            f['snr'] = [self.pick([-20, 0, 4, 8, 20, 40, -40, 1, 19, 76, 24]), self.pick([LIMINF, LIMINF, 40, 80, 400, 8, 38, 76, 12])]
        for k in ('vis', 'vis2', 't3amp', 't3phi', 'flux'):
            if self.p(0.08 if not heavy else 0.15):
                f[k] = 0
        if self.p(0.35):
            f['flagged'] = 0
        if self.p(0.12):
            g = copy.deepcopy(model.FDEF)
            self.focus(d, g)
            if self.p(0.5):
                return g
            for k in ('uv', 'bas', 'flagged'):
                f[k] = g[k] if g[k] != model.FDEF[k] else f[k]
            if f['bas'][0] > f['bas'][1]:
                f['bas'] = g['bas']
        return f


# ---- scenarios -------------------------------------------------------------
class Sc:
    def __init__(self):
        self.ops = []
        self.files = {}      # foreign files: name -> bytes
        self.hints = []      # uv limits used

    def op(self, *tokens, **meta):
        tk = []
        for t in tokens:
            if isinstance(t, (list, tuple)):
                tk += [str(x) for x in t]
            else:
                tk.append(str(t))
        self.ops.append((tk, meta))
        return self

    def build(self, slot, d):
        return self.op('build', slot, ds2c(d))

    def flt(self, f):
        if isinstance(f, dict):
            self.hints += [l for l in f['uv']]
        return flt2c(f)

    def putfile(self, name, data, mutate=None):
        self.files[name] = data
        return self.op('putfile', name)     # handled by the driver, not the harness


def dumps(*slots):
    return ','.join(str(s) for s in slots) if slots else '-'


def lookups(g, d, extra=()):
    q = []
    for kind, key in (('arr', 'arr'), ('wav', 'wav'), ('cor', 'cor')):
        for t in d[key]:
            q.append((kind, t['name'], 0))
        for x in extra:
            for t in x[key]:
                if g.p(0.5):
                    q.append((kind, t['name'], 0))
        q.append((kind, g.name(key), 0))
        q.append((kind, '', 0))
    ids = {t['id'] for t in d['tg']['t']}
    for i in list(ids)[:12] + [0, 1, 2, 9999, -1, len(ids), len(ids) + 1]:
        q.append(('tid', '', i))
    for nm in [t['name'] for t in d['tg']['t']][:12] + ['nobody', '', 'HD 1']:
        q.append(('tname', nm, 0))
    for a in d['arr']:
        for e in a['e'][:8]:
            q.append(('elem', a['name'], e['idx']))
        q.append(('elem', a['name'], 9998))
        q.append(('elem', a['name'], 1))
    q.append(('elem', 'nowhere', 1))
    g.r.shuffle(q)
    tk = []
    for k, nm, i in q:
        tk += [k, enc(nm), str(i)]
    return [str(len(q))] + tk


def hush(g, s):
    """messages on or off"""
    if g.p(0.4):
        s.op('hush', 0)


def fresh(g, s, k, d, *others):
    """a dataset just initialised, before anything is put in it"""
    if not g.p(0.25):
        return
    s.op('init', k)
    for op in g.r.sample(['query', 'summary', 'lookup', 'check'], g.pick([1, 2])):
        s.op(op, k, {'query': ['1', '3'], 'summary': [], 'lookup': lookups(g, d), 'check': dumps(k)}[op])
    if g.p(0.5):
        s.op('free', k, dumps(*others))


def sc_merge(g, big=False):
    s = Sc()
    g.odd = 0.02
    g.noname = g.pick([0, 0, 0.1])
    n = g.pick([2, 2, 2, 3, 3, 4, 5])
    kw = dict(maxtab=2, maxrec=3, maxnw=4)
    ds = [g.dataset(**kw)]
    for _ in range(n - 1):
        ds.append(g.related(g.pick(ds), **kw) if g.p(0.75) else (copy.deepcopy(g.pick(ds)) if g.p(0.3) else g.dataset(**kw)))
    if big:
        ds[0]['tg'] = g.targets(g.pick([40, 99, 100, 120]), ds[0]['tg']['rev'])
        k = ds[0]['tg']['t']
        for kk in ('pol',) + DATA:
            for t in ds[0][kk]:
                for r in t['r']:
                    r['tid'] = g.pick(k)['id']
    for i, d in enumerate(ds):
        s.build(i, d)
    ins = list(range(n))
    if g.p(0.2):
        g.r.shuffle(ins)
    op = 'mergev' if n <= 4 and g.p(0.3) else 'merge'
    s.op(op, 10, n, ins, dumps(*range(n)))
    s.op('lookup', 10, lookups(g, ds[0], ds[1:]))
    if g.p(0.4):
        k = g.r.randrange(n)
        s.op(g.pick(['free', 'scribble']), k, dumps(10, *[j for j in range(n) if j != k]))
        ins = [j for j in ins if j != k]
    if g.p(0.3):
        s.op('check', 10, dumps(10))
        s.op('query', 10, 2, '0.25', '1000')
    if g.p(0.35) and len(ins) >= 1:      # merge the result with something again
        d = g.related(g.pick(ds), **kw)
        s.build(11, d)
        order = [10, 11] if g.p(0.5) else [11, 10]
        s.op('merge', 12, 2, order, dumps(10, 11))
        s.op('lookup', 12, lookups(g, d, ds))
        if g.p(0.5):
            s.op('free', 10, dumps(12, 11))
            s.op('dump', 12)
    elif g.p(0.2):
        # merge with a filtered input
        f = g.filter(ds[ins[0]])
        s.op('filter', 11, ins[0], s.flt(f), '-')
        s.op('merge', 12, 2, [10, 11], dumps(10, 11))
    return s


def sc_filter(g, heavy=None):
    s = Sc()
    d = g.dataset(maxtab=g.pick([1, 2, 3]), maxrec=4, maxnw=g.pick([1, 4, 6]))
    s.build(0, d)
    heavy = g.p(0.4) if heavy is None else heavy
    f = 'def' if g.p(0.12) else g.filter(d, heavy)
    s.op('filter', 1, 0, s.flt(f), dumps(0))
    f2 = f if f == 'def' else dict(f, tid=1 if f['tid'] >= 0 else -1)
    s.op('filter', 2, 1, s.flt(f2), dumps(1), again=1)
    s.op('lookup', 1, lookups(g, d))
    if g.p(0.3):
        s.op(g.pick(['free', 'scribble']), 0, dumps(1, 2))
    if g.p(0.2):
        s.op('check', 1, dumps(1))
    if g.p(0.5):
        f3 = 'def' if g.p(0.2) else g.filter(d, heavy)
        s.op('filter', 3, 1, s.flt(f3), dumps(1))
        s.op('lookup', 3, lookups(g, d))
    return s


def ordinary(g, d):
    """make every datum pass the default filter"""
    for w in d['wav']:
        pass
    for k in DATA:
        for t in d[k]:
            for r in t['r']:
                n = t['nw']
                r['ae'] = [g.pick([1, 4, 16, 64]) for _ in range(n)]
                r['a'] = [g.pick([NAN, g.r.randint(-5 * e, 640)]) if g.p(0.2) else g.r.randint(-5 * e, 640) for e in r['ae']]
                if g.p(0.1):        # very precise
                    c = g.r.randrange(n)
                    r['a'][c], r['ae'][c] = g.r.randint(10 ** 4, 10 ** 8), 1
                if 'pe' in r:
                    r['pe'] = [g.pick([1, 4, 16, 640, 64 * 180, NAN]) for _ in range(n)]
                if 'u' in r and g.p(0.1):        # very long baselines
                    lim = 3500 if 'u2' in r else 7000
                    for x in ('u', 'v', 'u2', 'v2'):
                        if x in r:
                            r[x] = g.r.randint(-lim, lim)
    return d


def sc_default(g):
    s = Sc()
    d = ordinary(g, g.dataset(maxtab=3, maxrec=4, maxnw=g.pick([1, 3, 8])))
    s.build(0, d)
    s.op('filter', 1, 0, s.flt('def'), dumps(0))
    s.op('filter', 2, 1, s.flt('def'), dumps(1), again=1)
    s.op('query', 1, 0)
    if g.p(0.5):
        f = g.filter(d)
        s.op('filter', 3, 1, s.flt(f), dumps(1))
        s.op('filter', 4, 3, s.flt(dict(f, tid=1 if f['tid'] >= 0 else -1)), dumps(3), again=1)
        s.op('filter', 5, 3, s.flt('def'), dumps(3))
    s.op('filter', 6, 0, s.flt('def'), dumps(0, 1, 2))
    return s


def ndata(d, kind):
    k = ('', 'vis', 'vis2', 't3')[kind]
    return sum(len(t['r']) * t['nw'] for t in d[k])


def sc_iter(g):
    s = Sc()
    nd = g.pick([1, 1, 2])
    ds = [g.dataset(maxtab=3, maxrec=3, maxnw=g.pick([1, 3, 5]), kinds=('vis', 'vis2', 't3', 'flux')) for _ in range(nd)]
    for i, d in enumerate(ds):
        s.build(i, d)
    live, was = [], {}
    for it in range(g.pick([1, 2, 3, 5])):
        k = g.r.randrange(nd)
        kind = g.r.randint(1, 3)
        x = g.r.random()
        f = 'null' if x < 0.15 else 'def' if x < 0.25 else g.filter(ds[k], g.p(0.3))
        s.op('iterinit', it, kind, k, s.flt(f))
        live.append((it, ndata(ds[k], kind) + 2))
        was[it] = k, kind
    left = dict(live)
    while left:
        it = g.pick(list(left))
        n = min(left[it], g.pick([1, 2, 3, 7, 100]))
        s.op('iternext', it, n, 1 if g.p(0.1) else 0)
        left[it] -= n
        if left[it] <= 0:
            del left[it]
        elif g.p(0.08):      # restart
            if g.p(0.5):
                k, kind = was[it]
            else:
                k, kind = g.r.randrange(nd), g.r.randint(1, 3)
            was[it] = k, kind
            s.op('iterinit', it, kind, k, s.flt(g.pick(['null', 'def']) if g.p(0.3) else g.filter(ds[k])))
            left[it] = ndata(ds[k], kind) + 2
    for i in range(nd):
        s.op('dump', i)
    return s


def sc_iterfilter(g):
    """iterating unflagged data = iterating / counting the filtered dataset"""
    s = Sc()
    d = g.dataset(maxtab=3, maxrec=3, maxnw=g.pick([1, 3, 5]))
    s.build(0, d)
    f = g.filter(d)
    f['flagged'] = 0
    f['tid'] = -1
    s.op('filter', 1, 0, s.flt(f), dumps(0))
    s.op('query', 1, 0)
    s.op('query', 0, 0)
    for kind in (1, 2, 3):
        n = ndata(d, kind) + 1
        s.op('iterinit', kind, kind, 0, s.flt(f))
        s.op('iternext', kind, n, 0)
        s.op('iterinit', kind + 3, kind, 1, s.flt(dict(copy.deepcopy(model.FDEF), flagged=0)))
        s.op('iternext', kind + 3, n, 0)
    return s


def spoil(g, d):
    """introduce breaches of the standard"""
    n = g.pick([1, 1, 2, 4])
    for _ in range(n):
        k = g.r.randint(0, 18)
        tabs = [t for kk in DATA for t in d[kk]]
        t = g.pick(tabs) if tabs else None
        if k == 0:
            kk = g.pick(['arr', 'wav', 'cor', 'pol'] + list(DATA))
            for x in d[kk]:
                if g.p(0.5):
                    x['rev'] = g.pick([0, 1, 2, 3])
        elif k == 1:
            for x in d['hdr']:
                if x != 'content' and g.p(0.4):
                    d['hdr'][x] = ''
        elif k == 2:
            for a in d['arr']:
                a['frame'] = g.pick(['', 'SKY', 'GEOCENTRIC', 'geocentric', 'SKY2', 'OTHER'])
        elif k == 3:
            for x in d['vis']:
                x['amptyp'] = g.pick(['', 'absolute', 'differential', 'correlated flux', 'abs', 'Absolute', 'diff', 'differentialX', 'correlated flu', 'correlated fluxes'])
                x['phityp'] = g.pick(['', 'absolute', 'differential', 'correlated flux', 'diff'])
        elif k == 4:
            for x in d['flux']:
                x['cal'] = g.pick('CUXc')
                x['fovtype'] = g.pick(['', 'FWHM', 'RADIUS', 'fwhm', 'R'])
        elif k == 5 and t:
            for r in t['r']:
                if g.p(0.6):
                    r['tid'] = g.pick([888, 0, 1, 2])
        elif k == 6 and t:
            t['arr'] = ''
        elif k == 7 and t:
            t['arr'] = g.pick(['ZZZ', 'VLTI', 'A'])
        elif k == 8 and t:
            for r in t['r']:
                if 's' in r:
                    for j in range(len(r['s'])):
                        if g.p(0.5):
                            r['s'][j] = g.pick([555, 1, 0, 2, -1, -2])
                else:
                    r['sta'] = g.pick([555, -1, 1, 2, -2, 0])
        elif k == 9 and t:
            t['cor'] = g.pick(['ZZZ', '', 'C1', 'CORR'])
        elif k == 10 and t:
            for r in t['r']:
                for nm in ('ae', 'pe'):
                    if nm in r:
                        for c in range(len(r[nm])):
                            if g.p(0.4):
                                r[nm][c] = g.pick([-1, -64, 0, NAN])
        elif k == 11:
            for x in d['t3']:
                for r in x['r']:
                    for c in range(x['nw']):
                        if g.p(0.5):
                            e = g.pick([1, 16, 64])
                            r['ae'][c] = e
                            r['a'][c] = 64 + e + g.pick([0, 1, -1, 100])
        elif k == 12:
            for w in d['wav']:
                if g.p(0.5):
                    g.r.shuffle(w['w'])
        elif k == 13 and t:
            for r in t['r']:
                if 'time' in r and g.p(0.5):
                    r['time'] = g.pick([0, 1, -64, NAN])
        elif k == 14:
            d['tg']['rev'] = g.pick([1, 2, 3])
            for x in d['tg']['t']:
                if g.p(0.4):
                    x['name'] = g.pick(d['tg']['t'])['name']
        elif k == 15:
            d[g.pick(['arr', 'wav'])] = []
        elif k == 16:
            d['pol'] and g.pick(d['pol']).update(arr=g.pick(['', 'ZZZ', 'VLTI']))
            for p in d['pol']:
                for r in p['r']:
                    if g.p(0.5):
                        r['sta'] = g.pick([555, 1, 0, -1])
        elif k == 17:
            for kk in DATA:
                if g.p(0.7):
                    d[kk] = []
        elif k == 18:
            d['hdr']['content'] = g.pick(['', 'OIFITS1', 'OIFITS2', 'OIFITS22', 'oifits2', 'OIFITS'])
            if g.p(0.6):
                for kk in ('vis', 'vis2', 't3'):
                    if g.p(0.6):
                        d[kk] = []
    d['n'] = [len(d[k]) for k in model.KINDS]
    return d


def sc_check(g, many=None):
    s = Sc()
    many = g.p(0.25) if many is None else many
    if many:
        d = g.dataset(maxtab=12, maxrec=6, maxnw=4, narr=g.pick([1, 4, 12]), namelen=40)
    else:
        d = g.dataset(maxtab=2, maxrec=3, maxnw=4, namelen=40)
    for nm in ('arr', 'wav', 'cor'):
        pass
    if g.p(0.85):
        spoil(g, d)
    s.build(0, d)
    s.op('check', 0, dumps(0))
    if g.p(0.3):
        s.op('check', 0, dumps(0))
    return s


def sc_clean(g):
    """a dataset without breaches: all fourteen checks must be quiet"""
    s = Sc()
    d = g.dataset(v=2, maxtab=2, maxrec=3, maxnw=4, narr=g.pick([1, 2]), namelen=40, arrname=1.0)
    for k in ('origin', 'date', 'date_obs', 'telescop', 'instrume', 'observer', 'insmode', 'object'):
        d['hdr'][k] = d['hdr'][k] or 'x'
    for a in d['arr']:
        a['frame'] = 'GEOCENTRIC'
    for w in d['wav']:
        w['w'].sort()
    for t in d['vis']:
        t['useref'] = 1 if 'differential' in (t['amptyp'], t['phityp']) else 0
        for r in t['r']:
            r['ref'] = [0] * (t['nw'] ** 2) if t['useref'] else []
    for t in d['flux']:
        t['cal'] = 'U'
        t['fov'], t['fovtype'] = NAN, ''
    for k in DATA:
        for t in d[k]:
            for r in t['r']:
                if 'time' in r:
                    r['time'] = 0
                for nm in ('ae', 'pe'):
                    if nm in r:
                        r[nm] = [abs(x) for x in r[nm]]
                if k == 't3':
                    r['a'] = [min(x, 64) if x != NAN else x for x in r['a']]
    s.build(0, d)
    s.op('check', 0, dumps(0))
    return s


def sc_io(g, maxnw=5):
    s = Sc()
    g.odd = g.odduv = 0.02
    hush(g, s)
    d = g.dataset(maxtab=g.pick([1, 2, 4]), maxrec=4, maxnw=maxnw)
    s.build(0, d)
    s.op('write', 0, 'a.fits', 0, dumps(0))
    s.op('read', 1, 'a.fits', 0)
    s.op('lookup', 1, lookups(g, d))
    x = g.r.random()
    if x < 0.2:
        s.op('write', 0, 'a.fits', 0, dumps(0))
        s.op('read', 2, 'a.fits', 0)
    elif x < 0.3:
        s.op('write', 0, 'b.fits', g.pick([1, 104, 107, -7]), dumps(0))
        s.op('read', 2, 'a.fits', g.pick([1, 104, 107]))
    elif x < 0.4:
        s.op('read', 2, 'absent.fits', 0)
    elif x < 0.5:
        s.op('write', 0, 'nodir/b.fits', 0, dumps(0), creatable=0)
    elif x < 0.8:
        s.op('write', 1, 'b.fits', 0, dumps(1))
        s.op('read', 2, 'b.fits', 0)
    if g.p(0.2):
        s.op('query', 1, 2, '1', '400')
    return s


def sc_disk(g):
    """writes that run out of space: success means a complete file"""
    s = Sc()
    g.odd = g.odduv = 0.02
    hush(g, s)
    d = g.dataset(maxtab=2, maxrec=3, maxnw=5)
    s.build(0, d)
    s.op('write', 0, 'full.fits', 0, dumps(0))
    s.op('limit', g.pick([0, 2880, 2880 * 2, 2880 * 4, 2880 * 6, 2880 * 9, 5000, 2880 * 12, 2880 * 20, 10000, g.r.randrange(40000)]))
    s.op('write', 0, 'b.fits', 0, dumps(0), creatable=2)
    s.op('limit', -1)
    s.op('write', 0, 'c.fits', 0, dumps(0))
    s.op('read', 1, 'c.fits', 0)
    return s


def sc_status(g):
    s = Sc()
    hush(g, s)
    d = g.dataset(maxtab=2, maxrec=2, maxnw=3)
    s.build(0, d)
    st = lambda: g.pick([1, 104, 107, 301, -1, 108, 202])
    s.op('write', 0, 'a.fits', st(), dumps(0))
    s.op('read', 1, 'a.fits', 0)
    s.op('write', 0, 'a.fits', 0, dumps(0))
    s.op('write', 0, 'a.fits', 0, dumps(0))
    s.op('write', 0, 'a.fits', st(), dumps(0), exists=1)
    s.op('read', 1, 'a.fits', st())
    s.op('read', 1, 'none.fits', 0)
    s.op('write', 0, 'no/such/dir.fits', 0, dumps(0), creatable=0)
    s.op('read', 1, 'a.fits', 0)
    s.putfile('junk.fits', bytes(g.r.randrange(256) for _ in range(g.pick([0, 100, 2880, 5760]))))
    s.op('read', 2, 'junk.fits', 0)
    s.op('write', 0, 'junk.fits', 0, dumps(0))
    s.op('fopen', 'a.fits', 1)
    for _ in range(6):
        s.op('tnext', g.pick(['hdr', 'tg', 'arr', 'wav', 'cor', 'pol', 'vis', 'vis2', 't3', 'flux']), st())
        s.op('tname', g.pick(['arr', 'wav', 'cor']), 'VLTI', st())
    s.op('fclose')
    return s


def foreign_hdus(g, d, v, suspect=False):
    """raw HDUs of d, shuffled and dressed up the way other writers would"""
    h = fitsio.encode_ds(d, v)
    prim, tabs = h[0], h[1:]
    if g.p(0.6):
        g.r.shuffle(tabs)
    for t in tabs:
        if g.p(0.3):
            g.r.shuffle(t['cols'])
        if g.p(0.15):
            for c in t['cols']:
                if g.p(0.5):
                    c['name'] = g.pick([c['name'].lower(), c['name'].capitalize()])
        if g.p(0.2):
            c = dict(name='EXTRA', ty='D', rep=2, unit='', rows=[[1.5, 2.5]] * t['nrow'])
            t['cols'].insert(g.r.randint(0, len(t['cols'])), c)
        if g.p(0.15):
            for c in t['cols']:
                nm = c['name'].upper()
                if c['ty'] == 'I' and nm != 'STAXYZ':
                    c['ty'] = 'J'
                elif c['ty'] == 'D' and nm in ('VISAMP', 'VISAMPERR', 'VISPHI', 'VIS2DATA', 'VIS2ERR', 'T3AMP', 'T3PHI',
                                               'FLUXDATA', 'UCOORD', 'VCOORD', 'INT_TIME'):
                    c['ty'] = 'E'
                elif c['ty'] == 'E' and nm in ('DIAMETER', 'EQUINOX', 'EFF_WAVE', 'EFF_BAND'):
                    c['ty'] = 'D'
        if g.p(0.15):
            for c in t['cols']:
                if c['ty'] == 'A' and c['name'].upper() in ('TEL_NAME', 'STA_NAME', 'VELTYP', 'FOVTYPE', 'TARGET', 'SPECTYP'):
                    c['rep'] = max([1] + [len(x) for x in c['rows']])
        if t['ext'] == 'OI_TARGET' and g.p(0.25):
            for c in t['cols']:     # more room than the format asks for, and text that needs it
                if c['name'].upper() in ('TARGET', 'SPECTYP') and g.p(0.7):
                    c['rep'] = g.pick([33, 34, 40, 60, 100])
                    for q in range(len(c['rows'])):
                        if g.p(0.6):
                            c['rows'][q] = (c['rows'][q] + 'abcdefghij' * 10)[:g.pick([31, 32, 33, 34, 50, 100])]
        if g.p(0.2):
            t['keys'] = [k for k in t['keys'] if k[0] != 'EXTVER']
        if g.p(0.1):
            t['keys'].append(('COMMENT1', 'hello'))
    out = list(tabs)
    if g.p(0.4):
        for _ in range(g.r.randint(1, 2)):
            x = g.r.random()
            if x < 0.25:
                n = {'kind': 'ascii', 'ext': g.pick(['OI_VIS2', 'OI_WAVELENGTH', 'OI_TARGET', 'OI_ARRAY', 'OI_VIS', 'OI_T3', 'OI_FLUX',
                                                     'OI_CORR', 'OI_INSPOL', 'NOTES', None]),
                     'keys': g.pick([[], [('OI_REVN', 2), ('INSNAME', 'G')]]), 'cols': [], 'col': g.pick(['X', 'EFF_WAVE', 'VIS2DATA'])}
            elif x < 0.5:
                n = {'kind': 'image', 'ext': g.pick([None, 'SCI', 'OI_VIS', 'OI_ARRAY', 'OI_WAVELENGTH']), 'keys': [], 'cols': []}
            elif x < 0.8:
                n = {'kind': 'bin', 'ext': g.pick([None, 'OTHER', 'OI_VISX', 'OI_T', 'OI_VIS22']), 'keys': [('INSNAME', 'G')],
                     'cols': [dict(name='X', ty='D', rep=1, unit='', rows=[[1.0]])], 'nrow': 1}
            else:
                n = {'kind': 'image', 'ext': None, 'keys': [('ARRNAME', 'VLTI'), ('INSNAME', 'G')], 'cols': []}
            out.insert(g.r.randint(0, len(out)), n)
    out = [prim] + out
    if v == 2 and g.p(0.3 if suspect else 0.12):
        for t in tabs:            # a later revision of the standard
            if g.p(0.4):
                t['keys'] = [(k, g.pick([3, 2, 7]) if k == 'OI_REVN' else x) for k, x in t['keys']]
    if g.p(0.85 if suspect else 0.35):
        bad = g.p(0.8 if suspect else 0.6)
        for t in out:
            if g.p(0.85):
                t['sums'] = g.pick(['datasum', 'checksum', 'pad', 'head']) if bad and g.p(0.3) else 'ok'
    return out


OPT_DAMAGE = {'OI_TARGET': ['TARGET_ID', 'TARGET', 'SYSVEL', 'SPECTYP', 'PARA_ERR', 'CATEGORY', 'VELDEF', 'OI_REVN'],
              'OI_ARRAY': ['STA_INDEX', 'STAXYZ', 'ARRNAME', 'ARRAYY', 'FRAME', 'FOV', 'FOVTYPE', 'OI_REVN', 'TEL_NAME', 'DIAMETER'],
              'OI_WAVELENGTH': ['EFF_WAVE', 'EFF_BAND', 'INSNAME', 'OI_REVN'],
              'OI_CORR': ['IINDX', 'CORR', 'NDATA', 'CORRNAME', 'OI_REVN', 'JINDX'],
              'OI_INSPOL': ['JXX', 'JYX', 'INSNAME', 'NPOL', 'ARRNAME', 'STA_INDEX', 'MJD_END', 'TARGET_ID', 'OI_REVN', 'MODEL'],
              'OI_VIS': ['VISAMP', 'VISAMPERR', 'VISPHI', 'VISPHIERR', 'FLAG', 'STA_INDEX', 'INSNAME', 'ARRNAME', 'DATE-OBS',
                         'CORRNAME', 'CORRINDX_VISAMP', 'CORRINDX_VISPHI', 'CORRINDX_RVIS', 'CORRINDX_IVIS', 'RVIS', 'RVISERR',
                         'IVIS', 'IVISERR', 'VISREFMAP', 'MJD', 'TIME', 'INT_TIME', 'OI_REVN', 'AMPTYP', 'PHITYP', 'AMPORDER', 'UCOORD'],
              'OI_VIS2': ['VIS2DATA', 'VIS2ERR', 'FLAG', 'STA_INDEX', 'INSNAME', 'ARRNAME', 'DATE-OBS', 'CORRNAME',
                          'CORRINDX_VIS2DATA', 'MJD', 'TIME', 'OI_REVN', 'VCOORD'],
              'OI_T3': ['T3AMP', 'T3AMPERR', 'T3PHI', 'T3PHIERR', 'FLAG', 'STA_INDEX', 'INSNAME', 'ARRNAME', 'DATE-OBS', 'CORRNAME',
                        'CORRINDX_T3AMP', 'CORRINDX_T3PHI', 'MJD', 'TIME', 'OI_REVN', 'U1COORD', 'V2COORD', 'U2COORD'],
              'OI_FLUX': ['FLUXDATA', 'FLUXERR', 'FLAG', 'STA_INDEX', 'INSNAME', 'ARRNAME', 'DATE-OBS', 'CORRNAME', 'CALSTAT',
                          'FOV', 'FOVTYPE', 'CORRINDX_FLUXDATA', 'MJD', 'INT_TIME', 'TARGET_ID', 'OI_REVN']}


WIDTHS = {'TEL_NAME': 16, 'STA_NAME': 16, 'FOVTYPE': 6, 'VELTYP': 8, 'VELDEF': 8, 'CATEGORY': 3, 'INSNAME': 70}
NUMKEYS = {'OI_REVN', 'NDATA', 'NPOL', 'ARRAYX', 'ARRAYY', 'ARRAYZ', 'AMPORDER', 'PHIORDER'}


def retype(g, c):
    """give a column a storage type from which its values cannot be had"""
    n = len(c['rows'])
    if c['ty'] == 'L':
        c['ty'] = g.pick(['B', 'I', 'D'])
        c['rows'] = [[1 if x else 0 for x in r] for r in c['rows']]
    elif c['ty'] == 'A':
        c['ty'] = g.pick(['J', 'D', 'L', 'B'])
        c['rep'] = 1
        c['rows'] = [[1]] * n
    else:
        c['rep'] *= 2 if c['ty'] in 'CM' else 1
        c['ty'] = 'L'
        c['rows'] = [[g.p(0.5) for _ in range(c['rep'])] for _ in range(n)]
    c.pop('dim', None)


def damage(g, hdus):
    tabs = [h for h in hdus if h['kind'] == 'bin' and h['ext'] in OPT_DAMAGE]
    for _ in range(g.pick([1, 1, 1, 2, 3])):
        # data tables are damaged more often than the tables whose loss makes the file unreadable
        soft = [h for h in tabs if h['ext'] not in ('OI_TARGET', 'OI_ARRAY', 'OI_WAVELENGTH')]
        how = g.pick(['gone', 'gone', 'gone', 'type', 'type', 'width', 'unit', 'key', 'key'])
        if how == 'width':
            c = [(h, c) for h in tabs for c in h['cols'] if c['ty'] == 'A' and c['name'].upper() in WIDTHS]
            if c:
                h, c = g.pick(c)
                w = WIDTHS[c['name'].upper()]
                c['rep'] = g.pick([w + 1, w + 1, w + 2, w + 4, w + 8, 3 * w, w, w - 1])
            continue
        if how == 'unit':
            c = [c for h in soft for c in h['cols'] if c['name'].upper() in ('RVIS', 'FLUXDATA')]
            if c:
                g.pick(c)['unit'] = ''
            continue
        h = g.pick(soft) if soft and g.p(0.75) else g.pick(tabs)
        if how == 'key':
            k = [i for i, (k, _) in enumerate(h['keys']) if k in NUMKEYS]
            if k:
                i = g.pick(k)
                h['keys'][i] = (h['keys'][i][0], g.pick(['x', 'two', 'N/A']))
            continue
        what = g.pick(OPT_DAMAGE[h['ext']])
        cols = [c for c in h['cols'] if c['name'].upper() == what]
        if how == 'type' and not cols and h['cols']:
            cols = [g.pick(h['cols'])]
        if how == 'type':
            for c in cols:
                if c['ty'] != 'B':
                    retype(g, c)
        elif cols:
            h['cols'] = [c for c in h['cols'] if c['name'].upper() != what]
        else:
            h['keys'] = [k for k in h['keys'] if k[0] != what]
    return hdus


def short_names(d, v):
    if v == 1:
        for t in d['tg']['t']:
            t['name'] = t['name'][:16].strip()
            t['spectyp'] = t['spectyp'][:16].strip()
    return d


def sc_foreign(g, hurt=None, v=None, suspect=False):
    s = Sc()
    g.odd = g.odduv = 0.02
    hush(g, s)
    v = v or (1 if g.p(0.5) else 2)
    d = short_names(g.dataset(v=v, maxtab=2, maxrec=3, maxnw=4), v)
    full = d
    if g.p(0.15):
        # a table that others refer to is not there
        d = copy.deepcopy(d)
        k = g.pick([k for k in ('arr', 'wav', 'cor') if d[k]] or ['wav'])
        if d[k]:
            d[k].pop(g.r.randrange(len(d[k])))
            d['n'] = [len(d[k]) for k in model.KINDS]
    h = foreign_hdus(g, d, v, suspect)
    hurt = g.p(0.5) if hurt is None else hurt
    if hurt:
        damage(g, h)
    s.putfile('f.fits', fitsio.write_file(h))
    s.op('read', 0, 'f.fits', 0)
    if not hurt:
        s.op('lookup', 0, lookups(g, full))
        s.op('check', 0, dumps(0))
    s.op('fopen', 'f.fits', 1)
    kinds = ['hdr', 'tg', 'arr', 'wav', 'cor', 'pol', 'vis', 'vis2', 't3', 'flux']
    for _ in range(g.r.randint(2, 14)):
        x = g.r.random()
        if x < 0.15:
            s.op('fseek', g.r.randint(1, len(h)))
        elif x < 0.4:
            k = g.pick(['arr', 'wav', 'cor'])
            nm = g.pick([t['name'] for t in d[k]] or ['ZZZ']) if g.p(0.8) else g.name(k)
            s.op('tname', k, enc(nm), 0)
        else:
            k = g.pick(kinds)
            for _ in range(g.pick([1, 1, 2, 4])):
                s.op('tnext', k, 0)
    s.op('fclose')
    return s


def sc_v1(g):
    """first-version file: read, upgrade in memory, write as version 2, read back"""
    s = Sc()
    g.odd = g.odduv = 0.02
    hush(g, s)
    d = short_names(g.dataset(v=1, maxtab=2, maxrec=3, maxnw=4), 1)
    s.putfile('v1.fits', fitsio.write_file(foreign_hdus(g, d, 1)))
    s.op('read', 0, 'v1.fits', 0)
    s.op('query', 0, 1, '10')
    s.op('check', 0, dumps(0))
    if g.p(0.5):
        s.op('upgrade', 0)
        s.op('upgrade', 0)
    s.op('write', 0, 'v2.fits', 0, dumps(0))
    s.op('read', 1, 'v2.fits', 0)
    s.op('query', 1, 0)
    if g.p(0.5):
        s.op('upgrade', 1)
    s.op('sethdr', 1)
    return s


def sc_upgrade(g):
    s = Sc()
    g.odd = g.odduv = 0.02
    d = g.dataset(maxtab=3, maxrec=3, maxnw=3)
    for k in ('arr', 'wav') + DATA[:3]:
        for t in d[k]:
            if g.p(0.4):
                t['rev'] = g.pick([1, 2, 1, 3])
    for k in DATA[:3]:
        for t in d[k]:
            for r in t['r']:
                if g.p(0.5):
                    r['time'] = g.pick([0, 64, 100, -64])
    if g.p(0.5):
        d['tg']['rev'] = g.pick([1, 2])
    s.build(0, d)
    s.op('dup', 1, 0, dumps(0))
    s.op('upgrade', 0)
    s.op('upgrade', 0)
    s.op('dump', 1)
    s.op('query', 0, 1, '100')
    s.op('sethdr', 1)
    s.op('query', 1, 0)
    return s


def sc_table(g):
    """table by table I/O"""
    s = Sc()
    g.odd = g.odduv = 0.02
    hush(g, s)
    d = g.dataset(v=2, maxtab=2, maxrec=2, maxnw=4)
    s.build(0, d)
    s.op('fopen', 'new.fits', 0)
    s.op('twrite', 'hdr', 0, 0, 1, 0)
    seq = [('tg', 0)] + [(k, i) for k in model.KINDS for i in range(len(d[k]))]
    rest = seq[1:]
    if g.p(0.5):
        g.r.shuffle(rest)
    ver = {}
    for k, i in [seq[0]] + rest:
        ver[k] = ver.get(k, 0) + 1
        if g.p(0.05):
            s.op('twrite', k, 0, i, ver[k], g.pick([1, 104, 107]))
        s.op('twrite', k, 0, i, ver[k] if g.p(0.8) else g.r.randint(1, 9), 0)
    s.op('fclose')
    s.op('fopen', 'new.fits', 1)
    kinds = ['hdr', 'tg', 'arr', 'wav', 'cor', 'pol', 'vis', 'vis2', 't3', 'flux']
    nh = len(seq) + 1
    for _ in range(g.r.randint(3, 12)):
        x = g.r.random()
        if x < 0.12:
            s.op('fseek', g.r.randint(1, nh))
        elif x < 0.4:
            k = g.pick(['arr', 'wav', 'cor'])
            nm = g.pick([t['name'] for t in d[k]] or ['ZZZ']) if g.p(0.8) else g.name(k)
            s.op('tname', k, enc(nm), 0)
        else:
            k = g.pick(kinds)
            for _ in range(g.pick([1, 1, 2, 4])):
                s.op('tnext', k, 0)
    s.op('fclose')
    s.op('read', 1, 'new.fits', 0)
    return s


def sc_copy(g):
    """deep copies: changing or freeing one dataset leaves the others alone"""
    s = Sc()
    d = g.dataset(maxtab=2, maxrec=3, maxnw=4)
    s.build(0, d)
    s.op('dup', 1, 0, dumps(0))
    f = 'def' if g.p(0.5) else g.filter(d)
    s.op('filter', 2, 0, s.flt(f), dumps(0, 1))
    s.build(3, g.related(d, maxtab=2, maxrec=3, maxnw=4))
    s.op('merge', 4, 2, [0, 3], dumps(0, 1, 2, 3))
    s.op('check', 4, dumps(0, 1, 2, 3, 4))
    s.op('write', 4, 'a.fits', 0, dumps(0, 1, 2, 3, 4))
    live = [0, 1, 2, 3, 4]
    g.r.shuffle(live)
    while len(live) > 1:
        k = live.pop()
        s.op(g.pick(['free', 'scribble']), k, dumps(*sorted(live)))
    return s


def sc_storage(g):
    """the same work three times over, everything released each time: storage in use must not grow"""
    s = Sc()
    d = g.dataset(maxtab=2, maxrec=3, maxnw=4)
    e = g.related(d, maxtab=2, maxrec=3, maxnw=4)
    todo = []
    live = [0, 1]
    written = False
    for _ in range(g.r.randint(1, 4)):
        x = g.r.random()
        src = g.pick(live)
        if len(live) >= 7:
            break
        k = len(live)
        if x < 0.35:
            todo.append(('filter', k, src, s.flt('def' if g.p(0.2) else g.filter(union(d, e))), '-'))
            live.append(k)
        elif x < 0.5:
            a, b = g.r.sample(live, 2)
            todo.append(('merge', k, 2, [a, b], '-'))
            live.append(k)
        elif x < 0.6:
            todo.append(('dup', k, src, '-'))
            live.append(k)
        elif x < 0.75 and not written:
            written = True
            todo.append(('write', src, 'FILE', 0, '-'))
            todo.append(('read', k, 'FILE', 0))
            live.append(k)
            if g.p(0.5):
                todo.append(('fopen', 'FILE', 1))
                for kk in ('hdr', 'tg', 'arr', 'wav', 'cor', 'pol') + DATA:
                    n = len(d[kk]) if kk not in ('hdr', 'tg') else 1
                    todo += [('tnext', kk, 0)] * min(n, 2)
                todo.append(('fclose',))
        elif x < 0.8:
            # a file from elsewhere
            v = g.pick([1, 2])
            s.putfile('w%d.fits' % k, fitsio.write_file(foreign_hdus(g, short_names(g.dataset(v=v, maxtab=2, maxrec=3, maxnw=4), v), v)))
            todo.append(('read', k, 'w%d.fits' % k, 0))
            live.append(k)
        elif x < 0.87:
            kind = g.r.randint(1, 3)
            todo.append(('iterinit', kind, kind, src, s.flt('def' if g.p(0.3) else g.filter(d))))
            todo.append(('iternext', kind, g.pick([2, 60]), 0))
        elif x < 0.91:
            todo.append(('check', src, '-'))
        elif x < 0.94:
            todo.append(('upgrade', src))
        elif x < 0.97:
            todo.append(('summary', src))
        else:
            todo.append(('lookup', src, lookups(g, d)))
    g.r.shuffle(live)
    for r in range(3):
        s.build(0, d)
        s.build(1, e)
        for t in todo:
            s.op(*['f%d.fits' % r if x == 'FILE' else x for x in t])
        for k in live:
            s.op('free', k, '-')
        s.op('storage')
    return s


def union(d, e):
    """all that may be in a dataset made from both"""
    u = {k: d[k] + e[k] for k in ('arr', 'wav', 'cor', 'pol') + DATA}
    return dict(u, hdr=d['hdr'], tg=dict(d['tg'], t=d['tg']['t'] + e['tg']['t']), n=d['n'])


def sc_history(g, n=12):
    """a random history over a pool of datasets and files"""
    s = Sc()
    known = {}
    slots = list(range(8))
    nf = 0
    files = []
    v2only = {}
    for i in range(2):
        known[i] = g.dataset(maxtab=2, maxrec=2, maxnw=3)
        s.build(i, known[i])
    for _ in range(n):
        x = g.r.random()
        free = [k for k in slots if k not in known]
        src = g.pick(list(known))
        others = [k for k in known][:3]
        if x < 0.12 and free:
            k = g.pick(free)
            fresh(g, s, k, known[src], *others)
            known[k] = g.related(known[src], maxtab=2, maxrec=2, maxnw=3)
            s.build(k, known[k])
        elif x < 0.3 and free and len(known) >= 2:
            k = g.pick(free)
            ins = g.r.sample(list(known), 2)
            s.op('merge', k, 2, ins, dumps(*ins))
            known[k] = union(known[ins[0]], known[ins[1]])
            s.op('lookup', k, lookups(g, known[ins[0]], [known[ins[1]]]))
        elif x < 0.5 and free:
            k = g.pick(free)
            f = 'def' if g.p(0.3) else g.filter(known[src])
            s.op('filter', k, src, s.flt(f), dumps(src))
            known[k] = known[src]
            s.op('lookup', k, lookups(g, known[src]))
        elif x < 0.62 and len(known) > 2:
            s.op('free', src, dumps(*[k for k in known if k != src][:3]))
            del known[src]
        elif x < 0.64 and nf < 4:
            nf += 1
            files.append(('f%d.fits' % nf, known[src]))
            s.op('write', src, 'f%d.fits' % nf, 0, dumps(*others))
            if free:
                k = g.pick(free)
                s.op('read', k, 'f%d.fits' % nf, 0)
                known[k] = known[src]
                s.op('lookup', k, lookups(g, known[k]))
        elif x < 0.65 and files and free:
            k = g.pick(free)
            nm, known[k] = g.pick(files)
            s.op('read', k, nm, 0)
        elif x < 0.67 and free:
            k = g.pick(free)
            s.op('dup', k, src, dumps(src))
            known[k] = known[src]
        elif x < 0.7:
            s.op('check', src, dumps(src))
        elif x < 0.8:
            kind = g.r.randint(1, 3)
            s.op('iterinit', kind, kind, src, s.flt('def' if g.p(0.5) else g.filter(known[src])))
            s.op('iternext', kind, 5, 0)
        elif x < 0.9:
            s.op('query', src, 1, '3')
            s.op('lookup', src, lookups(g, known[src]))
        else:
            s.op('upgrade', src)
    return s


def sc_lookup(g):
    s = Sc()
    d = g.dataset(maxtab=2, maxrec=2, maxnw=3, narr=g.pick([1, 3, 5]), nwav=g.pick([1, 3, 5]), ncor=g.pick([0, 2, 4]))
    if d['tg']['rev'] == 1:
        d['cor'] = []
        for k in DATA:
            for t in d[k]:
                t['cor'] = ''
        d['n'] = [len(d[k]) for k in model.KINDS]
    if g.p(0.4):
        d['tg'] = g.targets(g.pick([3, 9]), d['tg']['rev'], dupnames=True)
        for kk in ('pol',) + DATA:
            for t in d[kk]:
                for r in t['r']:
                    r['tid'] = g.pick(d['tg']['t'])['id']
    s.build(0, d)
    s.op('lookup', 0, lookups(g, d))
    s.op('write', 0, 'a.fits', 0, dumps(0))
    s.op('read', 1, 'a.fits', 0)
    s.op('lookup', 1, lookups(g, d))
    f = g.filter(d)
    s.op('filter', 2, 1, s.flt(f), dumps(1))
    s.op('lookup', 2, lookups(g, d))
    e = g.related(d, maxtab=2, maxrec=2, maxnw=3)
    s.build(3, e)
    s.op('merge', 4, 3, [1, 3, 2], dumps(1, 2, 3))
    s.op('lookup', 4, lookups(g, d, [e]))
    for k in g.r.sample([0, 1, 2, 3], 3):
        s.op('free', k, '-')
    s.op('lookup', 4, lookups(g, d, [e]))
    if g.p(0.7):
        # the same place in memory, used again for other data with the same names
        for _ in range(2):
            k, t = g.pick([('arr', d['arr']), ('wav', d['wav']), ('cor', d['cor'])])
            if not t:
                k, t = 'tid', []
            nm, i = (g.pick(t)['name'], 0) if t else ('', g.pick(d['tg']['t'])['id'])
            q = [(k, nm, i)]
            if k == 'arr':
                q.append(('elem', nm, g.pick(g.pick(t)['e'])['idx']))
            q.append(('tname', g.pick(d['tg']['t'])['name'], 0))
            g.r.shuffle(q)
            tk = [str(len(q))]
            for kk, n, j in q:
                tk += [kk, enc(n), str(j)]
            s.op('lookup', 4, tk)
            s.op('free', 4, '-')
            again(g, d)
            s.build(4, d)
            s.op('lookup', 4, tk)
        s.op('lookup', 4, lookups(g, d))
    return s


def again(g, d):
    """other contents under the same names"""
    for k in ('arr', 'wav', 'cor'):
        if g.p(0.5):
            g.r.shuffle(d[k])
    if g.p(0.5):
        g.r.shuffle(d['tg']['t'])
    for w in d['wav']:
        if g.p(0.5):
            n = g.wave(w['name'], w['rev'], nw=len(w['w']))
            w['w'], w['b'] = n['w'], n['b']
    for a in d['arr']:
        if g.p(0.5):
            g.r.shuffle(a['e'])
        if g.p(0.3):
            g.pick(a['e'])['sx'] = g.cnum(-999, 999)
    for k in DATA:
        if g.p(0.3) and len(d[k]) > 1:
            d[k].pop(g.r.randrange(len(d[k])))
        for t in d[k]:
            if g.p(0.3):
                g.r.shuffle(t['r'])
            if g.p(0.2) and len(t['r']) > 1:
                t['r'].pop()
            for r in t['r']:
                if g.p(0.3):
                    r['f'] = [1 - x for x in r['f']]
                if g.p(0.2) and r['mjd'] < LIMINF:
                    r['mjd'] += 512
    if g.p(0.4):
        h = d['hdr']
        for q in list(h):
            if g.p(0.3):
                h[q] = g.date() if q == 'date_obs' else g.pick(['', 'ESO', 'x', 'MULTIPLE', g.near(h[q])])
        h['content'] = g.pick(['', 'OIFITS2', 'OIFITS1', h['content']])
    if g.p(0.3):
        for t in d['tg']['t']:
            t['ra'] = g.num(0, 23040)
        g.pick(d['tg']['t'])['name'] = 'renamed'
    d['n'] = [len(d[k]) for k in model.KINDS]


def sc_reuse(g):
    """the same operations again on other data in the same place, in memory or on disk"""
    s = Sc()
    d = g.dataset(maxtab=2, maxrec=3, maxnw=4)
    e = copy.deepcopy(d) if g.p(0.8) else g.related(d, maxtab=2, maxrec=3, maxnw=4)
    again(g, e)
    disk = g.p(0.5)
    if not disk and g.p(0.3):
        for k in model.KINDS:
            for t in e[k]:
                if g.p(0.2):
                    t['rev'] = 3 - t['rev'] if k != 'flux' else t['rev']
    f = g.filter(union(d, e))
    spans = [repr(x / 1024.0) for x in (0, 256, 1024000)]

    def look(k):
        q = []
        for kind, key in (('arr', 'arr'), ('wav', 'wav'), ('cor', 'cor')):
            if d[key]:
                q.append((kind, g.pick(d[key])['name'], 0))
        q.append(('tid', '', g.pick(d['tg']['t'])['id']))
        q.append(('tname', g.pick(d['tg']['t'])['name'], 0))
        if d['arr']:
            a = g.pick(d['arr'])
            q.append(('elem', a['name'], g.pick(a['e'])['idx']))
        q = q * 2
        g.r.shuffle(q)
        tk = [str(len(q))]
        for kk, n, j in q + q[:0]:
            tk += [kk, enc(n), str(j)]
        return lambda: s.op('lookup', k, tk)
    kind = g.r.randint(1, 3)
    n = max(1, g.pick([ndata(d, kind) + 2, ndata(d, kind) // 2, 1]))
    whole = g.p(0.3)

    def it():
        s.op('iterinit', kind, kind, 0, s.flt('def' if whole and g.p(0.7) else f))
        s.op('iternext', kind, n, 0)

    def flt():
        s.op('filter', 1, 0, s.flt(f), dumps(0))
        s.op('lookup', 1, lookups(g, d))
        s.op('free', 1, '-')

    def mrg():
        s.op('merge', 2, 2, [0, 7], dumps(0, 7))
        s.op('free', 2, '-')

    def dup():
        s.op('dup', 3, 0, dumps(0))
        s.op('free', 3, '-')
    steps = [look(0), look(0), it, flt, mrg, dup, lambda: s.op('query', 0, 3, spans), lambda: s.op('summary', 0), lambda: s.op('check', 0, dumps(0)), ]
    steps = g.r.sample(steps, g.r.randint(1, 4))
    s.build(7, d if g.p(0.5) else e)
    made = [d, e, d][:g.pick([2, 2, 3])]
    for i, x in enumerate(made):
        if disk:
            s.build(5, x)
            s.op('write', 5, 'n%d.fits' % i, 0, dumps(5))
            s.op('move', 'n%d.fits' % i, 'a.fits')
            s.op('read', 0, 'a.fits', 0)
            if g.p(0.5):
                s.op('free', 5, dumps(0))
        else:
            s.build(0, x)
        for st in steps:
            st()
        if g.p(0.8):
            g.r.shuffle(steps)
        s.op('free', 0, dumps(7))
    return s


def sc_query(g):
    s = Sc()
    d = g.dataset(maxtab=2, maxrec=3, maxnw=4, ntarg=g.pick([1, 1, 2]), narr=g.pick([0, 1, 1, 2]), nwav=g.pick([1, 1, 2]))
    if g.p(0.5):
        for k in model.KINDS:
            for t in d[k]:
                if g.p(0.5):
                    t['rev'] = g.pick([1, 1, 2])
        d['tg']['rev'] = g.pick([1, 1, 2])
    if g.p(0.3):
        d['hdr']['content'] = g.pick(['', 'OIFITS2', 'OIFITS1', 'oifits2', 'OIFITS2x'])
    fresh(g, s, 0, d)
    s.build(0, d)
    mj = sorted(r['mjd'] for k in DATA for t in d[k] for r in t['r'] if r['mjd'] != NAN)
    spans = [0, 1, 256, 1024000]
    if mj:
        spans += [mj[-1] - mj[0], max(0, mj[-1] - mj[0] - 1), mj[-1] - mj[0] + 1]
    s.op('query', 0, len(spans), [repr(x / 1024.0) for x in spans])
    s.op('summary', 0)
    f = g.filter(d)
    s.op('filter', 1, 0, s.flt(f), dumps(0))
    s.op('query', 1, len(spans), [repr(x / 1024.0) for x in spans])
    s.op('summary', 1)
    if g.p(0.5):
        s.op('sethdr', 0)
        s.op('summary', 0)
    return s


def sc_text(g):
    s = Sc()
    d = g.dataset(maxtab=g.pick([1, 3, 12]), maxrec=3, maxnw=g.pick([2, 12]), narr=g.pick([1, 2, 11]))
    s.build(0, d)
    s.op('summary', 0)
    for _ in range(4):
        f = 'def' if g.p(0.1) else g.filter(d, True)
        s.op('fmtfilter', s.flt(f))
    s.build(1, g.dataset(maxtab=2))
    s.op('summary', 1)
    s.op('summary', 0)
    return s


def sc_dates(g, lo, hi):
    s = Sc()
    s.op('mjd2date', hi - lo, list(range(lo, hi)))
    import datetime
    ep = datetime.date(1858, 11, 17)
    q = []
    n = 0
    for m in range(lo, hi):
        t = ep + datetime.timedelta(days=m)
        if 1901 <= t.year <= 2099:
            q += [t.year, t.month, t.day]
            n += 1
    if n:
        s.op('date2mjd', n, q)
    return s


OPTS = ['arrname', 'insname', 'corrname', 'target-id', 'mjd-min', 'mjd-max', 'wave-min', 'wave-max', 'bas-min', 'bas-max',
        'uvrad-min', 'uvrad-max', 'snr-min', 'snr-max', 'accept-vis', 'accept-vis2', 'accept-t3amp', 'accept-t3phi',
        'accept-flux', 'accept-flagged']


def options(g, d, n=None):
    """-> (argv, opts) for a random set of filter options suited to dataset d"""
    argv, opts = [], []
    f = g.filter(d, True)
    for _ in range(n if n is not None else g.pick([0, 1, 2, 3, 5])):
        o = g.pick(OPTS)
        sval, nval = '', 0
        if o == 'arrname':
            sval = txt = g.pattern([a['name'] for a in d['arr']])
        elif o == 'insname':
            sval = txt = g.pattern([a['name'] for a in d['wav']])
        elif o == 'corrname':
            sval = txt = g.pattern([a['name'] for a in d['cor']])
        elif o == 'target-id':
            nval = g.pick([t['id'] for t in d['tg']['t']]) if g.p(0.8) else g.pick([0, 1, 7, -1])
            txt = str(nval)
        elif o.startswith('accept'):
            nval = g.pick([0, 1, 1])
            txt = str(nval)
        else:
            base, end = o.split('-')
            k = 0 if end == 'min' else 1
            if base == 'mjd':
                nval = f['mjd'][k] if f['mjd'][k] not in (0, LIMINF) else 200000 * 256 + g.r.randint(0, 400 * 256)
                txt = repr(nval / 1024.0)
            elif base == 'wave':
                nval = f['wave'][k]
                if f32(1e-9 * (nval / 25.0)) != f32(nval * WUNIT):
                    continue
                txt = repr(nval / 25.0)
            elif base == 'bas':
                nval = f['bas'][k]
                txt = str(nval)
            elif base == 'snr':
                nval = f['snr'][k] if f['snr'][k] != LIMINF else 400
                txt = repr(nval / 4.0)
            else:
                l = g.uvlimit(d)
                if l is None:
                    continue
                nval = l
                txt = repr(model.uv2c(l))
        if o in ('arrname', 'insname', 'corrname') and g.p(0.06):
            sval = txt = ''
        if txt == '' or txt.startswith('-') or g.p(0.5):
            argv.append('--%s=%s' % (o, txt))
        else:
            argv += ['--' + o, txt]
        opts.append({'o': o, 's': sval, 'n': nval})
    return argv, opts


def option_args(opts):
    """the arguments that say opts (options of the models: no spatial frequencies)"""
    out = []
    for x in opts:
        o, n = x['o'], x['n']
        if o in ('arrname', 'insname', 'corrname'):
            v = x['s']
        elif o.startswith('mjd'):
            v = repr(n / 1024.0)
        elif o.startswith('wave'):
            v = repr(n / 25.0)
            assert f32(1e-9 * (n / 25.0)) == f32(n * WUNIT), n
        elif o.startswith('snr'):
            v = repr(n / 4.0)
        else:
            v = str(n)
        out.append('--%s=%s' % (o, v))
    return out


def sc_opt(g):
    s = Sc()
    d = g.dataset(maxtab=2, maxrec=2, maxnw=3)
    for _ in range(g.pick([1, 2, 3])):
        argv, opts = options(g, d, g.r.randint(0, 8))
        bad = 0
        if g.p(0.12):
            argv.append(g.pick(['--no-such', '--mjd-min=abc', '--target-id=x', '--accept-vis=maybe', '--wave-max']))
            bad = 1
        left = 0
        if g.p(0.3) and not bad:
            argv = argv + ['file1', 'file2'][:g.r.randint(1, 2)]
            left = len([a for a in argv if a in ('file1', 'file2')])
        s.hints += [x['n'] for x in opts if x['o'].startswith('uvrad')]
        s.op('optparse', len(argv), [enc(a) for a in argv], opts=opts, bad=bad, wantleft=left)
    return s


def sc_cli(g, tool=None):
    s = Sc()
    tool = tool or g.pick(['merge', 'merge', 'filter', 'filter', 'upgrade', 'check'])
    v = 1 if tool == 'upgrade' and g.p(0.75) else None
    d = g.dataset(v=v, maxtab=2, maxrec=3, maxnw=4, namelen=40 if tool == 'check' else 64)
    if tool == 'check':
        if g.p(0.6):
            spoil(g, d)
            for t in d['wav']:
                t['rev'] = d['tg']['rev']
        d2 = d
        # everything must survive being written
        if not d['tg']['t']:
            d['tg'] = g.targets(1)
    ver = d['tg']['rev'] if d['tg']['rev'] in (1, 2) else 2

    def put(name, x):
        """a valid file; rarely one that cannot be used"""
        vv = 1 if x['tg']['rev'] == 1 else 2
        h = fitsio.encode_ds(short_names(x, vv), vv)
        y = g.r.random()
        if y < 0.05:
            h = foreign_hdus(g, short_names(x, vv), vv)
            if g.p(0.5):
                damage(g, h)
        elif y < (0.55 if tool == 'upgrade' and vv == 2 else 0.09):
            for t in h[1:]:             # tables of different versions in one file
                if t['ext'] in ('OI_TARGET', 'OI_ARRAY', 'OI_WAVELENGTH', 'OI_VIS', 'OI_VIS2', 'OI_T3') and vv == 2 and g.p(0.5):
                    t['keys'] = [(k, 1 if k == 'OI_REVN' else v) for k, v in t['keys']]
            if g.p(0.6):
                h[0]['keys'] = [q for q in h[0]['keys'] if q[0] != 'CONTENT']
        b = fitsio.write_file(h)
        if g.p(0.03):
            b = g.pick([b'', b'not a FITS file\n', b[:2880], b[:5760], bytes(2880)])
        s.putfile(name, b)

    def run(t, slot, out, args, **m):
        s.op('cli', t, slot, enc(out), len(args), [enc(a) for a in args], **dict(dict(argsok=1, hdr=[], opts=[], clobber=0), **m))

    def old(name):
        """something that is already there"""
        if g.p(0.5):
            s.putfile(name, fitsio.write_file(fitsio.encode_ds(g.dataset(v=2, maxtab=1, maxrec=1, maxnw=2), 2)))
        else:
            s.putfile(name, g.pick([b'', b'precious\n', bytes(g.r.randrange(256) for _ in range(3000))]))
    if tool == 'upgrade':
        put('in.fits', d)
        args = ['in.fits', 'out.fits', g.pick(['ESO', 'CHARA', 'a b']), g.pick(['me', 'x' * 60]), g.pick(['LOW', 'HI RES'])]
        hdr = args[2:]
        x = g.r.random()
        if g.p(0.12):
            old('out.fits')
        if x < 0.12:
            run('upgrade', 5, 'out.fits', args[:g.r.randint(0, 4)], argsok=0, hdr=hdr, **{'in': ['in.fits']})
            return s
        if x < 0.22:
            args[0] = 'absent.fits'
        elif x < 0.38:
            args[1] = 'in.fits'
        run('upgrade', 5, args[1], args, hdr=hdr, **{'in': [args[0]]})
        run('upgrade', 6, args[1], args, hdr=hdr, **{'in': [args[0]]})
        run('upgrade', 7, 'out2.fits', ['out.fits', 'out2.fits'] + hdr, hdr=hdr, **{'in': ['out.fits']})
        return s
    if tool == 'merge':
        n = g.pick([1, 2, 2, 2, 3, 4, 5, 6, 8])
        small = n > 4
        if small:
            d = g.dataset(maxtab=1, maxrec=2, maxnw=2, namelen=40)
        ds = [d] + [g.related(d, maxtab=1 if small else 2, maxrec=2 if small else 3, maxnw=2 if small else 4) for _ in range(n - 1)]
        names = ['in%d.fits' % i for i in range(n)]
        for nm, x in zip(names, ds):
            put(nm, x)
        if g.p(0.15):
            names.append(g.pick(names))         # the same file again
        x = g.r.random()
        out = 'out.fits'
        if g.p(0.12):
            old('out.fits')
        if x < 0.12:
            k = g.r.randint(0, 2)
            run('merge', 5, out, ([out] + names)[:k], argsok=0, **{'in': names[:max(0, k - 1)]})
            return s
        if x < 0.22:
            names[g.r.randrange(len(names))] = 'absent.fits'
        elif x < 0.32:
            out = g.pick(names)
        ok = 1 if len(names) >= 2 else 0
        run('merge', 5, out, [out] + names, argsok=ok, **{'in': list(names)})
        g.r.shuffle(names)
        run('merge', 6, out, [out] + names, argsok=ok, **{'in': list(names)})
        run('merge', 7, 'out3.fits', ['out3.fits'] + names, argsok=ok, **{'in': list(names)})
        return s
    if tool == 'filter':
        put('in.fits', d)
        argv, opts = options(g, d)
        s.hints += [x['n'] for x in opts if x['o'].startswith('uvrad')]
        x = g.r.random()
        cl = g.pick(['--clobber', '-o'])
        if g.p(0.25):
            old('out.fits')
        if x < 0.12:
            clob = g.p(0.4)
            args = ([cl] if clob else []) + argv + g.pick([['in.fits'], [], ['in.fits', 'out.fits', 'x']])
            run('filter', 5, 'out.fits', args, argsok=0, opts=opts, clobber=1 if clob else 0, **{'in': ['in.fits']})
            return s
        if x < 0.24:
            clob = g.p(0.5)
            run('filter', 5, 'out.fits', ([cl] if clob else []) + argv + ['absent.fits', 'out.fits'], opts=opts,
                clobber=1 if clob else 0, **{'in': ['absent.fits']})
            return s
        run('filter', 5, 'out.fits', argv + ['in.fits', 'out.fits'], opts=opts, **{'in': ['in.fits']})
        run('filter', 6, 'out.fits', argv + ['in.fits', 'out.fits'], opts=opts, **{'in': ['in.fits']})
        a2, o2 = options(g, d)
        s.hints += [x['n'] for x in o2 if x['o'].startswith('uvrad')]
        out = 'in.fits' if g.p(0.3) else 'out.fits'
        if out == 'in.fits' and g.p(0.3):
            run('filter', 6, out, argv + ['in.fits', out], opts=opts, **{'in': ['in.fits']})
        run('filter', 7, out, [cl] + a2 + ['in.fits', out], opts=o2, clobber=1, **{'in': ['in.fits']})
        return s
    put('in.fits', d)
    x = g.r.random()
    if x < 0.1:
        run('check', 5, '', g.pick([[], ['in.fits', 'x']]), argsok=0, **{'in': ['in.fits']})
    else:
        nm = 'absent.fits' if x < 0.2 else 'in.fits'
        run('check', 5, '', [nm], **{'in': [nm]})
    return s


def demo_text(g, d):
    """the input of oitable-demo that describes d"""
    sep = lambda: g.pick(['\n', '\n', '\n\n', ' ', '  \n '])
    out = []

    def n(kind, x):
        return repr(float(model.num2c(kind, x)))

    def put(k, *v):
        out.append(' '.join([k] + [str(x) for x in v]))

    def vec(k, kind, xs):
        put(k, *[n(kind, x) for x in xs])

    def cpx(k, xs):
        put(k, *['%s %si' % (n('D', xs[i]), n('D', xs[i + 1])) for i in range(0, len(xs), 2)])
    a = d['arr'][0]
    put('OI_ARRAY')
    put('arrname', a['name'])
    put('frame', a['frame'])
    for q in 'xyz':
        put('array' + q, n('D', a[q]))
    put('nelement', len(a['e']))
    for e in a['e']:
        put('tel_name', e['tel'])
        put('sta_name', e['sta'])
        vec('staxyz', 'D', [e['sx'], e['sy'], e['sz']])
        put('diameter', n('A', e['dia']))
        put('fov', n('D', e['fov']))
        put('fovtype', e['fovtype'])
    put('OI_TARGET')
    put('ntarget', len(d['tg']['t']))
    for t in d['tg']['t']:
        put('target_id', t['id'])
        put('target', t['name'])
        for k, f in (('raep0', 'ra'), ('decep0', 'dec'), ('equinox', 'eqx'), ('ra_err', 'raerr'), ('dec_err', 'decerr'), ('sysvel', 'sysvel')):
            put(k, n('D', t[f]))
        put('veltyp', t['veltyp'])
        put('veldef', t['veldef'])
        for k, f in (('pmra', 'pmra'), ('pmdec', 'pmdec'), ('pmra_err', 'pmraerr'), ('pmdec_err', 'pmdecerr'), ('parallax', 'plx'), ('para_err', 'plxerr')):
            put(k, n('D', t[f]))
        put('spectyp', t['spectyp'])
        if t['cat']:
            put('category', t['cat'])
    w = d['wav'][0]
    put('OI_WAVELENGTH')
    put('insname', w['name'])
    put('nwave', len(w['w']))
    vec('eff_wave', 'W', w['w'])
    vec('eff_band', 'W', w['b'])
    c = d['cor'][0]
    put('OI_CORR')
    put('corrname', c['name'])
    put('ndata', c['ndata'])
    put('ncorr', len(c['i']))
    put('iindx', *c['i'])
    put('jindx', *c['j'])
    vec('corr', 'D', c['c'])
    p = d['pol'][0]
    put('OI_INSPOL')
    for k, f in (('date-obs', 'date'), ('npol', 'npol'), ('arrname', 'arr'), ('orient', 'orient'), ('model', 'model')):
        put(k, p[f])
    put('numrec', len(p['r']))
    for r in p['r']:
        put('target_id', r['tid'])
        put('insname', r['ins'])
        put('mjd_obs', n('M', r['mjd']))
        put('mjd_end', n('M', r['mjdend']))
        for k in ('jxx', 'jyy', 'jxy', 'jyx'):
            cpx(k, r[k])
        put('sta_index', r['sta'])

    def head(k, ext):
        t = d[k][0]
        put(ext)
        put('date-obs', t['date'])
        if t['arr']:
            put('arrname', t['arr'])
        put('insname', t['ins'])
        put('corrname', t['cor'])
        return t
    for k, ext in (('vis', 'OI_VIS'), ('vis2', 'OI_VIS2'), ('t3', 'OI_T3'), ('flux', 'OI_FLUX')):
        t = head(k, ext)
        if k == 'vis':
            for q in ('amptyp', 'phityp'):
                if t[q]:
                    put(q, t[q])
            for q in ('amporder', 'phiorder'):
                if t[q] != -1:
                    put(q, t[q])
        if k == 'flux':
            if t['fovtype']:
                put('fov', n('D', t['fov']))
                put('fovtype', t['fovtype'])
            put('calstat', t['cal'])
        put('numrec', len(t['r']))
        for r in t['r']:
            put('target_id', r['tid'])
            if k != 'flux':
                put('time', n('D', r['time']))
            put('mjd', n('M', r['mjd']))
            put('int_time', n('D', r['it']))
            m = {'vis': 'visamp', 'vis2': 'vis2data', 't3': 't3amp', 'flux': 'fluxdata'}[k]
            vec(m, 'D', r['a'])
            vec({'vis': 'visamperr', 'vis2': 'vis2err', 't3': 't3amperr', 'flux': 'fluxerr'}[k], 'D', r['ae'])
            put('corrindx_' + m, r['ca'])
            if k in ('vis', 't3'):
                m = k + 'phi'
                vec(m, 'D', r['p'])
                vec(m + 'err', 'D', r['pe'])
                put('corrindx_' + m, r['cp'])
            if k in ('vis', 'vis2'):
                put('ucoord', n('U', r['u']))
                put('vcoord', n('U', r['v']))
            if k == 't3':
                for q, f in (('u1coord', 'u'), ('v1coord', 'v'), ('u2coord', 'u2'), ('v2coord', 'v2')):
                    put(q, n('U', r[f]))
            if k == 'flux':
                if r['sta'] != -1:
                    put('sta_index', r['sta'])
            else:
                put('sta_index', *r['s'])
    return ''.join(x + sep() for x in out).encode('latin-1')


def plain(g, x, top=True):
    """no NaN and no blanks anywhere in x"""
    if isinstance(x, dict):
        return {k: plain(g, v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(g, v) for v in x]
    if isinstance(x, str):
        return x.replace(' ', '_')
    return 7 if x == NAN else x


def demo_dataset(g):
    """one table of every kind, with what the text format can express"""
    while True:
        d = g.dataset(v=2, narr=1, nwav=1, ncor=1, maxtab=1, maxrec=4, maxnw=5)
        tids = [t['id'] for t in d['tg']['t']]
        a, w, c = d['arr'][0], d['wav'][0], d['cor'][0]
        if g.p(0.3):
            a['e'] = g.array(a['name'], 2, g.pick([6, 8, 12]))['e']
        for i, e in enumerate(a['e']):
            e['idx'] = i + 1
        nw = len(w['w'])
        d['pol'] = [g.inspol(tids, a, [w], nw)]
        for k in DATA:
            d[k] = [g.table(k, tids, a, w['name'], c['name'], nw, 2, maxrec=4)]
        break
    d = plain(g, d)
    for t in d['tg']['t']:
        t['name'] = t['name'][:16]
        for q in ('veltyp', 'veldef', 'spectyp'):
            t[q] = t[q][:16] or 'none'
    cat = g.p(0.5)
    for t in d['tg']['t']:
        t['cat'] = t['cat'] if cat else ''
    d['tg']['usecat'] = 1 if any(t['cat'] for t in d['tg']['t']) else 0
    for e in d['arr'][0]['e']:
        e['tel'] = e['tel'] or 'T'
        e['sta'] = e['sta'] or 'S'
    d['pol'][0]['model'] = d['pol'][0]['model'] or 'none'
    for r in d['pol'][0]['r']:
        for q in ('jxx', 'jyy', 'jxy', 'jyx'):      # "inf i" cannot be told from "infi(nity)"
            r[q] = [64 if x in (PINF, NINF) else x for x in r[q]]
    for t in d['tg']['t']:
        for q in ('plx', 'plxerr'):
            t[q] = model.num2m('D', f32(model.num2c('D', t[q])))
    # items that are not optional in the text cannot be empty
    for k in ('pol',) + DATA:
        d[k][0]['date'] = d[k][0]['date'] or '2014-01-01'
        if k != 'flux':
            d[k][0]['arr'] = d[k][0]['arr'] or d['arr'][0]['name']
    v = d['vis'][0]
    v.update(useref=0, usecpx=0, cunit='', aunit='')
    if v['amptyp'] == 'correlated_flux':
        v['amptyp'] = 'absolute'
    # an omitted item must not be the beginning of the next one present (amptyp/amporder, phityp/phiorder)
    if not v['amptyp'] and not v['phityp']:
        v['amporder'] = -1
    if not v['phityp'] and v['amporder'] == -1:
        v['phiorder'] = -1
    for r in v['r']:
        r.update(ref=[], rv=[], rve=[], crv=0, iv=[], ive=[], civ=0)
    for k in DATA:
        for r in d[k][0]['r']:
            r['f'] = [0] * len(r['f'])
    f = d['flux'][0]
    f['funit'] = 'Jy'
    if not f['fovtype']:
        f['fov'] = NAN
    if g.p(0.3):
        g.pick(f['r'])['sta'] = -1
    if g.p(0.4):
        f['arr'] = ''
        for r in f['r']:
            r['sta'] = -1
    return d


def sc_demo(g):
    s = Sc()
    g.odd = g.odduv = 0.02
    for k in range(g.pick([1, 1, 2])):
        d = demo_dataset(g)
        s.files['t%d.txt' % k] = demo_text(g, d)
        x = g.r.random()
        inf = 'o%d.fits' % k
        if x < 0.5:
            v = 1 if g.p(0.3) else 2
            e = short_names(g.dataset(v=v, maxtab=3, maxrec=2, maxnw=3), v)
            h = foreign_hdus(g, e, v)
            if g.p(0.3):
                damage(g, h)
            if g.p(0.2):
                h = [q for q in h if not (q['kind'] == 'bin' and q['ext'] in ('OI_ARRAY', 'OI_WAVELENGTH', 'OI_CORR') and g.p(0.5))]
            inf = 'i%d.fits' % k
            s.putfile(inf, fitsio.write_file(h))
        elif x < 0.55:
            inf = 'absent.fits'
        s.op('demo', 't%d.txt' % k, 'o%d.fits' % k, inf, ds=d)
        if g.p(0.15):
            s.op('demo', 't%d.txt' % k, 'o%d.fits' % k, 'o%d.fits' % k, ds=d)
        if g.p(0.6):
            s.op('read', k, 'o%d.fits' % k, 0)
            s.op('check', k, dumps(k))
    return s


def sc_wide(g):
    """many spectral channels, many records, many tables"""
    s = Sc()
    x = g.r.random()
    if x < 0.15:
        d = g.dataset(v=2, maxtab=1, maxrec=1, maxnw=2, nwav=1, ntarg=1, ncor=1)
        n = g.pick([260, 1030, 2500])
        d['cor'][0].update(ndata=n, i=[1 + k % 50 for k in range(n)], j=[2 + k for k in range(n)], c=[(k * 7) % 129 - 64 for k in range(n)])
    elif x < 0.2:
        d = g.dataset(v=2, maxtab=1, maxrec=300, maxnw=1, nwav=1, ntarg=1, kinds=(g.pick(DATA),), pol=False)
    elif x < 0.25:
        d = g.dataset(maxtab=1, maxrec=1, maxnw=1, nwav=1, ntarg=g.pick([130, 300]), narr=1)
        a = d['arr'][0]['e']
        d['arr'][0]['e'] = [dict(a[k % len(a)], idx=k + 1, sta='S%d' % k) for k in range(g.pick([150, 300]))]
        for k in DATA:
            for t in d[k]:
                for r in t['r']:
                    if 's' in r:
                        r['s'] = [g.r.randint(1, 150) for _ in r['s']]
                    elif t['arr']:
                        r['sta'] = g.r.randint(1, 150)
        for t in d['pol']:
            for r in t['r']:
                r['sta'] = g.r.randint(1, 150)
    elif x < 0.55:
        d = g.dataset(maxtab=1, maxrec=2, maxnw=g.pick([40, 101, 150, 300]), nwav=1, v=2, kinds=(g.pick(DATA),))
    elif x < 0.8:
        d = g.dataset(maxtab=g.pick([10, 14]), maxrec=2, maxnw=2, narr=g.pick([1, 12]), nwav=g.pick([1, 11]), ncor=g.pick([0, 11]))
    else:
        d = g.dataset(maxtab=1, maxrec=g.pick([30, 60]), maxnw=2, ntarg=g.pick([1, 40]))
    s.build(0, d)
    s.op('write', 0, 'a.fits', 0, dumps(0))
    s.op('read', 1, 'a.fits', 0)
    return s


def sc_over(g):
    """existing files stay as they are"""
    s = Sc()
    g.odd = 0.02
    hush(g, s)
    d = g.dataset(maxtab=2, maxrec=2, maxnw=3)
    e = g.related(d, maxtab=2, maxrec=2, maxnw=3)
    s.build(0, d)
    s.build(1, e)
    if g.p(0.3):
        s.putfile('a.fits', g.pick([b'', b'precious', bytes(2880), bytes(g.r.randrange(256) for _ in range(5000))]))
    for _ in range(g.pick([2, 3, 5])):
        s.op('write', g.pick([0, 1]), g.pick(['a.fits', 'a.fits', 'b.fits', 'a.fits.gz2']), 0, dumps(0, 1))
    s.op('write', 0, 'c.fits', 0, dumps(0, 1))
    s.op('write', 1, 'c.fits', 0, dumps(0, 1))
    s.op('read', 2, 'c.fits', 0)
    s.op('filter', 3, 2, s.flt('def'), '-')
    s.op('write', 3, 'c.fits', 0, dumps(3))
    s.op('read', 4, 'c.fits', 0)
    return s
