"""Known findings: genuine defects of the library that are recorded rather than repaired (known-findings.json)."""
import json
import os

import fitsio
import gen

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.json')
KF = json.load(open(PATH))['findings']


def text(kid):
    return KF[kid]['what']


def sc_zerorow():
    g = gen.Gen('kf/zerorow')
    d = g.dataset(v=2, maxtab=1, maxrec=2, maxnw=3, narr=1, nwav=1)
    while not d['vis2']:
        d = g.dataset(v=2, maxtab=1, maxrec=2, maxnw=3, narr=1, nwav=1)
    d['vis2'][0]['r'] = []
    s = gen.Sc()
    s.putfile('f.fits', fitsio.write_file(fitsio.encode_ds(d, 2)))
    s.op('read', 0, 'f.fits', 0)
    return s


def sc_tail():
    """the device fills up within the last stdio buffer of the file (one of the limits is just short of its size)"""
    g = gen.Gen('kf/tail')
    s = gen.Sc()
    d = g.dataset(v=2, maxtab=1, maxrec=2, maxnw=3)
    s.build(0, d)
    s.op('write', 0, 'full.fits', 0, '0')
    for k in range(6, 40):
        s.op('limit', 2880 * k - 1000)
        s.op('write', 0, 'b%d.fits' % k, 0, '0', creatable=2)
    return s


PROBES = {'zerorow': sc_zerorow, 'tail': sc_tail}


def probes(pid):
    return [(f['probe'], PROBES[f['probe']]()) for f in KF.values() if pid in f['properties'] and f.get('probe') in PROBES]


def match(pid, maker, s, bad, tags):
    for kid, f in KF.items():
        if pid not in f['properties'] or not set(tags) <= set(f['tags']):
            continue
        if f.get('probe') and f.get('only') and maker != f['probe']:
            continue
        return kid
    return None
