"""Run histories of VtuWriter calls and read the files they make (see driver.py)."""
import base64
import json
import os
import re
import shutil
import struct
import sys
import tempfile
import warnings
import xml.etree.ElementTree as ET

warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get('FREESIF_REPO', '/repo'))
import numpy as np                      # noqa: E402
from freesif.utils import VtuWriter     # noqa: E402

NAN = 1999999999
TYPES = {(k + str(b)): ('u' if k[0] == 'U' else 'f' if k[0] == 'F' else 'i') + str(b // 8)
         for k in ('Int', 'UInt', 'Float') for b in (8, 16, 32, 64)}


def ints(a, sc=1):
    out = []
    for x in np.ravel(a).astype(np.float64).tolist():
        x *= 8 * sc
        out.append(NAN if x != x or abs(x) > 1.9e9 or sc == 1 and abs(x - round(x)) > 1e-6 else int(round(x)))
    return out


class Bad(Exception):
    pass


def array(e, sc=1):
    if e.tag != 'DataArray':
        raise Bad('found %s instead of DataArray' % e.tag)
    a = e.attrib
    if a.get('format') != 'binary' or a.get('type') not in TYPES:
        raise Bad('array of type %s' % a.get('type'))
    raw = base64.b64decode(re.sub(r'\s', '', e.text or ''), validate=True)
    n, = struct.unpack('<Q', raw[:8])
    if n != len(raw) - 8:
        raise Bad('array of %d bytes has header %d' % (len(raw) - 8, n))
    d = np.frombuffer(raw[8:], '<' + TYPES[a['type']])
    comps = []
    while 'ComponentName%d' % len(comps) in a:
        comps.append(a['ComponentName%d' % len(comps)])
    extra = set(a) - {'format', 'type', 'Name', 'NumberOfComponents'} \
        - {'ComponentName%d' % i for i in range(len(comps))}
    if any(x.startswith('ComponentName') for x in extra):
        raise Bad('component names ' + str(sorted(extra)))
    return dict(name=a.get('Name', ''), type=a['type'], nc=int(a.get('NumberOfComponents', 1)),
                comps=comps, d=ints(d, sc))


def document(path, scale=None):
    try:
        root = ET.parse(path).getroot()
        a = root.attrib
        if root.tag != 'VTKFile' or a.get('type') != 'UnstructuredGrid' \
                or a.get('byte_order') != 'LittleEndian' or a.get('header_type') != 'UInt64' \
                or a.get('compressor'):
            raise Bad('file is ' + root.tag + str(sorted(a.items())))
        if [e.tag for e in root] != ['UnstructuredGrid']:
            raise Bad('file holds ' + str([e.tag for e in root]))
        pieces = []
        for p in root[0]:
            if p.tag != 'Piece':
                raise Bad('grid holds ' + p.tag)
            q = dict(np=int(p.attrib['NumberOfPoints']), nc=int(p.attrib['NumberOfCells']),
                     points=[], cells=[], secs=[])
            seen = []
            for s in p:
                sc = [1] * len(s)
                if scale and s.tag in ('PointData', 'CellData'):
                    sc = (scale[len(pieces)][len(q['secs'])] + sc)[:len(s)]
                arrs = [array(e, k) for e, k in zip(s, sc)]
                if s.tag == 'Points':
                    q['points'] += arrs
                elif s.tag == 'Cells':
                    q['cells'] += arrs
                elif s.tag in ('PointData', 'CellData'):
                    q['secs'].append(dict(tag=s.tag, arrs=arrs))
                else:
                    raise Bad('piece holds ' + s.tag)
                seen.append(s.tag)
            if seen.count('Points') != 1 or seen.count('Cells') != 1:
                raise Bad('piece holds ' + str(seen))
            pieces.append(q)
        return dict(ok=True, why='', pieces=pieces)
    except Exception as e:
        return dict(ok=False, why='%s %s' % (type(e).__name__, str(e)[:150]), pieces=[])


def given(x):
    """an array of given shape, eighths, type, byte order and memory layout"""
    a = np.array(x['d'], np.float64).reshape(x['s'])
    a = a.astype(x['t']) / 8 if x['t'].startswith(('float', 'complex')) else a / 8
    a = a.astype(x['t'])
    if x.get('be'):
        a = a.astype(a.dtype.newbyteorder('>'))
    if x.get('lay') == 'F':
        a = np.asfortranarray(a)
    elif x.get('lay') == 'strided':
        b = np.zeros(tuple(2 * i for i in a.shape), a.dtype)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        a = b[tuple(slice(None, None, 2) for _ in a.shape)]
    elif x.get('lay') == 'ro':
        a.flags.writeable = False
    return a


def run(case):
    root = os.path.realpath(tempfile.mkdtemp(prefix='vtu'))
    ws = {}
    pool = {}

    def arr(x):
        # the same array may be given several times
        k = x.get('key')
        if not k:
            return given(x)
        if k not in pool:
            pool[k] = given(x)
        return pool[k]
    try:
        for ev in case['ev']:
            res = dict(ok=True, err='', same=True)
            used = []
            try:
                op = ev['op']
                if op == 'new':
                    ws[ev['w']] = None
                    ws[ev['w']] = VtuWriter(os.path.join(root, ev['w'] + '.vtu'))
                w = ws[ev['w']]
                if op == 'piece':
                    used = [arr(ev[k]) for k in ('pts', 'con', 'ends', 'types')]
                    old = [u.copy() for u in used]
                    cells = tuple(used[1:])
                    w.new_piece(used[0], list(cells) if ev.get('aslist') else cells)
                elif op == 'startp':
                    w.start_pointdata()
                elif op == 'startc':
                    w.start_celldata()
                elif op in ('add', 'addn'):
                    used = [arr(ev['a'])]
                    old = [u.copy() for u in used]
                    fn = w.add_data if op == 'add' else w.add_data_cellpoints
                    if ev['comps']:
                        fn(used[0], ev['name'], tuple(ev['comps']) if ev.get('tup') else list(ev['comps']))
                    elif ev.get('kw'):
                        fn(arr=used[0], name=ev['name'], compnames=None)
                    else:
                        fn(used[0], ev['name'])
                elif op == 'close':
                    w.close()
            except Exception as e:
                res.update(ok=False, err=type(e).__name__)
            if used:
                res['same'] = all(u.dtype == o.dtype and u.shape == o.shape and bool(np.all(u == o))
                                  for u, o in zip(used, old))
                if ev.get('clobber'):
                    # the caller goes on using its arrays for something else
                    for u in used:
                        if u.flags.writeable:
                            u += u.dtype.type(1)
                        for k in [k for k, v in pool.items() if v is u]:
                            del pool[k]
            if ev['op'] == 'close':
                res['doc'] = document(os.path.join(root, ev['w'] + '.vtu'))
            ev['obs'] = res
    finally:
        ws.clear()
        shutil.rmtree(root, ignore_errors=True)
    # what the specification looks at
    for ev in case['ev']:
        for k in ('pts', 'con', 'ends', 'types'):
            if k in ev:
                ev[k] = dict(s=ev[k]['s'], d=[x // 8 for x in ev[k]['d']] if k in ('ends', 'types')
                             else ev[k]['d'], t=ev[k]['t'])
    return case


def main():
    with open(sys.argv[1]) as f:
        cases = json.load(f)
    with open(sys.argv[2], 'w') as f:
        for c in cases:
            f.write(json.dumps(run(c)) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
