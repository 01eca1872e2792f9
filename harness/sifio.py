"""Materialise abstract SESAM interface files as real .FEM/.SIF/.SIU bytes.

An abstract file is a list of logical records.  A logical record is a dict
  name : record name
  kind : 1  input record   (continuation lines carry 8 leading blanks; padded
            to 4 values on unformatted files)
         2  record with NFIELD first (raw continuation data on unformatted)
         3  text record (DATE/TEXT): texts follow the 4 header values
         4  TDxxxx record: name line(s) + text line(s)
         5  index record with a negative first value (-4: header only,
            -5: one extra physical record)
  v    : values in eighths (ints), header first
  t    : list of text lines (kinds 3 and 4)
  split: (kind 2, unformatted) optional list of block sizes in which the
         writer flushed the continuation data

Nothing in this file knows what any record means.
"""
import struct

# values that are no whole number of eighths, or too large to count: an opaque
# number stands for each of them
ODD0 = 1600000000
ODD = [1e-30, -3.4e38, 3.4028235e38, 1.17549435e-38, 0.1, -0.1, 1 / 3., 3.14159265, 0.5001, 0.5002,
       0.50020003, -0.5001, 1e10, -1e10, 1e10 + 1024, 1e-7, -1e-7, 2e-7, 0.0099999, 0.01, 99.99,
       -1e-3, 1e20, 12345.678, 1234.5678, 123456.79, -9.8765e-12, 1.0000001, 0.99999994, -2.3e-5,
       6.0221e23, 1.5e-40, 7.0000005, 40.3, 360.1, -0.7, 1e-5, 2.5e9, 0.30000001, 0.29999998,
       6.283185307, 4.71238898, 1.570796327, 0.785398163, 0.523598776, 2.617993878, 5.497787144,
       -1.570796327, -3.14159265, 0.0261799, 0.02094395, 0.4188790, 0.6981317, 31.41593]
CIRCLE = [7] + list(range(len(ODD) - 14, len(ODD) - 5))    # directions
ODD = [struct.unpack('<f', struct.pack('<f', x))[0] for x in ODD]


def value(v):
    return ODD[v - ODD0] if v >= ODD0 else v / 8.0


def fnum(v):
    return '{:>16.8E}'.format(value(v))


def formatted(recs, eol='\n', pad=None, iend=True, fmt=fnum):
    """bytes of a formatted file. pad(rec) -> bool: fill the last line up to
    four values"""
    out = []
    for r in recs:
        v = list(r['v'])
        n = r['name']
        if r['kind'] in (1, 2) and (pad is not None and pad(r)):
            while len(v) % 4:
                v.append(0)
        if r['kind'] == 5:
            out.append('{:<8}'.format(n) + ''.join(map(fmt, v[:4])))
            if v[0] == -40:
                out.append(' ' * 8 + ''.join(map(fmt, v[4:8])))
            continue
        out.append('{:<8}'.format(n) + ''.join(map(fmt, v[:4])))
        for i in range(4, len(v), 4):
            out.append(' ' * 8 + ''.join(map(fmt, v[i:i + 4])))
        for t in r.get('t', ()):
            if r['kind'] == 3:
                out.append(' ' * 8 + '{:<64}'.format(t))
            else:
                out.append(' ' * 8 + t)
    if iend:
        out.append('IEND    ' + ''.join('{:>16}'.format('0.00')
                                        for _ in range(4)))
    return (eol.join(out) + eol).encode('ascii')


def _raw(b):
    """one logical unformatted record, in chunks of 128"""
    o = b''
    while len(b) > 128:
        o += bytes([129]) + b[:128] + bytes([129])
        b = b[128:]
    return o + bytes([len(b)]) + b + bytes([len(b)])


def _fl(v):
    return struct.pack('<%df' % len(v), *[value(x) for x in v])


def unformatted(recs, iend=True, short=0):
    """short: leave out the fill of a last line (1: always, 2: now and then)"""
    o = b'K'
    for k, r in enumerate(recs):
        v = list(r['v'])
        n = '{:<8}'.format(r['name']).encode()
        head = v[:4] if r.get('bare') else (v[:4] + [0] * 4)[:4]
        o += _raw(n + _fl(head))
        rest = v[4:]
        if r['kind'] == 1:
            for i in range(0, len(rest), 4):
                part = rest[i:i + 4]
                if not r['short'] if 'short' in r else not short or (short == 2 and k % 2):
                    part = (part + [0] * 4)[:4]
                o += _raw(b' ' * 8 + _fl(part))
        elif r['kind'] == 2:
            if rest:
                sizes = r.get('split')
                if not sizes:
                    o += _raw(_fl(rest))
                else:
                    i = 0
                    for s in sizes:
                        if rest[i:i + s]:
                            o += _raw(_fl(rest[i:i + s]))
                        i += s
                    if rest[i:]:
                        o += _raw(_fl(rest[i:]))
        elif r['kind'] == 5:
            if v[0] == -40:
                o += _raw(_fl(rest))
        for t in r.get('t', ()):
            if r['kind'] == 3:
                o += _raw(b' ' * 8 + '{:<64}'.format(t).encode())
            else:
                o += _raw(t.encode())
    if iend:
        o += _raw(b'IEND    ' + _fl([0, 0, 0, 0]))
        o += bytes([130])
    return o


def rec(name, v, kind=1, t=(), **kw):
    d = dict(name=name, kind=kind, v=[int(x) for x in v], t=list(t))
    d.update(kw)
    return d


def nf(name, rest, split=None):
    """a kind-2 record: NFIELD is computed"""
    d = rec(name, [8 * (len(rest) + 1)] + list(rest), 2)
    if split:
        d['split'] = split
    return d
