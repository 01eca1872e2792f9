"""Scenarios: for every property, histories of calls that put it to the test.

scenarios(prop, seed, tier) yields cases for driver.py.
"""
import copy

from gen import (G, MODEL_TYPES, TEXT_TYPES, RESULT_TYPES, HYDRO_TYPES, PLAIN, FOREIGN, OPTIONAL, rec, fileobj,
                 convert, put, case, encs)
from models import Struc, Hier, Hydro, q, rc, pres, BEAM, SHELL

DEPS = {'GELREF1': ['GELMNT1'], 'RDIELCOR': ['RDPOINTS'],
        'RVSTRESS': ['RDPOINTS', 'RDSTRESS', 'RDRESREF'],
        'RVSTRAIN': ['RDPOINTS', 'RDSTRAIN', 'RDRESREF'],
        'RVFORCES': ['RDPOINTS', 'RDFORCES', 'RDRESREF']}
UNIVERSE = MODEL_TYPES + TEXT_TYPES + RESULT_TYPES + HYDRO_TYPES
FPRE = ['', '', 'case01_', 'test-', 'T1_', 'a', 'Model_R2_x', '_a', 'x1', 'G', '__', '1_', 'B2']
PRE = ['', '', '', 'p_', 'x1', 'new-']


def soup_file(g, letter, types, **kw):
    g.odd = g.r.choice([0, 0, .05, .3])
    recs, no = g.soup(letter, types, nblocks=kw.pop('nblocks', 12), rich=kw.pop('rich', True))
    g.odd = 0
    if letter == 'R' and g.r.random() < .5:
        # a direct analysis has one HIERARCH record
        recs.insert(1 if recs[0]['name'] == 'IDENT' else 2,
                    g.nf('HIERARCH', [8, 8 * no, 8, 8, 0, 0, 0]))
    return fileobj(recs, letter, no, enc=kw.pop('enc', None) or encs(g), **kw)


# ------------------------------------------------------- C01 .. C04: content
def content(g, cid, letter, types):
    r = g.r
    kw = {}
    if r.random() < .35:
        kw['flush'] = r.choice([1, 2, 3, 5])
    if r.random() < .3:
        # one record type repeated many times, interleaved with others
        n = r.randint(2, 3)
        ts = r.sample(types, n)
        f = soup_file(g, letter, ts, nblocks=r.randint(10, 25))
    else:
        f = soup_file(g, letter, types, nblocks=r.randint(6, 16))
    return case(cid, {'a': f}, [convert('a', 'x.h5')], **kw)


def systematic(seed, types, letter):
    """every record type on its own: alone, twice, before and after others, in
    every encoding"""
    out = []
    for k, t in enumerate(dict.fromkeys(types)):
        g = G('%s-%s' % (seed, t))
        files, ev = {}, []
        for i, enc in enumerate([dict(fmt='F'), dict(fmt='U'), dict(fmt='F', eol='\r\n', pad=1),
                                 dict(fmt='U', short=1)]):
            f = soup_file(g, letter, [t, t, t, g.r.choice(types)], nblocks=5, enc=enc,
                          dir='d%d' % i)
            files['f%d' % i] = f
            ev.append(convert('f%d' % i, 'x%d.h5' % i))
        out.append(case('sys-%s' % t, files, ev))
    return out


def foreign(seed):
    """every record type of the format that is not stored, before, after and
    between records that are, in both encodings"""
    out = []
    for k in range(0, len(FOREIGN), 8):
        g = G('%s-foreign-%d' % (seed, k))
        files, ev = {}, []
        for i, enc in enumerate([dict(fmt='F'), dict(fmt='U'), dict(fmt='F', eol='\r\n', pad=1),
                                 dict(fmt='U', short=1)]):
            recs = [g.ident(1)]
            for name in FOREIGN[k:k + 8]:
                for kind in g.r.choice([(1, 2), (2, 1), (1,), (2,), (1, 1, 2)]):
                    if name[:2] == 'TD':
                        recs.append(g.td(name))
                    elif kind == 1 and g.r.random() < .25:
                        recs.append(rec(name, [g.i(1, 99)] + g.xs(g.r.randint(0, 2)), 1, bare=True))
                    elif kind == 1:
                        recs.append(rec(name, [g.i(1, 99)] + g.xs(g.r.choice([3, 3, 4, 7, 11, 15])), 1))
                    else:
                        recs.append(g.nf(name, g.xs(g.r.choice([3, 3, 4, 7, 35]))))
                if g.r.random() < .8:
                    recs.append(g.plain(g.r.choice(['GCOORD', 'GELTH', 'MISOSEL', 'GPIPE', 'GUNIVEC'])
                                        if g.r.random() < .7 else 'GNODE')
                                if g.r.random() < .8 else g.td('TDSETNAM'))
            files['f%d' % i] = fileobj(recs, 'T', 1, enc=enc, dir='d%d' % i)
            ev.append(convert('f%d' % i, 'x%d.h5' % i))
        out.append(case('foreign-%d' % k, files, ev))
    return out


def endings(seed):
    """records with any number of their last values missing, before all kinds of records"""
    out = []
    for t in sorted(OPTIONAL):
        g = G('%s-endings-%s' % (seed, t))
        files, ev = {}, []
        for i, enc in enumerate([dict(fmt='F'), dict(fmt='U'), dict(fmt='F', eol='\r\n', pad=1),
                                 dict(fmt='U', short=1)]):
            recs = [g.ident(1)]
            nexts = [g.plain('GNODE'), g.td('TDSECT'), g.plain(t), g.unknown(),
                     rec('MGDAMP', [g.i(1, 9)], 1, bare=True), rec('BNDOF', g.ints(2, 1, 9), 1, bare=True),
                     g.nf('RVELNFOR', g.xs(7)), g.textrec('TEXT')]
            g.r.shuffle(nexts)
            for u in nexts:
                recs += [g.plain(t), u]
            files['f%d' % i] = fileobj(recs, 'T', 1, enc=enc, dir='d%d' % i)
            ev.append(convert('f%d' % i, 'x%d.h5' % i))
        out.append(case('endings-%s' % t, files, ev))
    return out


def many(seed, n):
    """more records of a type than the converter collects before writing"""
    g = G(seed)
    recs = [g.ident(3)] + [rec('GNODE', [8 * (k % 4000), 8 * (k % 5000), 48, 8])
                           for k in range(n)]
    recs += [g.plain('GCOORD') for _ in range(3)]
    return recs


# ----------------------------------------------------------------- C05, C06
def encodings(g, cid):
    r = g.r
    letter, types = r.choice([('T', MODEL_TYPES), ('T', TEXT_TYPES), ('R', RESULT_TYPES),
                              ('G', HYDRO_TYPES)])
    f = soup_file(g, letter, types, nblocks=r.randint(6, 14))
    encl = [dict(fmt='F'), dict(fmt='F', eol='\r\n', pad=r.choice([0, 1, 2, 3])),
            dict(fmt='F', pad=r.choice([1, 2])), dict(fmt='U'),
            dict(fmt='U', short=r.choice([1, 2]))]
    files, ev = {}, []
    for k, e in enumerate(encl):
        h = copy.deepcopy(f)
        h['enc'] = e
        h['dir'] = 'e%d' % k
        if k >= 3:
            for q_ in h['recs']:
                if q_.pop('split', False) is None:
                    continue
                if q_['kind'] == 2:
                    s = [None, [1] * 99, [4] * 99, [32] * 99,
                         [r.randint(1, 32) for _ in range(99)]][r.randrange(5)]
                    if s:
                        q_['split'] = s
        files['f%d' % k] = h
        ev.append(convert('f%d' % k, 'y%d.h5' % k))
    return case(cid, files, ev)


def wishlist(r, names):
    """a list of wanted record names, with what the reading of them needs"""
    only = r.sample(sorted(names), r.randint(1, min(6, len(names))))
    if r.random() < .3:
        only.append(r.choice(UNIVERSE))
    if r.random() < .2:
        only.append('NOSUCH')
    for o in list(only):
        only += DEPS.get(o, [])
    only += sorted({'IDENT', 'HIERARCH'} & names)
    only = list(dict.fromkeys(only))
    r.shuffle(only)
    return only


def wishes(r, files, keys, p):
    """sometimes: a list of the records wanted of these files, as options of a conversion"""
    if r.random() >= p:
        return {}
    names = {q_['name'] for k in keys for q_ in files[k]['recs']}
    return dict(only=wishlist(r, names), onlyform=r.choice(['list', 'tuple', 'set']))


def skipping(g, cid):
    r = g.r
    letter, types = r.choice([('T', MODEL_TYPES), ('T', TEXT_TYPES), ('R', RESULT_TYPES),
                              ('G', HYDRO_TYPES)])
    f = soup_file(g, letter, types, nblocks=r.randint(6, 14))
    recs = f['recs']
    # more records that are not stored, at any place
    for _ in range(r.randint(1, 6)):
        k = r.randint(0, len(recs))
        u = g.unknown() if r.random() < .6 else None
        if u is None:
            nb = {recs[k - 1]['name'] if k else '', recs[k]['name'] if k < len(recs) else ''}
            u = g.index()
            if u['name'] in nb:
                continue
        elif any(q_['kind'] == 5 and q_['name'] == u['name'] for q_ in recs[max(0, k - 1):k + 1]):
            continue
        # never between records that belong to one block of the same name
        if u['kind'] == 5 and 0 < k < len(recs) and recs[k - 1]['name'] == recs[k]['name']:
            continue
        recs.insert(k, u)
    names = [q_['name'] for q_ in recs]
    ev = [convert('a', 'all.h5')]
    for j in range(r.randint(1, 3)):
        ev.append(convert('a', 'o%d.h5' % j, only=wishlist(r, set(names)),
                          onlyform=r.choice(['list', 'tuple', 'set'])))
    return case(cid, {'a': f}, ev)


def wished_together(g, cid):
    """the same list of wanted records for several files, or for all of a hierarchy"""
    r = g.r
    files, ev = {}, []
    h = Hier(g, r.choice('TR'), nmax=5, dir='h', levels=2)
    for key, f in h.files.items():
        files['h' + key] = f
    for k in range(3):
        files['f%d' % k] = small_file(g, dir='d%d' % k)
    hs, fs_ = [k for k in files if k[0] == 'h'], [k for k in files if k[0] == 'f']
    for k in range(2):
        s = [r.choice(fs_) for _ in range(r.randint(2, 3))]
        if r.random() < .4:
            s[r.randrange(len(s))] = 'htop'
        ev.append(convert(s, r.choice(['s%d.h5' % k, '']), tup=r.random() < .5,
                          prefix=['p%d' % i for i in range(len(s))], pflist=True,
                          **wishes(r, files, s + (hs if 'htop' in s else []), 1)))
    ev.append(convert('htop', 'h.h5', **wishes(r, files, hs, 1)))
    ev.append(convert(r.choice(fs_), 'h.h5', append=True, prefix=['q'], **wishes(r, files, fs_, .6)))
    return case(cid, files, ev)


# ------------------------------------------------------------ C07, C08, C09
def damaged(g, f):
    """a copy of a file that cannot be converted"""
    r = g.r
    f = copy.deepcopy(f)
    c = r.random()
    if c < .6:
        f['bad'] = True
        f['enc'] = dict(f['enc'], cut=r.random())
    else:
        recs = f['recs']
        bad = r.choice([
            rec('GELMNT1', [8, 8 * 999, 8 * r.choice([2, 21, 99]), 0] + g.ints(4, 1, 9)),
            g.nf('SCONCEPT', [8, 8 * r.choice([1, 3, 8]), 0, 0, 8, 0, 8]),
            g.nf('SCONMESH', [8, 8 * r.choice([2, 3]), 8, 8, 8])])
        k = r.randint(1, len(recs))
        while k < len(recs) and recs[k]['kind'] == 5:
            k += 1
        recs.insert(k, bad)
        if recs[0]['name'] == 'IRECSIZE' and k == 1:
            recs[0], recs[1] = recs[0], recs[1]
    return f


def small_file(g, **kw):
    r = g.r
    letter, types = r.choice([('T', MODEL_TYPES + TEXT_TYPES), ('T', TEXT_TYPES),
                              ('L', MODEL_TYPES), ('R', RESULT_TYPES), ('G', HYDRO_TYPES)])
    return soup_file(g, letter, types, nblocks=kw.pop('nblocks', r.randint(2, 6)), **kw)


def failing(r, files, keys, p):
    """sometimes: one of the files cannot be read to its end during the call"""
    if r.random() >= p:
        return {}
    return dict(faults=[[r.choice(keys), round(r.random(), 3), r.choice(['io', 'stop', 'mem'])]])


def history(g, cid, n=9):
    r = g.r
    files, ev, srcs = {}, [], []
    for k in range(r.randint(3, 4)):
        if r.random() < .4:
            h = Hier(g, r.choice('TR'), nmax=4, dir='h%d' % k, levels=2)
            for key, f in h.files.items():
                files['h%d%s' % (k, key)] = f
            if r.random() < .3 and h.lower:
                key = 'h%d%s' % (k, h.lower[-1][0])
                files[key] = damaged(g, files[key])
            srcs.append('h%dtop' % k)
        else:
            f = small_file(g, dir='d%d' % k)
            files['f%d' % k] = f
            srcs.append('f%d' % k)
            if r.random() < .6:
                files['b%d' % k] = damaged(g, f)
                files['b%d' % k]['dir'] = 'b%d' % k
                srcs.append('b%d' % k)
    # files that are read with what the converter knows by itself: a result point
    # reference without points, elements without a definition of their own
    for k in range(r.randint(0, 2)):
        ic, n_ = r.choice([(15, 5), (24, 8)])
        f = fileobj([g.ident(r.choice([1, 2, 7]))]
                    + [g.nf('RDIELCOR', [8 * ic, g.i(1, 3)] + g.xs(n_))]
                    + [q_ for rs in [g.one(t, {'el': {}, 'elno': 0, 'pts': [], 'cases': [], 'rf': {},
                                                'ires': 0})
                                     for t in r.sample(['RDFORCES', 'RDRESREF', 'RVNODDIS', 'GNODE'], 2)]
                       for q_ in rs], 'R', 1, dir='s%d' % k, enc=encs(g))
        files['s%d' % k] = f
        srcs += ['s%d' % k] * 2
        f = fileobj([g.ident(3)] + [g.rdpoints(dict(pts=[], icoref=ic - 1)) for ic in (15, 24)],
                    'R', 3, dir='p%d' % k, enc=encs(g))
        files['p%d' % k] = f
        srcs += ['p%d' % k]
    nh = 0
    dbs = ['x.h5', 'y.h5']
    for _ in range(n):
        s = r.choice(srcs)
        if r.random() < .2:
            fam = [k for k in files if k.startswith(s[:-3])] if s.endswith('top') else [s]
            ev.append(dict(op='opensif', h='m%d' % nh, f=s, **failing(r, files, fam, .15)))
            ev.append(dict(op='closeall'))
            nh += 1
        else:
            fam = [k for k in files if k.startswith(s[:-3])] if s.endswith('top') else [s]
            ev.append(convert(s, r.choice(dbs), append=r.random() < .35,
                              usefp=r.random() < .7, prefix=[r.choice(PRE)],
                              **wishes(r, files, fam, .2), **failing(r, files, fam, .15)))
    return case(cid, files, ev)


NAMED = ('dir', 'name', 'stem', 'fpre', 'letter', 'lc', 'ext', 'sin', 'valid')


def rewritten(g, cid):
    """files that are replaced by other ones of the same name, between conversions"""
    r = g.r
    files, slots = {}, []                # slot: lists of keys that take each other's place
    for k in range(2):
        if r.random() < .5:
            h = Hier(g, r.choice('TR'), nmax=5, dir='h%d' % k, levels=2)
            first = {key: 'h%d%s' % (k, key) for key in h.files}
            files.update({first[key]: f for key, f in h.files.items()})
            for key in h.files:
                vs = [first[key]]
                for v in range(r.randint(0, 2)):
                    f = copy.deepcopy(files[vs[0]])
                    f['enc'] = encs(g)
                    if r.random() < .8:
                        for q_ in f['recs']:
                            if q_['name'] == 'IDENT':
                                q_['v'][2] = 8 * (20 + v)
                            elif q_['name'] == 'GCOORD':
                                q_['v'][1:4] = [8 * (v + 1) + (x if abs(x) < 10 ** 6 else 0) for x in q_['v'][1:4]]
                    if r.random() < .15:
                        f = damaged(g, f)
                    vs.append('h%d%s_%d' % (k, key, v))
                    files[vs[-1]] = f
                if key == 'top':
                    slots.insert(0, vs)
                else:
                    slots.append(vs)
        else:
            a = small_file(g, dir='d%d' % k)
            vs = ['f%d' % k]
            files[vs[0]] = a
            for v in range(r.randint(1, 2)):
                for _ in range(30):
                    b = small_file(g, dir='d%d' % k)
                    if b['letter'].upper() == a['letter'].upper():
                        break
                else:
                    b = copy.deepcopy(a)
                b.update({x: a[x] for x in NAMED})
                if r.random() < .15:
                    b = damaged(g, b)
                vs.append('f%d_%d' % (k, v))
                files[vs[-1]] = b
            slots.insert(0, vs)
    disk = [vs[0] for vs in slots]
    now = list(disk)
    tops = [i for i, vs in enumerate(slots) if vs[0].endswith('top') or vs[0][0] == 'f']
    several = [i for i, vs in enumerate(slots) if len(vs) > 1] or tops
    ev = []
    for n in range(8):
        if n and r.random() < .65:
            i = r.choice(several)
            new = r.choice(slots[i])
            ev.append(put([new], [now[i]]))
            now[i] = new
        s = now[r.choice(tops)]
        if r.random() < .25:
            ev.append(dict(op='opensif', h='m%d' % n, f=s))
            ev.append(dict(op='closeall'))
        else:
            ev.append(convert(s, r.choice(['x.h5', 'x.h5', 'y.h5', '']), append=False,
                              usefp=r.random() < .8, prefix=[r.choice(PRE)] if r.random() < .3 else None))
    return case(cid, files, ev, disk=disk)


def appending(g, cid):
    r = g.r
    files, ev = {}, []
    keys = []
    for k in range(r.randint(2, 4)):
        f = small_file(g, dir='d%d' % k if r.random() < .8 else '', fpre=r.choice(FPRE),
                       nblocks=r.randint(1, 4), lc=r.random() < .2)
        files['f%d' % k] = f
        keys.append('f%d' % k)
    if r.random() < .5:
        k = r.choice(keys)
        files['bad'] = damaged(g, files[k])
        files['bad']['dir'] = 'bad'
    # two files in the same place may have the same name: keep one
    seen, drop = set(), []
    for k, f in files.items():
        if (f['dir'], f['name']) in seen:
            drop.append(k)
        seen.add((f['dir'], f['name']))
    for k in drop:
        del files[k]
    keys = [k for k in keys if k in files]
    files['gone'] = dict(fileobj([g.ident(1)], 'T', 1, dir='nowhere'))
    files['inv'] = dict(fileobj([g.ident(1)], 'T', 1, name=r.choice(
        ['model.FEM', 'T0.FEM', 'X1.FEM', 'T1.DAT', 'FEM']), valid=False))
    files['sin'] = fileobj([g.ident(1)], 'R', 1, ext=r.choice(['SIN', 'sin']))
    disk = [k for k in files if k != 'gone']
    dbs = ['x.h5', 'y.h5', '']
    for _ in range(r.randint(3, 6)):
        c = r.random()
        if c < .12:
            ev.append(convert(r.choice(['gone', 'inv', 'sin']), r.choice(dbs[:2]),
                              append=r.random() < .5))
            continue
        if c < .2 and 'bad' in files:
            ev.append(convert('bad', r.choice(dbs[:2]), append=r.random() < .6,
                              prefix=[r.choice(PRE)]))
            continue
        if c < .25:
            ev.append(convert(r.choice(keys), '', append=True))
            continue
        db = r.choice(dbs)
        pres_ = dict(full=r.random() < .4, abs=r.random() < .4, absdb=r.random() < .4)
        if r.random() < .35:
            n = r.randint(1, 3)
            s = [r.choice(keys + (['gone'] if r.random() < .1 else [])) for _ in range(n)]
            pl = r.random() < .6
            pf = [r.choice(PRE) + str(i) for i in range(n)] if pl else [r.choice(PRE)] * n
            if r.random() < .2:
                pf = [''] * n
            if pl and pf[0] and r.random() < .12:  # one too few, or too many
                pf = pf[1:] or pf * 2 if r.random() < .6 else pf + ['z']
            ev.append(convert(s, db, append=bool(db) and r.random() < .4, usefp=r.random() < .6,
                              prefix=pf, pflist=pl, tup=r.random() < .4, **pres_,
                              **wishes(r, files, s, .3), **failing(r, files, s, .1)))
        else:
            s = r.choice(keys)
            ev.append(convert(s, db, append=bool(db) and r.random() < .6,
                              usefp=r.random() < .6, prefix=[r.choice(PRE)], **pres_,
                              **wishes(r, files, [s], .15), **failing(r, files, [s], .1)))
    return case(cid, files, ev, disk=disk)


def hierarchy_files(g, cid):
    r = g.r
    h = Hier(g, r.choice('TR'), lc=r.random() < .25, fpre=r.choice(FPRE), dir=r.choice(['', 'd', 'd/e']),
             ext=r.choice([None, None, 'any']), nmax=8)
    files = dict(h.files)
    disk = list(files)
    ev = []
    # decoys: other directories, prefixes, extensions, numbers
    for key, row in h.lower:
        if r.random() < .5:
            f = copy.deepcopy(files[key])
            c = r.randrange(5)
            if c == 0:
                f['dir'] = r.choice([d for d in ('', 'd', 'other') if d != f['dir']])
            elif c == 4:
                f['dir'] = '' if f['dir'] else 'd'
            elif c == 1:
                f['name'] = 'zz' + f['name']
            elif c == 2:
                f['name'] = f['name'][:-3] + ('SIU' if f['name'][-3:].upper() == 'SIF' else 'SIF')
            else:
                f['name'] = f['name'].replace('.', 'H97.' if 'H' not in f['name'].upper() else '7.')
            f['recs'] = [g.ident(55)]
            if (f['dir'], f['name']) not in {(x['dir'], x['name']) for x in files.values()}:
                files['dec' + key] = f
                disk.append('dec' + key)
    gone = [k for k, _ in h.lower if r.random() < .25]
    for k in gone:
        disk.remove(k)
    ev.append(convert('top', 'x.h5', usefp=r.random() < .7, prefix=[r.choice(PRE)],
                      abs=r.random() < .5, **wishes(r, files, list(h.files), .2),
                      **failing(r, files, list(h.files), .12)))
    if gone and r.random() < .6:
        back = r.sample(gone, r.randint(1, len(gone)))
        ev.append(put(back))
        ev.append(convert('top', r.choice(['x.h5', 'y.h5'])))
    if h.lower and r.random() < .4:
        k = r.choice(h.lower)[0]
        if k not in gone:
            ev.append(put([], [k]))
            ev.append(convert('top', r.choice(['x.h5', 'z.h5']), append=False))
    if r.random() < .3:
        # a second hierarchy in the same directory
        g2 = Hier(g, h.letter, fpre='other_', dir=h.kw['dir'], nmax=4, levels=2)
        for k, f in g2.files.items():
            files['o' + k] = f
            disk.append('o' + k)
        ev.append(convert('otop', 'x.h5', append=True, usefp=True, prefix=['sec_']))
    return case(cid, files, ev, disk=disk)


# ---------------------------------------------------------------- queries
NONE = dict(m='none', v=[])


def sel_args(g, st, kinds=('', 'beam', 'shell')):
    """a selection, rarely one of no elements at all"""
    r = g.r
    if st.setdef and r.random() < .1:
        sets = r.sample(sorted(st.setdef), r.randint(1, min(2, len(st.setdef)))) if r.random() < .6 else []
        return dict(sets=sets, kind=r.choice(kinds), setsform=r.choice(['str', 'list', 'tuple']))
    have = {t for t in st.types}
    ks = [k for k in kinds if k == '' or any(t in (BEAM if k == 'beam' else SHELL) for t in have)]
    kind = r.choice(ks)
    sets = st.pick_sets(kind) if r.random() < .6 else []
    return dict(sets=sets, kind=kind, setsform=r.choice(['str', 'list', 'tuple']))


def bad_sel(g, st):
    r = g.r
    c = r.randrange(3)
    if c == 0:
        return dict(sets=['NOSUCHSET'])
    if c == 1 and st.setdef:
        return dict(sets=[sorted(st.setdef)[0], 'NOSUCHSET'])
    return dict(kind=r.choice(['plate', 'beams', 'solid']))


def struc_case(cid, st, ds, queries, mem=False, flush=0, **kw):
    files = {'a': st.file()}
    if mem:
        ev = [dict(op='opensif', h='h', f='a')]
        dsn = '@'
    else:
        ev = [convert('a', 'x.h5'), dict(op='open', h='h', db='x.h5')]
        dsn = ds
    for e in queries:
        e['h'] = 'h'
        e['ds'] = dsn
    d = case(cid, files, ev + queries, fastdig=True)
    if flush:
        d['flush'] = flush
    d.update(kw)
    return d


def onefile(st):
    return st.letter + str(st.seltyp)


def selection(g, cid):
    r = g.r
    st = Struc(g, r.choice(['mix', 'mixthick', 'beams', 'thin', 'mix', 'all']), nel=r.randint(3, 9), vals=(),
               letter='T')
    st = with_hier(st)
    qs = []
    for _ in range(6):
        a = sel_args(g, st)
        if r.random() < .12:
            a = dict(sel_args(g, st), **bad_sel(g, st))
        b = dict(a)
        b.pop('kind')
        qs += [q('', '', 'get_elements', presentation=pres(r), **a),
               q('', '', 'get_elementnumbers', presentation=pres(r), ntype='external', **a),
               q('', '', 'get_elementnumbers', presentation=pres(r), ntype='internal', **a)]
    if r.random() < .3:
        qs.append(q('', '', 'get_elementnumbers', ntype='extern'))
    return struc_case(cid, st, onefile(st), qs, mem=r.random() < .3)


def setqueries(g, cid):
    """unions of sets with much alike names"""
    r = g.r
    st = Struc(g, r.choice(['mix', 'beams', 'thin']), nel=r.randint(4, 9), vals=(), letter='T',
               short=True)
    names = sorted(st.setdef)
    qs = []
    for _ in range(10):
        qs.append(q('', '', r.choice(['get_elementnumbers', 'get_elementnumbers', 'get_elements']),
                    sets=r.sample(names, r.randint(1, min(3, len(names)))),
                    setsform=r.choice(['str', 'list', 'tuple'])))
    return struc_case(cid, st, onefile(st), qs, mem=r.random() < .3)


def with_hier(st):
    return st


def connectivity(g, cid):
    r = g.r
    st = Struc(g, r.choice(['mix', 'mixthick', 'beams', 'thin', 'other', 'all']), nel=r.randint(2, 8), vals=(),
               letter='T')
    qs = []
    for _ in range(5):
        a = sel_args(g, st)
        if r.random() < .12:
            a = dict(a, **bad_sel(g, st))
        a['disc'] = r.random() < .5
        b = dict(a)
        n = [q('', '', 'get_nodes', presentation=pres(r), **a),
             q('', '', 'get_elements', presentation=pres(r), **a),
             q('', '', 'get_nodenumbers', presentation=pres(r), ntype='external', **b),
             q('', '', 'get_nodenumbers', presentation=pres(r), ntype='internal', **b)]
        r.shuffle(n)
        qs += n
    return struc_case(cid, st, onefile(st), qs, mem=r.random() < .3)


def noderes(g, cid, cpl=None):
    r = g.r
    vals = r.sample(['RVNODDIS', 'RVNODVEL', 'RVNODACC'], r.randint(1, 3))
    g.odd = r.choice([0, 0, .1, .4])
    st = Struc(g, r.choice(['mix', 'mixthick', 'beams', 'thin', 'other', 'all']), nel=r.randint(2, 6),
               ncase=r.randint(1, 4), runs=r.choice([1, 1, 2]), cpl=cpl or r.choice(
                   ['real', 'complex', 'real', 'complex']), vals=vals)
    names = dict(RVNODDIS='displacement', RVNODVEL='velocity', RVNODACC='acceleration')
    qs = []
    for _ in range(7):
        a = sel_args(g, st)
        a['disc'] = r.random() < .5
        a['restype'] = names[r.choice(vals)]
        if r.random() < .08:
            a['restype'] = r.choice(['displacement', 'velocity', 'acceleration', 'reaction'])
        run = r.choice(st.runnos)
        a['rc'] = rc(g, st, run)
        a['run'] = run if r.random() < .95 else 7
        qs.append(q('', '', 'get_noderesults', presentation=pres(r), **a))
        if r.random() < .2:
            qs.append(q('', '', 'get_nodes', sets=a['sets'], kind=a['kind'], disc=a['disc']))
    return struc_case(cid, st, onefile(st), qs, mem=r.random() < .3, flush=r.choice([0, 0, 3]))


def elemres(g, cid, fam, second):
    r = g.r
    beam = fam in ('beam2', 'beam3', 'beams')
    mixed = fam in ('mix', 'mixthick')
    vals = ['RVFORCES', 'RVSTRESS'] if mixed else ['RVFORCES'] if beam else ['RVSTRESS']
    st = Struc(g, fam, nel=r.randint(2, 5), ncase=r.randint(1, 3), runs=r.choice([1, 1, 2]),
               cpl=r.choice(['real', 'complex', 'real']), vals=vals)
    qs = []
    for _ in range(6):
        if mixed:
            kind = r.choice([k for k, ts in (('beam', BEAM), ('shell', SHELL))
                             if set(st.types) & set(ts)])
        else:
            kind = 'beam' if beam else 'shell'
        sets = st.pick_sets(kind) if r.random() < .6 else []
        if st.setdef and r.random() < .06:      # maybe none at all
            sets = [r.choice(sorted(st.setdef))]
        rt = 'beamforce' if kind == 'beam' else r.choice(['generalstress', 'decomposedstress'])
        pos = 'nodes'
        if second and r.random() < .3 and rt != 'decomposedstress':
            pos = 'respts'
            if kind == 'beam':
                ok = not sets or True
                ts = st.types if not sets else [st.types[e - 1] for n in sets for e in st.setdef[n]]
                if any(t == 15 for t in ts):
                    pos = 'nodes'
        if r.random() < .05:
            rt = 'nosuch'
        run = r.choice(st.runnos)
        qs.append(q('', '', 'get_elementresults', sc=1000, tol=14, presentation=pres(r), sets=sets,
                    setsform=r.choice(['str', 'list', 'tuple']), restype=rt, pos=pos,
                    run=run, rc=rc(g, st, run)))
        if r.random() < .3:
            qs.append(q('', '', 'get_elements', sets=sets, kind=kind))
    return struc_case(cid, st, onefile(st), qs, mem=r.random() < .3, flush=r.choice([0, 0, 3]))


def export(g, cid):
    """results of one selection after another, given to a VTU writer"""
    r = g.r
    fam = r.choice(['beam2', 'beam3', 'beams', 'thin', 'thick', 'thick', 'mixthick', 'mix', 'all', 'all'])
    st = Struc(g, fam, nel=r.randint(2, 5) if fam != 'all' else r.randint(3, 8), ncase=r.randint(1, 2), runs=r.choice([1, 1, 2]),
               cpl='real', vals=('RVNODDIS', 'RVFORCES', 'RVSTRESS'))
    have = set(st.types)
    kinds = [k for k, ts in (('beam', BEAM), ('shell', SHELL)) if have & set(ts)]
    if not have & {16, 18}:
        kinds.append('')
    evs = []
    for n in range(2):
        pieces = []
        for _ in range(r.randint(1, 3)):
            kind = r.choice(kinds)
            sets = st.pick_sets(kind) if r.random() < .5 else []
            sel = dict(sets=sets, kind=kind, setsform=r.choice(['str', 'list', 'tuple']),
                       disc=r.random() < .7)

            def arr(fn, n, sc=1, tol=0, nodes=False, surf=1, **a):
                lo = r.randint(1, n)
                hi = r.randint(lo, n)
                one = n == 1 or lo == hi and r.random() < .5
                e = q('', '', fn, **dict(sel, **a))
                return dict(fn=fn, a=e['a'], sc=sc, tol=tol, nodes=nodes, surf=surf, lo=lo, hi=hi,
                            flat=one, name=r.choice(['u', 'disp', 'sig <1>', fn]), comps=[])
            secs = []
            for _ in range(r.randint(1, 2)):
                arrs = []
                for _ in range(r.randint(1, 3)):
                    run = r.choice(st.runnos)
                    one = dict(m='int', v=[r.choice([c[2] for c in st.cases if c[1] == run])])
                    c = r.random()
                    if c < .3:
                        arrs.append(arr('get_noderesults', 6, restype='displacement', run=run, rc=one))
                    elif c < .4:
                        arrs.append(arr('get_nodenumbers', 1, ntype=r.choice(['internal', 'external'])))
                    elif kind and sel['disc'] and (kind == 'beam' or fam != 'all'):
                        types = [st.types[e - 1] for s in sets for e in st.setdef[s]] if sets else st.types
                        thick = bool(set(types) & {26, 28})
                        rt = 'beamforce' if kind == 'beam' else r.choice(['generalstress', 'decomposedstress'])
                        nc = 6 if kind == 'beam' else (5 if thick else 3) if rt == 'generalstress' \
                            else 8 if thick else 6
                        arrs.append(arr('get_elementresults', nc, sc=1000, tol=14, nodes=True,
                                        surf=r.choice([1, 2]) if rt == 'generalstress' else 1,
                                        restype=rt, run=run, rc=one))
                if arrs:
                    secs.append(dict(tag='PointData', arrs=arrs))
            if r.random() < .6:
                arrs = [arr('get_elementnumbers', 1, ntype=r.choice(['internal', 'external']))]
                if kind == 'shell' and 'GELTH' in [x['name'] for x in st.recs]:
                    arrs.append(arr('get_shell_thicknesses', 1))
                secs.append(dict(tag='CellData', arrs=arrs))
            e = q('', '', 'get_nodes', presentation=pres(r), **sel)
            pieces.append(dict(a=e['a'], secs=secs, full=e['full']))
        evs.append(dict(op='export', pieces=pieces))
    return struc_case(cid, st, onefile(st), evs, mem=r.random() < .3)


def rescases(g, cid):
    r = g.r
    st = Struc(g, r.choice(['mix', 'thin', 'beam2']), nel=r.randint(2, 3), ncase=r.randint(2, 6),
               runs=r.randint(1, 3), cpl=r.choice(['real', 'complex', 'mixed', 'mixed']),
               vals=('RVNODDIS', 'RVFORCES', 'RVSTRESS'))
    have = set(st.types)
    qs = []
    for _ in range(10):
        run = r.choice(st.runnos)
        c = rc(g, st, run)
        if r.random() < .1:
            c = dict(m=r.choice(['int', 'list']), v=[98])
        if r.random() < .05:
            run = 9
        f = r.choice(['get_noderesults', 'get_elementresults'])
        if f == 'get_noderesults':
            qs.append(q('', '', f, presentation=pres(r), restype='displacement', run=run, rc=c))
        else:
            beam = have & set(BEAM) and (not have & set(SHELL) or r.random() < .5)
            if not beam and not have & set(SHELL):
                continue
            qs.append(q('', '', f, sc=1000, tol=14, presentation=pres(r),
                        restype='beamforce' if beam else 'generalstress', run=run, rc=c))
    return struc_case(cid, st, onefile(st), qs, mem=r.random() < .3)


def props(g, cid):
    r = g.r
    st = Struc(g, r.choice(['mix', 'mixthick', 'beams', 'thin']), nel=r.randint(3, 9),
               ncase=r.randint(1, 3), vals=('RVNODDIS',) if r.random() < .7 else (), letter='R',
               sets=r.random() < .85, props=r.random() < .9)
    have = set(st.types)
    qs = [q('', '', 'get_setnames')]
    for _ in range(5):
        for kind, fn in (('beam', 'get_section_properties'), ('shell', 'get_shell_thicknesses')):
            if have & set(BEAM if kind == 'beam' else SHELL):
                sets = st.pick_sets(kind) if st.setdef and r.random() < .7 else []
                if r.random() < .1:
                    sets = ['NOSUCHSET']
                a = dict(sets=sets, setsform=r.choice(['str', 'list', 'tuple']))
                qs.append(q('', '', fn, presentation=pres(r), **a))
                if r.random() < .4:
                    qs.append(q('', '', 'get_elementnumbers', kind=kind, **a))
    for _ in range(3):
        loads = getattr(st, 'loads', [1])
        v = r.sample(loads, r.randint(1, len(loads))) + r.choice([[], [], [99], [0, 7777]])
        if r.random() < .4:
            v += [r.choice(v) for _ in range(r.randint(1, 4))]
        if r.random() < .5:
            r.shuffle(v)
        c = r.choice([NONE, dict(m='int', v=[r.choice(loads)]),
                      dict(m=r.choice(['list', 'tuple', 'array']), v=v),
                      dict(m=r.choice(['list', 'tuple', 'array']), v=v)])
        qs.append(q('', '', 'get_resultcase_names', presentation=pres(r), rc=c))
    return struc_case(cid, st, onefile(st), qs, mem=r.random() < .3)


def transforms(g, cid):
    r = g.r
    if r.random() < .15:
        return direct_transform(g, cid)
    h = Hier(g, r.choice('TTR'), nmax=9, fpre='', dir='')
    files = dict(h.files)
    ev = [convert('top', 'x.h5'), dict(op='open', h='h', db='x.h5')]
    first = [(k, w) for k, w in h.lower if w['islevl'] == 1]
    for _ in range(7):
        k, w = r.choice(first)
        ds = h.path(k, w)
        c = r.random()
        if c < .3:
            tr = dict(m='top', v=[])
        elif c < .75:
            tr = dict(m='int', v=[r.choice([1, 2, 2, 3, 4, h.toplevel, h.toplevel + 1, 0, -1])])
        elif c < .85:
            tr = dict(m='mat', v=h.matrix())
        elif c < .9:
            tr = dict(m='mat', v=h.matrix()[:12])
        elif c < .95:
            tr = dict(m='bad', v=[])
        else:
            tr = NONE
        idx = r.choice([1, 1, 2, 3, 7])
        st = h.struc[k]
        a = sel_args(g, st) if r.random() < .5 else {}
        ev.append(q('h', ds, 'get_nodes', presentation=pres(r), trans=tr, index=idx,
                    disc=r.random() < .3, **a))
    top = 'T%d' % h.top if h.letter == 'T' else 'R%d' % h.top
    for _ in range(5):
        w = r.choice(h.rows)
        lv = r.choice([dict(m='top', v=[]), dict(m='int', v=[r.choice([0, 1, 2, 3, h.toplevel, h.toplevel + 1])])])
        ev.append(q('h', top, 'get_transformation', presentation=dict(full=r.random() < .4),
                    seltyp=w['iselty'] if r.random() < .9 else 98,
                    index=w['indsel'] if r.random() < .9 else 8, trans=lv))
    return case(cid, files, ev, fastdig=True)


def direct_transform(g, cid):
    """data without hierarchy: RSUPTRAN gives the top level"""
    r = g.r
    st = Struc(g, 'mix', nel=3, vals=(), letter=r.choice('RT'), sets=False)
    if r.random() < .6:
        m = Hier.matrix(type('x', (), {'g': g})())
        st.recs.append(g.nf('RSUPTRAN', [8] + m))
    qs = [q('', '', 'get_nodes', trans=t) for t in (
        dict(m='top', v=[]), dict(m='int', v=[1]), dict(m='int', v=[2]), NONE,
        dict(m='mat', v=Hier.matrix(type('x', (), {'g': g})())))]
    return struc_case(cid, st, onefile(st), qs)


# ------------------------------------------------------------------- hydro
def hydro_response(g, cid):
    r = g.r
    h = Hydro(g, domain='freq' if r.random() < .93 else 'time', odd=r.random() < .4)
    qs = []
    ap = dict(sc=1000, tol=40)
    for b in h.bodies + ([r.choice([99, 0])] if r.random() < .3 else []):
        for fn in ('get_motion_raos', 'get_excitationforce_raos', 'get_sectionforce_raos',
                   'get_meandrift', 'get_horiz_meandrift', 'get_panel_pressures',
                   'get_pressure_panel_ids'):
            qs.append(q('', '', fn, presentation=pres(r), body=b))
    for w in ('pressure', 'velocity', 'vorticity'):
        qs.append(q('', '', 'get_fluidkinematics_raos', presentation=pres(r), what=w))
    qs.append(q('', '', 'get_fluidkinematics_raos', presentation=pres(r), what='elevation',
                sc=1000, tol=4))
    qs += [q('', '', 'get_directions', unit='radians'), q('', '', 'get_angular_freqs')]
    r.shuffle(qs)
    return struc_case(cid, h, 'G%d' % h.seltyp, qs, mem=r.random() < .4, flush=r.choice([0, 0, 4]))


def hydro_system(g, cid):
    r = g.r
    parts = None
    if r.random() < .4:
        parts = r.sample(['WBODY', 'W1MATRIX', 'W1MOTION', 'WSECTION', 'WFKPOINT', 'W1PANPRE'],
                         r.randint(0, 5))
    h = Hydro(g, domain='freq' if r.random() < .7 else 'time', parts=parts,
              odd='some' if r.random() < .35 else False)
    qs = [q('', '', 'constants'), q('', '', 'get_angular_freqs'), q('', '', 'get_timesteps'),
          q('', '', 'get_periods', sc=1000, tol=3), q('', '', 'get_directions', unit='radians'),
          q('', '', 'get_directions', unit='degrees', sc=1000, tol=60),
          q('', '', 'get_directions', unit='grad'), q('', '', 'get_sections'),
          q('', '', 'get_points')]
    mats = getattr(h, 'mats', [])
    cond = dict(zip(h.conds, h.bodies))
    for ci, cj, t in r.sample(mats, min(8, len(mats))):
        b = dict(body=cond[ci], body2=cond[cj])
        qs.append(q('', '', 'get_matrix', presentation=pres(r), mtyp=t, **b))
        fn = {11: 'get_bodymass', 12: 'get_addedmass', 21: 'get_potentialdamping',
              22: 'get_viscousdamping', 31: 'get_hydrostatic_restoring',
              32: 'get_mooring_restoring'}[t]
        qs.append(q('', '', fn, presentation=pres(r), **b))
    have = set(mats)
    for t in (11, 22, 31, 32, 13):
        ci, cj = r.choice(h.conds), r.choice(h.conds)
        if (ci, cj, t) not in have:
            qs.append(q('', '', 'get_matrix', mtyp=t, body=cond[ci], body2=cond[cj]))
    for b in h.bodies + [77, 0]:
        qs.append(q('', '', 'get_bodyproperties', presentation=pres(r), body=b))
        qs.append(q('', '', 'get_pressure_panel_ids', body=b))
    r.shuffle(qs)
    return struc_case(cid, h, 'G%d' % h.seltyp, qs, mem=r.random() < .4, flush=r.choice([0, 0, 4]))


# ------------------------------------------- questions much like one another
def struc_pool(g, st, n):
    """questions to one structural dataset, many of them different in one argument"""
    r = g.r
    have = set(st.types)
    kinds = [k for k, ts in (('beam', BEAM), ('shell', SHELL)) if have & set(ts)]
    out = [q('', '', 'get_setnames'), q('', '', 'get_resultcase_names'),
           q('', '', 'get_resultcase_names', rc=dict(m='int', v=[1])), bad_q(g, st), bad_q(g, st)]
    sel = {k: [[]] + [st.pick_sets(k) for _ in range(2)] for k in kinds + ['']}
    exts = [(c[1], c[2]) for c in st.cases]
    run, ext = r.choice(exts)
    rcs = [(run, dict(m='int', v=[ext])), (run, NONE), (r.choice(exts)[0], NONE),
           (run, dict(m='list', v=[x for a, x in exts if a == run]))]
    grid = []
    for k in kinds + ['']:
        for s in sel[k]:
            for d in (False, True):
                a = dict(sets=s, kind=k, disc=d)
                grid += [q('', '', fn, **a) for fn in ('get_nodes', 'get_elements')]
                grid += [q('', '', 'get_nodenumbers', ntype=t, **a) for t in ('internal', 'external')]
                grid += [q('', '', 'get_noderesults', restype=t, run=rn, rc=rc_, **a)
                         for t in ('displacement', 'velocity') for rn, rc_ in rcs]
            grid += [q('', '', 'get_elementnumbers', sets=s, kind=k, ntype=t) for t in ('internal', 'external')]
            if k:
                grid.append(q('', '', 'get_section_properties' if k == 'beam' else 'get_shell_thicknesses', sets=s))
                for rt in (['beamforce'] if k == 'beam' else ['generalstress', 'decomposedstress']):
                    grid += [q('', '', 'get_elementresults', sc=1000, tol=14, sets=s, restype=rt, run=rn, rc=rc_)
                             for rn, rc_ in rcs]
    fns = sorted({e['fn'] for e in grid})
    while len(out) < n:      # as many of each kind
        own = [e for e in grid if e['fn'] == r.choice(fns)]
        e = r.choice(own) if own else None
        if e and e not in out:
            out.append(e)
    return out


def bad_q(g, st):
    return q('', '', g.r.choice(['get_nodes', 'get_elements', 'get_elementnumbers', 'get_nodenumbers']),
             **bad_sel(g, st))


def hier_pool(g, h, n):
    """questions to the datasets of a hierarchy"""
    r = g.r
    first = [(k, w) for k, w in h.lower if w['islevl'] == 1]
    mats = [h.matrix(), h.matrix()[:12]]
    top = h.letter + str(h.top)
    trs = [NONE, dict(m='top', v=[]), dict(m='mat', v=mats[0]), dict(m='mat', v=mats[1]), dict(m='bad', v=[])] \
        + [dict(m='int', v=[k]) for k in range(0, h.toplevel + 2)]
    grid = []
    for k, w in first:
        p = h.path(k, w)
        grid += [q('', p, 'get_nodes', trans=t, index=i, disc=d)
                 for t in trs for i in (1, 2) for d in (False, True)]
        grid += [q('', p, fn) for fn in ('get_elements', 'get_elementnumbers', 'get_setnames')] * 2
    for w in h.rows:
        grid += [q('', top, 'get_transformation', seltyp=w['iselty'], index=i, trans=dict(m=m, v=v))
                 for i in (w['indsel'], 7) for m, v in (('top', []), ('int', [1]), ('int', [h.toplevel]))]
    out = []
    for e in r.sample(grid, len(grid)):
        if e not in out:
            out.append(e)
    return out[:n]


def hydro_pool(g, h, n):
    r = g.r
    grid = []
    for b in h.bodies + [77, 0]:
        for fn in ('get_motion_raos', 'get_excitationforce_raos', 'get_sectionforce_raos',
                   'get_meandrift', 'get_horiz_meandrift', 'get_panel_pressures',
                   'get_pressure_panel_ids', 'get_bodyproperties'):
            grid.append(q('', '', fn, body=b))
        for b2 in h.bodies + [77]:
            grid += [q('', '', 'get_matrix', body=b, body2=b2, mtyp=t) for t in (11, 12, 13, 21, 22, 31, 32)]
            grid += [q('', '', fn, body=b, body2=b2) for fn in (
                'get_bodymass', 'get_addedmass', 'get_potentialdamping', 'get_viscousdamping',
                'get_hydrostatic_restoring', 'get_mooring_restoring')]
    grid += [q('', '', 'get_fluidkinematics_raos', what=w) for w in ('pressure', 'velocity', 'vorticity')]
    grid += [q('', '', fn) for fn in ('get_angular_freqs', 'get_timesteps', 'get_sections', 'get_points', 'constants')]
    out = [q('', '', 'get_fluidkinematics_raos', what='elevation', sc=1000, tol=4),
           q('', '', 'get_periods', sc=1000, tol=3), q('', '', 'get_directions', unit='radians'),
           q('', '', 'get_directions', unit='degrees', sc=1000, tol=60), q('', '', 'get_directions', unit='grad')]
    return out + r.sample(grid, min(len(grid), n - len(out)))


# ------------------------------------------------------- C10: direct opening
def varied(g, f):
    """a file with the same records, but other values and other set members"""
    r = g.r
    f = copy.deepcopy(f)
    f['enc'] = encs(g)
    ne = len([1 for q_ in f['recs'] if q_['name'] == 'GELMNT1'])
    k = 8 * r.randint(1, 5)
    turn = 8 * r.randint(1, max(1, ne - 1))
    for q_ in f['recs']:
        n, v = q_['name'], q_['v']
        if n == 'GCOORD':
            v[1:4] = [k if abs(x) > 10 ** 6 else x + k for x in v[1:4]]
        elif n in ('GNODE', 'GELMNT1'):
            v[0] += k
        elif n == 'GSETMEMB' and v[3] == 16:
            v[5:] = [(x - 8 + turn) % (8 * ne) + 8 for x in v[5:]]
        elif n == 'RVSTRESS':     # both layers alike
            v[5:] = [k if abs(x) > 10 ** 6 else x + k for x in v[5:]]
        elif n in ('RVNODDIS', 'RVNODVEL', 'RVNODACC', 'RVFORCES', 'W1EXFORC', 'W1MOTION',
                   'W1MATRIX', 'WFLUIDKN', 'W1SFORCE', 'GBEAMG'):
            v[-1] = k if abs(v[-1]) > 10 ** 6 else v[-1] + k
    return f


def replaced(g, cid):
    """two files that take each other's place, opened directly or through a database
    that is written anew, and asked the same kind of questions"""
    r = g.r
    sub = r.choice([selection, connectivity, noderes, props, hydro_response, hydro_system,
                    lambda g_, i: elemres(g_, i, r.choice(
                        ['beam2', 'thin', 'mix', 'beam3', 'thick', 'beams', 'mixthick']), True)])
    pair = []
    for _ in range(60):
        d = sub(g, cid)
        if list(d['files']) == ['a'] and len([e for e in d['ev'] if e['op'] in ('convert', 'opensif')]) == 1:
            pair.append(d)
        if len(pair) == 2:
            break
    else:
        return direct_soup(g, cid)
    files = {'a': pair[0]['files']['a'], 'b': pair[1]['files']['a']}
    files['b'].update({x: files['a'][x] for x in NAMED})
    qs = [[e for e in d['ev'] if e['op'] == 'q'] for d in pair]
    if r.random() < .6:
        files['b'] = varied(g, files['a'])
        qs = [r.sample(qs[0], min(6, len(qs[0])))] * 2
        pair[1] = pair[0]
    mems = [any(e['op'] == 'opensif' for e in d['ev']) for d in pair]
    ev, now = [], 0
    for n in range(5):
        if n and r.random() < .8:
            ev.append(put(['ab'[1 - now]], ['ab'[now]]))
            now = 1 - now
        mem = mems[now] or r.random() < .5    # the name of the dataset is only known for databases
        if mem:
            ev.append(dict(op='opensif', h='n%d' % n, f='ab'[now]))
        else:
            ev += [convert('ab'[now], 'x.h5'), dict(op='open', h='n%d' % n, db='x.h5')]
        for e in r.sample(qs[now], min(4, len(qs[now]))):
            ev.append(dict(copy.deepcopy(e), h='n%d' % n, ds='@' if mem else e['ds']))
        ev.append(r.choice([dict(op='closeall'), dict(op='close', h='n%d' % n, via='')]))
    return case(cid, files, ev, disk=['a'], fastdig=True)


def both_ways(g, cid):
    """the same questions to a database on disk and to the file opened directly"""
    r = g.r
    c = r.random()
    if c < .2:
        return direct_soup(g, cid)
    sub = r.choice([selection, connectivity, noderes, rescases, props, transforms, hydro_response,
                    hydro_system, lambda g_, i: elemres(g_, i, r.choice(
                        ['beam2', 'thin', 'mix', 'beam3', 'thick', 'beams', 'mixthick']), True)])
    for _ in range(20):
        d = sub(g, cid)
        if d['ev'][0]['op'] == 'convert':
            break
    else:
        return direct_soup(g, cid)
    src = d['ev'][0]['src'][0]
    qs = [e for e in d['ev'] if e['op'] == 'q']
    qs = r.sample(qs, min(len(qs), 10))
    top = [e['ds'] for e in d['ev'] if e['op'] == 'q']
    pre, post = [], []
    convs = [e for e in d['ev'] if e['op'] != 'q']
    sif = dict(op='opensif', h='m', f=src, abs=r.random() < .4)
    (pre if r.random() < .5 else post).append(sif)
    hier = len(d['files']) > 1
    both = []
    for e in qs:
        m = dict(copy.deepcopy(e), h='m', ds=e['ds'] if hier else '@')
        pair = [e, m]
        r.shuffle(pair)
        both += pair
    asks = [dict(op='ask', h=h, fn=fn, key=r.choice(top)) for h in ('h', 'm')
            for fn in ('keys', 'items', 'getitem')]
    end = [dict(op='close', h=h, via='@' if h == 'm' and r.random() < .5 else '')
           for h in r.sample(['h', 'm'], 2)]
    tail = []
    if r.random() < .4:
        # the directly opened file goes on when the database is closed and vice versa
        tail = [end[0]] + copy.deepcopy(both[-4:]) + [end[1]]
    elif r.random() < .5:
        tail = end + [dict(op='opensif', h='m2', f=src)] + [
            dict(copy.deepcopy(e), h='m2', ds=e['ds'] if hier else '@') for e in qs[:3]] + [
            dict(op='closeall')]
    else:
        tail = end
    if r.random() < .35:
        # a database on disk that has the name the one in memory has
        pre.insert(0, convert(r.choice(list(d['files'])), ''))
        pre[0].update(usefp=r.random() < .7)
        if r.random() < .5 and pre[0]['src'] != [src]:
            pre[0]['src'] = [src]
    d['ev'] = pre + convs + post + asks + both + tail
    d['fastdig'] = False
    return d


def direct_soup(g, cid):
    """any file: opened directly it holds the datasets a conversion makes"""
    r = g.r
    files, ev = {}, []
    if r.random() < .4:
        h = Hier(g, r.choice('TR'), nmax=5, dir='h', fpre=r.choice(FPRE), lc=r.random() < .3)
        files.update(h.files)
        disk = [k for k in files if k == 'top' or r.random() < .8]
        keys = ['top']
    else:
        for k in range(r.randint(1, 3)):
            files['f%d' % k] = small_file(g, dir='d%d' % k, fpre=r.choice(FPRE),
                                          lc=r.random() < .3)
        if r.random() < .4:
            files['bad'] = damaged(g, files['f0'])
            files['bad']['dir'] = 'bad'
        files['inv'] = dict(fileobj([g.ident(1)], 'T', 1, name=r.choice(
            ['model.FEM', 'T0.FEM', 'X1.FEM']), valid=False))
        files['gone'] = dict(fileobj([g.ident(1)], 'T', 1, dir='nowhere'))
        files['sin'] = fileobj([g.ident(1)], 'R', 1, ext='SIN')
        disk = [k for k in files if k != 'gone']
        keys = list(files)
    n = 0
    for k in r.sample(keys, len(keys)):
        if r.random() < .35:
            ev.append(convert(k, ''))
        ev.append(dict(op='opensif', h='m%d' % n, f=k, abs=r.random() < .4))
        n += 1
        ev.append(dict(op='closeall'))
        ev.append(convert(k, 'x.h5'))
        ev.append(dict(op='open', h='d%d' % n, db='x.h5'))
        ev.append(dict(op='closeall'))
    return case(cid, files, ev, disk=disk)


# ---------------------------------------------------- C11: open and closed
ASKS = ('keys', 'values', 'iter', 'items', 'contains', 'getitem', 'get', 'str', 'repr')


def near(r, p):
    """names that look like that of a dataset: of a record, of a part, in other letters"""
    return r.choice([p + '/gnode', p + '/gelmnt1_nodin', p + '/wbody', p + '/IDENT', p + '/ident', '/' + p,
                     p + '/', p.split('/')[-1], p.swapcase(), p[:-1], p + '0', ' ' + p, 'gnode', '/'])


def sources(g):
    """files of every kind: a hierarchy, a first level file, hydrodynamics"""
    r = g.r
    files = {}
    hier = Hier(g, r.choice('TR'), nmax=5, dir='h', fpre='')
    files.update(hier.files)
    while True:
        st = Struc(g, r.choice(['mix', 'thin', 'beam2']), nel=3, vals=('RVNODDIS',))
        if onefile(st)[1:] != str(hier.top):
            break
    hy = Hydro(g, nb=1)
    files['s'] = dict(st.file(), dir='s')
    files['g'] = dict(hy.file(), dir='g')
    return files, hier, st, hy


def some_query(g, ds, files, hier, st, hy):
    """(dataset kind known from its path) a query that can be asked of it"""
    r = g.r
    if ds.startswith('G'):
        return r.choice([q('', ds, 'get_directions', unit='radians'), q('', ds, 'get_angular_freqs'),
                         q('', ds, 'get_timesteps'), q('', ds, 'get_points'), q('', ds, 'constants')])
    if '/' in ds:
        return q('', ds, 'get_nodes')
    if ds == onefile(st):
        return r.choice([q('', ds, 'get_nodes'), q('', ds, 'get_elements'),
                         q('', ds, 'get_elementnumbers', ntype='internal')])
    w = r.choice(hier.rows)
    return q('', ds, 'get_transformation', seltyp=w['iselty'], index=w['indsel'],
             trans=dict(m='top', v=[]))


def paths(hier, st, hy):
    top = ('T%d' if hier.letter == 'T' else 'R%d') % hier.top
    first = [hier.path(k, w) for k, w in hier.lower if w['islevl'] == 1]
    return dict(x=[top] + first, y=[onefile(st), 'G%d' % hy.seltyp])


CLOSEDFN = ['get_nodes', 'get_elements', 'get_noderesults', 'get_elementresults', 'get_setnames',
            'get_section_properties', 'get_shell_thicknesses', 'get_resultcase_names',
            'get_nodenumbers', 'get_elementnumbers']
CLOSEDHY = ['get_angular_freqs', 'get_timesteps', 'get_periods', 'get_directions', 'get_sections',
            'get_points', 'get_matrix', 'get_bodymass', 'get_addedmass', 'get_potentialdamping',
            'get_viscousdamping', 'get_hydrostatic_restoring', 'get_mooring_restoring',
            'get_bodyproperties', 'get_pressure_panel_ids', 'get_motion_raos',
            'get_excitationforce_raos', 'get_sectionforce_raos', 'get_meandrift',
            'get_horiz_meandrift', 'get_panel_pressures', 'get_fluidkinematics_raos']


def closed_query(g, ds, hier, st):
    r = g.r
    if ds.startswith('G'):
        fn = r.choice(CLOSEDHY)
        a = dict(mtyp=11) if fn == 'get_matrix' else {}
    elif '/' in ds or ds == onefile(st):
        fn = r.choice(CLOSEDFN)
        a = dict(restype='displacement') if fn == 'get_noderesults' else \
            dict(restype='beamforce') if fn == 'get_elementresults' else {}
    else:
        fn, a = 'get_transformation', dict(seltyp=1, index=1, trans=dict(m='top', v=[]))
    return q('', ds, fn, **a)


def kinds(g, cid):
    """datasets of every kind side by side: of interface files with no, one or several
    hierarchy records of any level, with and without the files of lower levels"""
    r = g.r
    files, ev, disk = {}, [], []
    tops = []
    for k in range(r.randint(3, 6)):
        d = 'd%d' % k
        c = r.random()
        if c < .25:
            h = Hier(g, r.choice('TR'), nmax=5, dir=d)
            drop = r.random()
            for key, f in h.files.items():
                files[d + key] = f
                if key == 'top' or r.random() < drop:
                    disk.append(d + key)
            tops.append(d + 'top')
            continue
        if c < .4:
            f = small_file(g, dir=d, nblocks=2)
            while f['letter'].upper() == 'G':
                f = small_file(g, dir=d, nblocks=2)
        else:
            no = r.randint(1, 99)
            f = fileobj([g.ident(no)], r.choice('TRRR'), no, dir=d, enc=encs(g))
            if r.random() < .85:
                f['recs'].insert(r.randint(0, 1), g.nf('HIERARCH', [8, 8 * no, 8 * r.choice([1, 1, 2, 3]),
                                                                    8 * r.choice([1, 1, 2, 3, 4]), 0, 0, 0]))
        files[d] = f
        disk.append(d)
        tops.append(d)
    for k, s in enumerate(tops):
        ev.append(convert(s, 'x.h5', append=True, prefix=['p%d_' % k]))
        if r.random() < .4:
            ev.append(convert(s, 'y.h5'))
    ev += [dict(op='open', h='h', db='x.h5')]
    ev += [dict(op='ask', h='h', fn=fn, key='') for fn in ASKS if fn not in ('contains', 'getitem', 'get')]
    if any(e.get('db') == 'y.h5' for e in ev):
        ev += [dict(op='open', h='i', db='y.h5'),
               dict(op='ask', h='i', fn=r.choice(['str', 'repr', 'items']), key='')]
    if r.random() < .5:
        k = r.choice(tops)
        ev.append(dict(op='opensif', h='m', f=k))
        ev += [dict(op='ask', h='m', fn=fn, key='') for fn in ('str', 'items')]
    ev.append(dict(op='closeall'))
    return case(cid, files, ev, disk=disk)


def lifecycle(g, cid):
    r = g.r
    files, hier, st, hy = sources(g)
    ps = paths(hier, st, hy)
    if ps['y'][0] in ps['x'] or ps['y'][0] == ps['x'][0]:
        ps['y'][0] = onefile(st)
    ev = [convert('top', 'x.h5'), convert('s', 'y.h5'), convert('g', 'y.h5', append=True)]
    state = {}           # handle -> [db, open]
    n = 0
    for _ in range(r.randint(8, 16)):
        c = r.random()
        live = [h for h in state if state[h][1]]
        dead = [h for h in state if not state[h][1]]
        if c < .3 or not state:
            db = r.choice('xy')
            h = 'h%d' % n
            n += 1
            if r.random() < .15 and not any(state[k][0] == 'm' and state[k][1] for k in state):
                ev.append(dict(op='opensif', h=h, f='s'))
                state[h] = ['m', True]
            else:
                ev.append(dict(op='open', h=h, db=db + '.h5', absdb=r.random() < .3))
                state[h] = [db, True]
        elif c < .5 and live:
            h = r.choice(live)
            via = ''
            if r.random() < .5:
                via = '@' if state[h][0] == 'm' else r.choice(ps[state[h][0]])
            ev.append(dict(op='close', h=h, via=via))
            state[h][1] = False
        elif c < .57 and dead:
            h = r.choice(dead)
            via = r.choice(ps[state[h][0]]) if state[h][0] != 'm' and r.random() < .5 else ''
            ev.append(dict(op='close', h=h, via=via))
        elif c < .63:
            ev.append(dict(op='closeall'))
            for h in state:
                state[h][1] = False
        elif c < .7:
            ev.append(convert(r.choice(['s', 'g']), r.choice(['x.h5', 'y.h5', 'z.h5']),
                              prefix=['n%d_' % len(ev)], append=True))
        for h in r.sample(sorted(state), min(2, len(state))):
            db, op = state[h]
            allp = ps['y'][:1] if db == 'm' else ps[db]
            ev.append(dict(op='ask', h=h, fn=r.choice(ASKS),
                           key=r.choice(allp + ps['x'] + ['nosuch', '']
                                        + [near(r, r.choice(allp)) for _ in range(4)])))
            if r.random() < .4:
                ev.append(dict(op='ask', h=h, fn=r.choice(['contains', 'getitem', 'get']),
                               key=near(r, r.choice(allp)) if r.random() < .8 else r.choice(allp)))
            ds = r.choice(allp)
            e = some_query(g, ds, files, hier, st, hy) if op else closed_query(g, ds, hier, st)
            if op or e['fn'] != 'constants':
                e.update(h=h, ds='@' if db == 'm' else ds)
                ev.append(e)
    return case(cid, files, ev, fastdig=True)


# --------------------------------------------------- C22: nothing is changed
def repeated(g, cid):
    r = g.r
    sub = r.choice([selection, connectivity, noderes, rescases, props, transforms, hydro_response,
                    hydro_system, setqueries, setqueries, setqueries, lambda g_, i: elemres(g_, i, r.choice(
                        ['beam2', 'thin', 'mix', 'beam3', 'thick', 'beams', 'mixthick']), True)])
    d = sub(g, cid)
    head = [e for e in d['ev'] if e['op'] != 'q']
    qs = [e for e in d['ev'] if e['op'] == 'q']
    qs = r.sample(qs, min(9, len(qs)))
    mem = head[-1]['op'] == 'opensif'
    out = []
    for _ in range(2):
        rnd = [dict(copy.deepcopy(e), clobber=r.random() < .7) for e in qs]
        r.shuffle(rnd)
        out += rnd
        if r.random() < .5:
            # the same question twice in a row
            k = r.randrange(len(out))
            out.insert(k, copy.deepcopy(out[k]))
    if r.random() < .5 and not mem:
        out.append(dict(op='close', h='h', via=''))
        out.append(dict(op='open', h='h2', db='x.h5'))
        out += [dict(copy.deepcopy(e), h='h2') for e in qs]
    elif r.random() < .5 and not mem:
        # two handles on one database
        k = r.randint(0, len(out))
        out.insert(k, dict(op='open', h='h2', db='x.h5'))
        out[k + 1:] = [dict(e, h=r.choice(['h', 'h2'])) for e in out[k + 1:]]
    d['ev'] = head + out
    d['fastdig'] = False
    return d
