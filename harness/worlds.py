"""Small worlds for the bounded models, and how the steps of a model become
calls of the real code."""
import copy
import itertools

import calcs
import scen
from gen import MODEL_TYPES, TEXT_TYPES, rec, fileobj, encs, convert, case, put
from mbt import slim
from models import Struc, Hier, Hydro, q, pres


def tiny(g, k, **kw):
    """a small file that is told from others by its third value"""
    types = g.r.sample(MODEL_TYPES + TEXT_TYPES, 3)
    f = scen.soup_file(g, 'T', types, nblocks=2, rich=False, **kw)
    return mark(f, k)


def mark(f, k):
    for q_ in f['recs']:
        if q_['name'] == 'IDENT':
            q_['v'][2] = 8 * k
    return f


def calls(w):
    """conversion calls as TLC needs them"""
    return [{k: c[k] for k in ('src', 'isseq', 'db', 'append', 'usefp', 'prefix', 'only')} for c in w]


def system(files, disk, convs, opens=(), sifs=(), moves=(), handles=(), asks=None):
    world = dict(files=slim(files), disk=disk, convs=calls(convs), opens=list(opens),
                 sifs=list(sifs), moves=list(moves), handles=list(handles))

    def make(walk, cid, g):
        ev = []
        dbs, handles = {}, {}    # databases and File objects: source files, whether open
        for act in walk:
            op = act[0]
            if op == 'convert':
                c = convs[act[1] - 1]
                ev.append(copy.deepcopy(c))
                if act[2]:
                    dbs[c['db']] = (dbs.get(c['db'], []) if c['append'] else []) + c['src']
            elif op == 'open':
                ev.append(dict(op='open', h=act[1], db=act[2]))
                handles[act[1]] = [act[2], dbs.get(act[2], []), True]
            elif op == 'opensif':
                ev.append(dict(op='opensif', h=act[1], f=act[2]))
                if act[3]:
                    handles[act[1]] = ['', [act[2]], True]
            elif op == 'close':
                mem = act[2] and not handles[act[1]][0]
                ev.append(dict(op='close', h=act[1], via='@' if mem else act[2]))
                handles[act[1]][2] = False
            elif op == 'closeall':
                ev.append(dict(op='closeall'))
                for h in handles.values():
                    h[2] = False
            else:
                ev.append(put([act[1]], []) if op == 'put' else put([], [act[1]]))
            if asks:
                ev += asks(g, handles)
        used = {k for e in ev if e['op'] == 'convert' for k in e['src']}
        return case(cid, copy.deepcopy(files), ev, disk=disk)
    return dict(world=world, make=make)


# ------------------------------------------------------------------ conversions
def store(g):
    """two databases; files that share a name, a hierarchy, a damaged file; replaced,
    added to, by several files at once"""
    r = g.r
    files = {'a': tiny(g, 1, dir='d1'), 'b': tiny(g, 2, dir='d2', fpre='B_')}
    h = Hier(g, 'T', levels=2, nmax=3, dir='h')
    for k, (key, f) in enumerate(h.files.items()):
        files[key] = mark(f, 10 + k)
    low = [k for k, _ in h.lower][:1]
    files['bad'] = scen.damaged(g, dict(copy.deepcopy(files['a']), dir='bad'))
    mark(files['bad'], 30)
    disk = list(files)
    files['gone'] = fileobj([g.ident(1)], 'T', 1, dir='nowhere')
    convs = []
    for d in ('x.h5', 'y.h5'):
        for s in ('a', 'b', 'top', 'bad'):
            for ap in (False, True):
                convs.append(convert(s, d, append=ap))
        convs.append(convert(['a', 'b'], d))
        convs.append(convert(['b', 'bad'], d))
    convs += [convert('gone', 'x.h5'), convert('gone', 'x.h5', append=True),
              convert(['a', 'gone'], 'y.h5', append=True), convert('b', 'x.h5', usefp=False, append=True),
              convert(['a', 'b'], 'x.h5', append=True, prefix=['p_'], pflist=True)]
    return system(files, disk, convs, moves=low)


# -------------------------------------------------------------- words of records
def needed(q_, a):
    """whether what is stored of record a depends on record q_"""
    n, v, w = q_['name'], q_['v'], a['v']
    if n not in scen.DEPS.get(a['name'], ()):
        return False
    if n == 'GELMNT1':
        return v[1] == w[0]
    if a['name'] == 'RDIELCOR':
        return v[3] == w[1]
    return v[1:3] == [w[3], w[2]] if n == 'RDPOINTS' else v[1] == (w[1] if n == 'RDRESREF' else w[4])


def reader(letter, types, n=3, size=6):
    def world(g):
        """a few record types, some that are not stored and index records, in any order
        and layout"""
        r = g.r
        dep = [t for t in types if t in scen.DEPS]
        names = r.sample([t for t in types if t not in dep], min(size - 2, len(types) - len(dep)))
        names += r.sample(dep, min(2, len(dep)))
        need = [d for t in names for d in scen.DEPS.get(t, ())]
        while True:
            recs, no = g.soup(letter, need + names + need + names, nblocks=40, rich=False)
            have = {q_['name'] for q_ in recs}
            if set(names) | set(need) <= have:
                break
        alpha = []
        for t in names:
            own = [q_ for q_ in recs if q_['name'] == t]
            own.sort(key=lambda q_: len(q_['v']))
            alpha.append(r.choice(own[len(own) // 3:][:6]))
        base = [recs[0]] + [q_ for q_ in recs[1:] if q_['name'] in need
                            and any(needed(q_, a) for a in alpha)]
        alpha.append(rec(r.choice(['BNLOAD', 'BELOAD1', 'GELSTRP']), [g.i(1, 99)] + g.xs(r.randint(4, 9)), 1))
        alpha.append(rec(r.choice(['MAXSPR', 'BNDOF', 'GTONP', 'MGDAMP']), [g.i(1, 99)] + g.xs(r.choice([0, 0, 2])), 1))
        alpha.append(g.nf(r.choice(['RDTRANS', 'RVELNFOR', 'WGRESPON']), g.xs(r.randint(5, 12))))
        i = g.index()
        i['name'] = r.choice(names + [a['name'] for a in alpha[-3:]])
        alpha.append(i)
        for q_ in alpha:
            q_.pop('split', None)
        onlys = []
        for _ in range(3):
            o = r.sample([q_['name'] for q_ in alpha], r.randint(1, 4))
            for t in list(o):
                o += scen.DEPS.get(t, [])
            onlys.append(sorted(set(o)) + ['IDENT'])
        world = dict(base=[dict(n=q_['name'], v=q_['v'], t=q_['t'], kind=q_['kind']) for q_ in base],
                     recs=[dict(n=q_['name'], v=q_['v'], t=q_['t'], kind=q_['kind']) for q_ in alpha],
                     onlys=onlys, fmts=['F', 'U'], n=n)

        def make(walk, cid, g):
            r = g.r
            enc, out = None, copy.deepcopy(base)
            for q_ in out:
                q_.pop('split', None)
            for act in walk:
                if act[0] == 'fmt':
                    enc = dict(fmt=act[1])
                elif act[0] == 'write':
                    q_ = copy.deepcopy(alpha[act[1] - 1])
                    q_['fill'], q_['short'] = act[2] == 1, act[2] == 1
                    q_['bare'] = act[2] == 1 and q_['kind'] == 1 and q_['name'] not in scen.UNIVERSE
                    if q_['kind'] == 2 and act[2]:
                        q_['split'] = [(32, 1, 3)[act[2]]] * 99
                    out.append(q_)
            if enc['fmt'] == 'F':
                enc['eol'] = r.choice(['\n', '\r\n'])
            f = fileobj(out, letter, no, enc=enc)
            ev = [convert('a', 'x.h5'), convert('a', 'y.h5', only=r.choice(onlys))]
            return case(cid, {'a': f}, ev)
        return dict(world=world, make=make)
    return world


# ------------------------------------------------------------------- hierarchies
def hierarchy(letter, nmoves=2):
    def world(g):
        """a hierarchy whose lower level files come and go"""
        r = g.r
        h = Hier(g, letter, levels=3, nmax=5, dir='h', fpre='ab_')
        files = {key: mark(f, 10 + k) for k, (key, f) in enumerate(h.files.items())}
        low = [k for k, _ in h.lower]
        other = tiny(g, 1, dir='d')
        files['a'] = other
        convs = [convert('top', 'x.h5'), convert('top', 'x.h5', append=True, usefp=False,
                 prefix=['p_']), convert('a', 'x.h5')]
        convs += [convert(k, 'x.h5', append=True) for k in low[:1]]
        return system(files, list(files), convs, moves=r.sample(low, min(nmoves, len(low))))
    return world


# ----------------------------------------------------------------- open and closed
def life(letter):
    def world(g):
        """two databases and a file opened directly, by up to two File objects at a time"""
        r = g.r
        while True:
            files, hier, st, hy = scen.sources(g)
            if hier.letter == letter and len(hier.rows) <= 4:
                break
        for k, f in enumerate(files.values()):
            mark(f, 1 + k)
        ps = scen.paths(hier, st, hy)
        convs = [convert('top', 'x.h5'), convert('s', 'y.h5'), convert('g', 'y.h5', append=True)]

        def asks(g, handles):
            r = g.r
            out = []
            for h, (db, srcs, live) in handles.items():
                have = ['@'] if not db else [p for k in srcs for p in (
                    ps['x'] if k == 'top' else ps['y'][:1] if k == 's' else ps['y'][1:])]
                for _ in range(r.randint(1, 2)):
                    path = r.choice(have)
                    if r.random() < .5:
                        p = path if path != '@' else 'T9'
                        out.append(dict(op='ask', h=h, fn=r.choice(scen.ASKS),
                                        key=p if r.random() < .8 else r.choice(['nosuch', ''])))
                        continue
                    p = scen.onefile(st) if path == '@' else path
                    e = scen.some_query(g, p, files, hier, st, hy) if live else \
                        scen.closed_query(g, p, hier, st)
                    if live or e['fn'] != 'constants':
                        out.append(dict(e, h=h, ds=path))
            return out
        return system(files, list(files), convs, opens=['x.h5', 'y.h5'], sifs=['s'],
                      handles=['h1', 'h2'], asks=asks)
    return world


# -------------------------------------------------------------------- VTU writer
def writer(n):
    def world(g):
        """two pieces of all element types, one that is refused; data for either, some of
        it no data"""
        r = g.r
        pieces, arrs = [], []
        for k in range(3):
            while True:
                p, npts, ncell, rows = calcs.piece(r, 'a', k == 2)
                if k == 2 or {26, 28} & set(x // 8 for x in p['types']['d']) or r.random() < .01:
                    break
            pieces.append(p)
            if k < 2:
                arrs.append(dict(calcs.add(r, 'a', 'add', rows, k), name='rows%d' % k))
        arrs.append(dict(calcs.add(r, 'a', 'add', rows, 9, True), name='bad'))

        def plain(x):
            return dict(s=x['s'], d=x['d'], t=x['t'])

        def whole(x):
            return dict(d=[i // 8 for i in x['d']])
        world = dict(n=n, pieces=[dict(pts=plain(p['pts']), con=plain(p['con']), ends=whole(p['ends']),
                                       types=whole(p['types'])) for p in pieces],
                     arrs=[dict(a=plain(x['a']), name=x['name'], comps=x['comps']) for x in arrs])

        def make(walk, cid, g):
            ev = [dict(op='new', w='a')]
            for op, i, ok in walk:
                if op == 'piece':
                    ev.append(copy.deepcopy(pieces[i - 1]))
                elif op in ('add', 'addn'):
                    ev.append(dict(copy.deepcopy(arrs[i - 1]), op=op))
                else:
                    ev.append(dict(op=op, w='a'))
            if not any(e['op'] == 'close' for e in ev):
                ev.append(dict(op='close', w='a'))
            return dict(id=cid, ev=ev, module='VtuTrace', driver='driver_vtu.py')
        return dict(world=world, make=make)
    return world


# ------------------------------------------------------------------- calculations
def stresses(flat, thick, row):
    def world(g):
        world = dict(what='stress', flat=flat, thick=thick, row=row, numbers=[], nodes=[], sizes=[], three=False)

        def make(walk, cid, g):
            """stresses of one kind together, in arrays of any shape"""
            r = g.r
            by, ev = {}, []
            for fn, t in walk:
                by.setdefault((fn, len(t)), []).append(t)
            for (fn, n), ts in by.items():
                while ts:
                    k = min(len(ts), r.choice([1, 2, 6, 12, 24]))
                    k, lead = r.choice([x for x in ((k, [k]), (k - k % 2, [2, k // 2]), (k - k % 6, [k // 6, 3, 2]),
                                                    (1, [])) if x[0] and 0 not in x[1]])
                    part, ts = ts[:k], ts[k:]
                    e = dict(fn=fn, s=lead + [n], d=[x for t in part for x in t], exp=r.choice([0, 0, -3, -30, 20]),
                             dtype=r.choice(['float64', 'float64', 'float32', 'int64', 'int32']),
                             lay=r.choice(['C', 'F', 'strided', 'ro']), axis=0, neg=False, pos=False)
                    if fn == 'absmax':
                        e['axis'] = len(e['s']) if lead or r.random() < .5 else 0
                        e['neg'] = r.random() < .4
                    if e['dtype'] == 'float32' and e['exp'] not in (0, -3):
                        e['exp'] = r.choice([-10, 10])
                    ev.append(e)
            return dict(id=cid, ev=ev, module='CalcTrace', driver='driver_calc.py')
        return dict(world=world, make=make)
    return world


def pairs(nodes, sizes, numbers=3, three=False):
    def world(g):
        r = g.r
        ns = r.sample(range(1, 60), numbers)
        nd = r.sample(range(1, 90), nodes)
        world = dict(what='pairs', flat=0, thick=0, row=0, numbers=ns, nodes=nd, sizes=sizes, three=three)
        typ = {2: 15, 3: 25, 4: 24}

        def make(walk, cid, g):
            r, ev = g.r, []
            for fn, elems, ends, rows in walk:
                ps = [[elems[e], n] for e, (a, b) in enumerate(zip([0] + ends, ends)) for n in rows[a:b]]
                if r.random() < .5:
                    ps = r.sample(ps, len(ps))
                ev.append(dict(fn=fn, pairs=ps, con=list(range(len(rows))), s=[], d=[], ends=ends,
                               types=[typ[b - a] for a, b in zip([0] + ends, ends)], elems=elems, rows=rows,
                               exp=0, arr=r.random() < .4))
                wrong = [[e, n] for e in elems for n in nd if [e, n] not in ps]
                if wrong and r.random() < .5:
                    ev.append(dict(ev[-1], pairs=[r.choice(wrong)] if r.random() < .5 else ps + [r.choice(wrong)]))
            return dict(id=cid, ev=ev, module='CalcTrace', driver='driver_calc.py')
        return dict(world=world, make=make)
    return world


# ------------------------------------------------------------------------ queries
def queries(fams, fns, restypes=(), poss=('nodes',), nsets=2, cpl=('real', 'complex'), big=False, **kw):
    """everything that can be asked of a small structure"""
    def world(g):
        r = g.r
        k = dict(nel=r.randint(4, 5), ncase=3 if big else 2, runs=1, cpl=r.choice(cpl), vals=())
        k.update(kw)
        st = Struc(g, r.choice(fams), **k)
        f = st.file()
        files = {'a': f}
        sets = sorted(st.setdef)[:3] + (['NOSUCHSET'] if nsets else [])
        rcs, runs = [], [1]
        if k['vals']:
            runs = sorted(set(st.runnos))
            exts = sorted({c[2] for c in st.cases})[:3]
            rcs = [dict(m='none', v=[])] + [dict(m='int', v=[x]) for x in exts]
            rcs += [dict(m='list', v=list(p)) for p in itertools.permutations(exts, 2)]
            if len(exts) > 2:
                rcs += [dict(m='array', v=list(p)) for p in itertools.permutations(exts, 3)]
            rcs += [dict(m='tuple', v=[exts[0]] * 2), dict(m='int', v=[98])]
        world = dict(files=slim(files), disk=['a'], top='a', ds=scen.onefile(st), sets=sets, nsets=nsets,
                     fns=list(fns), restypes=list(restypes), runs=runs, rcs=rcs, poss=list(poss))

        def make(walk, cid, g):
            evs = []
            for fn, ss, kind, disc, nt, rt, run, rcm, rcv, pos in walk:
                kw = dict(sc=1000, tol=14) if fn == 'get_elementresults' else {}
                evs.append(q('', '', fn, presentation=pres(g.r), sets=ss, kind=kind, disc=disc, ntype=nt,
                             restype=rt, run=run, rc=dict(m=rcm, v=rcv), pos=pos,
                             setsform=g.r.choice(['str', 'list', 'tuple']), **kw))
            return scen.struc_case(cid, copy.deepcopy(st), scen.onefile(st), evs, mem=g.r.random() < .2)
        return dict(world=world, make=make)
    return world


def exports(fams, nsets=1, **kw):
    """everything that can be exported of a small structure"""
    def world(g):
        r = g.r
        k = dict(nel=r.randint(4, 5), ncase=2, runs=r.choice([1, 2]), cpl='real',
                 vals=('RVNODDIS', 'RVFORCES', 'RVSTRESS'))
        k.update(kw)
        st = Struc(g, r.choice(fams), **k)
        files = {'a': st.file()}
        arrs = []

        def arr(tag, fn, n, kinds=('', 'beam', 'shell'), disc='any', theory='any', sc=1, tol=0, surf=1, **a):
            lo = r.randint(1, n)
            hi = r.choice([lo, n, n])
            arrs.append(dict(fn=fn, a=q('', '', fn, **a)['a'], sc=sc, tol=tol, nodes=disc == 'yes', surf=surf,
                             lo=lo, hi=hi, flat=lo == hi and r.random() < .5, name=r.choice(['u', 'sig <1>', fn]),
                             comps=[], tag=tag, kinds=list(kinds), disc=disc, theory=theory))
        for run in sorted(set(st.runnos)):
            one = dict(m='int', v=[r.choice([c[2] for c in st.cases if c[1] == run])])
            arr('PointData', 'get_noderesults', 6, restype='displacement', run=run, rc=one)
        for t in ('internal', 'external'):
            arr('PointData', 'get_nodenumbers', 1, ntype=t)
            arr('CellData', 'get_elementnumbers', 1, ntype=t)
        el = dict(disc='yes', sc=1000, tol=14, run=run, rc=one)
        if set(st.types) & set(scen.BEAM):
            arr('PointData', 'get_elementresults', 6, kinds=['beam'], restype='beamforce', **el)
        for theory, gen, dec, top in (('thin', 3, 6, 2), ('thick', 5, 8, 2)):
            if set(st.types) & ({24, 25} if theory == 'thin' else {26, 28}):
                for surf in (1, top):
                    arr('PointData', 'get_elementresults', gen, kinds=['shell'], theory=theory, surf=surf,
                        restype='generalstress', **el)
                arr('PointData', 'get_elementresults', dec, kinds=['shell'], theory=theory,
                    restype='decomposedstress', **el)
        if 'GELTH' in [x['name'] for x in st.recs]:
            arr('CellData', 'get_shell_thicknesses', 1, kinds=['shell'])
        world = dict(files=slim(files), disk=['a'], top='a', ds=scen.onefile(st), sets=sorted(st.setdef)[:3],
                     nsets=nsets, arrs=arrs)

        def make(walk, cid, g):
            r, pieces = g.r, []
            for sets, kind, disc, secs in walk:
                def sel(e):
                    e = copy.deepcopy(e)
                    e.update(sets=sets, kind=kind, disc=disc, setsform=r.choice(['str', 'list', 'tuple']))
                    return e
                out = [dict(tag=arrs[s[0] - 1]['tag'], arrs=[dict({f: v for f, v in arrs[i - 1].items() if f not in
                            ('tag', 'kinds', 'disc', 'theory')}, a=sel(arrs[i - 1]['a'])) for i in s]) for s in secs]
                e = q('', '', 'get_nodes', presentation=pres(r))
                pieces.append(dict(a=sel(e['a']), secs=out, full=e['full']))
            evs = []
            while pieces:
                n = r.randint(1, 3)
                evs.append(dict(op='export', pieces=pieces[:n]))
                pieces = pieces[n:]
            return scen.struc_case(cid, copy.deepcopy(st), scen.onefile(st), evs, mem=r.random() < .3)
        return dict(world=world, make=make)
    return world


# ------------------------------------------------------------------------ sessions
def session(what, n, handles=1):
    """questions asked one after the other, of one file through some handles"""
    def world(g):
        r = g.r
        if what == 'hier':
            src = Hier(g, r.choice('TR'), levels=3, nmax=5, fpre='', dir='')
            files, top, ds = src.files, 'top', ''
            qs = scen.hier_pool(g, src, n)
        elif what == 'hydro':
            src = Hydro(g, nb=2, nd=2, nf=2)
            files, top, ds = {'a': src.file()}, 'a', 'G%d' % src.seltyp
            qs = scen.hydro_pool(g, src, n)
        else:
            src = Struc(g, r.choice(what), nel=5, ncase=2, runs=r.choice([1, 2]), cpl=r.choice(['real', 'complex']),
                        vals=('RVNODDIS', 'RVNODVEL', 'RVFORCES', 'RVSTRESS'))
            files, top, ds = {'a': src.file()}, 'a', scen.onefile(src)
            qs = scen.struc_pool(g, src, n)
        for e in qs:
            e['ds'] = e['ds'] or ds
        hs = [dict(h='h', mem=False), dict(h='m', mem=True), dict(h='k', mem=False)][:handles]
        world = dict(files=slim(files), disk=list(files), top=top, handles=hs,
                     qs=[dict(fn=e['fn'], ds=e['ds'], a=e['a']) for e in qs])

        def make(walk, cid, g):
            r = g.r
            ev = [convert(top, 'x.h5')]
            often = r.choice([0, .3, 1])
            for op, h, i in walk:
                if op == 'open':
                    ev.append(dict(op='opensif', h=h, f=top) if h == 'm' else dict(op='open', h=h, db='x.h5'))
                elif op == 'close':
                    ev.append(dict(op='close', h=h, via=''))
                else:
                    e = dict(copy.deepcopy(qs[i - 1]), h=h, clobber=r.random() < often, **pres(r))
                    if e['a']['sets']:
                        e['a']['setsform'] = r.choice(['str', 'list', 'tuple'])
                    ev.append(e)
            return case(cid, copy.deepcopy(files), ev)
        return dict(world=world, make=make)
    return world


# ---------------------------------------------------------------------- placement
def placement(letter, nmax=6):
    def world(g):
        """a hierarchy, from all its repetitions to all levels"""
        h = Hier(g, letter, levels=g.r.choice([3, 4]), nmax=nmax, fpre='', dir='')
        mats = [h.matrix(), h.matrix(), h.matrix()[:12]]
        top = letter + str(h.top)
        world = dict(files=slim(h.files), disk=list(h.files), top='top', name=top, mats=mats)

        def make(walk, cid, g):
            ev = [convert('top', 'x.h5'), dict(op='open', h='h', db='x.h5')]
            for fn, ds, sel, idx, m, lv, mat, disc in walk:
                tr = dict(m=m, v=[lv] if m == 'int' else mats[mat - 1] if m == 'mat' else [])
                if fn == 'get_nodes':
                    ev.append(q('h', ds, fn, presentation=pres(g.r), trans=tr, index=idx, disc=disc))
                else:
                    ev.append(q('h', ds, fn, presentation=dict(full=g.r.random() < .4), seltyp=sel,
                                index=idx, trans=tr))
            return case(cid, copy.deepcopy(h.files), ev, fastdig=True)
        return dict(world=world, make=make)
    return world


# -------------------------------------------------------------------------- waves
def waves(what):
    def world(g):
        """a small hydrodynamic dataset and everything that can be asked of it"""
        r = g.r
        nb = r.choice([1, 2, 2])
        h = Hydro(g, nb=nb, nd=r.choice([1, 2, 3]), nf=r.choice([1, 2, 3]),
                  domain='freq' if r.random() < .9 else 'time')
        files = {'a': h.file()}
        world = dict(files=slim(files), disk=['a'], top='a', ds='G%d' % h.seltyp,
                     bodies=h.bodies + [77], what=what)

        def make(walk, cid, g):
            tol = {'get_periods': dict(sc=1000, tol=3), 'elevation': dict(sc=1000, tol=4),
                   'degrees': dict(sc=1000, tol=60)}
            evs = []
            for fn, b, b2, m, w, u in walk:
                kw = tol.get(fn) or tol.get(w) or tol.get(u) or {}
                evs.append(q('', '', fn, presentation=pres(g.r), body=b, body2=b2, mtyp=m, what=w,
                             unit=u, **kw))
            return scen.struc_case(cid, copy.deepcopy(h), 'G%d' % h.seltyp, evs,
                                   mem=g.r.random() < .3)
        return dict(world=world, make=make)
    return world
