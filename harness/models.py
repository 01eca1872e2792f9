"""Generators of consistent models: structural, hierarchical, hydrodynamic."""
from sifio import ODD, ODD0, CIRCLE
from gen import (G, NNODES, NSP, NCOMP, BEAM, SHELL, rec, fileobj, encs, MODEL_TYPES)

SEL = {'beam': BEAM, 'shell': SHELL}


class Struc:
    """A first level structural dataset, with results if cases are given.

    fam: 'beam2', 'beam3', 'beams', 'thin', 'thick', 'mix' (beams + thin + other),
    'mixthick'"""
    FAM = dict(beam2=[15], beam3=[23], beams=[15, 23], thin=[24, 25], thick=[26, 28],
               mix=[15, 24, 25, 16, 18], mixthick=[15, 23, 26, 28],
               all=[15, 23, 24, 25, 26, 28], other=[16, 18, 15])

    def __init__(self, g, fam='mix', nel=6, runs=1, ncase=2, cpl='real', vals=('RVNODDIS',),
                 orphan=True, small=False, seltyp=None, letter='R', sets=True, names=True,
                 hier=None, extra=True, props=True, ext=True, linear=False, short=False):
        self.g, r = g, g.r
        self.seltyp = seltyp or r.choice([1, 2, 5, 10, 77])
        self.letter = letter
        types = self.FAM[fam]
        self.types = [r.choice(types) for _ in range(nel)]
        for k, t in enumerate(types[:nel]):       # every type at least once
            self.types[k] = t
        r.shuffle(self.types)
        need = max(NNODES[t] for t in self.types)
        nn = max(need, r.randint(need, need + nel * r.choice([1, 1, 2])))
        self.nn = nn
        self.con = [r.sample(range(1, nn + 1), NNODES[t]) for t in self.types]
        if r.random() < .08:                      # a collapsed element: a node listed twice
            c = r.choice(self.con)
            if len(c) > 2:
                c[-1] = c[-2]
        if not orphan:
            used = sorted({n for c in self.con for n in c})
            new = {n: i + 1 for i, n in enumerate(used)}
            self.con = [[new[n] for n in c] for c in self.con]
            self.nn = len(used)
        self.small, self.short = small, (short or r.random() < .1) and r.choice(['A', 'AAB'])
        self.cases, self.masks = [], {}
        self.setdef = {}
        self.runs, self.ncase, self.cpl, self.vals = runs, ncase, cpl, vals
        self.recs = []
        self.build(sets, names, hier, extra, props)

    def val(self):
        if self.g.odd:
            return self.g.x()
        return self.g.r.randint(-400, 400)

    def valgen(self):
        """values of one record: as a rule all different, at times all equal, zero or few"""
        r = self.g.r
        c = r.random()
        if c < .8:
            return self.val
        k = 0 if c < .84 else self.val()
        if c < .92:
            return lambda: k
        if self.g.odd and c < .97:
            return self.g.x
        return lambda: r.choice([0, 8, -8, k])

    def build(self, sets, names, hier, extra, props):
        g, r = self.g, self.g.r
        R = self.recs
        head = [g.ident(self.seltyp, 1)]
        if hier is not None:
            head = hier + head if r.random() < .5 else head + hier
        R += head
        if r.random() < .5:
            R.append(g.textrec('DATE'))
            R.append(g.textrec('TEXT'))
        ne, nn = len(self.types), self.nn
        nox, elx = self.numbering(nn), self.numbering(ne)
        blocks = []
        blocks.append([rec('GNODE', [8 * nox[i], 8 * (i + 1), 48, 8 * 123456]) for i in range(nn)])
        blocks.append([rec('GCOORD', [8 * (i + 1)] + [8 * r.randint(-40, 40) + r.randint(0, 7)
                                                     for _ in range(3)]) for i in range(nn)])
        blocks.append([g.geltype(t, 8 * elx[i], 8 * (i + 1), self.con[i])
                       for i, t in enumerate(self.types)])
        self.nox, self.elx = nox, elx
        # sections and thicknesses, referred to by the elements in any way
        gb = r.sample(range(1, 90), r.choice([1, 2, 3, 3]))
        gt = r.sample(range(1, 90), r.choice([1, 2, 3, 3]))
        geo = [8 * r.choice(gb) if t in BEAM else 8 * r.choice(gt) if t in SHELL
               else g.i(1, 90) for t in self.types]
        blocks.append([g.gelref(8 * (i + 1), NNODES[t], geono=geo[i])
                       for i, t in enumerate(self.types)])
        late = []
        if props:
            late.append([g.plain('GBEAMG', 8 * k) for k in gb])
            late.append([g.plain('GELTH', 8 * k) for k in gt])
        if sets:
            late += self.sets(names)
        if extra:
            for _ in range(r.randint(0, 3)):
                late.append([g.plain(r.choice(['GECCEN', 'MISOSEL', 'GUNIVEC', 'BGRAV', 'GIORH']))])
            if r.random() < .4:
                late.append([g.unknown()])
        r.shuffle(late)
        R += [x for b in blocks for x in b] + [x for b in late for x in b]
        if self.vals:
            self.results(names)

    def numbering(self, n):
        """external numbers: unrelated, or a permutation of the internal ones, or shifted"""
        r = self.g.r
        c = r.random()
        if c < .6:
            return r.sample(range(1, 999), n)
        k = r.choice([0, 0, 1, 100, 70000])
        x = list(range(1 + k, n + 1 + k))
        if c < .75:
            r.shuffle(x)
        elif c < .85:
            x.reverse()
        return x

    def setname(self, seen):
        """a new name, at times much like another one"""
        g, r = self.g, self.g.r
        while True:
            name = g.text(1, 12).strip()
            if self.short:
                name = ''.join(r.choice(self.short) for _ in range(r.randint(1, 5)))
            elif seen and r.random() < .4:
                other = r.choice(sorted(seen))
                name = r.choice([other + r.choice('_1A'), other[:-1], other.swapcase(), 'A' + other,
                                 other.upper(), other[::-1]]).strip()
            if len(seen) > 1 and r.random() < .2:
                name = ''.join(r.sample(sorted(seen), 2))
            if name and name not in seen:
                seen.add(name)
                return name

    def sets(self, names):
        g, r = self.g, self.g.r
        out = []
        ne = len(self.types)
        ids = r.sample(range(1, 60), 5)
        alle = list(range(1, ne + 1))
        beams = [e for e in alle if self.types[e - 1] in BEAM]
        shells = [e for e in alle if self.types[e - 1] in SHELL]
        cand = [alle, r.sample(alle, r.randint(1, ne)), r.sample(alle, r.randint(1, ne))]
        if beams:
            cand.append(r.sample(beams, r.randint(1, len(beams))))
        if shells:
            cand.append(r.sample(shells, r.randint(1, len(shells))))
        if r.random() < .25:         # few sets
            cand = r.sample(cand, r.randint(1, 2))
        if r.random() < .3:          # a set of nodes only
            cand.insert(r.randint(0, len(cand)), [])
            ids.append(r.randint(60, 70))
        seen = set()
        tds, membs = [], []
        for k, mem in zip(ids, cand):
            name = self.setname(seen)
            mem = list(mem)
            if r.random() < .5:
                r.shuffle(mem)
            self.setdef[name] = sorted(set(mem))
            tds.append(g.td('TDSETNAM', 8 * k, name, second=False))
            # node members and element members, in one or several records
            parts = [mem]
            if len(mem) > 1 and r.random() < .4:
                c = r.randint(1, len(mem) - 1)
                parts = [mem[:c], mem[c - (1 if r.random() < .3 else 0):]]
                if len(parts[1]) > 1 and r.random() < .5:
                    c = r.randint(1, len(parts[1]) - 1)
                    parts[1:] = [parts[1][:c], parts[1][c:]]
            m = [g.nf('GSETMEMB', [8 * k, 8 * (i + 1), 16, 0] + [8 * e for e in p])
                 for i, p in enumerate(parts) if p]
            if r.random() < .5 or not mem:
                m.insert(r.randint(0, len(m)), g.nf(
                    'GSETMEMB', [8 * k, 8 * (len(m) + 1), 8, 0]
                    + [8 * n for n in r.sample(range(1, self.nn + 1), r.randint(1, self.nn))]))
            membs.append(m)
        if r.random() < .5:          # definition and members one after another
            for t, m in zip(tds, membs):
                out.append([t] + m)
            return out
        r.shuffle(membs)
        return [tds, [x for m in membs for x in m]]

    def results(self, names):
        g, r = self.g, self.g.r
        R = self.recs
        # result cases: internal numbers ascend, external numbers per run
        self.runnos = [1] if self.runs == 1 and r.random() < .8 else sorted(
            r.sample([0, 1, 1, 2, 3, 4, 9, 25], self.runs), key=lambda k: (k != 1, k))
        if len(set(self.runnos)) < self.runs:
            self.runnos = list(range(1, self.runs + 1))
        todo = []
        for run in self.runnos:
            top = r.choice([40, 40, self.ncase + 1])
            exts = r.sample(range(1, max(top, self.ncase + 1)), self.ncase)
            if r.random() < .3:
                exts.sort()
            todo += [(run, e) for e in exts]
        if r.random() < .4:                  # runs interleaved
            r.shuffle(todo)
        gaps = r.random() < .3
        ires = 0
        for run, e in todo:
            ires += r.randint(1, 4) if gaps else 1
            c = dict(real=0, complex=1, mixed=r.randint(0, 1))[self.cpl]
            self.cases.append((ires, run, e, c))
        if self.cpl == 'mixed' and len({c[3] for c in self.cases}) == 1 and len(self.cases) > 1:
            a = self.cases[-1]
            self.cases[-1] = a[:3] + (1 - a[3],)
        # the reference records of several runs may be interleaved
        defs = []
        for c in self.cases:
            n = r.randint(0, 2)
            defs.append(g.nf('RDRESREF', [8 * c[0], 8 * c[1], 8 * c[2], g.i(1, 3), 8 * c[3], 8 * n]
                             + g.xs(3 * n)))
        R += defs
        if names:
            ks = r.sample(range(1, 40), r.randint(1, 4)) + [c[2] for c in self.cases]
            ks = sorted(set(ks)) if r.random() < .5 else list(dict.fromkeys(ks))
            R += [g.td('TDLOAD', 8 * k, g.text(1, 10).strip(), second=False) for k in ks]
            self.loads = ks
        ft = sorted({t for t in self.types if t in BEAM})
        sh = sorted({t for t in self.types if t in SHELL})
        if 'RVFORCES' in self.vals and ft:
            R += [g.nf('RDFORCES', [8 * t, 48] + g.ints(6, 1, 50)) for t in ft]
        if 'RVSTRESS' in self.vals and sh:
            R += [g.nf('RDSTRESS', [8 * t, 8 * NCOMP[t]] + g.ints(NCOMP[t], 1, 50)) for t in sh]
        if any(v in self.vals for v in ('RVFORCES', 'RVSTRESS')):
            for e, t in enumerate(self.types):
                if t not in NSP:
                    continue
                noi = r.randint(1, 3)
                rest = [8, 8 * (e + 1), 8 * t, 8 * t, 8 * NSP[t], 8 * (10000 + 100 + noi), 0, 0]
                for _ in range(noi):
                    rest += [8 * r.randint(1, 5)] + g.xs(3)
                R.append(g.nf('RDPOINTS', rest))
        groups = []
        for v in self.vals:
            if v in ('RVNODDIS', 'RVNODVEL', 'RVNODACC'):
                groups.append([[g.nf(v, [8 * c[0], 8 * n, 8, 0] + self.vals6(1 + c[3], c[0]))
                                for n in range(1, self.nn + 1)] for c in self.cases])
            else:
                kind = BEAM if v == 'RVFORCES' else SHELL
                groups.append([[self.elres(v, c, e) for e in range(1, len(self.types) + 1)
                                if self.types[e - 1] in kind] for c in self.cases])
        if r.random() < .5:      # type by type
            for gr in groups:
                for blk in gr:
                    R += blk
        else:                    # case by case
            for k in range(len(self.cases)):
                for gr in groups:
                    R += gr[k]

    def vals6(self, parts, c=None):
        val = self.valgen()
        mask = self.mask(c)
        return [mask(val(), i // parts, i % parts) for i in range(6 * parts)]

    def mask(self, c):
        """parts of the values that are zero: real or imaginary parts or some
        components, of a record or of all records of a result case"""
        r = self.g.r

        def new():
            x = r.random()
            if x < .75:
                return lambda v, j, p: v
            if x < .83:
                return lambda v, j, p: v if p else 0
            if x < .9:
                return lambda v, j, p: 0 if p else v
            keep = r.sample(range(6), r.randint(0, 4))
            return lambda v, j, p: v if j in keep else 0
        if c is None or r.random() < .15:
            return new()
        return self.masks.setdefault(c, new())

    def elres(self, name, c, e):
        t = self.types[e - 1]
        nsp, nc = NSP[t], NCOMP[t]
        val = self.valgen()
        mask = self.mask(c[0])
        vals = [[[mask(val(), j, p) for p in range(1 + c[3])] for j in range(nc)] for _ in range(nsp)]
        if t in (26, 28):        # one transverse shear per point, given in both layers
            h = nsp // 2
            for p in range(h):
                for j in (3, 4):
                    vals[p + h][j] = list(vals[p][j])
        flat = [x for p in vals for j in p for x in j]
        return self.g.nf(name, [8 * c[0], 8 * e, 8, 8 * t] + flat)

    def file(self, **kw):
        kw.setdefault('enc', encs(self.g))
        return fileobj(self.recs, self.letter, kw.pop('no', self.seltyp), **kw)

    # ------------------------------------------------ what can be asked
    def pick_sets(self, kind='', ok=None):
        """set names whose union has an element of the kind"""
        r = self.g.r
        for _ in range(20):
            names = r.sample(sorted(self.setdef), r.randint(1, min(3, len(self.setdef))))
            mem = set().union(*[self.setdef[n] for n in names])
            ts = [self.types[e - 1] for e in mem]
            if kind:
                ts = [t for t in ts if t in SEL[kind]]
            if ts and (ok is None or ok(ts)):
                if r.random() < .1:
                    names = names + [names[0]]
                return names
        return []


ARGS = dict(sets=[], kind='', disc=False, trans=dict(m='none', v=[]), index=1, ntype='external',
            restype='', run=1, rc=dict(m='none', v=[]), pos='nodes', seltyp=0,
            body=1, body2=1, mtyp=11, unit='degrees', what='elevation')


def q(h, ds, fn, sc=1, tol=0, presentation=None, **a):
    d = {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v)
         for k, v in ARGS.items()}
    d.update(a)
    ev = dict(op='q', h=h, ds=ds, fn=fn, a=d, tol=tol, sc=sc)
    ev.update(presentation or {})
    return ev


def pres(r):
    return dict(full=r.random() < .4, pos=r.random() < .3, npint=r.random() < .2)


def rc(g, st, run=1, n=None):
    """a request for result cases of a run"""
    r = g.r
    exts = [c[2] for c in st.cases if c[1] == run]
    c = r.random()
    if c < .25:
        return dict(m='none', v=[])
    if c < .5 or len(exts) == 1:
        return dict(m='int', v=[r.choice(exts)])
    k = r.randint(1, len(exts))
    v = r.sample(exts, k)
    if r.random() < .3:
        v += [r.choice(v) for _ in range(r.randint(1, 3))]
    if r.random() < .3:
        v.sort()
    if r.random() < .15:
        v.insert(r.randint(0, len(v)), r.choice([99, 0, r.randint(1, 40)]))   # perhaps not on the file
    return dict(m=r.choice(['list', 'tuple', 'array', 'array32']), v=v)


class Hier:
    """A superelement hierarchy as a set of files."""

    def __init__(self, g, letter='T', levels=None, lc=False, fpre='', dir='', ext=None, fmt=None,
                 nmax=9):
        self.g, r = g, g.r
        self.letter = letter
        top = levels or r.choice([2, 2, 3, 3, 3, 3, 4, 4, 4, 5])
        fmt = fmt or r.choice('FU')
        self.rows = []           # dicts
        sel = r.sample(range(1, 60), 20)
        # superelement types per level
        ntyp = {top: 1}
        for lv in range(1, top):
            ntyp[lv] = r.choice([1, 1, 2, 2, 3])
        self.types = {}
        k = 0
        for lv in range(top, 0, -1):
            self.types[lv] = sel[k:k + ntyp[lv]]
            k += ntyp[lv]
        count = {}
        rows = self.rows

        def add(typ, lv, parent):
            count[typ] = count.get(typ, 0) + 1
            row = dict(ihref=len(rows) + 1, iselty=typ, indsel=count[typ], islevl=lv,
                       itref=0, ihpref=parent, ch=[])
            rows.append(row)
            return row
        deep = r.random() < .4       # branch by branch, else level by level

        def children(p):
            todo_ = []
            if p['islevl'] == 1:
                return todo_
            nch = r.randint(1, 3)
            for j in range(nch):
                if len(rows) >= nmax and j > 0:
                    break
                # children may be more than one level below
                lv = p['islevl'] - 1
                if lv > 1 and j > 0 and r.random() < .3:
                    lv = r.randint(1, lv)
                c = add(r.choice(self.types[lv]), lv, p['ihref'])
                p['ch'].append(c['ihref'])
                if deep:
                    children(c)
                else:
                    todo_.append(c)
            return todo_
        q_ = [add(self.types[top][0], top, 0)]
        while q_:
            q_ += children(q_.pop(0))
        # every type that occurs must have its first repetition: true by count
        if r.random() < .5:          # repetitions numbered in another order than listed
            for typ, n in count.items():
                new = r.sample(range(1, n + 1), n)
                for row in rows:
                    if row['iselty'] == typ:
                        row['indsel'] = new[row['indsel'] - 1]
        trn = {}
        for row in rows[1:]:
            row['itref'] = r.randint(1, 6) if r.random() < .5 else 10 + row['ihref']
            trn.setdefault(row['itref'], self.matrix())
        self.trn = trn
        self.top = rows[0]['iselty']
        self.toplevel = top
        hier = [g.nf('HIERARCH', [8 * w[k] for k in ('ihref', 'iselty', 'indsel', 'islevl',
                                                     'itref', 'ihpref')]
                     + [8 * len(w['ch'])] + [8 * c for c in w['ch']]) for w in rows]
        trs = [g.nf('HSUPTRAN', [8 * k] + m) for k, m in trn.items()]
        ident = g.ident(self.top, top)
        if r.random() < .5:
            trs.reverse()
        recs = ([ident] + hier if r.random() < .5 else hier + [ident]) + trs
        if r.random() < .6:
            recs += [g.one('GELMNT2', {})[0] for _ in range(r.randint(1, 3))]
        if letter == 'R':
            recs += [g.textrec('TEXT')]
        enc = dict(fmt=fmt, eol=r.choice(['\n', '\r\n']), pad=r.choice([0, 1, 2]))
        if ext == 'any':
            ext = r.choice(['fem', 'Fem']) if letter == 'T' else r.choice(['sif', 'Siu', 'Sif'])
        ext = ext or ('FEM' if letter == 'T' else 'SIF' if fmt == 'F' else 'SIU')
        self.kw = dict(fpre=fpre, lc=lc, dir=dir, ext=ext, enc=enc)
        self.files = {'top': fileobj(recs, letter, self.top, **self.kw)}
        self.lower = []          # (key, row)
        self.struc = {}
        mixed = r.random() < .35     # every file may be encoded in its own way
        for row in rows[1:]:
            if letter == 'T':
                if row['indsel'] != 1:
                    continue
                key = 't%d' % row['iselty']
                if row['islevl'] > 1:
                    rr = [g.ident(row['iselty'], row['islevl'])] + \
                        [g.one('GELMNT2', {})[0] for _ in range(r.randint(1, 2))]
                    f = fileobj(rr, 'T', row['iselty'], **self.kw)
                else:
                    s = Struc(g, r.choice(['mix', 'thin', 'beams']), nel=r.randint(2, 5),
                              vals=(), letter='T', seltyp=row['iselty'])
                    self.struc[key] = s
                    f = s.file(**self.kw)
            else:
                if row['islevl'] != 1:
                    continue
                key = 'r%d' % row['ihref']
                s = Struc(g, r.choice(['mix', 'thin']), nel=r.randint(2, 4), ncase=1,
                          vals=('RVNODDIS',), letter='R', seltyp=row['iselty'])
                self.struc[key] = s
                f = s.file(rep=row['ihref'], **self.kw)
            if mixed:
                f['enc'] = dict(fmt=r.choice('FU'), eol=r.choice(['\n', '\r\n']), pad=r.choice([0, 1, 2]))
            self.files[key] = f
            self.lower.append((key, row))

    def matrix(self):
        """whole numbers: rotations by multiples of 90 degrees, reflections,
        general small matrices, and translations"""
        r = self.g.r
        m = [[0] * 4 for _ in range(4)]
        if r.random() < .6:
            p = r.sample(range(3), 3)
            for i in range(3):
                m[i][p[i]] = r.choice([1, -1])
        else:
            for i in range(3):
                for j in range(3):
                    m[i][j] = r.randint(-2, 2)
        for j in range(3):
            m[3][j] = r.randint(-9, 9)
        m[3][3] = 1
        return [8 * x for w in m for x in w]

    def path(self, key, row):
        """dataset path below the top level (only used to ask questions)"""
        top = self.kw['fpre'] + self.letter + str(self.top)
        return top + '/' + self.letter + str(row['iselty']) \
            + ('_%d' % row['indsel'] if self.letter == 'R' else '')


class Hydro:
    def __init__(self, g, nb=None, nd=None, nf=None, domain='freq', parts=None, seltyp=None,
                 odd=False):
        self.g, r = g, g.r
        nb = nb or r.choice([1, 1, 2, 3])
        self.nd = nd or r.choice([1, 2, 3, 4, 1, 2, 3, 4, 6])
        self.nf = nf or r.choice([1, 2, 3, 4, 1, 2, 3, 4, 7])
        self.domain, self.circle = domain, False
        self.seltyp = seltyp or 1
        g.odd = r.choice([0, 0, .1, .4])
        ALL = ['WBODY', 'W1MATRIX', 'W1MOTION', 'W1EXFORC', 'W2MDRIFT', 'W2HDRIFT', 'W1SFORCE',
               'WFLUIDKN', 'W1PANPRE', 'WSECTION', 'WFKPOINT', 'WSURFACE']
        self.parts = parts if parts is not None else ALL
        bodies = r.sample(range(1, 9), nb)
        if r.random() < .7:
            bodies = list(range(1, nb + 1))
        conds = r.sample(range(1, 20), nb)
        self.bodies, self.conds = bodies, conds
        R = self.recs = [g.ident(self.seltyp)]
        gg = 8 * r.choice([1, 2, 4, 10])
        ro = 8 * r.choice([1, 2, 5, 1000, 1024])
        self.gro = gg * ro // 64
        R.append(g.nf('WGLOBDEF', [gg, ro, 8, 8 * r.randint(10, 300)]))
        order = list(zip(bodies, conds))
        if r.random() < .5:
            r.shuffle(order)
        for b, c in order:
            n = r.randint(0, 2)
            R.append(g.nf('WBODCON', [8 * c, 8 * b, 8 * n] + g.xs(3 * n)))
        if 'WBODY' in self.parts:
            for c in r.sample(conds, nb):
                R.append(g.nf('WBODY', g.fields('i' + 30 * 'r', 8 * c)))
        pool = [0] + r.sample(range(1, 50), 8) + r.sample(range(-30, 120), 4)
        fpool = r.sample(range(2, 40), 10) + r.sample(range(40, 400), 2)
        if odd:                      # some of them closer than an eighth, or far away
            k = [ODD0 + i for i in range(len(ODD))]
            if odd == 'some':        # those that can be turned into degrees and periods
                k = [x for x in k if .003 < abs(ODD[x - ODD0]) <= 10]
            pool = pool[:4] + r.sample(k, 6)
            if r.random() < .5:      # all around, or most of it
                pool = [0] + [ODD0 + i for i in sorted(CIRCLE, key=lambda i: ODD[i])]
                if self.nd > 1 and r.random() < .7:
                    self.circle = True
            fpool = fpool[:4] + r.sample([i for i in k if ODD[i - ODD0] > 0], 6)
        dirs = r.sample(list(dict.fromkeys(pool)), self.nd)
        if self.circle:
            ends = [0, ODD0 + ODD.index(max(ODD[i] for i in CIRCLE))]
            dirs = [d for d in dirs if d not in ends][:self.nd - 2]
            dirs = r.choice([ends[:1] + dirs + ends[1:], ends + dirs, r.sample(ends + dirs, len(ends + dirs))])
        freqs = r.sample(list(dict.fromkeys(fpool)), self.nf)
        if r.random() < .5:
            dirs.sort()
            freqs.sort()
        self.dirs, self.freqs = dirs, freqs
        refs = []
        if domain == 'freq':
            k = 0
            for d in dirs:
                for f in freqs:
                    k += 1
                    refs.append((k, d, f))
                    vals = [(1, [d]), (2, [f])]
                    if r.random() < .3:
                        vals.reverse()
                    R.append(g.wdresref(k, vals))
        else:
            ts = r.sample(range(0, 80), r.randint(1, 6))
            if r.random() < .5:
                ts.sort()
            for k, t in enumerate(ts):
                R.append(g.wdresref(k + 1, [(3, [t])] + ([(1, [r.choice(dirs)])]
                                                         if r.random() < .3 else [])))
        secs = {}
        if 'WSECTION' in self.parts:
            n = 0
            for b in bodies:
                secs[b] = []
                for _ in range(r.randint(1, 3)):
                    n += 1
                    secs[b].append(n)
            for b in bodies:
                for s in secs[b]:
                    R.append(g.nf('WSECTION', [8 * b, 8 * s, g.i(1, 3), g.i(1, 50)] + g.xs(9)))
        pts = []
        if 'WFKPOINT' in self.parts:
            pts = list(range(1, r.randint(1, 4) + 1))
            for p in pts:
                R.append(g.nf('WFKPOINT', [8 * p] + g.xs(3)))
        if domain == 'freq':
            self.responses(refs, secs, pts)
        self.secs, self.pts = secs, pts

    def responses(self, refs, secs, pts):
        g, r, R = self.g, self.g.r, self.recs
        conds = self.conds
        cb = list(zip(self.bodies, conds))

        def resp(name, cpl_possible=True):
            blk = []
            for k, _, _ in refs:
                for c in conds:
                    if name in ('W2MDRIFT', 'W2HDRIFT'):
                        blk.append(g.nf(name, [8 * c, 8 * k] + g.xs(6 if name == 'W2MDRIFT' else 3)))
                    else:
                        blk.append(g.response(name, 8 * c, 8 * k, r.random() < .8))
            # body by body or reference by reference
            if r.random() < .5:
                blk.sort(key=lambda q_: q_['v'][1])
            return blk
        out = []
        for n in ('W1MOTION', 'W1EXFORC', 'W2MDRIFT', 'W2HDRIFT'):
            if n in self.parts:
                out.append(resp(n))
        if 'W1MATRIX' in self.parts:
            blk = []
            self.mats = []
            pairs = [(a, b) for a in conds for b in conds]
            for ci, cj in pairs:
                for t in r.sample([11, 22, 31, 32], r.randint(2, 4)):
                    blk.append([ci, cj, 0, t])
                    self.mats.append((ci, cj, t))
            dep = r.choice([[12, 21], [12, 21], [12], [21]])
            fr = []
            for k, d, f in refs:
                if d == self.dirs[0]:
                    for ci, cj in pairs:
                        for t in dep:
                            fr.append([ci, cj, k, t])
            self.mats += [(ci, cj, t) for ci, cj in pairs for t in dep]
            if r.random() < .5:      # matrix by matrix
                fr.sort(key=lambda m: (m[3], m[0], m[1]))
            out.append([g.nf('W1MATRIX', [8 * (i + 1), 8 * ci, 8 * cj, 8 * k, 8 * t] + g.xs(36))
                        for i, (ci, cj, k, t) in enumerate(blk + fr)])
        if 'W1SFORCE' in self.parts and secs:
            blk = []
            for k, _, _ in refs:
                for b, c in cb:
                    for s in secs[b]:
                        blk.append((k, b, c, s))
            # reference, body or section first
            how = r.choice(['ref', 'sec', 'body'])
            if how == 'sec':
                blk.sort(key=lambda m: m[3])
            elif how == 'body':
                blk.sort(key=lambda m: m[2])
            out.append([g.response('W1SFORCE', 8 * c, 8 * k, r.random() < .8, None, 8 * s)
                        for k, b, c, s in blk])
        if 'WFLUIDKN' in self.parts and pts:
            blk = []
            for k, _, _ in refs:
                for p in pts:
                    v = [self.gro * r.randint(-9, 9) if self.gro < 2000 else 8 * r.randint(-999, 999)
                         for _ in range(2)] + g.xs(6)
                    blk.append(g.fluid(8 * k, 8 * p, True, v))
            out.append(blk)
        if 'W1PANPRE' in self.parts:
            npan, nsym = r.randint(1, 4), r.randint(1, 2)
            ids = sorted(r.sample(range(1, 90), npan))
            blk = []
            i = 0
            for k, _, _ in refs:
                for c in (conds if r.random() < .9 else conds[:1]):
                    for s in range(1, nsym + 1):
                        for p in ids:
                            i += 1
                            blk.append(g.panel(8 * c, 8 * k, 8 * i, 8 * s, True, g.xs(2), 8 * p, 8 * s))
            keep = {q_['v'][1] for q_ in blk}
            per = {c: len([1 for q_ in blk if q_['v'][1] == c]) for c in keep}
            full = len(refs) * nsym * npan
            blk = [q_ for q_ in blk if per[q_['v'][1]] == full]
            out.append(blk)
        if 'WSURFACE' in self.parts:
            out.append([g.wsurface()])
        r.shuffle(out)
        for b in out:
            R += b

    def file(self, **kw):
        kw.setdefault('enc', encs(self.g))
        return fileobj(self.recs, 'G', kw.pop('no', self.seltyp), **kw)
