"""Generators of abstract SESAM files and of histories of API calls.

Everything is derived from one random.Random; numbers are eighths.  The files
are valid by construction; what they mean is decided by the specification, not
here.
"""
import random

from sifio import rec, nf, ODD, ODD0

NNODES = {15: 2, 16: 2, 18: 1, 23: 3, 24: 4, 25: 3, 26: 6, 28: 8}
NSP = {15: 3, 23: 2, 24: 10, 25: 8, 26: 6, 28: 8}
NCOMP = {15: 6, 23: 6, 24: 3, 25: 3, 26: 5, 28: 5}
BEAM, SHELL = (15, 23), (24, 25, 26, 28)

# columns of the single-value records that are whole numbers
PLAIN = {
    'GNODE': 'iiii', 'GCOORD': 'irrr', 'GECCEN': 'irrr', 'GUNIVEC': 'irrr',
    'GELTH': 'iri', 'GBEAMG': 'i' + 15 * 'r', 'GBARM': 'irrrrrii',
    'GBOX': 'irrrrrrrii', 'GCHAN': 'irrrrrriiii'[:7] + 'iiii', 'GCHANR': 'irrrrrriiriii'[:7] + 'iirii',
    'GDOBO': 'irrrrrrrii', 'GIORH': 'irrrrrrrriii', 'GIORHR': 'irrrrrrrrrriii',
    'GLSEC': 'irrrrrrrii', 'GLSECR': 'irrrrrrrrii', 'GPIPE': 'irrrrrii',
    'GUSYI': 'irrrrrrrrrriii', 'MISOSEL': 'irrrrr', 'BGRAV': 'irrirrr',
    'BRIGAC': 'irir' + 16 * 'r'}
OPTIONAL = {'GBARM': 2, 'GBOX': 2, 'GCHAN': 2, 'GCHANR': 2, 'GDOBO': 2, 'GIORH': 3,
            'GIORHR': 3, 'GLSEC': 2, 'GLSECR': 2, 'GPIPE': 2, 'GUSYI': 3}
WIDE = {  # after nfield
    'RSUPTRAN': 'i' + 16 * 'r', 'HSUPTRAN': 'i' + 16 * 'r',
    'WBODY': 'i' + 14 * 'r' + 16 * 'r', 'W1MATRIX': 'iiiii' + 36 * 'r',
    'W2HDRIFT': 'ii' + 3 * 'r', 'W2MDRIFT': 'ii' + 6 * 'r', 'WFKPOINT': 'irrr',
    'WSECTION': 'iiii' + 9 * 'r', 'WINPUT': 'i' + 16 * 'r'}
TD = ['TDMATER', 'TDSECT', 'TDSETNAM', 'TDSUPNAM', 'TSLAYER', 'TDSCONC', 'TDLOAD',
      'TDRESREF', 'TDBODNAM', 'TDRSNAM']
# record types freesif does not store, as far as the file format knows them
UNKNOWN1 = ['ADDATA', 'BELFIX', 'BNLOAD', 'BNMASS', 'GELINT', 'GELSTRP', 'MGSPRNG', 'MORSMEL',
            'BEWALO1', 'GSLAYER', 'AMATRIX', 'BQDP']
UNKNOWN2 = ['RDSERIES', 'RVORDINA', 'RVABSCIS', 'RDTRANS', 'RSUMLOAD', 'RVNODREA', 'W2FLUDIF',
            'WGRESPON', 'SPROSELE', 'SPROECCE', 'WSCATTER', 'RVELNFOR']
# every name of the file format with no meaning to freesif
FOREIGN = '''ACFD ADDATA AMATRIX AMDACCL AMDDAMP AMDDISP AMDFREQ AMDLOAD AMDMASS AMDSTIFF AMDVELO
BEDRAG1 BEISTE BELFIX BELLAX BELLO2 BELOAD1 BEMASS1 BEUVLO BEWAKIN BEWALO1 BNACCLO BNDISPL BNDOF
BNINCO BNLOAD BNLOAX BNMASS BNTEMP BNTRCOS BNWALO BQDP BRIGDI BRIGVE BSELL GCROINT GECC GELINT
GELSTRP GLMASS GSEPSPEC GSLAYER GSLPLATE GSLSTIFF GTONP MAXDMP MAXSPR MCNT MGDAMP MGLDAMP MGLMASS
MGMASS MGSPRNG MISOAL MISOEML MISOHL MISOHNL MISOPL MISTEL MORSMEL MORSSEL MORSSOL MSHGLSP MTEMP
MTENONL MTRMEL MTRSEL MTRSOL RDMLFACT RDNODBOC RDNODREA RDSERIES RDTRANS RSUMLOAD RSUMMASS RSUMREAC
RVABSCIS RVELNFOR RVNODREA RVORDINA SCONPLIS SPROCODE SPROECCE SPROHYDR SPROMATR SPROORIE SPROPILE
SPROSEGM SPROSELE SPROSOIL TDSERIES TELEMENT TNODE W2FLUDIF W2FLUSUM WGRESPON WSCATTER'''.split()
ALPHA = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-.+/()'


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.odd = 0            # how often a real value is an odd one

    # -------------------------------------------------------------- numbers
    def i(self, lo=0, hi=60):
        c = self.r.random()
        if hi > 1 and c < .03:
            return 0
        if hi > 3 and c < .06:
            return self.big()
        return 8 * self.r.randint(lo, hi)

    def big(self):
        return 8 * self.r.choice([self.r.randint(0, 99), self.r.randint(100, 65535),
                                  self.r.randint(65536, 9999999)])

    def x(self):
        if self.odd and self.r.random() < self.odd:
            return ODD0 + self.r.randrange(len(ODD))
        return self.r.choice([self.r.randint(-4000, 4000), self.r.randint(-80, 80),
                              8 * self.r.randint(-50, 50), 0])

    def nz(self):
        v = self.r.randint(1, 4000)
        return v if self.r.random() < .5 else -v

    def xs(self, n):
        return [self.x() for _ in range(n)]

    def ints(self, n, lo=0, hi=500):
        return [self.i(lo, hi) for _ in range(n)]

    def fields(self, types, first=None):
        out = []
        for k, t in enumerate(types):
            if k == 0 and first is not None:
                out.append(first)
            elif t == 'i':
                out.append(self.big() if self.r.random() < .3 else self.i(0, 90))
            else:
                out.append(self.x())
        return out

    def text(self, lo=1, hi=20):
        n = self.r.randint(lo, hi)
        s = ''.join(self.r.choice(ALPHA) for _ in range(n))
        if n > 4 and self.r.random() < .3:
            k = self.r.randint(1, n - 2)
            s = s[:k] + ' ' + s[k + 1:]
        return s

    def split(self):
        """how an unformatted writer may cut continuation data"""
        c = self.r.random()
        if c < .5:
            return None
        if c < .7:
            return [4] * 60
        return [self.r.randint(1, 32) for _ in range(60)]

    def nf(self, name, rest):
        return nf(name, rest, self.split())

    # ------------------------------------------------------ single records
    def td(self, name, idno=None, label=None, nlines=None, second=None):
        label = label if label is not None else self.text()
        nl = self.r.choice([0, 0, 0, 1, 2, 3]) if nlines is None else nlines
        texts = [self.text(1, 40) for _ in range(nl)]
        if nl and self.r.random() < .1:
            texts = [''] * nl
        if second is None and self.r.random() < .12:
            names = [label, self.text(1, 12)]
        else:
            names = [label]
        t = names + texts
        return rec(name, [32, idno if idno is not None else self.i(1, 900),
                          8 * (100 * len(names) + min(99, max(map(len, names)))),
                          8 * (100 * nl + (max(map(len, texts)) if texts else 0))], 4, t)

    def textrec(self, name):
        n = self.r.choice([0, 1, 1, 2, 3, 4, 11])
        ls = [self.text(1, 50) for _ in range(n)]
        return rec(name, [self.i(1, 4), self.i(0, 3), 8 * n, 8 * 72], 3, ls)

    def unknown(self):
        c = self.r.random()
        if c < .08:              # a short line
            return rec(self.r.choice(FOREIGN[:60]), [self.i(1, 99)] + self.xs(self.r.randint(0, 2)), 1,
                       bare=self.r.random() < .6)
        if c < .45:
            return rec(self.r.choice(UNKNOWN1), [self.i(1, 99)] + self.xs(self.r.randint(3, 14)), 1)
        if c < .9:
            return self.nf(self.r.choice(UNKNOWN2), self.xs(self.r.randint(3, 40)))
        return rec(self.r.choice(UNKNOWN1), [self.i(1, 9)] + self.xs(3), 1)

    def index(self, prev=None):
        # an index record stands before the records it refers to, never among
        # records of the same name
        name = self.r.choice(['RVNODDIS', 'RVSTRESS', 'RVFORCES', 'GNODE', 'WDRESREF', 'W1MATRIX',
                              'RDPOINTS', 'GELREF1', 'BNLOAD'])
        if name == prev:
            name = 'RDSTRAIN' if prev != 'RDSTRAIN' else 'GCOORD'
        if self.r.random() < .5:
            return rec(name, [-32] + self.ints(3, 1, 99), 5)
        return rec(name, [-40] + self.ints(3, 1, 99) + self.xs(self.r.randint(1, 4)), 5)

    def ident(self, seltyp, slevel=1):
        return rec('IDENT', [8 * slevel, 8 * seltyp, self.i(1, 3), 0], 1)

    def plain(self, name, first=None):
        types = PLAIN[name]
        v = self.fields(types, first)
        if name == 'BRIGAC':
            # imaginary accelerations only if complex
            v[2] = 8 * self.r.randint(0, 1)
            return rec(name, v if v[2] else v[:14], 1)
        k = OPTIONAL.get(name, 0)
        if k and self.r.random() < .6:
            # any number of the optional trailing fields may be missing, as long
            # as the line that would hold them is not there (short last line)
            drop = self.r.randint(1, k)
            v = v[:len(v) - drop]
        return rec(name, v, 1)

    def geltype(self, t, elnox, elno, nodes):
        return rec('GELMNT1', [elnox, elno, 8 * t, self.i(0, 3)] + [8 * n for n in nodes], 1)

    def gelref(self, elno, nn, matno=None, geono=None):
        """GELREF1: any of the four last references may be given per node"""
        per = [self.r.random() < .25 for _ in range(4)]
        if geono is not None:
            per[0] = False
        v = [elno, matno if matno is not None else self.i(1, 5), self.i(0, 9), self.i(0, 3),
             self.i(0, 3), self.i(0, 9), self.i(0, 9), self.i(0, 9)]
        refs = [geono if geono is not None else self.i(1, 20), self.i(0, 9), self.i(0, 9),
                self.i(0, 9)]
        v += [-8 if p else q for p, q in zip(per, refs)]
        for p in per:
            if p:
                v += self.ints(nn, 0, 99)
        return rec('GELREF1', v, 1)

    def sconcept(self):
        typ = self.r.choice([2, 7])
        if typ == 7:
            npart, njoin = self.r.randint(1, 6), self.r.randint(0, 4)
            rest = [self.i(1, 99), 56, self.i(0, 5), self.i(0, 9), 8 * npart, 8 * njoin] \
                + self.ints(npart, 1, 99) + self.ints(njoin, 1, 99)
            return self.nf('SCONCEPT', rest)
        # a segment has no parts
        d = nf('SCONCEPT', [self.i(1, 99), 16, self.i(0, 5), self.i(0, 9)]
               + ([self.i(0, 0)] * self.r.choice([0, 0, 1, 2])))
        d['split'] = None               # one physical record
        return d

    def wdresref(self, iwres, vals):
        """vals: list of (type, values)"""
        n = max([len(v) for _, v in vals] + [0])
        rest = [8 * iwres, 8 * n, 8 * len(vals)]
        for t, v in vals:
            rest.append(8 * t)
            for k, q in enumerate(v):
                rest += [8 * (k + 1), q]
        return self.nf('WDRESREF', rest)

    def response(self, name, cond, iwres, cpl, data=None, sec=None):
        v = data if data is not None else self.xs(12 if cpl else 6)
        c = self.r.random()
        if cpl and data is None and c < .2:     # no real part, no imaginary part, few components
            v = [x if (i % 2 if c < .08 else not i % 2 if c < .14 else i // 2 == int(c * 600) % 6) else 0
                 for i, x in enumerate(v)]
        rest = [cond] + ([sec] if sec is not None else []) + [iwres, 8 if cpl else 0]
        return self.nf(name, rest + v)

    def fluid(self, iwres, pnt, cpl, v=None):
        return self.nf('WFLUIDKN', [iwres, pnt, 8 if cpl else 0]
                       + (v if v is not None else self.xs(8 if cpl else 4)))

    def panel(self, cond, iwres, ippan, isym, cpl, p, ipan, isym2):
        return self.nf('W1PANPRE', [cond, iwres, ippan, isym, 8 if cpl else 0] + p + [ipan, isym2])

    def wsurface(self):
        comps = [self.r.randint(0, 1) for _ in range(3)]
        if not any(comps):
            comps[self.r.randrange(3)] = 1
        cpl = self.r.randint(0, 1)
        nn = self.r.randint(1, 5)
        rest = [self.i(1, 99), self.i(1, 9), 8 * nn, 8 * cpl] + [8 * c for c in comps]
        for _ in range(nn):
            rest += [self.i(1, 999)] + self.xs(sum(comps) * (1 + cpl))
        return self.nf('WSURFACE', rest)

    # -------------------------------------------------------- whole files
    def soup(self, letter, types, nblocks=12, rich=True, seltyp=None):
        """a file of records of the given types in a random, but legal, order"""
        r = self.r
        st = dict(el={}, elno=0, pts=[], cases=[], rf={}, rs={}, rst={}, icoref=0, ires=0)
        recs = []
        seltyp = seltyp or r.choice([1, 2, 7, 12, 100])
        if rich and r.random() < .2:
            recs.append(rec('IRECSIZE', [0, 8 * 4096, 0, 0], 1))
        recs.append(self.ident(seltyp, 1))

        def more(name):
            return [self.one(name, st) for _ in range(r.choice([1, 1, 2, 3, 4]))]
        for _ in range(nblocks):
            name = r.choice(types)
            blk = [x for rs in more(name) for x in rs]
            if rich and r.random() < .25:
                blk = [self.index(recs[-1]['name'])] + blk
            recs += blk
            if rich and r.random() < .25:
                recs += [self.unknown() for _ in range(r.choice([1, 1, 2, 3]))]
            if rich and r.random() < .1:
                recs.append(self.index(recs[-1]['name']))
        return [self.fix_split(q) for q in recs], seltyp

    def fix_split(self, q):
        return q

    def element(self, st, types=None):
        st['elno'] += 1
        t = self.r.choice(types or list(NNODES))
        st['el'][st['elno']] = t
        return self.geltype(t, self.i(1, 9999), 8 * st['elno'],
                            [self.r.randint(1, 300) for _ in range(NNODES[t])])

    def one(self, name, st):
        """records of one type (with the ones they depend on, if not there yet)"""
        r = self.r
        if name in PLAIN:
            return [self.plain(name)]
        if name in WIDE:
            return [self.nf(name, self.fields(WIDE[name]))]
        if name in ('DATE', 'TEXT'):
            return [self.textrec(name)]
        if name in TD:
            return [self.td(name)]
        if name == 'GELMNT1':
            return [self.element(st)]
        if name == 'GELMNT2':
            n = r.randint(0, 20)
            return [rec('GELMNT2', [self.i(1, 99), self.i(1, 3), self.i(1, 9), self.i(0, 2)]
                        + self.xs(12) + [8 * n] + self.ints(n, 1, 999), 1)]
        if name == 'GELREF1':
            pre = [] if st['el'] else [self.element(st) for _ in range(3)]
            e = r.choice(list(st['el']))
            return pre + [self.gelref(8 * e, NNODES[st['el'][e]])]
        if name == 'GSETMEMB':
            n = r.choice([0, 1, 2, 5, 17, 70]) if r.random() < .9 else 300
            return [self.nf('GSETMEMB', [self.i(1, 20), self.i(1, 9), self.i(1, 2), self.i(0, 2)]
                            + self.ints(n, 1, 5000))]
        if name == 'SCONCEPT':
            return [self.sconcept()]
        if name == 'SCONMESH':
            n = r.choice([0, 1, 3, 8, 20])
            return [self.nf('SCONMESH', [self.i(1, 99), 8 * r.randint(0, 1), self.i(1, 3), 8 * n]
                            + self.ints(n, 1, 999))]
        if name == 'BNBCD':
            n = r.randint(2, 7)
            return [rec('BNBCD', [self.i(1, 999), 8 * n] + self.ints(n, 0, 4), 1)]
        if name == 'BLDEP':
            n = r.randint(0, 7)
            v = [self.i(1, 999), self.i(1, 999), self.i(1, 6), 8 * n]
            for _ in range(n):
                v += [self.i(1, 6), self.i(1, 6), self.x(), 0]
            return [rec('BLDEP', v, 1)]
        if name == 'BEUSLO':
            cpl, nd = r.randint(0, 1), r.choice([1, 3, 4, 8, 12])
            return [rec('BEUSLO', [self.i(1, 99), self.i(1, 2), 8 * cpl, self.i(0, 2),
                                   self.i(1, 999), 8 * nd, self.i(0, 2), self.i(0, 2)]
                        + self.xs(nd * (1 + cpl)), 1)]
        if name in ('RDFORCES', 'RDNODRES', 'RDSTRAIN', 'RDSTRESS', 'RDELNFOR'):
            n = r.choice([1, 3, 5, 6, 12])
            used = st['rf'].setdefault(name, [])
            ir = r.choice([k for k in [15, 24, 25, 26, 28] + list(range(1, 60)) if k not in used])
            used.append(ir)
            d = {'RDFORCES': 'f', 'RDSTRAIN': 's', 'RDSTRESS': 't'}.get(name)
            if d:
                st.setdefault('ir' + d, {})[ir] = n
            return [self.nf(name, [8 * ir, 8 * n] + self.ints(n, 1, 60))]
        if name == 'RDPOINTS':
            return [self.rdpoints(st)]
        if name == 'RDIELCOR':
            pre = []
            if st['pts'] and r.random() < .8:
                ic, g = r.choice(st['pts'])[2:4]
            elif r.random() < .5:
                p = self.rdpoints(st)
                pre, (ic, g) = [p], st['pts'][-1][2:4]
            else:
                ic = r.choice([15, 24])
                if any(q[2] == ic for q in st['pts']):
                    g = [q[3] for q in st['pts'] if q[2] == ic][-1]
                else:
                    g = (1, 1, 3, 0) if ic == 15 else (2, 3, 3, 0)
                    st.setdefault('noic', set()).add(ic)    # not to be defined later
            return pre + [self.nf('RDIELCOR', [8 * ic, self.i(1, 3)]
                                  + self.xs(g[0] + g[1] + g[2] + 2 * g[3]))]
        if name == 'RDRESREF':
            return [self.rdresref(st)]
        if name in ('RBLODCMB', 'RDRESCMB'):
            n = r.randint(0, 5)
            return [self.nf(name, [self.i(1, 99), self.i(0, 1), 8 * n] + self.xs(3 * n))]
        if name in ('RVNODACC', 'RVNODDIS', 'RVNODVEL'):
            n = r.choice([1, 3, 6, 6, 6, 12])
            return [self.nf(name, [self.i(1, 20), self.i(1, 500), self.i(0, 3), self.i(0, 3)]
                            + self.xs(n))]
        if name in ('RVFORCES', 'RVSTRAIN', 'RVSTRESS'):
            pre = []
            d = {'RVFORCES': 'f', 'RVSTRAIN': 's', 'RVSTRESS': 't'}[name]
            if not st['cases']:
                pre.append(self.rdresref(st))
            if not st['pts']:
                pre.append(self.rdpoints(st))
            if not st.get('ir' + d):
                pre += self.one({'f': 'RDFORCES', 's': 'RDSTRAIN', 't': 'RDSTRESS'}[d], st)
            out = []
            for _ in range(r.randint(1, 3)):
                ires, cpl = r.choice(st['cases'])
                isp, el, _, _, nsp = r.choice(st['pts'])
                ir, lr = r.choice(list(st['ir' + d].items()))
                out.append(self.nf(name, [8 * ires, 8 * el, 8 * isp, 8 * ir]
                                   + self.xs(nsp * lr * (1 + cpl))))
            return pre + out
        if name == 'WBODCON':
            n = r.randint(0, 4)
            return [self.nf(name, [self.i(1, 9), self.i(1, 9), 8 * n] + self.xs(3 * n))]
        if name == 'WDRESREF':
            n = r.randint(1, 3)
            ts = r.sample([1, 2, 3], r.randint(1, 3))
            return [self.wdresref(r.randint(1, 99), [(t, self.xs(n)) for t in ts])]
        if name == 'WGLOBDEF':
            dep = r.randint(0, 1)
            return [self.nf(name, [self.nz(), self.nz(), 8 * dep]
                            + ([self.x()] if dep else []))]
        if name in ('W1EXFORC', 'W1MOTION', 'W2EXFDIF', 'W2EXFSUM'):
            return [self.response(name, self.i(1, 5), self.i(1, 99), r.random() < .7)]
        if name == 'W1SFORCE':
            return [self.response(name, self.i(1, 5), self.i(1, 99), r.random() < .7, None,
                                  self.i(1, 5))]
        if name == 'WFLUIDKN':
            return [self.fluid(self.i(1, 99), self.i(1, 9), r.random() < .7)]
        if name == 'W1PANPRE':
            c = r.random() < .7
            return [self.panel(self.i(1, 4), self.i(1, 99), self.i(1, 9), self.i(1, 4), c,
                               self.xs(2 if c else 1), self.i(1, 99), self.i(1, 4))]
        if name == 'WSURFACE':
            return [self.wsurface()]
        raise KeyError(name)

    def rdpoints(self, st, ispalt=None, el=None, typ=None, nsp=None):
        r = self.r
        nlay = r.randint(0, 2)
        nok, noj, noi = r.randint(1, 2), r.randint(1, 3), r.randint(1, 3)
        if r.random() < .08:
            nok, noj, noi = r.choice([(1, 1, 12), (1, 11, 1), (13, 1, 1), (2, 10, 2), (1, 2, 25)])
        st['icoref'] = st.get('icoref', 0) + 1
        ic = st['icoref']
        if r.random() < .4:
            ic = r.choice([15, 24])
        taken = {p[2] for p in st['pts']} | st.get('noic', set())
        while ic in taken:
            ic += 1
        if ispalt is None:
            ispalt, el = r.randint(1, 2), 1 + len(st['pts'])
            if st['pts'] and r.random() < .4:
                # another set of points for an element that has one
                el = r.choice(st['pts'])[1]
                ispalt = 1 + max(p[0] for p in st['pts'] if p[1] == el)
        nsp = nsp or r.randint(1, 6)
        ntra = r.randint(0, 2)
        rest = [8 * ispalt, 8 * el, 8 * ic, 8 * (typ or r.choice([15, 24, 28])), 8 * nsp,
                8 * (10000 * nok + 100 * noj + noi), 8 * ntra, 8 * nlay]
        for _ in range(nok * noj * noi):
            if r.random() < .5:
                rest += [8 * r.randint(1, 40)] + self.xs(3)
            else:
                rest.append(8 * r.choice([0, 0, -1]))
        rest += self.xs(9 * ntra)
        st['pts'].append((ispalt, el, ic, (nok, noj, noi, nlay), nsp))
        return self.nf('RDPOINTS', rest)

    def rdresref(self, st, irno=1, ieres=None, cpl=None, ires=None):
        r = self.r
        st['ires'] = ires or st['ires'] + 1
        cpl = r.randint(0, 1) if cpl is None else cpl
        st['cases'].append((st['ires'], cpl))
        n = r.choice([0, 1, 2, 3, 3, 12])
        return self.nf('RDRESREF', [8 * st['ires'], 8 * irno,
                                    8 * (ieres or r.randint(1, 50)), self.i(1, 3), 8 * cpl, 8 * n]
                       + self.xs(3 * n))


MODEL_TYPES = list(PLAIN) + ['GELMNT1', 'GELREF1', 'GELMNT2', 'BNBCD', 'BLDEP', 'BEUSLO']
TEXT_TYPES = ['DATE', 'TEXT'] + TD + ['GSETMEMB', 'SCONCEPT', 'SCONMESH', 'BNBCD', 'BLDEP',
                                       'GELREF1', 'GELMNT1', 'GELMNT2', 'BEUSLO']
RESULT_TYPES = ['RSUPTRAN', 'RDFORCES', 'RDNODRES', 'RDSTRAIN', 'RDSTRESS', 'RDELNFOR', 'RDPOINTS',
                'RDIELCOR', 'RDRESREF', 'RBLODCMB', 'RDRESCMB', 'RVNODACC', 'RVNODDIS', 'RVNODVEL',
                'RVFORCES', 'RVSTRAIN', 'RVSTRESS', 'TDLOAD', 'TDRESREF', 'RVSTRESS', 'RVFORCES']
HYDRO_TYPES = ['WBODY', 'W1MATRIX', 'W2HDRIFT', 'W2MDRIFT', 'WFKPOINT', 'WSECTION', 'WINPUT',
               'WBODCON', 'WDRESREF', 'WGLOBDEF', 'W1EXFORC', 'W1MOTION', 'W2EXFDIF', 'W2EXFSUM',
               'W1SFORCE', 'WFLUIDKN', 'W1PANPRE', 'WSURFACE', 'TDBODNAM', 'TDRSNAM']


# ------------------------------------------------------------------- cases
def fileobj(recs, letter='T', no=1, fpre='', ext=None, dir='', lc=False, name=None, enc=None,
            valid=True, bad=False, rep=None):
    ext = ext or ('FEM' if letter in 'TL' else 'SIF' if (enc or {}).get('fmt', 'F') == 'F' else 'SIU')
    lt = letter.lower() if lc else letter
    h = ('' if rep is None else ('h' if lc else 'H') + str(rep))
    name = name or '%s%s%d%s.%s' % (fpre, lt, no, h, ext)
    return dict(dir=dir, name=name, stem=name[:-3], fpre=fpre, letter=letter, lc=lc, ext=ext,
                sin=ext.upper() == 'SIN', valid=valid, bad=bad, recs=recs,
                enc=enc or dict(fmt='F'))


def convert(src, db='', append=False, usefp=True, prefix=None, only=(), **kw):
    seq = isinstance(src, (list, tuple))
    s = list(src) if seq else [src]
    return dict(op='convert', src=s, isseq=seq, db=db, append=append, usefp=usefp,
                prefix=prefix or [''] * len(s), only=list(only), **kw)


def put(add=(), dele=()):
    return {'op': 'put', 'add': list(add), 'del': list(dele)}


def case(cid, files, ev, disk=None, **kw):
    d = dict(id=cid, disk=list(files) if disk is None else disk, files=files, ev=ev)
    d.update(kw)
    return d


def encs(g):
    """a random encoding"""
    r = g.r
    if r.random() < .45:
        return dict(fmt='U', short=r.choice([0, 0, 1, 2]))
    return dict(fmt='F', eol=r.choice(['\n', '\n', '\r\n']), pad=r.choice([0, 0, 1, 2, 3]))
