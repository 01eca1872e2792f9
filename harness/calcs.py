"""Histories for the calculation functions (C24, C25) and the VTU writer (C23)."""


def stress(r, n, big):
    c = r.random()
    if c < .12:
        return [0] * n
    if c < .3:
        v = [0] * n
        v[r.randrange(n)] = r.randint(-big, big)
        return v
    if c < .4:
        # equal direct stresses: a double root or equal magnitudes
        v = [r.randint(-big, big)] * n
        return [x if r.random() < .5 else -x for x in v]
    v = [r.randint(-big, big) for _ in range(n)]
    if c < .55:
        for i in range(2, n):
            v[i] = 0
    elif c < .6:
        v[:2] = [0] * len(v[:2])
    return v


def shape(r):
    n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
    s = [r.randint(1, 4 if n < 4 else 2) for _ in range(n)]
    if s and r.random() < .06:
        s[r.randrange(n)] = 0
    return s


def calc_case(g, cid):
    r = g.r
    ev = []
    for _ in range(8):
        fn = r.choice(['principal2d', 'principal_thickshell', 'vonmises2d', 'absmax'])
        big = 24 if fn == 'principal_thickshell' else 64
        need = {'principal2d': 3, 'vonmises2d': 3, 'principal_thickshell': 5}.get(fn, 1)
        lead = shape(r)
        n = need + r.choice([0, 0, 0, 1, 2]) if fn != 'absmax' else r.randint(1, 5)
        rows = 1
        for i in lead:
            rows *= i
        d = [x for _ in range(rows) for x in stress(r, n, big)]
        e = dict(fn=fn, s=lead + [n], d=d, exp=r.choice([0, 0, -3, -30, 20, 27]),
                 dtype=r.choice(['float64', 'float64', 'float32', 'int64', 'int32']),
                 lay=r.choice(['C', 'C', 'F', 'strided', 'ro']), axis=0, neg=False, pos=False)
        if fn == 'absmax':
            ax = [k + 1 for k, i in enumerate(e['s'])]
            if rows and r.random() < .8:
                e['axis'] = r.choice(ax)
            elif not rows:
                e['s'], e['d'] = [n], stress(r, n, big)
            e['neg'], e['pos'] = r.random() < .4, r.random() < .5
        if e['dtype'] == 'float32' and e['exp'] not in (0, -3):
            e['exp'] = r.choice([-10, 10])
        ev.append(e)
    return dict(id=cid, ev=ev, module='CalcTrace', driver='driver_calc.py')


def pairs_case(g, cid):
    r = g.r
    ev = []
    for _ in range(5):
        ne = r.choice([1, 2, 3, 4, 5, 6, 7, r.randint(8, 14)])
        elems = r.sample(range(1, 60), ne)
        nodes = r.sample(range(1, 90), r.randint(8, 12))
        rows, ends, types = [], [], []
        for _ in elems:
            t, k = r.choice([(15, 2), (23, 3), (24, 4), (25, 3), (26, 6), (28, 8)])
            rows += r.sample(nodes, k)
            ends.append(len(rows))
            types.append(t)
        pairs = []
        for _ in range(r.choice([1, 2, 3, 4, 5, 6, r.randint(7, 20)])):
            e = r.randrange(ne)
            a = ends[e - 1] if e else 0
            pairs.append([elems[e], rows[r.randint(a, ends[e] - 1)]])
        if r.random() < .25:
            # a node of another element or of none, or an element there is not
            other = r.choice(rows) if r.random() < .7 else r.choice(nodes)
            pairs.insert(r.randint(0, len(pairs)), [r.choice(elems + [77]), other])
        ev.append(dict(fn='find_elemres_indices', pairs=pairs, con=list(range(len(rows))), s=[], d=[],
                       ends=ends, types=types, elems=elems, rows=rows, exp=0, arr=r.random() < .4))
    return dict(id=cid, ev=ev, module='CalcTrace', driver='driver_calc.py')


# ---------------------------------------------------------------- VTU writer
NODES = {15: 2, 23: 3, 24: 4, 25: 3, 26: 6, 28: 8}
INTS = ['int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64']
NAMES = ['disp', 'stress upper', 'a<b', 'x & y', 'say "hi"', "it's", 'tau>0', 'æøå', '', '1.5 m',
         '&amp;', 'σ_xx', 'a/b', 'two\nlines', 'tab\there', "both \" and '"]


def arr(r, s, t=None, key='', **kw):
    n = 1
    for i in s:
        n *= i
    t = t or r.choice(INTS + ['float32', 'float64'] * 5)
    if t.startswith('float') or t in ('complex64', 'float16', 'complex128'):
        d = [r.randint(-4000, 4000) for _ in range(n)]
    elif t == 'bool':
        d = [8 * r.randint(0, 1) for _ in range(n)]
    else:
        lo, hi = (0, 250) if t.startswith('u') else (-120, 120)
        d = [8 * r.randint(lo, hi) for _ in range(n)]
    x = dict(s=list(s), d=d, t=t, be=r.random() < .12, key=key,
             lay=r.choice(['C', 'C', 'C', 'F', 'strided', 'ro']))
    x.update(kw)
    return x


def fixed(r, d, t):
    return dict(s=[len(d)], d=[8 * i for i in d], t=t, be=r.random() < .05, key='',
                lay=r.choice(['C', 'C', 'strided', 'ro']))


def piece(r, w, bad=False):
    types, ends, con = [], [], []
    many = r.random() < .04
    npts = r.randint(8, 12) if not many else r.randint(20, 60)
    disc = r.random() < .5
    pool = r.sample(sorted(NODES), r.randint(1, 4))
    for _ in range(r.randint(1, 5) if not many else r.randint(10, 40)):
        t = r.choice(pool)
        types.append(t)
        n = NODES[t]
        con += range(len(con), len(con) + n) if disc else r.sample(range(npts), n)
        ends.append(len(con))
    if disc:
        npts = len(con)
    pts = arr(r, [npts, 3], r.choice(['float64', 'float32']))
    if bad:
        c = r.randrange(3)
        if c == 0:
            types[r.randrange(len(types))] = r.choice([2, 10, 11, 18, 21, 22, 40])
        elif c == 1:
            pts = arr(r, [npts, 3], r.choice(['complex128', 'float16']))
        else:
            pts = arr(r, [npts, 1, 3], 'float64')
    it = r.choice(['int64', 'int32', 'int64'])
    return dict(op='piece', w=w, pts=pts, con=fixed(r, con, it), ends=fixed(r, ends, it),
                types=fixed(r, types, it), aslist=r.random() < .2), npts, len(types), len(con)


def add(r, w, op, n, k, bad=False, pool=None):
    c = r.random()
    s = [n] if c < .3 else [n, r.randint(1, 6)]
    t = None
    if bad:
        if r.random() < .5:
            s = [n, 2, 2]
        else:
            t = r.choice(['complex128', 'bool', 'float16'])
    a = arr(r, s, t)
    if pool and not bad and r.random() < .5:
        old = r.choice(pool)
        a = old
    elif not bad and pool is not None:
        a['key'] = 'k%s' % k
        pool.append(a)
    comps = []
    if len(a['s']) == 2 and r.random() < .5:
        comps = r.sample([x for x in NAMES if x], a['s'][1])
    return dict(op=op, w=w, a=a, name=r.choice(NAMES), comps=comps, tup=r.random() < .4,
                kw=r.random() < .3)


def vtu_case(g, cid):
    """random histories, calls in the wrong order among them"""
    r = g.r
    ev, st = [], {}
    for w in r.choice([['a'], ['a'], ['a', 'b']]):
        ev.append(dict(op='new', w=w))
        st[w] = dict(n=0, m=0, rows=0, pool={}, open=True)
    wild = r.choice([.05, .3])
    for k in range(r.randint(6, 16)):
        w = r.choice(sorted(st))
        s = st[w]
        if not s['open']:
            continue
        c = r.random()
        if c < (.6 if not s['n'] else .2):
            bad = r.random() < wild
            e, *size = piece(r, w, bad)
            ev.append(e)
            if not bad:
                s['n'], s['m'], s['rows'] = size
                s['pool'] = {}
        elif c < .4 or (not s['n'] and r.random() > wild):
            ev.append(dict(op=r.choice(['startp', 'startc']), w=w))
        elif c < .43:
            ev.append(dict(op='close', w=w))
            s['open'] = False
            if r.random() < .6:
                x = r.randrange(4)
                ev.append([piece(r, w)[0], add(r, w, r.choice(['add', 'addn']), 4, k),
                           dict(op=r.choice(['startp', 'startc']), w=w),
                           dict(op='close', w=w)][x])
        else:
            op = r.choice(['add', 'addn'])
            n = s['rows'] if op == 'addn' else r.choice([s['n'], s['m']])
            if op == 'addn' and not s['n']:
                n = 3
            pool = s['pool'].setdefault((op, n), []) if s['n'] else None
            ev.append(add(r, w, op, n, '%s%d' % (w, k), r.random() < wild, pool))
        if ev[-1]['op'] in ('piece', 'add', 'addn') and r.random() < .15:
            ev[-1]['clobber'] = True
    for w in st:
        ev.append(dict(op='close', w=w))
    return dict(id=cid, ev=ev, module='VtuTrace', driver='driver_vtu.py')
