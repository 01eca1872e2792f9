"""Run histories of calls against the real freesif and record what happens.

usage: driver.py IN.json OUT.json

IN.json holds cases (see gen.py); OUT.json the same cases with an "obs" added
to every event.  This file knows the public API and the layout of a freesif
database (one HDF5 group per dataset, one table per record type, arrays
<table>_<name> addressed by <name>_start/<name>_stop columns), nothing about
what the right answer is.
"""
import builtins
import contextlib
import copy
import errno
import hashlib
import inspect
import io
import json
import os
import re
import shutil
import signal
import sys
import tempfile
import warnings

warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('FREESIF_REPO', '/repo'))

import numpy as np                      # noqa: E402
import tables as tb                     # noqa: E402
import freesif as fs                    # noqa: E402
import freesif.data.file as fsfile      # noqa: E402
import sifio                            # noqa: E402
from sifio import formatted, unformatted  # noqa: E402

NAN, INEXACT, HUGE = 1999999998, 1999999999, 1999999997
TIMEOUT = 30


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


class Unserialisable(Exception):
    pass


# ------------------------------------------------------------------- faults
FAULTS = dict(io=lambda: OSError(errno.EIO, 'Input/output error'), stop=KeyboardInterrupt,
              mem=MemoryError)
Fault = (OSError, KeyboardInterrupt, MemoryError)


class FaultyRaw(io.FileIO):
    """a file of which the data from a position on cannot be read"""

    def __init__(self, name, limit, kind, note):
        super(FaultyRaw, self).__init__(name)
        self.limit, self.kind, self.note = limit, kind, note

    def readinto(self, b):
        n = self.limit - self.tell()
        if n <= 0:
            self.note()
            raise FAULTS[self.kind]()
        m = memoryview(b).cast('B')
        return super(FaultyRaw, self).readinto(m[:min(len(m), n)])

    def readall(self):
        out = b''
        while True:
            buf = bytearray(4096)
            n = self.readinto(buf)
            if not n:
                return out
            out += buf[:n]


@contextlib.contextmanager
def faults(limits, fired):
    """limits: real path -> (key, position, kind); fired: keys of the files of
    which reading failed"""
    plain = builtins.open

    def fopen(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
        hit = None
        if isinstance(file, (str, os.PathLike)) and set(mode) <= set('rbt'):
            hit = limits.get(os.path.realpath(file))
        if hit is None:
            return plain(file, mode, buffering, encoding, errors, newline, *a, **k)
        raw = FaultyRaw(file, hit[1], hit[2], lambda: fired.add(hit[0]))
        if 'b' in mode:
            return raw if buffering == 0 else io.BufferedReader(raw, 64)
        f = io.TextIOWrapper(io.BufferedReader(raw, 64), encoding, errors, newline)
        f._CHUNK_SIZE = 64
        return f
    if not limits:
        yield
        return
    builtins.open = io.open = fopen
    try:
        yield
    finally:
        builtins.open = io.open = plain


# ------------------------------------------------------------------ numbers
def quant(a, sc):
    """array -> list of ints counting 1/(8 sc); sentinels for what is not a
    whole number of eighths (sc 1), NaN, or out of range"""
    a = np.asarray(a)
    if a.dtype.kind == 'c':
        a = np.stack([a.real, a.imag], axis=-1)
    if a.dtype.kind == 'b':
        a = a.astype(int)
    f = np.ravel(a).astype(np.float64) * (8.0 * sc)
    out = []
    for x in f.tolist():
        if x != x:
            out.append(NAN)
        elif abs(x) > 1.4e9:
            tok = TOKENS.get(np.float32(x / 8.0).tobytes()) if sc == 1 else None
            out.append(HUGE if tok is None else tok)
        else:
            r = int(round(x))
            if sc == 1 and x != r:
                tok = TOKENS.get(np.float32(x / 8.0).tobytes())
                out.append(tok if tok is not None else INEXACT if abs(x - r) > 1e-6 else r)
            else:
                out.append(r)
    return out


TOKENS = {np.float32(x).tobytes(): sifio.ODD0 + k for k, x in enumerate(sifio.ODD)}


def text(x):
    return x.decode('latin-1') if isinstance(x, bytes) else str(x)


def item(k, s=(), d=(), x=()):
    return dict(k=k, s=[int(i) for i in s], d=list(d), x=list(x))


def err(e):
    return item('err', x=[type(e).__name__])


def to_item(v, sc):
    if v is None:
        return item('none')
    if isinstance(v, (bool, np.bool_)):
        return item('num', d=[8 if v else 0])
    if isinstance(v, dict):
        ks = sorted(v)
        if all(isinstance(k, (int, np.integer)) for k in ks):
            return item('map', [len(ks)], [8 * int(k) for k in ks],
                        [text(v[k]) for k in ks])
        raise Unserialisable('dict')
    if isinstance(v, (str, bytes)):
        return item('txt', [1], x=[text(v)])
    if isinstance(v, (list, tuple)) and v and all(
            isinstance(i, (str, bytes, np.str_, np.bytes_)) for i in v):
        return item('txt', [len(v)], x=[text(i) for i in v])
    a = np.asarray(v)
    if a.dtype.kind in 'SU':
        return item('txt', a.shape, x=[text(i) for i in a.ravel().tolist()])
    if a.dtype.names:
        raise Unserialisable('structured array')
    if a.dtype.kind == 'c':
        return item('cpx', a.shape, quant(a, sc))
    if a.dtype.kind in 'iufb':
        return item('num', a.shape, quant(a, sc))
    raise Unserialisable(str(a.dtype))


def structured(v, names, sc):
    """structured array(s) -> plain 2d item, fields one after another"""
    v = np.asarray(v)
    n = len(v)
    if n == 0:
        return item('num', (0, 0))
    parts = [np.asarray(v[f], dtype=float).reshape(n, -1)
             for f in (names or v.dtype.names)]
    return to_item(np.concatenate(parts, axis=1), sc)


def serialise(fn, v, sc):
    if fn == 'get_bodyproperties':
        names = sorted(v)
        vals = np.concatenate([np.ravel(np.asarray(v[k], float)) for k in names])
        return [item('txt', [len(names)], x=names), to_item(vals, sc)]
    if fn == 'get_sections':
        return [structured(v, None if not set(v.dtype.names or ()) ==
                           {'secusr', 'isecty', 'p1', 'p2', 'p3'} else
                           ['secusr', 'isecty', 'p1', 'p2', 'p3'], sc)]
    if fn == 'get_section_properties':
        return [structured(v, None, sc)]
    if isinstance(v, tuple):
        return [to_item(x, sc) for x in v]
    return [to_item(v, sc)]


def clobber(v):
    """what a careless caller may do to what a query returned"""
    if isinstance(v, np.ndarray):
        try:
            if v.dtype.names:
                v[v.dtype.names[0]] = 77
            elif v.dtype.kind in 'SU':
                v[...] = 'zz'
            else:
                v[...] = 12345
                v += 1
        except Exception:
            pass
    elif isinstance(v, tuple):
        for x in v:
            clobber(x)
    elif isinstance(v, list):
        del v[:]
    elif isinstance(v, dict):
        for x in v.values():
            clobber(x)
        v.clear()


# ----------------------------------------------------------------- database
def dump_group(gr):
    at = gr._v_attrs
    attr = dict(level='', dtype='', seltyp=-1, ftype='', index=0)
    for k, a in (('level', 'LEVEL'), ('dtype', 'DATATYPE'), ('seltyp', 'SELTYP'),
                 ('ftype', 'FILETYPE'), ('index', 'INDEX')):
        if a in at:
            v = at[a]
            attr[k] = (int(v) if v is not None else 0) if k in ('seltyp', 'index') \
                else (text(v) if v else '')
    tabs = {}
    leaves = {n._v_name: n for n in gr._f_iter_nodes('Leaf')}
    tables = {n: l for n, l in leaves.items() if isinstance(l, tb.Table)}
    for name, t in tables.items():
        rows = t[:]
        n = len(rows)
        o = dict(n=n, c={}, a={}, x={}, len={})
        # the lines of DATE and TEXT are kept as they stand, blanks and all
        trim = str.strip if name in ('date', 'text') else str
        for col in rows.dtype.names:
            m = re.match(r'(.*)_(start|stop)$', col)
            if m and m.group(1) + '_start' in rows.dtype.names \
                    and m.group(1) + '_stop' in rows.dtype.names:
                if m.group(2) == 'stop':
                    continue
                arr = m.group(1)
                leaf = leaves.get(name + '_' + arr)
                if leaf is None:
                    continue
                data = leaf[:]
                ss = rows[arr + '_start'].tolist()
                ee = rows[arr + '_stop'].tolist()
                if data.dtype.kind in 'SU':
                    o['x'][arr] = [[trim(text(i)) for i in data[s:e].ravel().tolist()]
                                   for s, e in zip(ss, ee)]
                else:
                    o['a'][arr] = [quant(data[s:e], 1) for s, e in zip(ss, ee)]
                    o['len'][arr] = len(quant(data, 1))
                continue
            v = rows[col]
            if v.dtype.kind in 'SU':
                o['x'][col] = [[text(i) for i in np.ravel(r).tolist()] for r in v]
            else:
                o['c'][col] = [quant(r, 1) for r in v]
        tabs[name.upper()] = o
    names = [text(n) for n in at['RECORDS']] if 'RECORDS' in at else []
    return dict(attr=attr, tabs=tabs, names=names)


def dump_db(path):
    out = {}
    f = tb.open_file(path, 'r')
    try:
        for gr in f.root._f_iter_nodes('Group'):
            out[gr._v_name] = dump_group(gr)
            for sub in gr._f_iter_nodes('Group'):
                out[gr._v_name + '/' + sub._v_name] = dump_group(sub)
    finally:
        f.close()
    return out


def dump_all(root):
    out = {}
    for d, _, fs_ in sorted(os.walk(root)):
        for n in sorted(fs_):
            if n.endswith('.h5'):
                p = os.path.join(d, n)
                try:
                    out[os.path.relpath(p, root)] = dump_db(p)
                except Exception:
                    out[os.path.relpath(p, root)] = {}
    return out


def digest(root):
    h = hashlib.sha256()
    for d, ds, fs_ in sorted(os.walk(root)):
        ds.sort()
        for n in sorted(fs_):
            p = os.path.join(d, n)
            h.update(os.path.relpath(p, root).encode() + b'\0')
            with open(p, 'rb') as f:
                h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:16]


def nopen():
    return len(tb.file._open_files.handlers)


def scratch_fds(root):
    n = 0
    for x in os.listdir('/proc/self/fd'):
        try:
            if os.readlink('/proc/self/fd/' + x).startswith(root):
                n += 1
        except OSError:
            pass
    return n


# -------------------------------------------------------------------- cases
def encode(f):
    if f.get('raw'):
        with open(os.path.join(os.environ.get('FREESIF_REPO', '/repo'), f['raw']), 'rb') as fh:
            return fh.read()
    e = f.get('enc', {})
    recs = f['recs_full'] if 'recs_full' in f else f['recs']
    if e.get('fmt', 'F') == 'U':
        b = unformatted(recs, e.get('iend', True), e.get('short', 0))
    else:
        every = e.get('pad', 0)
        cnt = [0]

        def pad(q):
            if 'fill' in q:
                return q['fill']
            cnt[0] += 1
            return every and cnt[0] % every == 0
        b = formatted(recs, e.get('eol', '\n'), pad, e.get('iend', True))
    if f['bad'] and 'cut' in e:
        k = e['cut']
        if e.get('fmt', 'F') == 'U':
            # in the middle of a record name
            names = {r['name'].encode() for r in recs}
            heads, pos = [], 1
            while pos < len(b) and b[pos] != 130:
                n = min(b[pos], 128)
                if b[pos + 1:pos + 9].strip() in names:
                    heads.append(pos)
                pos += n + 2
            b = b[:heads[1:][int(k * len(heads[1:]))] + 3] if heads[1:] else b[:10]
        else:
            lines = b.splitlines(True)
            heads = [i for i, l in enumerate(lines) if l[:8].strip() and l[:4] != b'IEND'][1:]
            i = heads[int(k * len(heads))] if heads else len(lines)
            lines.insert(i, b'GNODE   ' + b'garbage' + b'\n')
            b = b''.join(lines)
    return b


class Case:
    def __init__(self, case, root):
        self.c = case
        self.root = root
        self.h = {}

    def put(self, keys, dels=()):
        for k in dels:
            f = self.c['files'][k]
            p = os.path.join(self.root, f['dir'], f['name'])
            if os.path.exists(p):
                os.remove(p)
        for k in keys:
            f = self.c['files'][k]
            d = os.path.join(self.root, f['dir'])
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, f['name']), 'wb') as fh:
                fh.write(encode(f))

    def src(self, k, ev):
        f = self.c['files'][k]
        rel = os.path.join(f['dir'], f['name'])
        return os.path.join(self.root, rel) if ev.get('abs') else rel

    def limits(self, ev):
        """where reading fails during this call"""
        out = {}
        for k, share, kind in ev.get('faults', []):
            p = os.path.realpath(os.path.join(self.root, self.c['files'][k]['dir'], self.c['files'][k]['name']))
            if os.path.isfile(p):
                out[p] = (k, max(8, int(share * os.path.getsize(p))), kind)
        return out

    def events(self):
        self.put(self.c['disk'])
        self.lastdig = self.c['dig'] = digest(self.root)
        for n, ev in enumerate(self.c['ev'], 1):
            signal.setitimer(signal.ITIMER_REAL, TIMEOUT)
            try:
                ev['obs'] = getattr(self, 'op_' + ev['op'])(ev)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            ev['obs']['nopen'] = nopen()
            ev['obs']['dig'] = digest(self.root) if ev['op'] in ('convert', 'put') \
                or not self.c.get('fastdig') or n == len(self.c['ev']) else self.lastdig
            self.lastdig = ev['obs']['dig']

    def op_put(self, ev):
        self.put(ev['add'], ev['del'])
        return {}

    def op_convert(self, ev):
        srcs = [self.src(k, ev) for k in ev['src']]
        arg = srcs if ev['isseq'] else srcs[0]
        if ev['isseq'] and ev.get('tup'):
            arg = tuple(arg)
        kw = {}
        if ev['db']:
            kw['hdf5name'] = os.path.join(self.root, ev['db']) if ev.get('absdb') else ev['db']
        full = ev.get('full')
        if ev['append'] or full:
            kw['append'] = ev['append']
        if not ev['usefp'] or full:
            kw['usefileprefix'] = ev['usefp']
        pf = ev['prefix']
        if any(pf) or full:
            kw['prefix'] = list(pf) if ev.get('pflist') else pf[0]
        if ev['only']:
            form = ev.get('onlyform', 'list')
            o = [x.lower() if ev.get('lower') else x for x in ev['only']]
            kw['only'] = tuple(o) if form == 'tuple' else set(o) if form == 'set' else o
        args0 = copy.deepcopy((arg, kw))
        before = scratch_fds(self.root)
        out = io.StringIO()
        res = dict(ok=True, err='', ret='')
        fired = set()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), \
                faults(self.limits(ev), fired):
            try:
                r = fs.sif2hdf5(arg, **kw)
                if isinstance(r, str):
                    r = os.path.relpath(os.path.realpath(r), self.root)
                res['ret'] = '' if r is None else str(r)
            except (Exception, Hang, KeyboardInterrupt) as e:
                if os.environ.get('DEBUG'):
                    import traceback
                    print(self.c['id'], file=sys.__stdout__)
                    traceback.print_exc(limit=-3, file=sys.__stdout__)
                # nothing is open while the caller deals with the exception either
                res.update(ok=False, err=type(e).__name__, leak=scratch_fds(self.root) - before)
                e = None
        res['fired'] = sorted(fired)
        res['leak'] = max(res.get('leak', 0), scratch_fds(self.root) - before)
        if copy.deepcopy((arg, kw)) != args0:
            res.update(ok=False, err='ArgumentsChanged')
        toks = set()
        for w in re.split(r'[\s:,;"\'()]+', out.getvalue()):
            if '.' in w:
                toks.add(w)
                toks.add(os.path.basename(w))
        res['said'] = sorted(toks)
        res['dbs'] = dump_all(self.root)
        return res

    def _kinds(self, f):
        return {str(k): type(v).__name__ for k, v in f._data.items()} \
            if False else {str(k): type(f[k]).__name__ for k in f.keys()}

    def op_open(self, ev):
        try:
            f = fs.open_hdf5(os.path.join(self.root, ev['db']) if ev.get('absdb') else ev['db'])
            self.h[ev['h']] = dict(file=f, ds={k: f[k] for k in f.keys()})
            return dict(ok=True, err='', kinds=self._kinds(f))
        except (Exception, Hang) as e:
            return dict(ok=False, err=type(e).__name__, kinds={})

    def op_opensif(self, ev):
        out = io.StringIO()
        fired = set()
        try:
            with contextlib.redirect_stdout(out), faults(self.limits(ev), fired):
                d = fs.open_sif(self.src(ev['f'], ev))
            f = d.file
            ds = {k: f[k] for k in f.keys()}
            ds['@'] = d
            self.h[ev['h']] = dict(file=f, ds=ds)
            return dict(ok=True, err='', kinds=self._kinds(f), fired=sorted(fired))
        except (Exception, Hang, KeyboardInterrupt) as e:
            return dict(ok=False, err=type(e).__name__, kinds={}, fired=sorted(fired))

    def op_close(self, ev):
        try:
            h = self.h[ev['h']]
            # through the file, or through one of its datasets
            (h['ds'][ev['via']] if ev.get('via') else h['file']).close()
            return dict(ok=True, err='')
        except (Exception, Hang) as e:
            return dict(ok=False, err=type(e).__name__)

    def op_closeall(self, ev):
        try:
            fsfile.close_all_files()
            return dict(ok=True, err='')
        except (Exception, Hang) as e:
            return dict(ok=False, err=type(e).__name__)

    def op_ask(self, ev):
        f = self.h[ev['h']]['file']
        fn, key = ev['fn'], ev['key']

        def kn(d):
            return type(d).__name__ + ':' + d.name
        try:
            if fn == 'keys':
                a = item('txt', x=[str(k) for k in f.keys()])
            elif fn == 'values':
                a = item('txt', x=[kn(d) for d in f.values()])
            elif fn == 'iter':
                a = item('txt', x=[kn(d) for d in f])
            elif fn == 'items':
                a = item('txt', x=[str(k) + '=' + kn(d) for k, d in f.items()])
            elif fn == 'contains':
                a = item('num', d=[8 if key in f else 0])
            elif fn == 'getitem':
                a = item('txt', x=[kn(f[key])])
            elif fn == 'get':
                d = f.get(key)
                a = item('none') if d is None else item('txt', x=[kn(d)])
            elif fn in ('str', 'repr'):
                s = str(f) if fn == 'str' else repr(f)
                # every name that stands alone in the text, and the kind given with it
                if fn == 'str':
                    x = ['%s:%s' % (n, ' '.join(w for w in ('hydrodynamic', 'toplevel', 'interlevel',
                                                            'firstlevel') if w in rest.lower()))
                         for n, rest in re.findall(r"'([^']*)':([^\n]*)", s)]
                else:
                    x = re.findall(r'name=([^)\s]*)\)', s)
                a = item('txt', x=sorted(set(x)))
        except (Exception, Hang) as e:
            a = err(e)
        return dict(ans=[a])

    # -- queries
    def args(self, fn, a, ev):
        kw = {}
        full = ev.get('full')

        def put(k, v, dflt):
            if full or not (isinstance(v, type(dflt)) and v == dflt):
                kw[k] = v
        if fn == 'get_transformation':
            t = a['trans']
            kw = dict(seltyp=a['seltyp'], index=a['index'])
            put('level', 'top' if t['m'] == 'top' else t['v'][0], 'top')
            return kw
        if fn in ('get_nodes', 'get_nodenumbers', 'get_elements', 'get_elementnumbers',
                  'get_noderesults', 'get_elementresults', 'get_section_properties',
                  'get_shell_thicknesses'):
            s = a['sets']
            if not s:
                put('sets', None, None)
            elif len(s) == 1 and a.get('setsform', 'str') == 'str':
                kw['sets'] = s[0]
            else:
                kw['sets'] = tuple(s) if a.get('setsform') == 'tuple' else list(s)
        if fn in ('get_nodes', 'get_nodenumbers', 'get_elements', 'get_elementnumbers',
                  'get_noderesults'):
            put('kind', a['kind'] or None, None)
        if fn in ('get_nodes', 'get_nodenumbers', 'get_elements', 'get_noderesults'):
            put('disconnected', a['disc'], False)
        if fn in ('get_nodenumbers', 'get_elementnumbers'):
            put('numbertype', a['ntype'], 'external')
        if fn == 'get_nodes':
            t = a['trans']
            if t['m'] == 'none':
                put('trans', None, None)
            elif t['m'] == 'top':
                kw['trans'] = 'top'
            elif t['m'] == 'int':
                kw['trans'] = t['v'][0]
            elif t['m'] == 'mat':
                kw['trans'] = np.array(t['v'], float).reshape(4, -1) / 8.0
            else:
                kw['trans'] = 'bottom'
            put('index', a['index'], 1)
        if fn in ('get_noderesults', 'get_elementresults'):
            kw['restype'] = a['restype']
            put('run', a['run'], 1)
        if fn in ('get_noderesults', 'get_elementresults', 'get_resultcase_names'):
            rc = a['rc']
            if rc['m'] == 'none':
                put('rescases', None, None)
            else:
                v = rc['v']
                kw['rescases'] = dict(int=lambda: v[0], list=lambda: list(v),
                                      tuple=lambda: tuple(v),
                                      array=lambda: np.array(v, int),
                                      array32=lambda: np.array(v, np.int32))[rc['m']]()
        if fn == 'get_elementresults':
            put('pos', a['pos'], 'nodes')
        if fn == 'get_directions':
            put('unit', a['unit'], 'degrees')
        if fn == 'get_fluidkinematics_raos':
            put('kind', a['what'], 'elevation')
        if fn == 'get_matrix':
            kw['mtyp'] = a['mtyp']
        if fn in ('get_motion_raos', 'get_excitationforce_raos', 'get_sectionforce_raos',
                  'get_meandrift', 'get_horiz_meandrift', 'get_bodyproperties',
                  'get_pressure_panel_ids', 'get_panel_pressures', 'get_matrix',
                  'get_bodymass', 'get_addedmass', 'get_potentialdamping',
                  'get_viscousdamping', 'get_hydrostatic_restoring', 'get_mooring_restoring'):
            put('bodyid', a['body'], 1)
        if fn in ('get_matrix', 'get_bodymass', 'get_addedmass', 'get_potentialdamping',
                  'get_viscousdamping', 'get_hydrostatic_restoring', 'get_mooring_restoring'):
            put('bodyid2', a['body2'], 1)
        if ev.get('npint'):
            # numbers as they come out of other answers
            kw = {k: np.int32(v) if type(v) is int else v for k, v in kw.items()}
        return kw

    def op_export(self, ev):
        import driver_vtu
        sc = []
        path = os.path.join(self.root, 'vtu_out')
        try:
            d = self.h[ev['h']]['ds'][ev['ds']]
            w = driver_vtu.VtuWriter(path)
            for p in ev['pieces']:
                sc.append([])
                w.new_piece(d.get_nodes(**self.args('get_nodes', p['a'], p)),
                            d.get_elements(**self.args('get_elements', p['a'], p)))
                for s in p['secs']:
                    sc[-1].append([x['sc'] for x in s['arrs']])
                    (w.start_pointdata if s['tag'] == 'PointData' else w.start_celldata)()
                    for x in s['arrs']:
                        v = getattr(d, x['fn'])(**self.args(x['fn'], x['a'], x))
                        if v.ndim == 3:
                            v = v[:, x['surf'] - 1]
                        if v.ndim == 2:
                            v = v[:, x['lo'] - 1] if x['flat'] else v[:, x['lo'] - 1:x['hi']]
                        (w.add_data_cellpoints if x['nodes'] else w.add_data)(
                            v, x['name'], *([x['comps']] if x['comps'] else []))
            w.close()
            return dict(ok=True, err='', doc=driver_vtu.document(path, sc))
        except (Exception, Hang) as e:
            return dict(ok=False, err=type(e).__name__, doc={})
        finally:
            if os.path.exists(path):
                os.remove(path)

    def op_q(self, ev):
        fn, sc = ev['fn'], ev['sc']
        same = True
        try:
            d = self.h[ev['h']]['ds'][ev['ds']]
            if fn == 'constants':
                v = np.array([d.g, d.ro])
            else:
                kw = self.args(fn, ev['a'], ev)
                kw0 = copy.deepcopy(kw)
                try:
                    if ev.get('pos'):
                        # positionally as far as possible
                        names = []
                        for n in inspect.signature(getattr(d, fn)).parameters:
                            if n not in kw:
                                break
                            names.append(n)
                        v = getattr(d, fn)(*[kw[k] for k in names],
                                           **{k: kw[k] for k in kw if k not in names})
                    else:
                        v = getattr(d, fn)(**kw)
                finally:
                    same = all(type(kw[k]) is type(kw0[k]) and np.array_equal(
                        np.asarray(kw[k]), np.asarray(kw0[k])) for k in kw0)
            ans = serialise(fn, v, sc)
            if ev.get('clobber'):
                clobber(v)
        except Unserialisable as e:
            ans = [item('err', x=['Unserialisable'])]
        except (Exception, Hang) as e:
            if os.environ.get('DEBUG') == '2':
                import traceback
                print(self.c['id'], ev)
                traceback.print_exc(limit=-3)
            ans = [err(e)]
        return dict(ans=ans, argsame=bool(same))


def run(case):
    root = os.path.realpath(tempfile.mkdtemp(prefix='sif'))
    old = os.getcwd()
    os.chdir(root)
    c = Case(case, root)
    old_flush = None
    parsers = sys.modules.get('freesif.sequentialparser.parsers')
    if case.get('flush') and hasattr(parsers, 'tmp_arr_size'):
        old_flush = parsers.tmp_arr_size
        parsers.tmp_arr_size = case['flush']
    try:
        c.events()
    finally:
        if old_flush is not None:
            parsers.tmp_arr_size = old_flush
        c.h.clear()
        try:
            fsfile.close_all_files()
        except Exception:
            pass
        try:
            fsfile._open_files.clear()
        except Exception:
            pass
        for hnd in list(tb.file._open_files.handlers):
            try:
                hnd.close()
            except Exception:
                pass
        os.chdir(old)
        shutil.rmtree(root, ignore_errors=True)
    # TLC needs only n, v, t of the records
    for f in case['files'].values():
        f['recs'] = [dict(n=r['name'], v=r['v'], t=r['t']) for r in f['recs']]
        f.pop('recs_full', None)
        f.pop('enc', None)
        f.pop('raw', None)
    return case


def main():
    """one line of JSON per case; a case that was begun but has no line ended
    the process"""
    signal.signal(signal.SIGALRM, _alarm)
    with open(sys.argv[1]) as f:
        cases = json.load(f)
    with open(sys.argv[2], 'w') as f:
        for c in cases:
            f.write(json.dumps(run(c)) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
