"""Run calls of freesif.calc and record what they return (see driver.py)."""
import copy
import json
import os
import sys
import warnings

warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get('FREESIF_REPO', '/repo'))
import numpy as np                      # noqa: E402
from freesif import calc                # noqa: E402

NAN = 1999999999


def ints(a, scale):
    out = []
    for x in np.ravel(np.asarray(a)).astype(np.float64).tolist():
        x = x / scale * 100
        out.append(NAN if x != x or abs(x) > 1e9 else int(round(x)))
    return out


def data(ev):
    """the array of an event: values d * 2^exp, of the given type and memory layout"""
    a = np.array(ev['d'], float).reshape(ev['s'])
    if ev['dtype'].startswith('float'):
        a = a * 2.0 ** ev['exp']
    a = a.astype(ev['dtype'])
    lay = ev['lay']
    if lay == 'F':
        a = np.asfortranarray(a)
    elif lay == 'strided':
        b = np.zeros(tuple(2 * i for i in a.shape), a.dtype)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        a = b[tuple(slice(None, None, 2) for _ in a.shape)]
    elif lay == 'ro':
        a.flags.writeable = False
    return a


def call(ev):
    fn = getattr(calc, ev['fn'])
    res = dict(ok=True, err='', s=[], d=[], one=[], same=True)
    sc = 2.0 ** ev['exp'] if ev.get('dtype', '').startswith('float') else 1.0
    try:
        if ev['fn'] == 'find_elemres_indices':
            args = ([tuple(p) for p in ev['pairs']],
                    (np.array(ev['con']), np.array(ev['ends']), np.array(ev['types'])),
                    np.array(ev['elems']), np.array(ev['rows']))
            if ev['arr']:
                args = (np.array(ev['pairs']),) + args[1:]
            old = copy.deepcopy(args)
            r = fn(*args)
            res['one'] = [v for p in ev['pairs'] for v in ints(fn([tuple(p)], *args[1:]), 1)]
            res['same'] = repr(old) == repr(args)
        else:
            a = data(ev)
            old = a.copy()
            if ev['fn'] == 'absmax':
                ax = None if ev['axis'] == 0 else ev['axis'] - 1
                if ev['neg'] and ax is not None:
                    ax -= a.ndim
                r = fn(a, ax) if ev['pos'] else fn(a, axis=ax)
                res['one'] = ints(r, sc)
                if ax is not None and a.ndim == 2:
                    b = np.moveaxis(a, ax, -1)
                    res['one'] = [v for q in b for v in ints(fn(q), sc)]
            else:
                r = fn(a)
                n = a.shape[-1]
                res['one'] = [v for q in a.reshape(-1, n) for v in ints(fn(q), sc)]
            res['same'] = a.dtype == old.dtype and a.shape == old.shape and bool((a == old).all())
        res['s'] = [int(i) for i in np.shape(r)]
        res['d'] = ints(r, sc)
    except Exception as e:
        res.update(ok=False, err=type(e).__name__)
    return res


def main():
    with open(sys.argv[1]) as f:
        cases = json.load(f)
    with open(sys.argv[2], 'w') as f:
        for c in cases:
            for ev in c['ev']:
                ev['obs'] = call(ev)
            f.write(json.dumps(c) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
