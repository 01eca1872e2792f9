"""matrix.py [ID...]: run planted changes of seeded/ against the quick check of their
property, keep the results in tools/matrix.json and rewrite the table of DESIGN.md.
Without IDs: those that have no result yet.  --table only rewrites the table."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RES = os.path.join(HOME, 'tools', 'matrix.json')


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def table(res):
    meta = {}
    for b in sorted(os.listdir(HOME + '/seeded')):
        meta[b] = json.load(open('%s/seeded/%s/meta.json' % (HOME, b)))
    rows = ['| change | needs | caught by | first broken clause |', '|---|---|---|---|']
    for b in sorted(meta, key=lambda b: (meta[b]['property'], b)):
        r = res.get(b)
        if r is None:
            continue
        cell = '%s' % meta[b]['property'] if r['caught'] else '**missed** by %s' % meta[b]['property']
        rows.append('| %s | %s | %s | %s |' % (b, meta[b]['needs'].replace('|', '/').replace('\n', ' '), cell,
                                              r['clause'].replace('|', '/')))
    n = len(rows) - 2
    rows.append('\n%d of %d caught.' % (sum(res[b]['caught'] for b in meta if b in res), n))
    p = HOME + '/DESIGN.md'
    s = open(p).read()
    s = re.sub(r'<!-- MATRIX -->.*<!-- /MATRIX -->',
               lambda m: '<!-- MATRIX -->\n' + '\n'.join(rows) + '\n<!-- /MATRIX -->', s, flags=re.S)
    open(p, 'w').write(s)


def main(args):
    res = json.load(open(RES)) if os.path.exists(RES) else {}
    if '--table' in args:
        return table(res)
    ids = args or [b for b in sorted(os.listdir(HOME + '/seeded')) if b not in res]
    for b in ids:
        d = tempfile.mkdtemp(prefix='matrix')
        try:
            sh('git -C /repo archive HEAD | tar x -C %s; cp -a /repo/*.egg-info %s 2>/dev/null' % (d, d))
            a = sh('git apply %s/seeded/%s/patch.diff' % (HOME, b), cwd=d)
            if a.returncode:
                print(b, 'does not apply', a.stdout)
                continue
            p = json.load(open('%s/seeded/%s/meta.json' % (HOME, b)))['property']
            c = sh('./check.sh %s quick' % p, cwd=HOME, env=dict(os.environ, FREESIF_REPO=d))
            cl = [x.strip() for x in c.stdout.splitlines() if x.startswith('   ')]
            cl = re.sub(r' asked with.*', '', cl[0])[:110] if cl else ''
            res[b] = dict(caught=c.returncode == 1 and 'VIOLATION property=' + p in c.stdout, clause=cl)
            print(b, p, c.returncode, cl, flush=True)
        finally:
            shutil.rmtree(d)
        json.dump(res, open(RES, 'w'), indent=0, sort_keys=True)
    table(res)


main(sys.argv[1:])
