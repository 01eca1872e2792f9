"""Decide one property: generate histories, run them against the real code,
and let TLC judge every recorded history against the specification.

usage: check.py PROPERTY [quick|thorough]
       check.py replay FILE
Environment: VERIF_SEED, VERIF_TIER.
Exit 0: the property held on everything explored; 1: a VIOLATION line was
printed.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
WORK = os.path.join(VERIF, '.work')
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = min(8, os.cpu_count() or 4)

import gen              # noqa: E402
import mbt              # noqa: E402
import plans            # noqa: E402


def tlc(module, cfg=None, env=None, workers=1, timeout=600, extra=(), heap='2g'):
    """run TLC; -> (return code, output)"""
    meta = tempfile.mkdtemp(prefix='tlc')
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2',
           '-XX:TieredStopAtLevel=4', '-cp', CP, 'tlc2.TLC', '-nowarning', '-noGenerateSpecTE',
           '-workers', str(workers), '-metadir', meta, '-config', cfg or module + '.cfg',
           *extra, module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return -1, (x.stdout or b'').decode() if isinstance(x.stdout, bytes) else (x.stdout or '')
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def counts(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)


TUPLE = re.compile(r'<<\s*"(VERDICT|CLAUSE)",\s*"((?:[^"\\]|\\.)*)",\s*"((?:[^"\\]|\\.)*)"\s*>>')


def judge(module, recorded, tmp, k, tags):
    """TLC's verdict on recorded cases: {id: [clauses]}, states, transitions.
    None as clauses: TLC gave no verdict."""
    path = os.path.join(tmp, 'trace%s.json' % k)
    with open(path, 'w') as f:
        json.dump(recorded, f)
    rc, out = tlc(module, env=dict(TRACE=path))
    res = {}
    for kind, cid, txt in TUPLE.findall(out):
        if kind == 'VERDICT':
            res.setdefault(cid, [])
        elif tags is None or txt.split(':')[0] in tags:
            res.setdefault(cid, []).append(txt.replace('\\"', "'"))
    s, t = counts(out)
    os.remove(path)
    return {c['id']: res.get(c['id']) for c in recorded}, s, t, out


def steps(model, seed, tier, tmp):
    """TLC on a bounded model of a small world: its verdict, and the histories that
    take its steps (a sample of them in the quick tier)"""
    g = gen.G('%s-%s' % (model.name, seed))
    w = (model.thorough_world if tier != 'quick' and model.thorough_world else model.world)(g)
    path = os.path.join(tmp, 'world-%s.json' % model.name)
    with open(path, 'w') as f:
        json.dump(w['world'], f)
    rc, out = tlc(model.module, model.cfg, dict(WORLD=path, EDGES="1"), NPROC, 850, heap='6g')
    st, tr = counts(out)
    err = ''
    if rc != 0:
        err = ' '.join(x for x in out.splitlines() if x.startswith('Error'))[:400] or out[-300:]
    graph = mbt.Graph(out)
    walks, n = graph.walks(g.r, model.length, model.quick if tier == 'quick' else model.thorough)
    cases = [w['make'](walk, '%s-%d' % (model.name, k), g) for k, walk in enumerate(walks)]
    return dict(name=model.name, states=st, transitions=tr, err=err, steps=len(graph.edges),
                replayed=n, cases=cases)


def work(job):
    """one chunk of cases: execute, record, judge"""
    module, driver, cases, k, tmp, tags = job
    src = os.path.join(tmp, 'in%s.json' % k)
    dst = os.path.join(tmp, 'out%s.jsonl' % k)
    verdict, st, tr = {}, 0, 0
    recorded = []
    todo = cases
    while todo:
        with open(src, 'w') as f:
            json.dump(todo, f)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
                   OPENBLAS_NUM_THREADS='1', TMPDIR=tmp)
        try:
            p = subprocess.run([PY, '-W', 'ignore', os.path.join(HERE, driver), src, dst],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env,
                               timeout=60 + 30 * len(todo))
            tail = p.stdout.strip().splitlines()[-1:] or ['process ended with %d' % p.returncode]
        except subprocess.TimeoutExpired:
            tail = ['no answer']
        done = []
        if os.path.exists(dst):
            with open(dst) as f:
                for line in f:
                    try:
                        done.append(json.loads(line))
                    except ValueError:
                        break
            os.remove(dst)
        recorded += done
        if len(done) < len(todo):
            verdict[todo[len(done)]['id']] = ['run: execution ended: ' + tail[0][:300]]
            todo = todo[len(done) + 1:]
            if len(verdict) > 3:
                break
        else:
            todo = []
    if recorded:
        v, s, t, out = judge(module, recorded, tmp, k, tags)
        st, tr = st + s, tr + t
        # TLC stops at the first history it cannot evaluate: narrow it down
        stack, lost = [[c for c in recorded if v[c['id']] is None]], 0
        while stack:
            part = stack.pop()
            if not part:
                continue
            if lost >= 3:
                for c in part:
                    v.pop(c['id'])
                continue
            if len(part) < len(recorded) or len(part) == 1:
                w, s, t, out = judge(module, part, tmp, k, tags)
                st, tr = st + s, tr + t
                v.update(w)
                part = [c for c in part if v[c['id']] is None]
            if len(part) == 1:
                lost += 1
                lines = [x for x in out.splitlines() if x.strip() and not x.startswith(
                    ('Parsing', 'Semantic', 'Linting', 'TLC2', 'Running'))]
                v[part[0]['id']] = ['run: the specification cannot follow this history: '
                                    + ' '.join(lines[3:9])[:500]]
            elif part:
                h = len(part) // 2
                stack += [part[h:], part[:h]]
        verdict.update(v)
    nev = sum(len(c.get('ev', ())) for c in recorded)
    return verdict, st, tr, nev


def chunks(cases, n):
    """n chunks of about the same weight"""
    out = [[] for _ in range(n)]
    for i, c in enumerate(cases):
        out[i % n].append(c)
    return [c for c in out if c]


def main():
    t0 = time.time()
    if sys.argv[1] == 'replay':
        return replay(sys.argv[2])
    if sys.argv[1] == 'setup':
        return setup()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(WORK, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=prop + '-')
    plan = plans.PLANS[prop]
    bad = []                    # (case or None, clauses)
    states = trans = ntr = nev = 0
    samples, models, kinds = [], {}, {}
    try:
        # 1. the design: invariants of the specification on all its states
        with cf.ThreadPoolExecutor(NPROC) as ex:
            mbts = [ex.submit(steps, m, seed, tier, tmp) for m in plan.mbt]
            futs = {ex.submit(tlc, m, cfg, None, 4, 800, extra): (m, cfg)
                    for m, cfg, extra in plan.models(tier)}
            # 2. the code: histories, while time lasts
            budget = plan.budget(tier)
            wave = 0
            while True:
                by = {}
                todo = plan.cases(seed, tier, wave)
                if wave == 0:
                    for f in mbts:
                        m = f.result()
                        todo += m.pop('cases')
                        states, trans = states + m['states'], trans + m['transitions']
                        err, name = m.pop('err'), m.pop('name')
                        models[name] = m
                        if err:
                            bad.append((None, ['model: %s: %s' % (name, err)]))
                for c in todo:
                    by.setdefault((c.pop('module', 'SifTrace'), c.pop('driver', 'driver.py')),
                                  []).append(c)
                jobs, allc = [], {}
                for (module, driver), cs in by.items():
                    for c in cs:
                        allc[c['id']] = (module, driver, json.dumps(c))
                        kd = re.split(r'[-_ ]', c['id'])[0]
                        kinds[kd] = kinds.get(kd, 0) + 1
                    n = NPROC if len(cs) >= NPROC * 4 else max(1, len(cs) // 4)
                    if len(cs) > 2400:
                        n = -(-len(cs) // 300)
                    for ch in chunks(cs, n):
                        jobs.append((module, driver, ch, len(jobs), tmp, plan.tags))
                if wave == 0 and allc:
                    for cid in list(allc)[:2]:
                        samples.append(brief(json.loads(allc[cid][2])))
                for v, s, t, e in ex.map(work, jobs):
                    states, trans, nev = states + s, trans + t, nev + e
                    for cid, cl in v.items():
                        ntr += 1
                        if cl:
                            bad.append((allc[cid], cl))
                wave += 1
                if bad or time.time() - t0 > budget or not plan.waves:
                    break
            for f, (m, cfg) in futs.items():
                rc, out = f.result()
                s, t = counts(out)
                models[cfg or m] = dict(states=s, transitions=t)
                states, trans = states + s, trans + t
                if rc != 0:
                    err = [x for x in out.splitlines() if x.startswith('Error')]
                    bad.append((None, ['model: %s: %s' % (cfg or m, ' '.join(err)[:400] or out[-300:])]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=0,
              coverage=dict(states=states, transitions=trans,
                            traces_validated_against_impl=ntr, calls_observed=nev,
                            histories_by_kind=kinds, specification_models=models, waves=wave,
                            samples=samples))
    ev['wall_s'] = round(time.time() - t0, 1)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, (src, cl) in enumerate(bad[:5]):
        path = os.path.join(WORK, '%s-%d.json' % (prop, k))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, clauses=cl, module=src and src[0], driver=src and src[1],
                           case=src and json.loads(src[2])), f)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        for x in cl[:4]:
            print('   ' + x[:400])
    if len(bad) > 5:
        print('   and %d more' % (len(bad) - 5))
    print('%s %s: %d histories, %d calls, %d states, %.1f s, %s' % (
        prop, tier, ntr, nev, states, time.time() - t0, 'BROKEN' if bad else 'held'))
    return 1 if bad else 0


def brief(c):
    """a case, with long value lists shortened, for the evidence file"""
    def cut(x):
        if isinstance(x, list) and len(x) > 8:
            return [cut(i) for i in x[:8]] + ['... %d in all' % len(x)]
        if isinstance(x, list):
            return [cut(i) for i in x]
        if isinstance(x, dict):
            return {k: cut(v) for k, v in x.items()}
        return x
    return cut(c)


def replay(path):
    with open(path) as f:
        r = json.load(f)
    if not r.get('case'):
        print(r['clauses'])
        return 1
    tmp = tempfile.mkdtemp(prefix='replay-')
    try:
        v = work((r['module'], r['driver'], [r['case']], 0, tmp, plans.PLANS[r['property']].tags))[0]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for cid, cl in v.items():
        print(cid, 'held' if not cl else 'BROKEN')
        for x in cl:
            print('   ' + x[:2000])
    return 1 if any(v.values()) else 0


def setup():
    """nothing to build; see that the tools and the specification are there"""
    for m in sorted(f[:-4] for f in os.listdir(SPEC) if f.endswith('.tla')):
        p = subprocess.run(['java', '-cp', CP, 'tla2sany.SANY', m + '.tla'], cwd=SPEC,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            print(p.stdout)
            return 1
        print(m, 'parsed')
    return subprocess.run([PY, '-W', 'ignore', '-c', 'import tables, numpy']).returncode


if __name__ == '__main__':
    sys.exit(main())
