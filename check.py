#!/usr/bin/env python3
"""check.py Cxx [quick|thorough]     decide one property on /repo's working tree
   check.py replay FILE             run a saved counterexample again
   check.py all [quick|thorough]    all properties, a summary line each

Programs (sequences of calls of the library's public interface) come from the TLA+ models
(spec/MC_*.tla, every behaviour TLC enumerates) and from harness/gen.py (random, larger).
harness/exec.py runs them on the real library and records what it shows; TLC then checks the
recorded behaviours against the specification (spec/Trace.tla).  A clause that does not hold
is printed in the verdict with the property that owns it.
"""
import sys, os, json, time, subprocess, tempfile, shutil, hashlib, re, threading, random

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, 'harness'))
import gen
import table

REPO = os.environ.get('VERIF_REPO', '/repo')
PYPY = '/opt/venv/bin/python'
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NSH = max(1, min(8, os.cpu_count() or 1))
SPEC = os.path.join(HERE, 'spec')


class Broken(Exception):
    """the machinery itself failed: no answer"""


def java(module, cfg, scratch, env=None, extra=(), timeout=850, heap='2g', stack='64m', workers=1):
    e = dict(os.environ)
    e.update(env or {})
    meta = tempfile.mkdtemp(dir=scratch)
    cmd = ['java', '-XX:+UseSerialGC', '-Xss' + stack, '-Xmx' + heap, '-cp', CP, '-Djava.io.tmpdir=' + meta,
           'tlc2.TLC', '-noGenerateSpecTE', '-deadlock', '-workers', str(workers), '-metadir', meta, '-config', cfg] + list(extra) + [module]
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def unquote(line, key):
    """the text of PrintT("KEY " \\o json)"""
    return json.loads(json.loads(line)[len(key) + 1:])


def stats(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def execute(progs, scratch, tag, timeout=850):
    pf, ef = os.path.join(scratch, tag + '.p'), os.path.join(scratch, tag + '.e')
    with open(pf, 'w') as f:
        for p in progs:
            f.write(json.dumps(p) + '\n')
    env = dict(os.environ, LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', PYTHONHASHSEED='0', PYPY_GC_NURSERY='512k', VERIF_REPO=REPO, TMPDIR=scratch)
    p = subprocess.run([PYPY, '--jit', 'off', '-B', os.path.join(HERE, 'harness', 'exec.py'), pf, ef], env=env, cwd=scratch,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if p.returncode != 0:
        raise Broken('executor failed: ' + p.stderr.decode('utf-8', 'replace')[-2000:])
    return ef


def judge(ef, scratch):
    """verdicts of the specification on recorded behaviours; returns verdicts, states, transitions"""
    n = sum(1 for _ in open(ef))
    if n == 0:
        return {}, 0, 0
    rc, out = java('Trace.tla', 'Trace.cfg', scratch, env={'TRACE_FILE': ef})
    vs = {}
    for line in out.splitlines():
        if line.startswith('"VERDICT '):
            v = unquote(line, 'VERDICT')
            vs[v['id']] = v
    gen_, dist = stats(out)
    err = '' if rc == 0 and 'No error has been found' in out else out
    if not err and len(vs) != n:
        raise Broken('%d programs, %d verdicts' % (n, len(vs)))
    return vs, gen_, dist, err


def shard(progs, scratch, tag, res, lock):
    try:
        ef = execute(progs, scratch, tag)
        got = judge(ef, scratch)
        recs = {}
        with open(ef) as f:
            for line in f:
                r = json.loads(line)
                recs[r['id']] = r
        with lock:
            res['verdicts'].update(got[0])
            res['generated'] += got[1]
            res['distinct'] += got[2]
            if got[3]:
                res['errors'].append(got[3])
            for i, r in recs.items():
                res['calls'] += len(r['calls'])
                for c in r['calls']:
                    k = c['op'] if c['out'] == 'ok' else c['op'] + '/' + c['out']
                    res['ops'][k] = res['ops'].get(k, 0) + 1
                v = got[0].get(i)
                if v is not None and (v['bad'] or len(res['keep']) < 3):
                    if len(res['keep']) < 400:
                        res['keep'][i] = r
        os.remove(ef)
    except Broken as e:
        with lock:
            res['errors'].append(str(e))
    except Exception as e:
        with lock:
            res['errors'].append('%s: %r' % (tag, e))


def run_programs(progs, scratch, res):
    """in parallel shards; small programs spread evenly"""
    lock = threading.Lock()
    n = min(NSH, max(1, len(progs)))
    parts = [progs[i::n] for i in range(n)]
    ts = [threading.Thread(target=shard, args=(part, scratch, 's%d-%d' % (res['round'], i), res, lock)) for i, part in enumerate(parts)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    res['round'] += 1
    res['programs'] += len(progs)


def run_models(names, tier, seed, scratch, res, cap):
    """explore the models in parallel; returns the programs they dump"""
    lock = threading.Lock()
    progs = []

    def one(m):
        try:
            base = m.split('.')[0]            # 'Conns.one': module MC_Conns with configuration MC_Conns.one
            cfg = 'MC_%s.%s.cfg' % (m, tier)
            if not os.path.exists(os.path.join(SPEC, cfg)):
                cfg = 'MC_%s.cfg' % m
            rc, out = java('MC_%s.tla' % base, cfg, scratch, extra=['-seed', str(seed)], heap='3g', workers=4)
            if rc != 0 or 'No error has been found' not in out:
                raise Broken('model %s: %s' % (m, out[-3000:]))
            g, d = stats(out)
            mine = {}
            for line in out.splitlines():
                if line.startswith('"PROGRAM '):
                    calls = unquote(line, 'PROGRAM')
                    h = hashlib.sha256(json.dumps(calls, sort_keys=True).encode()).hexdigest()[:12]
                    mine[h] = calls
            pick = sorted(mine)
            if len(pick) > cap:               # every behaviour was explored; a seeded sample is run on the code
                pick = sorted(random.Random('%s/%s' % (m, seed)).sample(pick, cap))
            with lock:
                res['models'][m] = dict(generated=g, distinct=d, behaviours=len(mine), run_on_code=len(pick))
                for h in pick:
                    c = mine[h]
                    progs.append(dict(c, id='%s-%s' % (m, h)) if isinstance(c, dict) else dict(id='%s-%s' % (m, h), calls=c))
        except Exception as e:
            with lock:
                res['errors'].append('model %s: %s' % (m, e))
    ts = [threading.Thread(target=one, args=(m,)) for m in names]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    progs.sort(key=lambda p: p['id'])
    return progs


def findings():
    out = []
    try:
        for line in open(os.path.join(HERE, 'known_findings.txt'), encoding='utf-8'):
            if line.startswith('finding:'):
                out.append(dict(x.split('=', 1) for x in re.findall(r'\w+=(?:"[^"]*"|\S+)', line)))
    except OSError:
        pass
    return out


def prog_hash(rec):
    return hashlib.sha256(json.dumps([[c['op'], c.get('out')] for c in rec['calls']], sort_keys=True).encode()).hexdigest()[:12]


def save(prop, vd, rec, progs):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop, vd['id'].replace('/', '_')))
    prog = [p for p in progs if p['id'] == vd['id']]
    with open(path, 'w') as f:
        json.dump({'property': prop, 'violated': vd['bad'], 'stopped_at': vd['at'], 'program': prog[0] if prog else None, 'events': rec}, f, indent=1)
    return path


def check(prop, tier, seed):
    t0 = time.time()
    T = table.PROPS[prop]
    res = dict(verdicts={}, generated=0, distinct=0, calls=0, ops={}, keep={}, errors=[], models={}, round=0, programs=0)
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    sys.stdout.flush()
    try:
        allp = []
        mp = run_models(T.get('models', []), tier, seed, scratch, res, T.get('cap', 900) if tier == 'quick' else 12000)
        n = T['n']
        fams = T['families']
        tot = float(sum(w for _, w in fams))

        def rnd(k0, k1):
            out = []
            for f, w in fams:
                for k in range(int(round(k0 * w / tot)), int(round(k1 * w / tot))):
                    out.append(gen.program(f, seed, k))
            return out
        # what the repository's own examples and tests do (tools/tap.py)
        with open(os.path.join(HERE, 'harness', 'usage.ndjson')) as f:
            used = [json.loads(l) for l in f]
        first = mp + used + rnd(0, n)
        allp += first
        if not res['errors']:
            run_programs(first, scratch, res)
        budget = float(os.environ.get('VERIF_BUDGET', 660))
        if tier == 'thorough':
            k = n
            while time.time() - t0 < budget and not res['errors'] and not any(mine(prop, v) for v in res['verdicts'].values()):
                step = max(n, 400)
                more = rnd(k, k + step)
                k += step
                allp = more + allp[:0] if len(allp) > 40000 else allp + more
                run_programs(more, scratch, res)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    bad = sorted((v['id'], v) for v in res['verdicts'].values() if mine(prop, v))
    known = findings()
    fresh, listed = [], []
    for i, v in bad:
        rec = res['keep'].get(i)
        clauses = mine(prop, v)
        f = [k for k in known if k.get('property') == prop and k.get('program', '').strip('"') == i
             and set(clauses) <= set(k.get('clauses', '').strip('"').split('|'))]
        (listed if f else fresh).append((i, v, rec, clauses))
    for i, v, rec, clauses in listed:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, i, '; '.join(clauses)))
    byc = {}
    for i, v, rec, clauses in fresh:
        for c in clauses:
            byc.setdefault(c, []).append((i, v, rec))
    for c in sorted(byc):
        i, v, rec = min(byc[c], key=lambda x: len(x[2]['calls']) if x[2] else 10 ** 6)
        path = save(prop, v, rec, allp)
        print('%s: %s (%d programs; e.g. %s)' % (prop, c, len(byc[c]), i))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    nontriv = sum(1 for v in res['verdicts'].values() if v['at'] >= 1)
    sample = [dict(id=i, verdict=res['verdicts'][i]['bad'], calls=[brief(c) for c in r['calls']][:14]) for i, r in sorted(res['keep'].items())[:2]]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': res['distinct'] + sum(m['distinct'] for m in res['models'].values()),
                       'transitions': res['generated'] + sum(m['generated'] for m in res['models'].values()),
                       'traces_validated_against_impl': nontriv,
                       'models': res['models'], 'programs_from_models': len(mp), 'programs_from_usage': len(used), 'programs_random': res['programs'] - len(mp) - len(used),
                       'calls_checked': res['calls'], 'calls_by_kind': dict(sorted(res['ops'].items())),
                       'families': [f for f, _ in fams], 'samples': sample},
          'assumptions': table.ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if fresh:
        return 1
    if res['errors']:
        print('%s: no answer: %s' % (prop, res['errors'][0][-3500:]), file=sys.stderr)
        return 2
    if not nontriv or not ev['coverage']['states']:
        print('%s: nothing was explored' % prop, file=sys.stderr)
        return 2
    for op in T.get('must', []):
        if not res['ops'].get(op):
            print('%s: no call %s was exercised' % (prop, op), file=sys.stderr)
            return 2
    print('%s: held on %d programs, %d calls, %d states (%.1f s)' % (prop, nontriv, res['calls'], ev['coverage']['states'], time.time() - t0))
    return 0


def brief(c):
    return dict((k, v) for k, v in c.items() if k not in ('doc', 'geos', 'proto', 'proto2', 'el') and len(json.dumps(v)) < 200)


def mine(prop, v):
    return [b for b in v['bad'] if b.startswith(prop + ':')]


def replay(path):
    d = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        ef = execute([d['program']], scratch, 'r')
        vs, _, _, err = judge(ef, scratch)
        if err:
            print(err[-3000:])
            return 2
        for v in vs.values():
            print(json.dumps(v))
            if mine(d['property'], v):
                print('VIOLATION property=%s replay=%s' % (d['property'], path))
                return 1
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    tier = a[1] if len(a) > 1 and a[0] != 'replay' else os.environ.get('VERIF_TIER', 'quick')
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    if a[0] == 'replay':
        return replay(a[1])
    if a[0] == 'all':
        rcs = {}
        for p in sorted(table.PROPS):
            rcs[p] = check(p, tier, seed)
        print(rcs)
        return max(rcs.values())
    return check(a[0], tier, seed)


if __name__ == '__main__':
    sys.exit(main())
