#!/usr/bin/env python3
"""Run the check of one property: build its explorers from /repo's working tree,
enumerate, judge, write evidence.  usage: run_check.py PROPERTY [--keep]"""
import json, os, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, BASE_FLAGS, SAN, BASE_LIBS
REPO = os.environ.get('VERIF_REPO', '/repo')

def fill(s):
    return s.replace('@REPO@', REPO).replace('@VERIF@', HERE)

def build(job, wd):
    """compile one explorer; returns (binary, error)"""
    out = os.path.join(wd, job['name'])
    if 'script' in job:
        cmd = [fill(c) for c in ['bash', job['script'], REPO, HERE, out] + job.get('flags', [])]
    else:
        cmd = ([job.get('cxx', 'g++')] + BASE_FLAGS + job.get('san', SAN) + job.get('flags', []) +
               ['-I@REPO@/src', '-I@VERIF@/mc', '@VERIF@/harness/' + job['src']] +
               [ '-o', out] + job.get('libs', BASE_LIBS))
        cmd = [fill(c) for c in cmd]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=wd)
    if p.returncode:
        return None, ' '.join(cmd) + '\n' + p.stdout[-6000:]
    return out, None

def known_for(prop):
    r = []
    for l in open(os.path.join(HERE, 'known_findings.txt')):
        l = l.rstrip('\n')
        if l.startswith('finding: property=%s ' % prop):
            rest = l.split(' ', 2)[2]
            k, text = rest.split(' ', 1)
            assert k.startswith('key=')
            r.append((k[4:], text))
    return r

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    os.environ['VERIF_TIER'] = tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = os.path.join(HERE, '.work')
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    wd = tempfile.mkdtemp(prefix=prop + '-', dir=work)
    outdir = os.path.join(HERE, 'out')
    os.makedirs(outdir, exist_ok=True)
    for f in os.listdir(outdir):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(outdir, f))
    try:
        return run(prop, tier, seed, t0, wd, outdir)
    finally:
        if '--keep' not in sys.argv:
            shutil.rmtree(wd, ignore_errors=True)

def run(prop, tier, seed, t0, wd, outdir):
    spec = CHECKS[prop]
    jobs = [j for j in spec['jobs'] if tier in j.get('tiers', ('quick', 'thorough'))]
    with cf.ThreadPoolExecutor(8) as ex:
        built = list(ex.map(lambda j: build(j, wd), jobs))
    for j, (b, e) in zip(jobs, built):
        if e:
            print('ERROR: explorer %s does not build' % j['name'])
            print(e)
            return 2
    tb = time.time()
    print('built %d explorer(s) in %.1f s' % (len(jobs), tb - t0), flush=True)
    known = known_for(prop)
    kf = os.path.join(wd, 'known.tsv')
    with open(kf, 'w') as f:
        for k, t in known:
            f.write(k + '\t' + t + '\n')
    budget = 720 if tier == 'quick' else 40000
    env = dict(os.environ)
    env.update(OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', OMP_DYNAMIC='false', LC_ALL='C')
    fams, vios, hit = [], [], set()
    for j, (b, _) in zip(jobs, built):
        tmp = os.path.join(wd, j['name'] + '.tmp')
        os.mkdir(tmp)
        res = os.path.join(wd, j['name'] + '.json')
        e = dict(env)
        e.update({k: fill(v) for k, v in j.get('env', {}).items()})
        left = max(5.0, budget - (time.time() - t0))
        p = subprocess.Popen([b, '--out', res, '--known', kf, '--tmp', tmp, '--deadline', '%.0f' % left] + j.get('args', []),
                             env=e, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        for l in p.stdout:
            print('[%s] %s' % (j['name'], l), end='', flush=True)
        p.wait()
        if p.returncode or not os.path.exists(res):
            print('ERROR: explorer %s ended with status %s' % (j['name'], p.returncode))
            return 2
        for f in json.load(open(res))['families']:
            f['job'] = j['name']
            fams.append(f)
            for v in f['violations']:
                v['family'], v['job'] = f['name'], j
                if v['known'] >= 0:
                    hit.add(v['known'])
                else:
                    vios.append(v)
            if f['nonreproducible']:
                print('note: %d failure(s) of %s/%s did not repeat when replayed alone and are not reported' %
                      (f['nonreproducible'], j['name'], f['name']))
    for i in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[i][1]))
    replays = []
    for n, v in enumerate(vios):
        rp = os.path.join(outdir, '%s-%d.json' % (prop, n + 1))
        j = v['job']
        src = j.get('src') or j.get('script')
        json.dump({'property': prop, 'explorer': src, 'flags': j.get('flags', []), 'family': v['family'], 'index': v['idx'],
                   'key': v['key'], 'message': v['msg'], 'case': v['desc'],
                   'replay': 'python3 /verif/replay.py ' + rp}, open(rp, 'w'), indent=1)
        replays.append(rp)
    tot = lambda k: sum(f[k] for f in fams)
    samples = []
    for f in fams:
        for s in f['samples'][:1]:
            samples.append('%s: %s' % (f['name'], s[:700]))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot('states'), 'transitions': tot('transitions'),
            'traces_validated_against_impl': tot('validated'), 'samples': samples[:12],
            'cases': tot('done'), 'cases_in_space': tot('N'), 'distinct_outcomes': tot('outcomes'),
            'exhaustive': all(f['exhaustive'] for f in fams),
            'rule': spec['rule'],
            'families': [{k: f[k] for k in ('job', 'name', 'what', 'N', 'done', 'exhaustive', 'states', 'outcomes',
                                            'transitions', 'validated', 'skips', 'wall', 'nonreproducible')} for f in fams],
        },
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(vios)}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for v, rp in zip(vios, replays):
        print('  %s/%s idx=%d: %s' % (v['job']['name'], v['family'], v['idx'], v['msg'][:600]))
        print('    case: %s' % v['desc'][:600])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    print('%s %s: %d cases (%s), %d states, %d transitions, %d validated, %d violation(s), %.1f s' %
          (prop, tier, tot('done'), 'exhaustive' if ev['coverage']['exhaustive'] else 'CAPPED', tot('states'),
           tot('transitions'), tot('validated'), len(vios), time.time() - t0))
    return 1 if vios else 0

if __name__ == '__main__':
    sys.exit(main())
