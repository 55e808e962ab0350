#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--replay FILE] [--shards N]

Runs the exhaustive exploration of one property against the repository's
working tree: starts the Jython shards of /verif/mc/checks/<property>.py, merges
what they covered, writes evidence/<property>.json and reports.
Exit 0: held on everything explored (known findings are printed).
Exit 1: a line VIOLATION property=<id> replay=<path>.
Exit 2: the machinery itself failed.
"""
import argparse, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
# what the jython launcher runs, with limits of our own
JYTHON = os.path.realpath(shutil.which('jython') or '/usr/share/jython/bin/jython')
JAVA = ['java', '-Xmx2600m', '-Xss64m', '-XX:+UseSerialGC', '-XX:-UsePerfData', '-jar', '/usr/share/java/jython.jar',
        '-Dpython.home=' + os.path.dirname(os.path.dirname(JYTHON)), '-Dpython.executable=' + JYTHON]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--shards', type=int)
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    pid = a.property
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 0)
    reg = json.load(open(os.path.join(HERE, 'registry.json')))[pid]
    known = json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings']
    known = [k for k in known if k['property'] == pid]
    only = '-'
    if a.replay:
        rep = json.load(open(a.replay))
        only, tier = str(rep['index']), rep['tier']
    n = a.shards or min(reg.get('shards', 8), os.cpu_count() or 4)
    if a.replay:
        n = 1
    limit = 840 if tier == 'quick' else 6 * 3600
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='mc_%s_' % pid)
    env = dict(os.environ, LC_ALL='C.UTF-8')
    env.setdefault('HOME', '/root')
    for k in ('JYTHONPATH', 'CLASSPATH', 'JAVA_OPTS', 'JYTHON_OPTS'):
        env.pop(k, None)
    procs = []
    try:
        for i in range(n):
            out = os.path.join(tmp, '%d.json' % i)
            log = open(os.path.join(tmp, '%d.log' % i), 'w')
            # short runs are twice as fast without the second compiler
            java = JAVA[:1] + ['-XX:TieredStopAtLevel=1'] + JAVA[1:] if tier == 'quick' else JAVA
            cmd = java + ['-B', '-Dpython.cachedir.skip=true', os.path.join(HERE, 'mclib.py'),
                   pid, tier, str(i), str(n), out, only, json.dumps([k['case'] for k in known])]
            procs.append((subprocess.Popen(cmd, stdout=log, stderr=log, stdin=subprocess.DEVNULL, env=env,
                                           cwd=tmp, start_new_session=True), out, log.name))
        results, errors = [], []
        for p, out, log in procs:
            try:
                p.wait(max(1, limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
            if os.path.exists(out):
                results.append(json.load(open(out)))
            else:
                errors.append('shard gave no result (rc %s): %s' % (p.returncode, open(log).read()[-3000:]))
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
        shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - t0

    vio = sorted((v for r in results for v in r['violations']), key=lambda v: v['index'])
    new = [v for v in vio if not v['known']]
    old = {v['case']: v for v in vio if v['known']}
    if errors and not new:
        print('%d shards failed; the first: %s' % (len(errors), errors[0]), file=sys.stderr)
        return 2

    hashes, states, outcomes = set(), set(), set()
    groups, samples, notes = {}, [], []
    for r in results:
        hashes.update(r['hashes'])
        states.update(r['states'])
        outcomes.update(r['outcomes'])
        for g, c in r['groups'].items():
            groups[g] = groups.get(g, 0) + c
        for s in r['samples']:
            if len([x for x in samples if x['group'] == s['group']]) < 1:
                samples.append(s)
        notes += [x for x in r['notes'] if x not in notes]
    evals = sum(r['evals'] for r in results)
    cov = {'samples': samples[:40], 'cases_by_group': groups, 'bounds': reg['bounds'], 'notes': notes,
           'exhaustive': not new and not errors}
    if reg['level'] == 'model_checking':
        cov.update(states=len(states), transitions=sum(r['transitions'] for r in results),
                   traces_validated_against_impl=sum(r['traces'] for r in results),
                   comparisons=evals)
        if outcomes:
            cov['distinct_outcomes'] = len(outcomes)
    else:
        cov.update(evaluations=evals, distinct_nontrivial=len(hashes),
                   rule=reg.get('rule', 'Cases are the members of the stated alphabets, enumerated completely and in a fixed order; every '
                                'counted case executes the real code on well-formed or deliberately malformed input and compares with the '
                                'model, and cases are distinct by their arguments.'))
        if outcomes:
            cov['distinct_outcomes'] = len(outcomes)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': reg['level'], 'coverage': cov,
          'assumptions': reg.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': len(new)}
    if not a.replay:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, sort_keys=True)
    for k in known:
        if k['case'] in old:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s %s: %d cases, %d distinct, %d states, %.1f s, %d shards' % (pid, tier, evals, len(hashes), len(states), wall, n))
    if a.verbose:
        print(json.dumps(groups, indent=1, sort_keys=True))
    if new:
        v = new[0]
        d = os.path.join(VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (pid, v['index']))
        json.dump(dict(property=pid, tier=tier, index=v['index'], case=v['case'], kind=v['kind'], got=v['got'], want=v['want'],
                       reproduce='python3 /verif/mc/run.py %s --replay %s' % (pid, path)), open(path, 'w'), indent=1)
        for v in new[:5]:
            print('  %s | %s | got %s | want %s' % (v['kind'], v['case'], v['got'], v['want']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
