#!/usr/bin/env python3
"""mkseed.py ID...   (re)creates seeded/ID from tools/seeds.py and confirms it in a scratch copy of /repo:
the patch applies, the tree builds, the stable tests pass, the demonstration fails with it and passes without.
   --check   also runs the check of the property against the scratch copy (MC_REPO)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import seeds

DEMO_SH = '''#!/bin/bash
# cwd: the repository, built.  Exit 0: the property holds on this input.
D="$(cd "$(dirname "$0")" && pwd)"
S="$(mktemp -d)"
trap 'rm -rf "$S"' EXIT
ln -s "$(pwd)" "$S/cryptopy"
export LC_ALL=C.UTF-8 HOME="${HOME:-/root}" JYTHONPATH="$S:$D"
unset CLASSPATH
cp "$D"/demo.py "$S"/demo_main.py
timeout 250 /usr/bin/jython -B -Dpython.cachedir.skip=true "$S/demo_main.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def run_tests(scratch, tmp):
    """ the stable tests, on a copy """
    env = dict(os.environ, LC_ALL='C.UTF-8')
    env.pop('JYTHONPATH', None)
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    mods = sorted({t.split('::')[0] for t in base})
    h = os.path.join(tmp, 'h')
    shutil.copytree('/opt/cryptopy-harness', h, symlinks=True)
    p = os.path.join(h, 'path', 'cryptopy')
    os.remove(p)
    os.symlink(scratch, p)
    rm = os.path.join(h, 'run_module.py')
    src = open(rm).read()
    assert "'/repo', '/repo/cipher'" in src
    open(rm, 'w').write(src.replace("'/repo', '/repo/cipher'", repr(scratch) + ', ' + repr(scratch + '/cipher')))
    passed, procs = set(), []
    for f in sh("find . -name .git -prune -o \\( -name 'test_*.py' -o -name '*_test.py' \\) -print | sed 's|^\\./||' | grep -v -e '^hash/test/' -e '^cipher/test/test_aes_' | sort", shell=True, cwd=scratch).stdout.split():
        m = 'cryptopy.' + f[:-3].replace('/', '.')
        out = os.path.join(tmp, m + '.lines')
        procs.append((m, out, subprocess.Popen(['timeout', '300', '/usr/bin/jython', '-B', '-Dpython.cachedir.skip=true', os.path.join(h, 'run_module.py'), m, out],
                                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=scratch, env=env)))
    lines = []
    for m, out, p in procs:
        p.wait()
        if os.path.exists(out):
            lines += open(out).read().splitlines()
        if p.returncode:
            lines.append('FAIL %s::exit' % m)
    passed = {l.split(' ', 1)[1].strip() for l in lines if l.startswith('PASS ')}
    missing = base - passed
    return missing


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    check = '--check' in sys.argv
    if not ids:
        ids = list(seeds.SEEDS)
    for i in ids:
        sd = seeds.SEEDS[i]
        tmp = tempfile.mkdtemp(prefix='seed_')
        try:
            scratch = os.path.join(tmp, 'repo')
            subprocess.run(['git', 'clone', '-q', '/repo', scratch], check=True)
            for f, old, new in sd['edits']:
                path = os.path.join(scratch, f)
                s = open(path, newline='').read()
                if '\r\n' in s:
                    old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
                assert s.count(old) == 1, (i, f, old, s.count(old))
                open(path, 'w', newline='').write(s.replace(old, new))
            out = os.path.join(V, 'seeded', i)
            os.makedirs(out, exist_ok=True)
            diff = subprocess.run(['git', 'diff'], cwd=scratch, capture_output=True).stdout
            open(os.path.join(out, 'patch.diff'), 'wb').write(diff)
            open(os.path.join(out, 'demo.sh'), 'w').write(DEMO_SH)
            os.chmod(os.path.join(out, 'demo.sh'), 0o755)
            open(os.path.join(out, 'demo.py'), 'w').write(seeds.PRELUDE.get(sd.get('prelude'), '') + sd['demo'].lstrip('\n'))
            json.dump(dict(property=sd['property'], needs=sd['needs'], what_it_breaks=sd['breaks']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
            bad = []
            if '--fast' not in sys.argv:
                r = sh([os.path.join(out, 'demo.sh')], cwd=scratch)
                if r.returncode == 0:
                    bad.append('demo passes with the patch')
                detail = (r.stdout + r.stderr)[-300:]
                r = sh([os.path.join(out, 'demo.sh')], cwd='/repo')
                if r.returncode != 0:
                    bad.append('demo fails without the patch: ' + (r.stdout + r.stderr)[-700:])
                missing = run_tests(scratch, tmp)
                if missing:
                    bad.append('tests fail: %s' % sorted(missing)[:5])
            else:
                detail = ''
            verdict = ''
            if check:
                r = sh(['python3', os.path.join(V, 'mc', 'run.py'), sd['property']], env=dict(os.environ, MC_REPO=scratch))
                verdict = 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' in r.stdout else 'MISSED rc=%d' % r.returncode
                verdict += ' ' + ' '.join(l.strip()[:230] for l in r.stdout.splitlines()[1:2])
                if r.returncode not in (0, 1):
                    verdict += r.stderr[-500:]
            if check:
                rp = os.path.join(V, 'tools', 'seed_results.json')
                res = json.load(open(rp)) if os.path.exists(rp) else {}
                old = res.get(i, '')
                first = 'missed at first' if 'missed' in old or not verdict.startswith('CAUGHT') else ''
                res[i] = ('caught' + (first and ' (' + first + ')')) if verdict.startswith('CAUGHT') else 'missed'
                if bad:
                    res.pop(i)
                json.dump(res, open(rp, 'w'), indent=1, sort_keys=True)
            print('%s %s: %s %s' % (i, sd['property'], 'ok' if not bad else 'BAD ' + '; '.join(bad), verdict), flush=True)
            if bad and '-v' in sys.argv:
                print(detail)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
