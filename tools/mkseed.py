"""Build one seeded change: mkseed.py spec.py, where spec.py defines ID, PROPERTY, FILE(s), EDITS [(file, old, new)], DEMO, NEEDS, BREAKS.
Verifies in a scratch copy: patch applies, tests pass, demo passes before and fails after, changed lines are original."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '734b160'


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def build(ns):
    sid = ns['ID']
    tmp = tempfile.mkdtemp(prefix='seed')
    repo = os.path.join(tmp, 'repo')
    try:
        sh('cp -a /repo %s' % repo)
        for f, old, new in ns['EDITS']:
            p = os.path.join(repo, f)
            s = open(p, newline='').read()
            crlf = '\r\n' in s
            if crlf:
                old = old.replace('\n', '\r\n')
                new = new.replace('\n', '\r\n')
            n = s.count(old)
            if n != 1:
                return 'old text occurs %d times in %s: %r' % (n, f, old)
            s = s.replace(old, new)
            open(p, 'w', newline='').write(s)
        diff = sh('git diff --no-color', cwd=repo).stdout
        if not diff:
            return 'no diff'
        # removed lines must be original
        bl = []
        for f in {e[0] for e in ns['EDITS']}:
            d = sh('git diff -U0 --no-color -- %s' % f, cwd=repo).stdout
            for l in d.split('\n'):
                if l.startswith('@@'):
                    a = l.split()[1][1:]
                    st, _, n = a.partition(',')
                    n = int(n or 1)
                    for i in range(int(st), int(st) + n):
                        b = sh('git blame -l -L %d,%d HEAD -- %s' % (i, i, f), cwd=repo).stdout
                        bl.append((f, i, b.lstrip('^')[:7]))
        base = sh('git rev-list --max-parents=0 HEAD', cwd=repo).stdout.strip()
        orig = [x for x in bl if base.startswith(x[2][:6])]
        mine = [x for x in bl if x not in orig]
        if mine:
            print('  note: lines from later commits:', mine)
        if bl and not orig:
            return 'no original line is changed'
        out = os.path.join(HERE, 'seeded', sid)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(os.path.join(out, 'patch.diff'), 'w', newline='').write(sh('git diff --no-color --binary', cwd=repo).stdout)
        # capture with bytes for CRLF files
        raw = subprocess.run(['git', 'diff', '--no-color'], cwd=repo, capture_output=True).stdout
        open(os.path.join(out, 'patch.diff'), 'wb').write(raw)
        open(os.path.join(out, 'demo.py'), 'w').write(ns['DEMO'])
        open(os.path.join(out, 'demo.sh'), 'w').write('#!/bin/sh\nexec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        r1 = sh('bash %s/demo.sh' % out, cwd='/repo', timeout=300)
        r2 = sh('bash %s/demo.sh' % out, cwd=repo, timeout=300)
        T = 'cd %s && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -p no:cacheprovider -q -rfE sunspec 2>&1 | grep -E "^(FAILED|ERROR)" | cut -d" " -f2 | sort'
        bad = set(sh(T % repo).stdout.split()) - set(sh(T % '/repo').stdout.split())
        if bad:
            return 'tests fail with the change: %s' % sorted(bad)
        chk = sh('git apply --check %s/patch.diff' % out, cwd='/repo')
        if chk.returncode:
            return 'patch does not apply: ' + chk.stderr
        if r1.returncode != 0:
            return 'demo fails on the unchanged tree: ' + r1.stdout[-500:] + r1.stderr[-800:]
        if r2.returncode == 0:
            return 'demo passes with the change'
        print('  demo with change:', (r2.stdout + r2.stderr).strip().split('\n')[-1][:160])
        return None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    for path in sys.argv[1:]:
        src = open(path).read()
        parts = src.split('#=====\n')
        for part in parts:
            if not part.strip():
                continue
            ns = {}
            exec(part, ns)
            r = build(ns)
            print(ns['ID'], 'OK' if r is None else 'FAILED ' + r, flush=True)
            if r is not None:
                shutil.rmtree(os.path.join(HERE, 'seeded', ns['ID']), ignore_errors=True)


main()
