"""Apply every seeded change in turn and run the check of its property (all checks with --all)."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sd = os.path.join(HERE, 'seeded')
want = [a for a in sys.argv[1:] if not a.startswith('-')]
table = {}
for sid in sorted(os.listdir(sd)):
    if want and sid not in want:
        continue
    pid = json.load(open(os.path.join(sd, sid, 'meta.json')))['property']
    if subprocess.run(['git', '-C', '/repo', 'apply', os.path.join(sd, sid, 'patch.diff')]).returncode:
        print(sid, 'DOES NOT APPLY')
        continue
    try:
        r = subprocess.run(['python3', 'check.py'] + (['all'] if '--all' in sys.argv else [pid]), cwd=HERE, capture_output=True, text=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
    hit = sorted({l.split('property=')[1].split()[0] for l in r.stdout.split('\n') if l.startswith('VIOLATION')})
    print('%-32s %s rc=%d caught by %s%s' % (sid, pid, r.returncode, ' '.join(hit) or '-', '' if pid in hit else '   MISSED'), flush=True)
    if '-v' in sys.argv:
        print(r.stdout)
