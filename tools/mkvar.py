"""apply one variant of tools/variants.py to a copy of /repo in DIR"""
import sys, os, shutil, subprocess
sys.argv, (name, dst) = sys.argv[:1], sys.argv[1:3]
ns = {'__name__': 'x', '__file__': os.path.join(os.path.dirname(os.path.abspath(__file__)), 'variants.py')}
exec(compile(open(ns['__file__']).read(), 'variants', 'exec'), ns)
import glob
for p in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'var_*.py'))):
    exec(compile(open(p).read(), p, 'exec'), ns)
shutil.rmtree(dst, ignore_errors=True)
shutil.copytree('/repo', dst, ignore=shutil.ignore_patterns('.git'))
for n, keys, edits in ns['V']:
    if n == name:
        for e in edits:
            p = os.path.join(dst, e[0])
            s = open(p, newline='').read()
            assert e[1] in s, e[1]
            open(p, 'w', newline='').write(s.replace(e[1], e[2]) if len(e) == 3 else s.replace(e[1], e[2], e[3]))
        print(keys)
