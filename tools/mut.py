"""mut.py Cxx file old new: run a check against a scratch copy with one change"""
import os, shutil, subprocess, sys, tempfile
pid, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix='mut')
shutil.copytree('/repo/src', d + '/src')
p = f'{d}/src/sparse_ir/{f}'
s = open(p).read()
assert s.count(old) >= 1, 'text not found'
open(p, 'w').write(s.replace(old, new, 1))
env = dict(os.environ, VERIF_REPO=d)
r = subprocess.run(['python3-vt', '/verif/check.py', pid], env=env, capture_output=True, text=True)
print('rc', r.returncode, '|', (old, new))
print('\n'.join(l[:300] for l in (r.stdout + r.stderr).splitlines()[:int(os.environ.get('N', 4))]))
shutil.rmtree(d)
