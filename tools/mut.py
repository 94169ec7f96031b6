"""tools/mut.py ID file 'old' 'new' : apply a textual change to /repo, run a check, undo it."""
import subprocess, sys
pid, f, old, new = sys.argv[1:5]
p = '/repo/' + f; s = open(p).read(); assert s.count(old) >= 1, 'pattern not found'
open(p, 'w').write(s.replace(old, new, 1))
try: r = subprocess.run(['bin/check', pid] + sys.argv[5:], cwd='/verif'); print('exit', r.returncode)
finally: subprocess.run(['git', '-C', '/repo', 'checkout', '--', f])
