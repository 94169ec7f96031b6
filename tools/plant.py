"""tools/plant.py NAME PROPERTY DEMO(.py|.cpp) NEEDS BREAKS [-e FILE OLD NEW]... [-s SRC]... : build /verif/seeded/NAME, confirm it.  -r puts the graph and solver stand-ins of rt/ beside the demo.
The change is confirmed in /repo itself (apply, build, stable tests, demo) and undone straight afterwards."""
import json, os, shutil, subprocess, sys
a = sys.argv[1:]; name, prop, demo, needs, breaks = a[:5]; a = a[5:]
edits, srcs, rtd = [], [], False
while a:
    if a[0] == '-e': edits.append(a[1:4]); a = a[4:]
    elif a[0] == '-r': rtd = True; a = a[1:]
    elif a[0] == '-s': srcs.append(a[1]); a = a[2:]
D = f'/verif/seeded/{name}'; shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert not sh('git -C /repo status --porcelain').stdout
ext = demo.rsplit('.', 1)[1]; shutil.copy(demo, f'{D}/demo.{ext}')
if ext == 'py':
    body = 'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$here" exec /opt/vp/venv/bin/python "$here/demo.py"\n'
else:
    shutil.copytree('/verif/mock', D + '/mock')
    if rtd:
        os.makedirs(D + '/rt'); [shutil.copy(f'/verif/rt/{h}', D + '/rt/' + h) for h in ('rt.hh', 'graphs.hh', 'scipinst.hh')]
    body = ('W=$(mktemp -d) || exit 9\ntrap \'rm -rf "$W"\' EXIT\n'
            f'clang++ -std=c++17 -O1 -w -DBOOST_LOG_DYN_LINK -fsanitize=address -I"$here/mock" -I"$here/rt" -I"$PWD/include" "$here/demo.cpp" {" ".join(chr(34) + "$PWD/src/" + s + chr(34) for s in srcs)} -o "$W/demo" -lboost_log -lboost_thread -lboost_filesystem -lboost_system -lpthread -lyaml-cpp || exit 9\n'
            'cd "$W" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo\n')
open(f'{D}/demo.sh', 'w').write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\n' + body); os.chmod(f'{D}/demo.sh', 0o755)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{D}/meta.json', 'w'), indent=1)
def demo_rc():
    r = sh(f'bash {D}/demo.sh', cwd='/repo'); return r.returncode, (r.stdout + r.stderr)[-700:]
ok = True
try:
    rc, o = demo_rc(); print('unchanged tree: demo', rc, o if rc else '')
    ok &= rc == 0
    for f, old, new in edits:
        s = open('/repo/' + f).read(); assert s.count(old) == 1, (f, s.count(old)); open('/repo/' + f, 'w').write(s.replace(old, new))
    p = sh('git -C /repo diff').stdout; open(f'{D}/patch.diff', 'w').write(p)
    rc, o = demo_rc(); print('changed tree: demo', rc, o); ok &= rc not in (0, 9)
    r = sh('bash /opt/vp/test.sh /tmp/pl/out.json'); got = json.load(open('/tmp/pl/out.json')); base = json.load(open('/opt/vp/BASELINE.json'))
    st = set(base.get('stable', base.get('passed', base if isinstance(base, list) else [])) if not isinstance(base, list) else base)
    miss = st - set(got['passed']); print('stable tests missing:', sorted(miss) or 'none'); ok &= not miss
    r = sh(f'bin/check {prop} quick', cwd='/verif'); print('CHECK exit', r.returncode, r.stdout[-900:])
finally:
    sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
print('COUNTS' if ok else 'NOT VALID', name)
if not ok: shutil.rmtree(D)
