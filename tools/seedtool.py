"""Makes and confirms planted bugs in scratch copies of /repo.  Usage: python3 tools/seedtool.py SPEC.py [id...]
SPEC.py calls seed(id, prop, edits, demo_cpp, needs, breaks, gens)."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# builds demo.cpp against the Cgl libraries built in the current directory's _build and runs it
d=$(cd "$(dirname "$0")" && pwd); r=$PWD; t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
inc=""; for i in "$r"/src/Cgl*; do inc="$inc -I$i"; done
libs=""; for i in %s; do libs="$libs $r/_build/src/Cgl$i/.libs/libCgl$i.a"; done
g++ -O1 -g -w -DNDEBUG -I"$r/_build/src/CglCommon" $inc $(pkg-config --cflags osi-clp) "$d/demo.cpp" $libs "$r/_build/src/CglCommon/libvpCommon.a" -Wl,--gc-sections $(pkg-config --libs osi-clp) -o "$t/demo" || { echo DEMO BUILD FAILED; exit 0; }
cd "$t" && timeout 200 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
only = sys.argv[2:]
def bound(copy, cmd): return sh(['unshare', '-Urm', 'bash', '-c', f'mount --bind {copy} /repo && cd /repo && {cmd}'])
def seed(id, prop, edits, demo, needs, breaks, gens, check=True, objs=''):
    if only and id not in only: return
    w = f'/tmp/sd_{id}'; shutil.rmtree(w, ignore_errors=True); sh(['cp', '-a', '/repo', w])
    try:
        sd = f'{V}/seeded/{id}'; tmp = f'/tmp/sdd_{id}'; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        open(tmp + '/demo.cpp', 'w').write(demo); open(tmp + '/demo.sh', 'w').write((DEMO % gens).replace('demo.cpp" ', 'demo.cpp" ' + ''.join('$r/_build/' + o + ' ' for o in objs.split()))); os.chmod(tmp + '/demo.sh', 0o755)
        b = bound(w, f'bash /opt/vp/build.sh > /dev/null 2>&1; bash {tmp}/demo.sh')
        if b.returncode or 'DEMO BUILD FAILED' in b.stdout: print(id, 'REJECT: demo fails on the unchanged tree', b.stdout[-1500:]); return
        for f, old, new, *nth in edits:
            q = f'{w}/src/{f}'; s = open(q, newline='').read(); crlf = '\r\n' in s
            if crlf: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if not nth and s.count(old) != 1: print(id, 'REJECT: edit text occurs', s.count(old), 'times', old[:60]); return
            i = -1
            for _ in range(nth[0] if nth else 1): i = s.index(old, i + 1)
            open(q, 'w', newline='').write(s[:i] + new + s[i + len(old):])
        d = sh(['git', '-C', w, 'diff']).stdout
        t = bound(w, 'bash /opt/vp/test.sh /tmp/t_%s.json 2>&1' % id)
        if '6 passed, 0 failed' not in t.stdout: print(id, 'REJECT: tests', t.stdout[-800:]); return
        b = bound(w, f'bash {tmp}/demo.sh')
        if b.returncode == 0: print(id, 'REJECT: demo passes with the patch', b.stdout[-500:]); return
        os.makedirs(sd, exist_ok=True)
        for x in ('demo.cpp', 'demo.sh'): shutil.copy(f'{tmp}/{x}', sd)
        open(sd + '/patch.diff', 'w').write(d); json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(sd + '/meta.json', 'w'), indent=1)
        if check:
            c = sh(['python3', V + '/check.py', prop, '--repo', w, '--noevidence']); hit = c.returncode == 1 and 'VIOLATION property=' + prop in c.stdout
            print(id, prop, 'demo rc', b.returncode, 'CAUGHT' if hit else 'MISSED rc %d' % c.returncode, '\n   ' + '\n   '.join(l[:300] for l in c.stdout.splitlines()[-5:]))
        else: print(id, prop, 'kept')
    finally:
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(f'/tmp/sdd_{id}', ignore_errors=True)
exec(open(sys.argv[1]).read())
