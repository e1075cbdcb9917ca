"""Quick trial of mutations (no demos): python3 tools/muttool.py SPEC.py [ids].  SPEC.py calls mut(id, prop, file, old, new[, nth])."""
import sys, os, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = sys.argv[2:]; BASE = os.environ.get('MUT_BASE', '/repo')
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def mut(id, prop, f, old, new, nth=None):
    if only and not any(id.startswith(o) for o in only): return
    w = f'/tmp/mt_{id}'; shutil.rmtree(w, ignore_errors=True); sh(['cp', '-a', BASE, w])
    try:
        q = f'{w}/src/{f}'; s = open(q, newline='').read()
        if '\r\n' in s: old = old.replace('\n', '\r\n'); new = new.replace('\n', '\r\n')
        c = s.count(old)
        if nth is None and c != 1 or not c: print(id, 'REJECT: text occurs', c, 'times', flush=True); return
        i = -1
        for _ in range((nth or 1)): i = s.index(old, i + 1)
        open(q, 'w', newline='').write(s[:i] + new + s[i + len(old):])
        t = sh(['unshare', '-Urm', 'bash', '-c', f'mount --bind {w} /repo && bash /opt/vp/build.sh > /dev/null 2>&1 && bash /opt/vp/test.sh /tmp/t_mut_{id}.json 2>&1'])
        if '6 passed, 0 failed' not in t.stdout: print(id, 'TESTS CATCH IT', t.stdout[-200:].replace('\n', ' '), flush=True); return
        for pr in prop.split(','):
            c = sh(['python3', V + '/check.py', pr, '--repo', w, '--noevidence'] + (['--time', os.environ['MUT_TIME']] if 'MUT_TIME' in os.environ else [])); hit = c.returncode == 1 and 'VIOLATION property=' + pr in c.stdout
            v = [l for l in c.stdout.splitlines() if 'VIOLATION' in l or 'msg' in l]
            print(id, pr, 'CAUGHT' if hit else 'MISSED rc %d' % c.returncode, (v[0][:200] if v else ''), flush=True)
    finally: shutil.rmtree(w, ignore_errors=True); sh(f'rm -f /tmp/t_mut_{id}.json')
exec(open(sys.argv[1]).read())
