"""Classifies mutations natively before the checks are tried on them: python3 tools/bruteclass.py BRUTEDIR SPEC.py...
Prints, per mutation, whether the stable tests catch it and whether brute force over random small problems (BRUTEDIR/<k>.cpp, k = letters of the id) does."""
import sys, os, subprocess, shutil, re
from concurrent.futures import ThreadPoolExecutor
B = sys.argv[1]; jobs = []
def sh(c): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
def mut(id, prop, f, old, new, nth=None): jobs.append((id, prop, f, old, new, nth))
for f in sys.argv[2:]: exec(open(f).read())
def one(j):
    id, prop, f, old, new, nth = j; w = f'/tmp/bc_{id}'; shutil.rmtree(w, ignore_errors=True); sh(['cp', '-a', '/repo', w])
    try:
        q = f'{w}/src/{f}'; s = open(q, newline='').read()
        if '\r\n' in s: old = old.replace('\n', '\r\n'); new = new.replace('\n', '\r\n')
        c = s.count(old)
        if nth is None and c != 1 or not c: return f'{id} REJECT: text occurs {c} times'
        i = -1
        for _ in range(nth or 1): i = s.index(old, i + 1)
        open(q, 'w', newline='').write(s[:i] + new + s[i + len(old):])
        k = re.match('[a-z]+', id).group(0)
        t = sh(['unshare', '-Urm', 'bash', '-c', f'mount --bind {w} /repo && bash /opt/vp/build.sh > /tmp/bc_{id}.log 2>&1 && bash /opt/vp/test.sh /tmp/bc_{id}.json 2>&1'])
        if '6 passed, 0 failed' not in t.stdout: return f'{id} TESTS {t.stdout[-80:]!r} {open(f"/tmp/bc_{id}.log").read()[-100:]!r}'
        b = sh(['bash', B + '/run.sh', k, w]); m = re.search(k + r' rc (\d+)', b.stdout)
        return f'{id} {"QUIET" if m and m.group(1) == "0" and " cuts" in b.stdout else "BREAKS"} {b.stdout.strip().splitlines()[-1] if b.stdout.strip() else ""} {b.stdout[:40]!r}'
    finally: shutil.rmtree(w, ignore_errors=True); sh(f'rm -f /tmp/bc_{id}.log /tmp/bc_{id}.json')
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, jobs): print(r, flush=True)
