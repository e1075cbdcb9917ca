"""Systematic mutations, classified natively, then tried on the checks.
python3 tools/automut.py gen K PROP FILE N SEED OUT.jsonl     random operator mutations of src/FILE (lines A-B with FILE:A-B)
python3 tools/automut.py classify BRUTEDIR IN.jsonl OUT.jsonl WORKERS   stable tests + brute force (BRUTEDIR/K.cpp)
python3 tools/automut.py check IN.jsonl OUT.log [time]        checks on those that pass the tests and break brute force"""
import sys, os, subprocess, shutil, re, json, random
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, t=None):
    try: return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c, 124, 'timeout', '')
OPS = [(r'(?<![<>=!\-])<(?![<=])', ['<=', '>']), (r'<=', ['<', '>=']), (r'(?<![->])>(?![>=])', ['>=', '<']), (r'>=', ['>', '<=']), (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']), (r'(?<![+\-eE(,=*/<>&|?:] )(?<![+])\+(?![+=])', ['-']), (r'(?<=[\w\])] )-(?![->=])', ['+']), (r'(?<=[\w\])])-(?=\w)', ['+']), (r'\+=', ['-=']), (r'-=', ['+=']), (r'\bcontinue;', [';']), (r'\bbreak;', [';']), (r'\b0\.0\b', ['1.0']), (r'\b1\.0\b', ['0.0', '2.0']), (r'\[i\]', ['[0]']), (r'\bupper\b', ['lower']), (r'\blower\b', ['upper']), (r'\bfloor\b', ['ceil']), (r'\bceil\b', ['floor']), (r'\bmin\b', ['max']), (r'\bmax\b', ['min']), (r'\bfabs\b', ['']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\+\+', ['']), (r'\+ ?1\b', ['']), (r'- ?1\b(?!\.|e)', [''])]
def gen(k, prop, f, n, seed, out):
    rng = ''
    if ':' in f: f, rng = f.split(':')
    s = open('/repo/src/' + f, newline='').read(); L = s.split('\n'); a, b = (map(int, rng.split('-')) if rng else (1, len(L))); muts = []; com = False; off = 0
    for i, l in enumerate(L, 1):
        st = l.strip()
        if st.startswith('/*') and '*/' not in st: com = True
        code = not com and not st.startswith(('//', '#', '*', 'printf', 'assert', 'std::', 'for (')) or (not com and st.startswith('for ('))
        if '*/' in st: com = False
        if re.match(r'#\s*if(def)?\s*(.*DEBUG|.*PRINT|0$|.*RS_|.*TRACE|.*CGL_DEBUG)', st) and not re.match(r'#\s*ifn', st): off += 1
        elif re.match(r'#\s*if', st) and off: off += 1
        elif re.match(r'#\s*endif', st) and off: off -= 1
        elif re.match(r'#\s*else', st) and off == 1: off = 0
        if not code or off or i < a or i > b: continue
        body = l.split('//')[0]
        for r, reps in OPS:
            for m in re.finditer(r, body):
                if '"' in body[:m.start()] or 'include' in body or 'template' in body or '<' in m.group(0) and 'static_cast' in body: continue
                for x in reps: muts.append((i, l, l[:m.start()] + x + l[m.end():]))
        if re.match(r'^[\w\[\]\.\->\*\(\) ]+\s*[-+*]?=\s*[^=].*;\s*$', body) and not re.match(r'^\s*(int|double|const|char|bool|return|static|unsigned|Coin|Osi|Cgl)\b', body): muts.append((i, l, re.match(r'\s*', l).group(0) + ';'))
        if re.match(r'^\s*(if|while)\s*\((.*)\)\s*\{?\s*$', body): muts.append((i, l, re.sub(r'\((.*)\)(\s*\{?\s*)$', r'(!(\1))\2', body)))
        if re.match(r'^\s*\w+(\.|->)?\w*\(.*\);\s*$', body): muts.append((i, l, re.match(r'\s*', l).group(0) + ';'))
    random.Random(seed).shuffle(muts); w = open(out, 'a')
    for q, (i, l, m) in enumerate(muts[:n]): w.write(json.dumps({'id': f'{k}{i}x{seed}n{q}', 'k': k, 'prop': prop, 'file': f, 'line': i, 'old': l, 'new': m}) + '\n')
    print(f, len(muts), 'possible')
def make(j, w):
    shutil.rmtree(w, ignore_errors=True); sh(['cp', '-a', '/repo', w]); q = f'{w}/src/{j["file"]}'; L = open(q, newline='').read().split('\n')
    if L[j['line'] - 1] != j['old']: return False
    L[j['line'] - 1] = j['new']; open(q, 'w', newline='').write('\n'.join(L)); return True
def classify(B, src, out, workers):
    jobs = [json.loads(l) for l in open(src)]; done = set(json.loads(l)['id'] for l in open(out)) if os.path.exists(out) else set()
    def one(j):
        if j['id'] in done: return
        w = f'/tmp/am_{j["id"]}'
        try:
            src = '/repo/src/' + j['file']; L = open(src, newline='').read().split('\n')
            if L[j['line'] - 1] != j['old']: j['class'] = 'STALE'; return j
            L[j['line'] - 1] = j['new']; os.makedirs(w, exist_ok=True); m1 = w + '/' + os.path.basename(src); open(m1, 'w', newline='').write('\n'.join(L))
            x = sh(['bash', B + '/run2.sh', j['k'], m1, os.path.dirname(src)], 200); m = re.search(j['k'] + r' rc (\d+)', x.stdout)
            if 'NOBUILD' in x.stdout: j['class'] = 'NOBUILD'; return j
            if m and m.group(1) == '0' and ' cuts' in x.stdout: j['class'] = 'QUIET'; return j
            if not make(j, w) or sh(['unshare', '-Urm', 'bash', '-c', f'mount --bind {w} /repo && bash /opt/vp/build.sh > /dev/null 2>&1'], 120).returncode: j['class'] = 'NOBUILD'; return j
            t = sh(['unshare', '-Urm', 'bash', '-c', f'mount --bind {w} /repo && bash /opt/vp/test.sh /tmp/am_{j["id"]}.json 2>&1'], 200)
            j['class'] = 'BREAKS' if '6 passed, 0 failed' in t.stdout else 'TESTS'; j['how'] = (m.group(0) if m else 'build?') + ' ' + x.stdout[:30]; return j
        finally: shutil.rmtree(w, ignore_errors=True); sh(f'rm -f /tmp/am_{j["id"]}.json')
    with open(out, 'a') as f, ThreadPoolExecutor(workers) as ex:
        for r in ex.map(one, jobs):
            if r: f.write(json.dumps(r) + '\n'); f.flush()
def check(src, out, time=None):
    done = set(l.split()[0] for l in open(out)) if os.path.exists(out) else set(); f = open(out, 'a')
    for l in open(src):
        j = json.loads(l)
        if j['class'] != 'BREAKS' or j['id'] in done: continue
        w = f'/tmp/am_{j["id"]}'
        try:
            if not make(j, w): continue
            c = sh(['python3', V + '/check.py', j['prop'], '--repo', w, '--noevidence'] + (['--time', time] if time else []), 900); hit = c.returncode == 1 and 'VIOLATION property=' + j['prop'] in c.stdout
            f.write(f"{j['id']} {'CAUGHT' if hit else 'MISSED'} rc {c.returncode} L{j['line']} {j['old'].strip()[:90]} ==> {j['new'].strip()[:90]} [{j['how'][:30]!r}]\n"); f.flush()
        finally: shutil.rmtree(w, ignore_errors=True)
a = sys.argv
if a[1] == 'gen': gen(a[2], a[3], a[4], int(a[5]), int(a[6]), a[7])
if a[1] == 'classify': classify(a[2], a[3], a[4], int(a[5]))
if a[1] == 'check': check(a[2], a[3], *a[4:])
