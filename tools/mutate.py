"""Self-test on scratch copies: python3 tools/mutate.py MUTANTS.txt [-p C01,C02]
MUTANTS.txt: blocks  '@ name | file | expected ids or quiet', then old text, a line '=>', new text.  Nothing here is used by a check."""
import sys, os, subprocess, tempfile, shutil, json, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def parse(p):
    out = []; cur = None
    for l in open(p):
        l = l.rstrip('\n')
        if l.startswith('@ '):
            n, f, e = [x.strip() for x in l[2:].split('|')]
            cur = dict(name=n, file=f, exp=e.split(','), old=[], new=[], side='old'); out.append(cur)
        elif l == '=>': cur['side'] = 'new'
        elif cur is not None: cur[cur['side']].append(l)
    return out
def go(m, props):
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    try:
        for x in ('src', 'eval', 'Cargo.toml', 'Cargo.lock'):
            s = os.path.join('/repo', x)
            if os.path.isdir(s): shutil.copytree(s, os.path.join(d, x), ignore=shutil.ignore_patterns('target'))
            elif os.path.exists(s): shutil.copy(s, d)
        p = os.path.join(d, m['file']); t = open(p).read()
        old = '\n'.join(m['old']).strip('\n'); new = '\n'.join(m['new']).strip('\n')
        if t.count(old) < 1: return m, 'TEXT NOT FOUND', []
        t = t.replace(old, new, 1); open(p, 'w').write(t)
        e = dict(os.environ, IODYN_REPO=d, VERIF_EVIDENCE=os.path.join(d, 'ev'))
        res = []
        for pid in (props or m['exp']):
            if pid == 'quiet': continue
            q = subprocess.run([sys.executable, os.path.join(V, 'analysis', 'check.py'), pid, 'quick'], env=e, capture_output=True, text=True)
            res.append((pid, q.returncode, q.stdout.strip()))
        return m, 'ok', res
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    props = None; files = []
    a = sys.argv[1:]; verbose = False
    while a:
        x = a.pop(0)
        if x == '-p': props = a.pop(0).split(',')
        elif x == '-v': verbose = True
        else: files.append(x)
    ms = [m for f in files for m in parse(f)]
    with cf.ThreadPoolExecutor(7) as ex:
        for m, s, res in ex.map(lambda m: go(m, props or (m['exp'] if m['exp'] != ['quiet'] else None) or ALL()), ms):
            print(m['name'], s, 'expect', m['exp'], '->', {p: r for p, r, _ in res if r or p in m['exp']})
            for p, r, o in res:
                if verbose or (r not in (0, 1)) or (r == 0 and p in m['exp']) or (m['exp'] == ['quiet'] and r): print('      ', p, '\n          '.join(o.splitlines()[-6:])[:1500])
                elif m['exp'] == ['quiet'] and 'undecided:' in o: print('      ', p, [l for l in o.splitlines() if 'undecided:' in l][0][:300])
def ALL():
    return [c['property'] for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']]
main()
