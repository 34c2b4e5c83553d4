"""Mutation study (not used by a check): python3 tools/auto_mut.py OUT.jsonl [file ...] [--seed N --max N]
Every one-token or one-statement mutation of the non-test source; those that build and pass the unit tests are given to
the checks of that file, and the ones no check reports are listed."""
import sys, os, re, subprocess, tempfile, shutil, json, random, queue, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REL = {'src/archive_stack.rs': 'C01 C24 C23', 'src/stack.rs': 'C02 C24', 'src/level_tree.rs': 'C03 C04 C05 C06 C09 C22 C23 C24 C29',
       'src/tree_cursor.rs': 'C07 C08 C10 C22 C23 C24', 'src/raz.rs': 'C11 C12 C13 C14 C18 C19 C20 C21 C22 C23 C24', 'src/raz_meta.rs': 'C15 C16 C17 C24',
       'src/memo.rs': 'C20 C22 C23', 'src/skiplist.rs': 'C26 C27 C24', 'src/trees.rs': 'C29 C24', 'src/lib.rs': 'C29'}
SW = [(r'\bleft\b', 'right'), (r'\bright\b', 'left'), (r'\bl_(\w+)', r'r_\1'), (r'\br_(\w+)', r'l_\1'), (r'_left\b', '_right'), (r'_right\b', '_left'),
      (r'(?<![-=<])<(?=\s)', '<='), (r'(?<![-=])>(?=\s)', '>='), (r'<=', '<'), (r'(?<![=])>=', '>'), (r'==', '!='), (r'!=', '=='),
      (r' \+ ', ' - '), (r' - ', ' + '), (r'\+1\b', ''), (r'-1\b', ''), (r'-1\b', '+1'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
      (r'&&', '||'), (r'\|\|(?=\s)', '&&'), (r'\bfirst\b', 'last'), (r'\blast\b', 'first'), (r'\.rev\(\)', ''), (r'\.0\b', '.1'), (r'\.1\b', '.0'),
      (r'Left\b', 'Right'), (r'Right\b', 'Left'), (r'L(?=[,)])', 'R'), (r'R(?=[,)])', 'L'), (r'\bSome\((?:[\w.]+|[\w.]+\.clone\(\))\)', 'None'), (r'\bis_empty\(\)', 'is_empty() == false'),
      (r'\bis_some\(\)', 'is_none()'), (r'\bis_none\(\)', 'is_some()'), (r'if (?!let)([^{]+)\{', 'if !(\\1) {'), (r'while (?!let)([^{]+)\{', 'if \\1 {'), (r'\.min\(', '.max('), (r'\bname\.clone\(\)', 'None'),
      (r'\bself\.name\.clone\(\)', 'None'), (r'\bfork\w*\b', 'name'), (r'\bAtHead', 'AtTail')]
def muts(path):
    L = open(os.path.join('/repo', path)).read().split('\n')
    end = next((i for i, l in enumerate(L) if '#[cfg(test)]' in l or '#[test]' in l), len(L))
    for i, l in enumerate(L[:end]):
        c = l.split('//')[0]; s = c.strip()
        if not s or s.startswith(('#', 'use ', 'pub use', 'extern', 'impl', 'trait', 'pub trait', 'struct', 'pub struct', 'mod', 'pub mod', 'fn ', 'pub fn', 'enum', 'pub enum', 'where', 'type ', '///', '*')): continue
        if s.endswith(';') and not s.startswith(('let ', 'return', 'break', 'continue')): yield i, 'delete', '\t//'
        for p, r in SW:
            for m in re.finditer(p, c):
                n = c[:m.start()] + m.expand(r) + c[m.end():]
                if n != c: yield i, '%s -> %s' % (m.group(0), m.expand(r)), n
        m = re.match(r'^(\s*.*?\()([^(),]+), ?([^(),]+)(\).*)$', c)
        if m and m.group(2) != m.group(3): yield i, 'swap args', m.group(1) + m.group(3) + ', ' + m.group(2) + m.group(4)
        if i + 1 < end and s.endswith((';', ',')) and L[i+1].strip().endswith(('}', ';', ',')) and L[i+1].strip()[-1] == s[-1] and L[i+1].strip() != s: yield i, 'swap lines', L[i+1] + '\n' + l
def setup(k):
    d = '/tmp/mw/%d' % k; os.makedirs(d, exist_ok=True)
    for x in ('src', 'eval', 'Cargo.toml', 'Cargo.lock'):
        s = os.path.join('/repo', x); t = os.path.join(d, x)
        if os.path.isdir(s): shutil.rmtree(t, ignore_errors=True); shutil.copytree(s, t, ignore=shutil.ignore_patterns('target'))
        else: shutil.copy(s, d)
    return d
def worker(q, k, out, lock):
    d = setup(k)
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=d + '/target', RUSTUP_TOOLCHAIN='stable', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='0')
    while True:
        try: path, i, what, new = q.get_nowait()
        except queue.Empty: return
        orig = open(os.path.join('/repo', path)).read(); L = orig.split('\n')
        L2 = list(L)
        if what == 'swap lines': a, b = new.split('\n'); L2[i:i+2] = [a, b]
        else: L2[i] = new
        open(os.path.join(d, path), 'w').write('\n'.join(L2))
        r = dict(file=path, line=i+1, what=what, old=L[i].strip(), new=new.strip())
        try:
            b = subprocess.run(['cargo', 'test', '--lib', '--no-run', '--offline'], cwd=d, env=env, capture_output=True, text=True)
            if b.returncode: r['status'] = 'build'
            else:
                exe = re.search(r'\((\S+/deps/iodyn-\w+)\)', b.stderr)
                try:
                    t = subprocess.run([exe.group(1) if exe.group(1).startswith('/') else os.path.join(d, exe.group(1)), '--test-threads', '2'], cwd=d, env=env, capture_output=True, text=True, timeout=20)
                    bad = [x for x in re.findall(r'^test (\S+) \.\.\. FAILED', t.stdout, re.M) if x in STABLE]
                    r['status'] = 'killed' if bad or (t.returncode not in (0, 101)) else 'survived'
                except subprocess.TimeoutExpired: r['status'] = 'killed'
            if r['status'] == 'survived':
                e = dict(os.environ, IODYN_REPO=d, VERIF_EVIDENCE=d + '/ev', VERIF_JOBS='2'); r['checks'] = {}
                for pid in REL[path].split():
                    try: p = subprocess.run([sys.executable, V + '/analysis/check.py', pid, 'quick'], env=e, capture_output=True, text=True, timeout=400)
                    except subprocess.TimeoutExpired: r['checks'][pid] = 'timeout'; continue
                    und = [x.strip()[:200] for x in p.stdout.splitlines() if 'undecided:' in x]
                    if p.returncode == 1: r['caught'] = pid; r['how'] = [x.strip()[:200] for x in p.stdout.splitlines() if 'violated:' in x][:1]; break
                    if p.returncode or und: r['checks'][pid] = und[:3] or p.returncode
        finally: open(os.path.join(d, path), 'w').write(orig)
        with lock: out.write(json.dumps(r) + '\n'); out.flush()
STABLE = [x.split('::', 1)[1] for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x.startswith('iodyn:')]
def main():
    a = sys.argv[1:]; out = a.pop(0); mx = 10**9; files = []; n = 7
    while a:
        x = a.pop(0)
        if x == '--max': mx = int(a.pop(0))
        elif x == '-j': n = int(a.pop(0))
        else: files.append(x)
    ms = [(f,) + m for f in (files or REL) for m in muts(f)]
    random.Random(1).shuffle(ms); ms = ms[:mx]; print(len(ms), 'mutants')
    q = queue.Queue(); [q.put(m) for m in ms]
    lock = threading.Lock(); o = open(out, 'w')
    ts = [threading.Thread(target=worker, args=(q, k, o, lock)) for k in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
