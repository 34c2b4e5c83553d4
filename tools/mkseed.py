"""Builds and validates planted bugs: python3 tools/mkseed.py SEEDS.txt [id...]
Blocks: '@ id | property | file', old text, '=>', new text ('@+ file' starts a further edit), then '%needs ...', '%breaks ...', '%demo' and the Rust program (main panics/exits nonzero on the bug).  '%eval' before %demo: the demo is a program of the eval crate's toolchain."""
import sys, os, subprocess, tempfile, shutil, json, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def parse(p):
    out = []; cur = None; side = None
    for l in open(p):
        l = l.rstrip('\n')
        if l.startswith('@+ '): cur['edits'].append([l[3:].strip(), [], []]); side = 1
        elif l.startswith('@ '):
            i, pr, f = [x.strip() for x in l[2:].split('|')]
            cur = dict(id=i, prop=pr, edits=[[f, [], []]], needs='', breaks='', demo=[], eval=False); out.append(cur); side = 1
        elif l == '=>': side = 2
        elif l.startswith('%needs '): cur['needs'] = l[7:]; side = None
        elif l.startswith('%breaks '): cur['breaks'] = l[8:]; side = None
        elif l == '%eval': cur['eval'] = True
        elif l == '%demo': side = 'demo'
        elif cur is not None and side == 'demo': cur['demo'].append(l)
        elif cur is not None and side: cur['edits'][-1][side].append(l)
    return out
DEMO = '''#!/bin/bash
# run with cwd /repo: builds a small program against the crate in a scratch directory
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUST_BACKTRACE=0 CARGO_INCREMENTAL=0
unset RUSTC RUSTFLAGS RUSTUP_TOOLCHAIN CARGO_TARGET_DIR
d=$(mktemp -d /tmp/demo-XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/demo.rs" "$d/src/main.rs"
%s
timeout 60 "$d/target/debug/demo"; rc=$?
echo "demo exit $rc"; [ $rc = 0 ]
'''
ROOT = '''cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
[workspace]
[dependencies]
iodyn = { path = "$repo" }
adapton = "0.3"
rand = "0.3"
E
(cd "$d" && RUSTUP_TOOLCHAIN=stable cargo build --offline -q) || exit 3'''
EVAL = '''cp "$repo/eval/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
[workspace]
[dependencies]
eval = { path = "$repo/eval" }
iodyn = { path = "$repo" }
adapton = "0.3"
adapton-lab = "0.1"
time = "0.1"
rand = "0.3"
E
(cd "$d" && CARGO_PROFILE_DEV_DEBUG=1 RUSTUP_TOOLCHAIN=1.75.0 RUSTC=/root/.rustup/toolchains/nightly-2023-02-10-x86_64-unknown-linux-gnu/bin/rustc cargo build --offline -q) || exit 3'''
def run(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, **k)
def go(m):
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp'); r = os.path.join(d, 'repo')
    try:
        run(['git', 'clone', '-q', '/repo', r]); 
        for x in ('Cargo.lock', 'eval/Cargo.lock'): shutil.copy(os.path.join('/repo', x), os.path.join(r, x))
        for f, old, new in m['edits']:
            p = os.path.join(r, f); t = open(p).read(); o = '\n'.join(old).strip('\n'); n = '\n'.join(new).strip('\n')
            if t.count(o) != 1: return m, f'TEXT FOUND {t.count(o)} TIMES in {f}: {o[:80]!r}'
            open(p, 'w').write(t.replace(o, n))
        out = os.path.join(V, 'seeded', m['id']); os.makedirs(out, exist_ok=True)
        diff = run(['git', '-C', r, 'diff']).stdout
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo.rs'), 'w').write('\n'.join(m['demo']).strip('\n') + '\n')
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO % (EVAL if m['eval'] else ROOT)); os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump(dict(property=m['prop'], needs=m['needs'], what_it_breaks=m['breaks']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        e = dict(os.environ, CARGO_NET_OFFLINE='true')
        msgs = []
        q = run(['bash', os.path.join(out, 'demo.sh')], cwd=r, env=e)
        if q.returncode == 0: return m, 'DEMO PASSES WITH BUG ' + q.stdout[-300:]
        msgs.append('demo fails with bug: ' + (q.stderr.strip().splitlines() or [''])[-1][:150] if 'error' not in q.stderr[:200] else 'DEMO DOES NOT BUILD ' + q.stderr[:1500])
        sub = '/repo'
        env = open('/opt/vp/env.sh').read().replace('/repo', r)
        sh = env + '\nset -o pipefail; (root_cargo test --no-fail-fast --offline -- --test-threads 8; eval_cargo test --lib --examples --no-fail-fast --offline -- --test-threads 8) > %s/log 2>&1; grep -E "^test |warning: unused|panicked|error" %s/log' % (d, d)
        q = run(['bash', '-c', sh], cwd=r)
        base = json.load(open('/opt/vp/BASELINE.json'))
        bad = [l for l in q.stdout.splitlines() if l.startswith("test ") and l.endswith("FAILED")]
        nok = sum(1 for l in q.stdout.splitlines() if l.startswith('test ') and l.endswith('ok'))
        msgs.append(f'tests ok {nok} bad {bad[:6]}' + (' ' + str([l for l in q.stdout.splitlines() if 'error' in l][:3]) if nok < 20 else ''))
        run(['git', '-C', r, 'checkout', '-q', '--', '.'])
        q = run(['bash', os.path.join(out, 'demo.sh')], cwd=r, env=e)
        msgs.append('clean demo ' + ('ok' if q.returncode == 0 else 'FAILS ' + q.stderr[-600:]))
        ev = os.path.join(d, 'ev')
        run(['git', '-C', r, 'apply', os.path.join(out, 'patch.diff')])
        res = {}
        have = [c['property'] for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']]
        for pid in have:
            q = run([sys.executable, os.path.join(V, 'analysis', 'check.py'), pid, 'quick'], env=dict(os.environ, IODYN_REPO=r, VERIF_EVIDENCE=ev))
            if q.returncode: res[pid] = q.returncode
        msgs.append(('CAUGHT ' if res.get(m['prop']) == 1 else 'MISSED ') + m['prop'] + ' all: ' + str(res))
        return m, '\n    '.join(msgs)
    finally: shutil.rmtree(d, ignore_errors=True)
a = sys.argv[1:]; ms = [m for m in parse(a[0]) if len(a) == 1 or m['id'] in a[1:]]
with cf.ThreadPoolExecutor(4) as ex:
    for m, s in ex.map(go, ms): print(m['id'], ':', s, flush=True)
