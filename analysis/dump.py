"""Front end: make rustc produce the MIR of /repo's crates as JSON.

Everything is read from /repo's *current* source on every run.  The compiler
driver (../driver) and the metadata of the third-party dependencies
(../deps) are built once into /verif/.build by setup.sh, or here when missing.
"""
import os, sys, subprocess, glob, json, shutil, tempfile, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, '.build')
REPO = os.environ.get('IODYN_REPO', '/repo')
TOOLCHAIN = 'nightly'

class FrontEndError(Exception):
    pass

def _env():
    e = dict(os.environ)
    for k in ('RUSTC', 'RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTUP_TOOLCHAIN'):
        e.pop(k, None)
    e['HOME'] = e.get('HOME') or '/root'
    e['PATH'] = e['HOME'] + '/.cargo/bin:/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e['CARGO_NET_OFFLINE'] = 'true'
    return e

def run(cmd, **kw):
    p = subprocess.run(cmd, env=kw.pop('env', _env()), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout

def sysroot():
    rc, out = run(['rustup', 'run', TOOLCHAIN, 'rustc', '--print', 'sysroot'])
    if rc: raise FrontEndError('no nightly toolchain: ' + out)
    return out.strip().splitlines()[-1]

def driver_bin():
    return os.path.join(BUILD, 'driver', 'debug', 'mirdump')

def ensure_built(verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    if not os.path.exists(driver_bin()):
        e = _env(); e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'driver')
        rc, out = run(['cargo', '+' + TOOLCHAIN, 'build', '--offline', '--manifest-path', os.path.join(VERIF, 'driver', 'Cargo.toml')], env=e)
        if rc: raise FrontEndError('building the MIR driver failed:\n' + out[-3000:])
    stamp = os.path.join(BUILD, 'deps', 'ok')
    if not os.path.exists(stamp):
        e = _env(); e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'deps')
        rc, out = run(['cargo', '+' + TOOLCHAIN, 'check', '--offline', '--manifest-path', os.path.join(VERIF, 'deps', 'Cargo.toml')], env=e)
        if rc: raise FrontEndError('building dependency metadata failed:\n' + out[-3000:])
        stub = os.path.join(BUILD, 'deps', 'stub'); os.makedirs(stub, exist_ok=True)
        src = os.path.join(stub, 'adapton_lab.rs')
        open(src, 'w').write('// stands in for adapton_lab: eval only says `extern crate adapton_lab`\n')
        rc, out = run(['rustup', 'run', TOOLCHAIN, 'rustc', '--crate-type', 'lib', '--crate-name', 'adapton_lab', '--emit=metadata',
                       '-o', os.path.join(stub, 'libadapton_lab.rmeta'), src])
        if rc: raise FrontEndError(out[-2000:])
        open(stamp, 'w').write('ok\n')

def _find(name):
    c = glob.glob(os.path.join(BUILD, 'deps', 'debug', '**', 'lib%s-*.rmeta' % name), recursive=True)
    if name == 'rand':   # rand 0.3 is a facade over 0.4: take the crate the manifest names directly
        c = [x for x in c if '0.3' in _ver(x)] or c
    if not c: raise FrontEndError('no metadata for ' + name)
    return sorted(c)[0]

def _ver(rmeta):
    d = os.path.dirname(rmeta)
    for f in glob.glob(os.path.join(d, '*.d')):
        t = open(f).read()
        if 'rand-0.3' in t: return '0.3'
        if 'rand-0.4' in t: return '0.4'
    return ''

def _edition(manifest):
    ed = '2015'
    for l in open(manifest):
        l = l.strip()
        if l.startswith('edition') and '=' in l: ed = l.split('=')[1].strip().strip('"\'')
    return ed

def _compile(name, root, edition, externs, outdir):
    jpath = os.path.join(outdir, name + '.json')
    dirs = sorted({os.path.dirname(p) for p in glob.glob(os.path.join(BUILD, 'deps', 'debug', '**', '*.rmeta'), recursive=True)})
    cmd = [driver_bin(), '--crate-name', name, '--crate-type', 'lib', '--edition', edition, root,
           '--emit=metadata', '-o', os.path.join(outdir, 'lib%s.rmeta' % name),
           '-Zmir-opt-level=0', '-Coverflow-checks=on', '-Cdebug-assertions=on', '--cap-lints', 'allow', '--sysroot', SYSROOT]
    for k, v in externs.items(): cmd += ['--extern', '%s=%s' % (k, v)]
    for d in dirs: cmd += ['-L', 'dependency=' + d]
    cmd += ['-L', 'dependency=' + outdir, '-L', 'dependency=' + os.path.join(BUILD, 'deps', 'stub')]
    e = _env(); e['MIRDUMP_OUT'] = jpath
    e['LD_LIBRARY_PATH'] = os.path.join(SYSROOT, 'lib')
    rc, out = run(cmd, env=e)
    if rc or not os.path.exists(jpath):
        raise FrontEndError('rustc did not accept %s:\n%s' % (root, out[-4000:]))
    return json.load(open(jpath)), os.path.join(outdir, 'lib%s.rmeta' % name)

SYSROOT = None
def load(want_eval=False):
    """-> {'iodyn': json, 'eval': json or None}"""
    global SYSROOT
    ensure_built()
    SYSROOT = sysroot()
    outdir = tempfile.mkdtemp(prefix='mir-', dir=BUILD)
    try:
        ext = {'adapton': _find('adapton'), 'rand': _find('rand')}
        res = {}
        res['iodyn'], rmeta = _compile('iodyn', os.path.join(REPO, 'src', 'lib.rs'), _edition(os.path.join(REPO, 'Cargo.toml')), ext, outdir)
        if want_eval:
            ext2 = dict(ext); ext2['iodyn'] = rmeta; ext2['time'] = _find('time')
            ext2['adapton_lab'] = os.path.join(BUILD, 'deps', 'stub', 'libadapton_lab.rmeta')
            res['eval'], _ = _compile('eval', os.path.join(REPO, 'eval', 'src', 'lib.rs'), _edition(os.path.join(REPO, 'eval', 'Cargo.toml')), ext2, outdir)
        return res
    finally:
        shutil.rmtree(outdir, ignore_errors=True)

if __name__ == '__main__':
    if sys.argv[1:] == ['build']:
        ensure_built(); print('front end built'); sys.exit(0)
    r = load(True)
    for k, v in r.items():
        json.dump(v, open('/tmp/%s.json' % k, 'w'))
        print(k, len(v['fns']), 'bodies', len(v['adts']), 'adts', len(v['impls']), 'impls')
