"""check.py <property>: decide one property on the current tree of /repo."""
import sys, os, json, time, signal, gc, select, pickle
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
T0 = time.time()
import dump, mir, spec
import importlib, pkgutil
import props

VERIF = os.path.dirname(HERE)
def load_props():
    for m in pkgutil.iter_modules(props.__path__): importlib.import_module('props.' + m.name)

def known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}

def key(pid, o): return '%s|%s|%s' % (pid, o['fn'], o['label'])

LIMIT = 720   # seconds for all obligations of one property; one that runs over is undecided
class Late(BaseException): pass
STATS = ('fns', 'nruns', 'npaths', 'nloops', 'ncalls', 'nblocks', 'sites', 'rules', 'obl')
def one(prog, pid, i):
    """the records of one obligation"""
    name, f = spec.OBLIGATIONS[pid][i]
    S = spec.Session(prog, pid); S.nobl = i
    def late(*_): raise Late()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(max(1, int(LIMIT - (time.time() - T0))))
    try: S.guard(name, f, S)
    except Late: S.obl.append({'fn': name, 'label': name, 'status': 'undecided', 'detail': 'time limit', 'span': '', 'trace': []})
    finally: signal.alarm(0)
    return {k: getattr(S, k) for k in STATS}
def forked(prog, todo, jobs):
    """one process per obligation, at most `jobs` at a time; results in the order of todo"""
    res = [None] * len(todo); live = {}; nxt = 0
    while nxt < len(todo) or live:
        while nxt < len(todo) and len(live) < jobs:
            r, w = os.pipe(); sys.stdout.flush()
            pid = os.fork()
            if not pid:
                code = 1
                try:
                    os.close(r)
                    with os.fdopen(w, 'wb') as f: pickle.dump(one(prog, *todo[nxt]), f)
                    code = 0
                finally: os._exit(code)
            os.close(w); live[r] = (nxt, pid, []); nxt += 1
        for r in select.select(list(live), [], [])[0]:
            i, pid, buf = live[r]
            d = os.read(r, 1 << 20)
            if d: buf.append(d); continue
            os.close(r); del live[r]; os.waitpid(pid, 0)
            try: res[i] = pickle.loads(b''.join(buf))
            except Exception: pass
    return res
def decide(prog, pid, only=None):
    """every obligation in a process of its own"""
    S = spec.Session(prog, pid)
    todo = [(pid, i) for i, (n, _) in enumerate(spec.OBLIGATIONS[pid]) if not only or n == only]
    if len(todo) == 1 or os.environ.get('VERIF_DEBUG'): res = [one(prog, *a) for a in todo]
    else:
        gc.collect(); gc.freeze()
        res = forked(prog, todo, int(os.environ.get('VERIF_JOBS') or os.cpu_count() or 4))
        for k, (_, i) in enumerate(todo):
            n = spec.OBLIGATIONS[pid][i][0]
            if res[k] is None: res[k] = {'obl': [{'fn': n, 'label': n, 'status': 'undecided', 'detail': 'the analysis of this obligation ended early', 'span': '', 'trace': []}]}
    for r in res:
        for k in STATS:
            if k not in r: continue
            v = getattr(S, k)
            if k == 'fns': v |= r[k]
            elif k == 'rules': v += [x for x in r[k] if x not in v]
            elif isinstance(v, list): v += r[k]
            else: setattr(S, k, v + r[k])
    return S

def main():
    pid = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else None) or os.environ.get('VERIF_TIER') or 'quick'
    if tier == 'thorough':
        # every obligation is also run on exact bounded instances, to a greater depth, which must not contradict the proof
        spec.SELFTEST = True; spec.DEEP = (6, 12); spec.PATIENCE = 60
    only = sys.argv[3] if len(sys.argv) > 3 else None
    load_props()
    if pid not in spec.OBLIGATIONS:
        print('unknown property', pid); return 2
    try:
        prog = mir.Program(dump.load(pid in spec.NEEDS_EVAL))
    except dump.FrontEndError as e:
        print('the current tree does not build: %s' % e); return 2
    S = decide(prog, pid, only)
    kn = {f['key']: f for f in known().get('findings', []) if f['property'] == pid}
    viol = [o for o in S.obl if o['status'] == 'violated']
    und = [o for o in S.obl if o['status'] == 'undecided']
    held = [o for o in S.obl if o['status'] == 'holds']
    edir = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence'); os.makedirs(edir, exist_ok=True)
    new = []
    for o in viol:
        k = key(pid, o)
        if k in kn: print('KNOWN-FINDING: property=%s %s: %s' % (pid, o['fn'], kn[k]['what']))
        else: new.append(o)
    if not S.obl: new.append({'fn': '-', 'label': 'nothing analysed', 'detail': '', 'span': '', 'trace': [], 'status': 'violated'})
    path = None
    if new:
        rdir = os.path.join(edir, 'replay'); os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s.json' % pid)
        json.dump({'property': pid, 'violations': new, 'rerun': 'python3 %s %s %s' % (os.path.join(HERE, 'check.py'), pid, tier)}, open(path, 'w'), indent=1)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other', 'wall_s': round(time.time() - T0, 2),
          'coverage': {
              'explanation': 'static: abstract interpretation of the MIR of the current tree; every obligation quantifies over all inputs satisfying its precondition',
              'obligations': len(S.obl), 'hold': len(held), 'violated': len(viol), 'known': len(viol) - len(new), 'undecided': len(und),
              'functions_analysed': sorted(S.fns), 'functions': len(S.fns), 'entry_points': S.nruns, 'trace_partitions': S.npaths, 'loops': S.nloops, 'call_sites': S.ncalls,
              'sites_checked': S.sites, 'rules': S.rules,
              'held': ['%s: %s' % (o['fn'], o['label']) for o in held],
              'undecided_list': ['%s: %s (%s)' % (o['fn'], o['label'], o['detail'][:300]) for o in und]}}
    json.dump(ev, open(os.path.join(edir, pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations over %d functions (%d trace partitions, %d loops, %d call sites, %d rule sites): %d hold, %d undecided, %d violated' %
          (pid, len(S.obl), len(S.fns), S.npaths, S.nloops, S.ncalls, S.sites, len(held), len(und), len(viol)))
    for o in und: print('  undecided: %s: %s -- %s' % (o['fn'], o['label'], o['detail'][:400]))
    for o in new:
        print('  violated: %s: %s -- %s  (%s)' % (o['fn'], o['label'], o['detail'][:900], o['span']))
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, path)); return 1
    return 0

if __name__ == '__main__':
    sys.exit(main())
