"""C25 effects: what library code may read or write besides its arguments."""
import re
from spec import *

DENY = [(r'^rand::(thread_rng|random|weak_rng|sample|os::|thread_local)', 'draws from a random source of its own'),
        (r'^(rand::.*ThreadRng|rand::.*OsRng)', 'draws from a random source of its own'),
        (r'^(std|core)::time::(instant|systemtime|\{impl|Instant|SystemTime).*(now|elapsed)', 'reads the clock'), (r'^time::(now|get_time|precise_time|duration::\{impl#\d+\}::span|precise)', 'reads the clock'),
        (r'^std::(env|fs|net|process)::', 'reads or writes the environment of the process'), (r'^std::thread::', 'uses threads or thread-local state'),
        (r'^(core|std)::sync::', 'uses state shared between calls'), (r'^core::cell::', 'uses state that can change behind a shared reference'),
        (r'^adapton::engine::(set|engine_set|set_val)$', 'overwrites an existing incremental cell'), (r'^adapton::engine::(clear_engine|init_engine|init_dcg|init_naive|use_engine|manage::|thunk_unsafe)', 'replaces the engine'),
        (r'^core::hash::BuildHasher::|^std::hash::random::\{impl#\d+\}::(build_hasher)', 'hashes with random keys'),
        (r'^core::(ptr|mem)::(write|read|swap_nonoverlapping|transmute|zeroed)', 'goes around the type system')]
MUTABLE = re.compile(r'core::cell::|core::sync::|std::sync::|std::thread::')
RANDOM_OK = ('iodyn::inc_level',)     # documented to draw from the thread's random source
def mentions(ty):
    if isinstance(ty, str): return bool(MUTABLE.search(ty))
    return isinstance(ty, (tuple, list)) and any(mentions(x) for x in ty)
def walk(x):
    yield x
    if isinstance(x, (list, tuple)):
        for y in x:
            for z in walk(y): yield z
    elif isinstance(x, dict):
        for y in x.values():
            for z in walk(y): yield z
def effects(fn):
    """(what, span) for everything the body itself does that is not a function of its arguments"""
    for b in fn.blocks:
        t = b['t']
        if t[0] == 'call' and t[1][0] == 'fn':
            for p in {t[1][1]['path'], t[1][1].get('rpath') or ''}:
                for pat, why in DENY:
                    if p and re.match(pat, p): yield '%s (%s)' % (why, p), t
        for x in walk([b['s'], t]):
            if not isinstance(x, list) or not x or not isinstance(x[0], str): continue
            if x[0] == 'const' and len(x) > 2 and isinstance(x[1], str) and '{alloc' in x[1]:
                if x[2][0] == 'ptr': yield 'uses a mutable global variable', t
                elif mentions(x[2]): yield 'uses a global variable that can change', t
            if x[0] == 'otherrv' and '/*tls*/' in str(x[1]): yield 'uses a thread-local variable', t
def callees(prog, fn):
    for b in fn.blocks:
        for x in walk([b['s'], b['t']]):
            if isinstance(x, dict):
                for p in (x.get('rpath'), x.get('path')):
                    if p in prog.fns: yield p
            elif isinstance(x, list) and len(x) > 1 and x[0] in ('closure', 'fndef') and isinstance(x[1], str) and x[1] in prog.fns: yield x[1]
@obligation('C25')
def effect_free(S):
    lib = {p: f for p, f in S.prog.fns.items() if f.crate == 'iodyn' and '::tests::' not in p}
    if not lib: raise Missing('iodyn')
    callers = {}
    for p, f in lib.items():
        for q in callees(S.prog, f): callers.setdefault(q, set()).add(p)
    for p, f in sorted(lib.items()):
        S.fns.add(f.key); S.sites += len(f.blocks)
        bad = list(effects(f))
        if bad:
            # only reachable through the functions documented to be random?
            up, todo = set(), [p]
            while todo:
                q = todo.pop()
                if q in up or q in RANDOM_OK: continue
                up.add(q); todo += callers.get(q, ())
            roots = [q for q in up if (lib[q].vis or not callers.get(q))] if p not in RANDOM_OK else []
            rnd = all('random' in w for w, _ in bad)
            if rnd and not [q for q in roots if q != p or lib[p].vis] and (p in RANDOM_OK or callers.get(p)): bad = []
            if bad and rnd and p in RANDOM_OK: bad = []
        S.record(f, 'depends on its arguments only', 'violated' if bad else 'holds', bad[0][0] if bad else '')
    S.rules.append('no body of the library calls %s; random sources only in or below %s' % ('; '.join(sorted({w for _, w in DENY})), ', '.join(RANDOM_OK)))
@obligation('C25')
def random_levels_stay_out(S):
    """nothing else in the library calls a function documented to be random"""
    for p, f in sorted(S.prog.fns.items()):
        if f.crate != 'iodyn' or '::tests::' in p or p in RANDOM_OK: continue
        c = [q for q in callees(S.prog, f) if q in RANDOM_OK]
        if c or p.startswith(RANDOM_OK): S.record(f, 'uses no random level', 'violated' if c else 'holds', 'calls %s' % c[0] if c else '')
    S.rules.append('no body of the library calls inc_level')
@obligation('C25')
def type_contents(S):
    for path, a in sorted(S.prog.adts.items()):
        if not path.startswith('iodyn::'): continue
        for v in a['variants']:
            for name, ty in [(f[0], f[1]) for f in v['fields']]:
                S.sites += 1
                bad = mentions(ty) or (isinstance(ty, (list, tuple)) and any(isinstance(x, (list, tuple)) and x[:1] == ['ptr'] for x in walk(ty)))
                S.record(path.split('::', 1)[1], '%s is plain data' % name, 'violated' if bad else 'holds', 'interior-mutable or raw data' if bad else '')
    S.rules.append('no field of a library type is interior-mutable or a raw pointer')
