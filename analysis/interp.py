"""Abstract interpretation of MIR over the domain of dom.py.

Trace partitioning: a state is split where the program branches on something the
facts do not decide; it is joined only at loop heads, where states with the same
shape are generalised by anti-unification until nothing changes, and the equations
of a fixed set of templates that every iteration preserves are kept.
Calls to functions of the analysed crates are analysed in context, or through a
contract that another obligation establishes; calls to libraries go through the
models of models.py; anything else taints the result (never an alarm).
"""
import itertools
import dom
from dom import *
from mir import freeze, subst_ty, unify_ty

class Undecided(Exception): pass

INT_BITS = {'usize': 64, 'u64': 64, 'u32': 32, 'u16': 16, 'u8': 8, 'isize': 64, 'i64': 64, 'i32': 32, 'i16': 16, 'i8': 8, 'u128': 128, 'i128': 128}
BOXISH = ('core::mem::maybe_uninit::MaybeUninit', 'alloc::boxed::Box', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull', 'core::mem::manually_drop::ManuallyDrop',
          'alloc::rcs::rc::Rc', 'core::mem::maybe_dangling::MaybeDangling')

class St(object):
    __slots__ = ('mem', 'facts', 'events', 'trace', 'taint')
    def __init__(self):
        self.mem = {}; self.facts = Facts(); self.events = (); self.trace = (); self.taint = ()
    def copy(self):
        s = St(); s.mem = dict(self.mem); s.facts = self.facts.copy()
        s.events = self.events; s.trace = self.trace; s.taint = self.taint
        return s
    def event(self, *e): self.events = self.events + (e,)
    def mark(self, why):
        if why not in self.taint: self.taint = self.taint + (why,)

class Frame(object):
    __slots__ = ('fn', 'sub', 'cells', 'depth')
    def __init__(self, fn, sub, depth):
        self.fn = fn; self.sub = sub; self.depth = depth
        self.cells = {}

_cells = itertools.count(1)
def new_cell(st, v):
    c = next(_cells); st.mem[c] = v
    return c
def mref(cell, path=()): return mk('mref', cell, path)

def unk(st, why):
    st.mark(why)
    return mk('unk', why)

SHR = ('ref', 'shr')

class Exec(object):
    MAXPATHS = 6000
    def __init__(self, prog, models, contracts=None, opts=None):
        self.prog = prog; self.models = models
        self.contracts = contracts or {}
        self.opts = opts or {}
        self.stack = []
        self.panics = []          # (st, kind, fn, span)
        self.stats = {'fns': set(), 'calls': 0, 'paths': 0, 'loops': 0, 'blocks': 0}
        self.hooks = []           # (ex, st, callee, args, site) observers
        self.templates = self.opts.get('templates')
        self.budget = self.opts.get('budget', 400000)
        self.incomplete = []; self.cut = False
        def nv(t):
            ty = TYPED.get(t)
            while ty and ty[0] == 'ref': ty = ty[2]
            return prog.nvariants(ty[1]) if ty and ty[0] == 'adt' else None
        dom.NVARIANTS = nv

    # ------------------------------------------------------------ values/places
    def nfields(self, ty, v):
        if ty[0] == 'tuple':
            return len(ty) - 1 if not (len(ty) > 1 and ty[1] and isinstance(ty[1], tuple) and ty[1] and isinstance(ty[1][0], tuple)) else len(ty[1])
        if ty[0] == 'adt': return self.prog.nfields(ty[1], v)
        return None
    def tpath(self, ty):
        if ty[0] == 'tuple': return 'tup'
        if ty[0] == 'adt': return ty[1]
        return 'ty:' + repr(ty)
    def proj_get(self, st, val, e, v, fr):
        k = e[0]
        if k == 'deref':
            if val.op == 'mref': return self.load(st, val)
            return val
        if k == 'field':
            ty = freeze(e[2])
            if ty[0] == 'adt' and ty[1] in BOXISH: return val
            if ty[0] == 'closure' or val.op == 'clo':
                if val.op == 'clo' and e[1] < len(val.a[1]): return val.a[1][e[1]]
                return unk(st, 'closure field')
            return fld(val, self.tpath(ty), v or 0, e[1])
        if k == 'index':
            ix = st.mem.get(fr.cells[e[1]])
            return self.models.seq_index(self, st, val, ix)
        if k == 'cindex':
            if len(e) > 3 and e[3]: return self.models.seq_index(self, st, val, lin_add(length(val), num(-e[1])))
            return self.models.seq_index(self, st, val, num(e[1]))
        if k == 'subslice':
            f, t, fe = e[1], e[2], e[3] if len(e) > 3 else False
            hi = lin_add(length(val), num(-t)) if fe else num(t)
            return self.models.seq_slice(self, st, val, num(f), hi)
        return unk(st, 'projection ' + k)
    def resolve(self, st, fr, place):
        """-> ('cell', id, path) or ('val', term)"""
        p = place
        loc = ('cell', fr.cells[p[0]], ())
        v = None
        for e in p[1:]:
            if e[0] == 'downcast': v = e[1]; continue
            if e[0] == 'deref':
                val = self.read_loc(st, loc)
                if val.op == 'mref': loc = ('cell', val.a[0], val.a[1])
                elif loc[0] == 'cell' and self._isbox(e[1]): pass
                else: loc = ('val', val)
                v = None; continue
            if e[0] == 'field' and loc[0] == 'cell':
                ty = freeze(e[2])
                if ty[0] == 'adt' and ty[1] in BOXISH: v = None; continue
                n = self.nfields(ty, v or 0)
                if ty[0] == 'closure':
                    loc = ('cell', loc[1], loc[2] + (('c', None, None, e[1], None),)); v = None; continue
                loc = ('cell', loc[1], loc[2] + (('f', self.tpath(ty), v or 0, e[1], n),)); v = None; continue
            if e[0] == 'index' and loc[0] == 'cell':
                loc = ('cell', loc[1], loc[2] + (('i', None, None, st.mem.get(fr.cells[e[1]]), None),)); v = None; continue
            loc = ('val', self.proj_get(st, self.read_loc(st, loc), e, v, fr)); v = None
        return loc
    def _isbox(self, ty):
        ty = freeze(ty)
        return ty[0] == 'adt' and ty[1] in BOXISH
    def read_loc(self, st, loc):
        if loc[0] == 'val': return loc[1]
        val = st.mem.get(loc[1])
        if val is None: return mk('bot', 'uninitialised')
        for s in loc[2]: val = self.step(st, val, s)
        return val
    def step(self, st, val, s):
        if s[0] == 'f':
            if val.op == 'mref': val = self.load(st, val)
            return fld(val, s[1], s[2], s[3])
        if s[0] == 'c':
            if val.op == 'clo': return val.a[1][s[3]]
            return unk(st, 'closure field')
        if s[0] == 'i': return self.models.seq_index(self, st, val, s[3])
        return unk(st, 'step')
    def load(self, st, m): return self.read_loc(st, ('cell', m.a[0], m.a[1]))
    def store(self, st, m, v): self.write_loc(st, ('cell', m.a[0], m.a[1]), v)
    def write_loc(self, st, loc, v):
        if loc[0] != 'cell':
            st.mark('write through an unmodelled pointer'); return
        old = st.mem.get(loc[1])
        st.mem[loc[1]] = self._upd(st, old, loc[2], v)
    def _upd(self, st, old, path, v):
        if not path: return v
        s = path[0]
        if old is not None and old.op == 'mref':
            self.write_loc(st, ('cell', old.a[0], old.a[1] + path), v); return old
        if s[0] == 'f':
            n = s[4]
            if n is None: return unk(st, 'write to a field of an unknown layout')
            fs = [fld(old, s[1], s[2], i) if old is not None and old.op != 'bot' else mk('bot', 'uninitialised') for i in range(n)]
            fs[s[3]] = self._upd(st, fs[s[3]], path[1:], v)
            return adt(s[1], s[2], fs)
        if s[0] == 'c' and old is not None and old.op == 'clo':
            fs = list(old.a[1]); fs[s[3]] = self._upd(st, fs[s[3]], path[1:], v)
            return mk('clo', old.a[0], tuple(fs), old.a[2])
        if s[0] == 'i':
            if len(path) > 1: v = self._upd(st, self.models.seq_index(self, st, old, s[3]), path[1:], v)
            return self.models.seq_set(self, st, old, s[3], v)
        return unk(st, 'unmodelled write')
    def operand(self, st, fr, o):
        k = o[0]
        if k in ('copy', 'move'): return self.read_loc(st, self.resolve(st, fr, o[1]))
        if k == 'const': return self.const(st, fr, o[1], freeze(o[2]))
        if k == 'uconst': return self.uconst(st, fr, o)
        if k == 'fn': return mk('fn', o[1]['path'], subst_ty(freeze(o[1]['args']), fr.sub), o[1].get('trait'), o[1].get('method'), o[1].get('rpath'),
                                subst_ty(freeze(o[1].get('rargs') or ()), fr.sub), bool(o[1].get('shim')))
        if k == 'promoted':
            f = self.prog.fns.get(o[1])
            if f is None: return unk(st, 'promoted of an unknown function')
            pf = f.promoted_fn(o[2])
            r = self.run_fn(pf, [], st.copy(), fr.sub)
            if len(r) == 1: return r[0][1]
            return unk(st, 'promoted constant')
        return unk(st, 'operand ' + k)
    def uconst(self, st, fr, o):
        f = self.prog.fns.get(o[1])
        if f is not None and f.nargs == 0:
            r = self.run_fn(f, [], st.copy(), {})
            if len(r) == 1: return r[0][1]
        return mk('app', 'const', (mk('str', str(o[1])),))
    def const(self, st, fr, txt, ty):
        if ty[0] == 'prim':
            n = ty[1]
            if n == 'bool': return TRUE if txt == 'true' else FALSE
            if n in ('str', 'char'): return mk('str', txt)
            t = txt.replace('_', ' ').split(' ')[0]
            try: return num(int(t))
            except ValueError: pass
            if txt.endswith('::MAX') or txt.endswith('MAX'):
                b = {'usize': 64, 'u64': 64, 'u32': 32, 'u16': 16, 'u8': 8}.get(n)
                return num(2 ** b - 1) if b else app('max', mk('str', n))
            if txt.endswith('MIN'): return num(-2 ** (INT_BITS[n] - 1) if n[0] == 'i' and n in INT_BITS else 0)
            return mk('app', 'const', (mk('str', txt),))
        if ty[0] == 'tuple' and len(ty) == 1 or txt == '()': return UNIT
        if ty[0] == 'ref': return mk('str', txt)
        if ty[0] == 'adt' and ty[1] in ('core::marker::PhantomData',): return UNIT
        if ty[0] == 'fndef': return mk('fn', ty[1], subst_ty(ty[2], fr.sub), None, None, None, (), False)
        if ty[0] == 'closure': return mk('clo', ty[1], (), subst_ty(ty[2], fr.sub))
        if ty[0] == 'adt':
            a = self.prog.adts.get(ty[1])
            if a and len(a['variants']) == 1 and not a['variants'][0]['fields']: return mk('adt', ty[1], 0, ())
            if a:
                nm = txt.split('::')[-1]
                for i, vr in enumerate(a['variants']):
                    if vr['name'] == nm and not vr['fields']: return mk('adt', ty[1], i, ())
            if txt.endswith('None') and ty[1] == OPT: return none()
        return mk('app', 'const', (mk('str', txt), ))
    def ty(self, fr, t): return subst_ty(freeze(t), fr.sub)

    def rvalue(self, st, fr, r, span):
        k = r[0]
        if k == 'use': return self.operand(st, fr, r[1])
        if k == 'ref':
            loc = self.resolve(st, fr, r[2])
            if r[1] == 'mut' and loc[0] == 'cell': return mref(loc[1], loc[2])
            return self.read_loc(st, loc)
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in r[2]]
            kind = r[1]
            if kind[0] == 'adt':
                if kind[1] in BOXISH and len(ops) >= 1: return ops[0]
                return adt(kind[1], kind[2], ops)
            if kind[0] == 'tuple': return tup(*ops) if ops else UNIT
            if kind[0] == 'closure': return mk('clo', kind[1], tuple(ops), subst_ty(freeze(kind[2]), fr.sub))
            if kind[0] == 'array': return seq([E(o) for o in ops])
            return unk(st, 'aggregate ' + str(kind[0]))
        if k == 'bin': return self.binop(st, fr, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), span)
        if k == 'un':
            v = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if self.is_bool(v): return bnot(v)
                w = INT_BITS.get(self.int_ty(fr, r[2]))
                return num(~v.a[0] % 2 ** w) if v.op == 'int' and w else app('bitnot', v)
            if r[1] == 'PtrMetadata': return self.models.seq_len(self, st, v)
            return app('un:' + r[1], v)
        if k == 'discr':
            v = self.read_loc(st, self.resolve(st, fr, r[1]))
            if v.op == 'mref': v = self.load(st, v)
            return self.discr(st, v, self.ty(fr, r[2]) if len(r) > 2 else None)
        if k == 'cast':
            v = self.operand(st, fr, r[2])
            if r[1] == 'IntToInt': return self.int_cast(st, v, self.int_ty(fr, r[2]), self.ty(fr, r[3]))
            if r[1] == 'FloatToInt' or r[1] == 'IntToFloat': return app(r[1], v)
            return v
        if k == 'repeat':
            return app('repeat', self.operand(st, fr, r[1]))
        if k == 'len': return self.models.seq_len(self, st, self.read_loc(st, self.resolve(st, fr, r[1])))
        if k in ('addrof', 'rawptr'):
            return self.rvalue(st, fr, ['ref', r[1], r[2]], span)
        return unk(st, 'rvalue ' + k)
    def int_ty(self, fr, o):
        """name of the primitive type of an operand, when it is a plain local or a constant"""
        if o[0] in ('copy', 'move') and len(o[1]) == 1: t = subst_ty(fr.fn.locals[o[1][0]], fr.sub)
        elif o[0] == 'const': t = freeze(o[2])
        else: return None
        return t[1] if t[0] == 'prim' else None
    def int_cast(self, st, v, src, dst):
        """a cast keeps the value when the target type can hold it, and wraps otherwise"""
        d = dst[1] if dst[0] == 'prim' else None
        wd, ws = INT_BITS.get(d), INT_BITS.get(src)
        if not wd: return v
        if v.op == 'int':
            n = v.a[0] % 2 ** wd
            return num(n - 2 ** wd if d[0] == 'i' and n >= 2 ** (wd - 1) else n)
        if not ws or wd >= ws: return v
        top = 2 ** (wd - 1 if d[0] == 'i' else wd) - 1
        if st.facts.decide(ge(num(top), v)) is True: return v
        return app('trunc', v, mk('str', d))
    def is_bool(self, v):
        return v.op in ('bool', 'ge0', 'eq0', 'eq', 'isvar', 'not', 'and') or v in BOOL_TERMS
    def discr(self, st, v, ty):
        if v.op == 'adt':
            n = v.a[1]
            if v.a[0] == 'core::cmp::Ordering': n -= 1
            return num(n)
        if ty is not None: TYPED.setdefault(v, ty)
        return app('discr', v)
    def binop(self, st, fr, op, a, b, span):
        ovf = op.endswith('WithOverflow')
        o = op.replace('WithOverflow', '').replace('Unchecked', '')
        if o == 'Add': r = lin_add(a, b)
        elif o == 'Sub':
            r = lin_add(a, b, -1)
            if ovf: return tup(r, ge(a, b) if False else bnot(ge(a, b)))
        elif o == 'Mul':
            if a.op == 'int': r = lin_scale(b, a.a[0])
            elif b.op == 'int': r = lin_scale(a, b.a[0])
            else: r = app('mul', *sorted((a, b), key=lambda t: t.id))
        elif o in ('Eq', 'Ne'):
            r = self.eqval(st, a, b)
            if o == 'Ne': r = bnot(r)
        elif o == 'Lt': r = bnot(ge(a, b))
        elif o == 'Ge': r = ge(a, b)
        elif o == 'Gt': r = bnot(ge(b, a))
        elif o == 'Le': r = ge(b, a)
        elif o in ('BitAnd', 'BitOr', 'BitXor') and (self.is_bool(a) or self.is_bool(b)):
            r = band(a, b) if o == 'BitAnd' else bor(a, b) if o == 'BitOr' else bnot(self.eqval(st, a, b))
        elif o == 'Cmp': r = self.models.cmp(self, st, a, b)
        else:
            if o in ('BitAnd', 'BitOr', 'BitXor'): a, b = sorted((a, b), key=lambda t: t.id)
            if a.op == 'int' and b.op == 'int': r = constfold(o, a.a[0], b.a[0])
            else:
                r = app('op:' + o, a, b)
                if o == 'Rem' and b.op == 'int' and b.a[0] > 0: st.facts.assume(ge(num(b.a[0] - 1), r))
                elif o == 'Rem' and st.facts.decide(eqi(b, num(0))) is False: st.facts.assume(ge(lin_add(b, num(-1)), r))
        if ovf: return tup(r, FALSE)
        return r
    def eqval(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == 'app' and x.a[0] == 'discr':
                if y.op == 'int': return isvar(x.a[1][0], self.dvar(x.a[1][0], y.a[0]))
                if y.op == 'app' and y.a[0] == 'discr': return eqt(x, y)
        if a.op == 'unk' or b.op == 'unk': return mk('app', 'eq?', (a, b))
        if a.op in ('sym', 'fld', 'app') and b.op in ('sym', 'fld', 'app') and not self.is_bool(a) and not self.is_bool(b) and not (a.op == 'app' and a.a[0] == 'call'):
            return eqi(a, b)     # the MIR operator compares scalars
        return eqt(a, b)
    def dvar(self, t, n):
        ty = TYPED.get(t)
        if ty and ty[0] == 'adt' and ty[1] == 'core::cmp::Ordering':
            return (n + 1) if n <= 1 else 0
        return n

    # ------------------------------------------------------------ calls
    def run_fn(self, fn, args, st, sub, cell_args=None):
        """analyse fn in this context; -> [(state, value)]"""
        self.stats['fns'].add(fn.key)
        fr = Frame(fn, sub, len(self.stack))
        self.stack.append(fn.key)
        try:
            for i in range(len(fn.locals)):
                c = next(_cells); fr.cells[i] = c
                if 1 <= i <= fn.nargs: st.mem[c] = args[i - 1]
            outs = []
            top = []
            try: self.region(fr, st, 0, None, top)
            except Undecided as e:
                # a refutation keeps the executions it has followed to their end
                if len(self.stack) > 1 or self.opts.get('mode') != 'refute': raise
                self.incomplete.append(str(e)); self.cut = True
            for o in top:
                s, v = o[1], o[2]
                keep = set(self._refs(v)) if self._hasmref(v) else ()
                for c in fr.cells.values():
                    if c not in keep: s.mem.pop(c, None)
                outs.append((s, v))
            return outs
        finally:
            self.stack.pop()
    def _hasmref(self, v): return contains(v, lambda x: x.op == 'mref')
    def _refs(self, v):
        out = set()
        def f(x):
            if x.op == 'mref': out.add(x.a[0])
            return False
        contains(v, f)
        return out

    def region(self, fr, st, b, loop, out=None):
        """outcomes: ('ret', st, val) / ('back', st) / ('exit', st, block)"""
        out = [] if out is None else out
        work = [(st, b, True)]
        fn = fr.fn
        merge = self.opts.get('merge') and self.opts.get('mode') != 'refute'
        rpo = fn.rpo_index() if merge else None
        while work:
            if merge and len(work) > 1:
                # in topological order, so that every state reaching a loop is at its head before it is entered
                i = min(range(len(work)), key=lambda j: rpo[work[j][1]])
                work.append(work.pop(i))
            st, b, first = work.pop()
            if loop and not first:
                if b == loop[0]: out.append(('back', st)); continue
                if b not in loop[1]: out.append(('exit', st, b)); continue
            if b in fn.loops and not (loop and first and b == loop[0]):
                if merge and not first:
                    st = [st] + [w[0] for w in work if w[1] == b and not w[2]]
                    work = [w for w in work if w[1] != b or w[2]]
                for o in self.loop(fr, st, b):
                    if o[0] == 'ret': out.append(o)
                    else: work.append((o[1], o[2], False))
                continue
            self.stats['blocks'] += 1
            self.budget -= 1
            if self.budget < 0: raise Undecided('analysis budget exhausted in ' + fn.key)
            blk = fn.blocks[b]
            for s in blk['s']:
                if s[0] == 'assign':
                    v = self.rvalue(st, fr, s[2], s[3])
                    self.write_loc(st, self.resolve(st, fr, s[1]), v)
                elif s[0] == 'setdiscr': st.mark('set-discriminant')
            t = blk['t']; k = t[0]
            if k == 'goto': work.append((st, t[1], False))
            elif k == 'return':
                v = st.mem.get(fr.cells[0])
                out.append(('ret', st, v if v is not None else UNIT))
            elif k == 'drop': work.append((st, t[2], False))
            elif k == 'switch':
                for s2, nb in self.switch(fr, st, t): work.append((s2, nb, False))
            elif k == 'assert':
                c = self.operand(st, fr, t[1])
                exp = t[2]
                if str(t[4]).startswith(('MisalignedPointer', 'NullPointer')):      # dereferencing a box or reference of safe code
                    work.append((st, t[3], False)); continue
                good = c if exp else bnot(c)
                bad = st.copy()
                try:
                    bad.facts.assume(good, False)
                    self.panic(bad, 'assert:' + str(t[4])[:60], fr.fn, t[5] if len(t) > 5 else '')
                except Infeasible: pass
                try:
                    st.facts.assume(good, True)
                    work.append((st, t[3], False))
                except Infeasible: pass
            elif k == 'call':
                for s2, v in self.call_term(fr, st, t):
                    if t[4] is None: continue
                    self.write_loc(s2, self.resolve(s2, fr, t[3]), v)
                    work.append((s2, t[4], False))
            elif k in ('unreachable', 'resume'): pass
            else:
                st.mark('terminator ' + k)
                raise Undecided('terminator %s in %s' % (k, fn.key))
        return out

    def switch(self, fr, st, t):
        v = self.operand(st, fr, t[1])
        outs = []
        cases = [(int(x), b) for x, b in t[2]]
        if v.op == 'int':
            for n, b in cases:
                if n == v.a[0] or (v.a[0] < 0 and n in (255, 65535, 2**32 - 1, 2**64 - 1, -1)): return [(st, b)]
            return [(st, t[3])] if t[3] is not None else []
        ty = freeze(t[4])
        if ty == ('prim', 'bool') or self.is_bool(v):
            d = st.facts.decide(v)
            for n, b in cases:
                want = bool(n)
                if d is not None:
                    if d == want: return [(st, b)]
                    continue
                s2 = st.copy()
                try: s2.facts.assume(v, want)
                except Infeasible: continue
                s2.trace += ((fr.fn.key, t[5], want),)
                outs.append((s2, b))
            seen = [bool(n) for n, _ in cases]
            if t[3] is not None:
                for want in (True, False):
                    if want in seen: continue
                    if d is not None and d != want: continue
                    s2 = st.copy()
                    try: s2.facts.assume(v, want)
                    except Infeasible: continue
                    s2.trace += ((fr.fn.key, t[5], want),)
                    outs.append((s2, t[3]))
            return outs
        if v.op == 'app' and v.a[0] == 'discr':
            x = v.a[1][0]
            ety = TYPED.get(x)
            known = st.facts.variant(x)
            nv = self.prog.nvariants(ety[1]) if ety and ety[0] == 'adt' else None
            for n, b in cases:
                vi = self.dvar(x, n)
                s2 = st.copy()
                try: self.set_variant(s2, x, vi, ety)
                except Infeasible: continue
                if known is None: s2.trace += ((fr.fn.key, t[5], 'variant %d' % vi),)
                outs.append((s2, b))
                if known == vi: return [outs[-1]]
            if t[3] is not None:
                used = [self.dvar(x, n) for n, _ in cases]
                rest = [i for i in range(nv) if i not in used] if nv is not None else None
                if rest is not None and known is not None:
                    if known in rest: outs.append((st, t[3]))
                    return outs
                if rest is not None and len(rest) <= 3:
                    for i in rest:
                        s2 = st.copy()
                        try: self.set_variant(s2, x, i, ety)
                        except Infeasible: continue
                        s2.trace += ((fr.fn.key, t[5], 'variant %d' % i),)
                        outs.append((s2, t[3]))
                else:
                    s2 = st.copy()
                    try:
                        for i in used: s2.facts.exclude(x, i)
                        outs.append((s2, t[3]))
                    except Infeasible: pass
            return outs
        for n, b in cases:
            s2 = st.copy()
            try: s2.facts.assume(eqt(v, num(n)), True)
            except Infeasible: continue
            s2.trace += ((fr.fn.key, t[5], n),)
            outs.append((s2, b))
        if t[3] is not None:
            s2 = st.copy()
            try:
                for n, _ in cases: s2.facts.assume(eqt(v, num(n)), False)
                s2.trace += ((fr.fn.key, t[5], 'other'),)
                outs.append((s2, t[3]))
            except Infeasible: pass
        return outs
    def set_variant(self, st, x, vi, ety):
        if x.op == 'ite':
            d = st.facts.decide(x.a[0])
            if d is None:
                # both arms may be of that variant
                oks = []
                for val, arm in ((True, x.a[1]), (False, x.a[2])):
                    if arm.op == 'adt' and arm.a[1] != vi: continue
                    oks.append((val, arm))
                if not oks: raise Infeasible()
                if len(oks) == 1:
                    st.facts.assume(x.a[0], oks[0][0])
                    self.set_variant(st, oks[0][1], vi, ety); return
            else:
                self.set_variant(st, x.a[1] if d else x.a[2], vi, ety); return
        st.facts.set_variant(x, vi)
        if x.op != 'adt' and ety and ety[0] == 'adt' and self.prog.nfields(ety[1], vi) == 0:
            NULLARY[(x, vi)] = ety[1]
        for h in self.opts.get('on_variant', ()): h(self, st, x, vi, ety)

    def panic(self, st, kind, fn, span):
        self.panics.append((st, kind, fn, span))

    def callee(self, fr, t):
        return t

    def call_term(self, fr, st, t):
        f = self.operand(st, fr, t[1])
        args = [self.operand(st, fr, o) for o in t[2]]
        site = (fr.fn, t[5])
        self.stats['calls'] += 1
        destty = self.ty(fr, t[6]) if len(t) > 6 else None
        return self.call_fn_value(st, fr, f, args, site, destty)

    def call_fn_value(self, st, fr, f, args, site, destty=None):
        if f.op == 'fn': return self.call_fn(st, fr, f, args, site, destty)
        if f.op == 'mref': f = self.load(st, f)
        if f.op == 'clo': return self.call_closure(st, fr, f, args, site, None)
        if f.op == 'unk': return [(st, unk(st, 'call of an unknown function'))]
        if self.opts.get('call_events'): st.event('call', f, tuple(args))
        return [(st, call(f, *args))]

    def call_value(self, st, fr, f, args, site, by_mut=True, destty=None):
        """call a function *value* (closure, fn item, opaque) with arguments"""
        cell = None
        if f.op == 'mref': cell = f; f = self.load(st, f)
        if f.op == 'fn': return self.call_fn(st, fr, f, args, site, destty)
        if f.op == 'clo': return self.call_closure(st, fr, f, args, site, cell)
        if f.op == 'adt' and f.a[1] == 0 and len(f.a[2]) == 1 and f.a[0] not in ('tup',):  # newtype around a function
            return self.call_value(st, fr, f.a[2][0], args, site)
        if f.op == 'unk': return [(st, unk(st, 'call of an unknown function'))]
        r = call(f, *args)
        if self.opts.get('call_events'): st.event('call', f, tuple(args))
        for h in self.hooks: h(self, st, 'call', f, args, site)
        return [(st, r)]

    def call_closure(self, st, fr, f, args, site, cell):
        fn = self.prog.fns.get(f.a[0])
        if fn is None: return [(st, unk(st, 'closure body not available: ' + f.a[0]))]
        sub = self.closure_sub(fn, f)
        selfty = fn.locals[1] if fn.nargs else None
        if fn.nargs != len(args) + 1:
            # the body may take its arguments as one tuple
            if fn.nargs == 2 and fn.d.get('spread'): args = [tup(*args)]
            elif len(args) == 1 and args[0].op == 'adt' and args[0].a[0] == 'tup' and fn.nargs == len(args[0].a[2]) + 1: args = list(args[0].a[2])
            else: return [(st, unk(st, 'closure arity'))]
        if self.stack.count(fn.key) >= 3: return [(st, unk(st, 'recursive closure ' + fn.key))]
        if selfty and selfty[0] == 'ref' and selfty[1] == 'mut':
            if cell is not None: return self.run_fn(fn, [cell] + args, st, sub)
            tmp = new_cell(st, f)
            return self.run_fn(fn, [mref(tmp)] + args, st, sub)
        return self.run_fn(fn, [f] + args, st, sub)
    def closure_sub(self, fn, f):
        return dict(enumerate(f.a[2]))

    def impl_for(self, trait, method, targs):
        """resolve a trait method on concrete type arguments to (fn, substitution)"""
        self_ty = strip_refs(targs[0]) if targs else None
        if self_ty is None: return None
        best = None
        for i in self.prog.impls:
            if i.get('trait') != trait: continue
            it = [x for x in i['items'] if x[0] == 'fn' and x[1] == method]
            if not it: continue
            for base in (targs[0], self_ty):
                m = {}
                if not unify_ty(i['self'], base, m): continue
                ta = freeze(i.get('traitargs') or ())
                if len(ta) > 1 and len(targs) >= len(ta):
                    m2 = dict(m)
                    if not all(unify_ty(a, b, m2) for a, b in zip(ta[1:], targs[1:len(ta)])): continue
                    m = m2
                blanket = i['self'][0] == 'param'
                if blanket and base[0] in ('param',): continue
                cand = (blanket, it[0][2], m, i)
                if best is None or (best[0] and not blanket): best = cand
                break
        if best is None: return None
        fn = self.prog.fns.get(best[1])
        if fn is None: return None
        if best[0] and not self.blanket_ok(trait, targs[0]): return None
        return fn, best[2]
    def blanket_ok(self, trait, ty):
        if trait.endswith('TreeUpdate'):
            return any(i.get('trait', '') and i['trait'].endswith('DeriveTreeUpdate') and unify_ty(i['self'], ty, {}) for i in self.prog.impls)
        return ty[0] != 'param'

    def call_fn(self, st, fr, f, args, site, destty=None):
        path, targs, trait, method, rpath, rargs, shim = f.a
        for h in self.hooks: h(self, st, 'fn', f, args, site)
        # 1. trait methods, resolved on the substituted types
        if trait:
            if self.opts.get('project'): targs = [self.opts['project'](x) or x for x in targs]
            if method in ('call', 'call_mut', 'call_once') and trait.startswith('core::ops::function'):
                a = args[1]
                if a.op == 'adt' and a.a[0] == 'tup': vs = list(a.a[2])
                elif a is UNIT: vs = []
                else:
                    n = len(targs[1]) - 1 if len(targs) > 1 and targs[1][0] == 'tuple' else 1
                    vs = [fld(a, 'tup', 0, i) for i in range(n)]
                return self.call_value(st, fr, args[0], vs, site, destty=destty)
            c = self.contracts.get('%s::%s' % (trait, method))
            r = self.impl_for(trait, method, targs)
            if r is not None:
                fn, sub = r
                # method-level generics come after the trait's
                ntr = len([x for x in fn.generics])
                own = self.method_args(fn, trait, targs)
                sub = dict(sub)
                impl = self.prog.impl_by_path.get(fn.impl or '', None)
                base = len(impl['generics']) if impl else 0
                tr = self.prog.traits.get(trait)
                for j, x in enumerate(own): sub[base + j] = x
                return self.call_local(st, fr, fn, args, sub, site, trait, method, destty)
            # a provided method of a local trait (default body)
            fn = self.prog.fns.get(path)
            m = self.models.trait_method(self, st, fr, trait, method, targs, rpath, args, site, destty)
            if m is not None: return m
            if c: return c(self, st, fr, args, site, targs)
            if fn is not None and fn.blocks:
                return self.call_local(st, fr, fn, args, dict(enumerate(targs)), site, trait, method, destty)
            if trait.split('::')[0] in self.local_crates():
                return self.opaque(st, fr, '%s::%s' % (trait.split('::', 1)[1], method), args, targs)
        fn = self.prog.fns.get(path)
        if fn is None and rpath: fn = self.prog.fns.get(rpath)
        if fn is not None:
            sub = dict(enumerate(rargs if (rpath and fn.path == rpath) else targs))
            return self.call_local(st, fr, fn, args, sub, site, trait, method, destty)
        # constructors used as functions
        ctor = self.ctor(path)
        if ctor: return [(st, adt(ctor[0], ctor[1], args))]
        m = self.models.library(self, st, fr, f, args, site, destty)
        if m is not None: return m
        for a in args:
            if a.op == 'mref': self.store(st, a, mk('unk', 'out of ' + path))
        return [(st, unk(st, 'unmodelled call ' + path))]
    def method_args(self, fn, trait, targs):
        impl = self.prog.impl_by_path.get(fn.impl or '', None)
        ta = (impl or {}).get('traitargs') or [1]
        return list(targs[len(ta):])
    def local_crates(self): return ('iodyn', 'iodyn_eval', 'eval', 'iodyn_cmp', 'iodyn_lab')
    def ctor(self, path):
        if path == 'core::option::Option::Some': return (OPT, 1)
        if path in ('core::result::Result::Ok', 'core::result::Result::Err'): return ('core::result::Result', 0 if path.endswith('Ok') else 1)
        p = path
        for suf in ('::{constructor#0}', '::{ctor#0}', '::{constructor}'):
            if p.endswith(suf): p = p[:-len(suf)]
        if p in self.prog.adts: return (p, 0)
        h, _, last = p.rpartition('::')
        a = self.prog.adts.get(h)
        if a:
            for i, v in enumerate(a['variants']):
                if v['name'] == last: return (h, i)
        return None

    def call_local(self, st, fr, fn, args, sub, site, trait, method, destty):
        c = self.contracts.get(fn.key) or (self.contracts.get('%s::%s' % (trait, method)) if trait and not self.opts.get('inline_traits') else None)
        if c is not None:
            r = c(self, st, fr, args, site, sub)
            if r is not None: return r
        if fn.derived:
            m = self.models.derived(self, st, fn, trait, method, args)
            if m is not None: return m
        if trait == 'core::fmt::Debug': return [(st, adt('core::result::Result', 0, (UNIT,)))]
        if self.stack.count(fn.key) >= self.opts.get('unroll', 1) and fn.key in self.stack:
            return self.opaque(st, fr, 'rec:' + fn.key, args, None)
        if len(self.stack) > 40: raise Undecided('call depth in ' + fn.key)
        return self.run_fn(fn, args, st, sub)

    def opaque(self, st, fr, name, args, targs):
        """an uninterpreted pure function of the arguments' values"""
        vals = []; muts = []
        for a in args:
            if a.op == 'mref': muts.append(a); vals.append(self.load(st, a))
            else: vals.append(a)
        for h in self.hooks: h(self, st, 'opaque', name, vals, None)
        if name.startswith('rec:'): st.mark('recursion without a contract: ' + name[4:])
        for i, m in enumerate(muts): self.store(st, m, app('%s.out%d' % (name, i), *vals))
        return [(st, app(name, *vals))]

    # ------------------------------------------------------------ loops
    def loop(self, fr, st0, h):
        from loops import run_loop
        self.stats['loops'] += 1
        return run_loop(self, fr, st0, h)

BOOL_TERMS = set()
TYPED = {}

def constfold(o, a, b):
    r = {'BitAnd': lambda: a & b, 'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b, 'Shl': lambda: a << b, 'Shr': lambda: a >> b,
         'Rem': lambda: a % b if b else 0, 'Div': lambda: a // b if b else 0}.get(o)
    return num(r()) if r else app('op:' + o, num(a), num(b))

def strip_refs(t):
    while t and t[0] == 'ref': t = t[2]
    return t
