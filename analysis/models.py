"""Transfer functions for library code (std, adapton, rand, time): what a call
into a library does to the abstract state.  Each returns [(state, value)], or
None when the call is not modelled (the interpreter then taints the result)."""
import re
import dom
from dom import *

RESULT = 'core::result::Result'
ORD = 'core::cmp::Ordering'
_impl = re.compile(r'\{impl#\d+\}::')

def norm_path(p): return _impl.sub('', p)

def val(ex, st, a):
    return ex.load(st, a) if a.op == 'mref' else a

def as_seq(t):
    if t.op != 'seq': SEQ_TERMS.add(t)
    return t

def IT(word): return mk('adt', 'it:seq', 0, (word,))

def branch(st, cond):
    """[(state, bool)]"""
    d = st.facts.decide(cond)
    if d is not None: return [(st, d)]
    out = []
    for v in (True, False):
        s = st.copy()
        try: s.facts.assume(cond, v)
        except Infeasible: continue
        out.append((s, v))
    return out

def split_opt(ex, st, t, path=OPT):
    """[(state, variant, payload)] for an Option (or Result)"""
    if t.op == 'adt': return [(st, t.a[1], t.a[2][0] if t.a[2] else None)]
    ty = ('adt', path, ())
    if t.op == 'ite':
        out = []
        for s, b in branch(st, t.a[0]): out += split_opt(ex, s, t.a[1] if b else t.a[2], path)
        return out
    v = st.facts.variant(t)
    out = []
    for i in (1, 0) if path == OPT else (0, 1):
        if v is not None and v != i: continue
        s = st if v is not None else st.copy()
        try: ex.set_variant(s, t, i, ty)
        except Infeasible: continue
        TYPED_default(t, ty)
        has = not (path == OPT and i == 0)
        out.append((s, i, fld(t, path, i, 0) if has else None))
    return out
def TYPED_default(t, ty):
    import interp
    interp.TYPED.setdefault(t, ty)

def split_empty(ex, st, s):
    """[(state, is_empty)] for a sequence"""
    as_seq(s)
    l = length(s)
    if l.op == 'int': return [(st, l.a[0] == 0)]
    return branch(st, eqi(l, num(0)))

# ---------------------------------------------------------------- sequences
def seq_len(ex, st, v): return length(as_seq(val(ex, st, v)))
def seq_index(ex, st, v, ix):
    v = st.facts.norm(as_seq(v)) if v.op != 'seq' else v
    if ix is None: return ex_unk(st, 'index')
    if v.op == 'seq' and ix.op == 'int':
        ps = pieces(v)
        if all(k == 'e' for k, _ in ps[:ix.a[0] + 1]) and ix.a[0] < len(ps): return ps[ix.a[0]][1]
    if ix.op == 'int' and ix.a[0] == 0: return s_first(v)
    if ix is lin_add(length(v), num(-1)): return s_last(v)
    return app('nth', v, ix)
def ex_unk(st, why):
    st.mark(why); return mk('unk', why)
def seq_slice(ex, st, v, lo, hi):
    return s_take(s_drop(v, lo), lin_add(hi, lo, -1)) if not (lo is num(0)) else s_take(v, hi)
def seq_set(ex, st, old, ix, v):
    o = st.facts.norm(as_seq(old)) if old is not None else old
    if o is not None and ix is not None:
        ps = pieces(o)
        if ix.op == 'int' and 0 <= ix.a[0] < len(ps) and all(k == 'e' for k, _ in ps[:ix.a[0] + 1]): return seq(ps[:ix.a[0]] + [E(v)] + ps[ix.a[0] + 1:])
        if st.facts.norm(ix) is st.facts.norm(lin_add(length(o), num(-1))): return cat(as_seq(s_init(o)), unit(v))
        if ix is num(0): return cat(unit(v), as_seq(s_tail(o)))
    st.mark('write to an element at an unknown place')
    return app('setnth', old, ix, v)
def cmp(ex, st, a, b): return app('cmp', a, b)

# ---------------------------------------------------------------- function values
def lam_of(ex, st, fr, f, n, site):
    """the function value f as a term, if calling it is a pure single expression"""
    f0 = ex.load(st, f) if f.op == 'mref' else f
    if f0.op not in ('clo', 'fn', 'adt'): return f0
    xs = tuple(fresh('x') for _ in range(n))
    s = st.copy()
    mem0 = dict(s.mem); ev0 = s.events
    np = len(ex.panics)
    try: outs = ex.call_value(s, fr, f, list(xs), site)
    except Infeasible: return None
    pan = len(ex.panics) > np
    del ex.panics[np:]
    if pan or not outs: return None
    for s2, v in outs:
        if s2.events != ev0: return None
        if any(s2.mem.get(c) is not t for c, t in mem0.items()): return None
        if v.op == 'unk' or contains(v, lambda x: x.op == 'mref'): return None
        if contains(v, lambda x: x.op == 'sym' and x.id > xs[-1].id): return None     # e.g. a random number: not the same each time
    if len(outs) == 1: return abstract(xs, outs[0][1])
    # several cases: an if-then-else over the facts that separate two paths
    if len(outs) == 2:
        c = separating(st, outs[0][0], outs[1][0])
        if c is not None:
            for _, v in outs: pass
            return abstract(xs, ite(c, outs[0][1], outs[1][1]))
    return None
def separating(st, a, b):
    """a condition true in a and false in b, added since st"""
    for t, v in a.facts.var.items():
        if st.facts.var.get(t) is None and b.facts.var.get(t) not in (None, v): return isvar(t, v)
    for t, v in a.facts.bools.items():
        if t not in st.facts.bools and b.facts.bools.get(t) == (not v): return t if v else bnot(t)
    new = [l for l in a.facts.lins if l not in st.facts.lins]
    nb = [l for l in b.facts.lins if l not in st.facts.lins]
    if len(new) == 1 and len(nb) == 1:
        c = ge(new[0], num(0))
        if bnot(c) is ge(nb[0], num(0)): return c
    return None

# ---------------------------------------------------------------- iterators
def to_iter(ex, st, v):
    if v.op == 'adt' and (v.a[0].startswith('it:') or v.a[0].startswith('core::ops::range::Range')): return v
    if v.op == 'mref': return v
    if v.op == 'adt' and v.a[0] == OPT: return IT(unit(v.a[2][0]) if v.a[1] else NIL)
    if v.op == 'app' and v.a[0] in ('hmap',): return IT(app('entries', v))
    return IT(as_seq(v))

def iter_next(ex, st, fr, it, site):
    """[(state, Option term, iterator term)]"""
    if it.op == 'mref':
        out = []
        for s, o, it2 in iter_next(ex, st, fr, ex.load(st, it), site):
            ex.store(s, it, it2); out.append((s, o, it))
        return out
    if it.op != 'adt': return None
    k = it.a[0]
    if k == 'it:seq':
        w = it.a[2][0]; out = []
        for s, e in split_empty(ex, st, w):
            if e: out.append((s, none(), IT(NIL)))
            else:
                w2 = st_norm(s, w)
                out.append((s, some(s_first(w2)), IT(as_seq(s_tail(w2)))))
        return out
    if k == 'it:map':
        inner, f = it.a[2]; out = []
        r = iter_next(ex, st, fr, inner, site)
        if r is None: return None
        for s, o, i2 in r:
            for s2, v, x in split_opt(ex, s, o):
                if v == 0: out.append((s2, none(), mk('adt', 'it:map', 0, (i2, f))))
                else:
                    for s3, y in ex.call_value(s2, fr, f, [x], site):
                        out.append((s3, some(y), mk('adt', 'it:map', 0, (i2, f))))
        return out
    if k == 'core::ops::range::Range':
        lo, hi = it.a[2]; out = []
        for s, b in branch(st, bnot(ge(lo, hi))):
            if b: out.append((s, some(lo), adt(k, 0, (lin_add(lo, num(1)), hi))))
            else: out.append((s, none(), it))
        return out
    if k == 'core::ops::range::RangeFrom':
        lo = it.a[2][0]
        return [(st, some(lo), adt(k, 0, (lin_add(lo, num(1)),)))]
    if k == 'it:take':
        inner, n = it.a[2]; out = []
        for s, z in branch(st, eqi(n, num(0))):
            if z: out.append((s, none(), it)); continue
            r = iter_next(ex, s, fr, inner, site)
            if r is None: return None
            for s2, o, i2 in r: out.append((s2, o, mk('adt', 'it:take', 0, (i2, lin_add(n, num(-1))))))
        return out
    if k == 'it:enum':
        inner, n = it.a[2]; out = []
        r = iter_next(ex, st, fr, inner, site)
        if r is None: return None
        for s, o, i2 in r:
            for s2, v, x in split_opt(ex, s, o):
                if v: out.append((s2, some(tup(n, x)), mk('adt', 'it:enum', 0, (i2, lin_add(n, num(1))))))
                else: out.append((s2, none(), it))
        return out
    if k == 'it:chain':
        a, b = it.a[2]; out = []
        r = iter_next(ex, st, fr, a, site)
        if r is None: return None
        for s, o, a2 in r:
            for s2, v, x in split_opt(ex, s, o):
                if v: out.append((s2, some(x), mk('adt', 'it:chain', 0, (a2, b))))
                else:
                    r2 = iter_next(ex, s2, fr, b, site)
                    if r2 is None: return None
                    for s3, o3, b3 in r2: out.append((s3, o3, mk('adt', 'it:chain', 0, (IT(NIL), b3))))
        return out
    if k in ('it:filter', 'it:fmap', 'it:fref'):
        inner, f = it.a[2]; out = []
        r = iter_next(ex, st, fr, inner, site)
        if r is None: return None
        for s, o, i2 in r:
            me = mk('adt', k, 0, (i2, f))
            for s2, v, x in split_opt(ex, s, o):
                if not v: out.append((s2, none(), me)); continue
                for s3, y in ex.call_value(s2, fr, f, [x], site):
                    for s4, ok, z in (split_opt(ex, s3, y) if k == 'it:fmap' else [(a, b, x) for a, b in branch(s3, y)]):
                        if ok: out.append((s4, some(z), me))
                        else:
                            # finite: the iterations are counted by drive()
                            ex.fdepth = getattr(ex, 'fdepth', 0) + 1
                            try: q = iter_next(ex, s4, fr, me, site) if ex.fdepth < 20 else None
                            finally: ex.fdepth -= 1
                            if q is None: return None
                            out += q
        return out
    if k == 'it:skip':
        inner, n = it.a[2]; out = []
        for s, z in branch(st, eqi(n, num(0))):
            r = iter_next(ex, s, fr, inner, site)
            if r is None: return None
            if z: out += [(s2, o, mk('adt', 'it:skip', 0, (i2, num(0)))) for s2, o, i2 in r]; continue
            if n.op != 'int': return None
            for s2, o, i2 in r:
                for s3, v, x in split_opt(ex, s2, o):
                    if not v: out.append((s3, none(), mk('adt', 'it:skip', 0, (i2, num(0)))))
                    else: out += iter_next(ex, s3, fr, mk('adt', 'it:skip', 0, (i2, lin_add(n, num(-1)))), site) or []
        return out
    if k == 'it:zip':
        a, b = it.a[2]; out = []
        r = iter_next(ex, st, fr, a, site)
        if r is None: return None
        for s, o, a2 in r:
            for s2, v, x in split_opt(ex, s, o):
                if not v: out.append((s2, none(), it)); continue
                r2 = iter_next(ex, s2, fr, b, site)
                if r2 is None: return None
                for s3, o2, b2 in r2:
                    for s4, v2, y in split_opt(ex, s3, o2):
                        out.append((s4, some(tup(x, y)) if v2 else none(), mk('adt', 'it:zip', 0, (a2, b2))))
        return out
    if k == 'it:gen':
        ex.gen = getattr(ex, 'gen', 0) + 1
        return [(st, some(fresh('rand')), it)]
    return None

HASHES = {}    # values a bounded history fixes for the hashes of its keys
def bounded(st, it):
    """does the iterator range over a sequence of known length?"""
    if it.op != 'adt': return False
    k = it.a[0]
    if k == 'it:seq': return all(x[0] == 'e' for x in pieces(st_norm(st, it.a[2][0])))
    if k == 'core::ops::range::Range': return all(st_norm(st, x).op == 'int' for x in it.a[2])
    if k in ('it:map', 'it:filter', 'it:fmap', 'it:fref', 'it:enum', 'it:skip', 'it:take'): return bounded(st, it.a[2][0])
    if k == 'it:zip': return bounded(st, it.a[2][0]) or bounded(st, it.a[2][1])
    if k == 'it:chain': return bounded(st, it.a[2][0]) and bounded(st, it.a[2][1])
    return False
def drive(ex, st, fr, it, acc, site, body):
    """run the iterator to its end where that is bounded (or a bounded number of exact steps of a refutation):
    body(st, acc, x) -> [(st, acc, stop)]; -> [(st, iterator, acc, stopped)] or None"""
    refute = ex.opts.get('mode') == 'refute'
    if not refute and not bounded(st, it): return None
    np = len(ex.panics)
    pend = [(st, it, acc)]; out = []
    for _ in range((ex.opts.get('peel', 3) + 1) if refute and not bounded(st, it) else 40):
        nxt = []
        for s, i, a in pend:
            r = iter_next(ex, s, fr, i, site)
            if r is None: del ex.panics[np:]; return None
            for s2, o, i2 in r:
                for s3, v, x in split_opt(ex, s2, o):
                    if not v: out.append((s3, i2, a, False)); continue
                    for s4, a2, stop in body(s3, a, x):
                        if stop: out.append((s4, i2, a2, True))
                        else: nxt.append((s4, i2, a2))
        pend = nxt
        if not pend: return out
        if len(pend) > 60: break
    if not refute: del ex.panics[np:]; return None
    ex.cut = True; 'iterations cut' in ex.incomplete or ex.incomplete.append('iterations cut')
    return out
def st_norm(st, t): return st.facts.norm(t)

def iter_word(ex, st, fr, it, site):
    """the sequence of items the iterator yields, when that is a pure term"""
    if it.op == 'mref': it = ex.load(st, it)
    if it.op != 'adt': return None
    k = it.a[0]
    if k == 'it:seq': return it.a[2][0]
    if k == 'it:map':
        w = iter_word(ex, st, fr, it.a[2][0], site)
        if w is None: return None
        l = lam_of(ex, st, fr, it.a[2][1], 1, site)
        if l is None: return None
        return s_map(l, w)
    if k == 'it:chain':
        a = iter_word(ex, st, fr, it.a[2][0], site); b = iter_word(ex, st, fr, it.a[2][1], site)
        return cat(a, b) if a is not None and b is not None else None
    if k == 'core::ops::range::Range':
        lo, hi = (st_norm(st, x) for x in it.a[2])
        if lo.op == 'int' and hi.op == 'int' and hi.a[0] - lo.a[0] <= 64: return seq([E(num(i)) for i in range(lo.a[0], hi.a[0])])
        r = as_seq(app('range', lo, hi))
        if st.facts.decide(ge(hi, lo)) is True: st.facts.assume(eqi(length(r), lin_add(hi, lo, -1)))
        return r
    if k == 'it:take':
        w = iter_word(ex, st, fr, it.a[2][0], site)
        return None if w is None else app('take', w, it.a[2][1])
    if k == 'it:gen': return as_seq(app('randoms', it.a[2][0]))
    if k == 'it:opaque': return it.a[2][0]
    return None

def iter_fold(ex, st, fr, it, acc, f, site):
    """left fold with possible effects: unroll known elements, summarise the rest"""
    if it.op == 'mref': it = ex.load(st, it)
    w = iter_word(ex, st, fr, it, site) if not has_effects(it) else None
    if w is not None and it.a[0] in ('it:seq', 'it:map', 'it:chain', 'core::ops::range::Range', 'it:opaque'):
        lam = lam_of(ex, st, fr, f, 2, site)
        if lam is not None:
            return [(st, foldl(lam, acc, st_norm(st, w)))]
        ps = pieces(w)
        if all(k == 'e' for k, _ in ps):
            states = [(st, acc)]
            for _, x in ps:
                states = [(s2, v) for s, a in states for s2, v in ex.call_value(s, fr, f, [a, x], site)]
            return states
    return None
def has_effects(it): return False

# ---------------------------------------------------------------- trait methods
INTS = ('u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize', 'u128', 'i128')
def strip(t):
    while t and t[0] == 'ref': t = t[2]
    return t

def default_of(ex, st, ty):
    ty = strip(ty)
    if ty[0] == 'prim':
        if ty[1] in INTS: return num(0)
        if ty[1] == 'bool': return FALSE
    if ty[0] == 'tuple' and len(ty) == 1: return UNIT
    if ty[0] == 'adt':
        if ty[1] == OPT: return none()
        if ty[1] == 'alloc::vec::Vec': return NIL
        if ty[1].endswith('map::HashMap') or ty[1].endswith('set::HashSet'): return HM0
    return None

def trait_method(ex, st, fr, trait, method, targs, rpath, args, site, destty):
    S = targs[0] if targs else ('other', '?')
    s = strip(S)
    t = trait.split('::')[-1]
    if t == 'Clone' and method == 'clone': return [(st, val(ex, st, args[0]))]
    if t == 'ToOwned' and method == 'to_owned': return [(st, val(ex, st, args[0]))]
    if t in ('Deref', 'Borrow', 'AsRef') and method in ('deref', 'borrow', 'as_ref'): return [(st, val(ex, st, args[0]))]
    if t in ('DerefMut', 'BorrowMut', 'AsMut'): return [(st, args[0])]
    if t == 'PartialEq':
        r = eq_values(ex, st, val(ex, st, args[0]), val(ex, st, args[1]))
        return [(st, r if method == 'eq' else bnot(r))]
    if t in ('PartialOrd', 'Ord'): return order(ex, st, method, s, [val(ex, st, a) for a in args])
    if t == 'Default':
        d = default_of(ex, st, S)
        return [(st, d)] if d is not None else [(st, app('default', mk('str', str(S))))]
    if t == 'Into' and method == 'into' and len(targs) > 1:
        if targs[0] == targs[1]: return [(st, args[0])]
        r = ex.impl_for('core::convert::From', 'from', [targs[1], targs[0]])
        if r: return ex.call_local(st, fr, r[0], args, r[1], site, 'core::convert::From', 'from', destty)
        return [(st, conv(ex, st, targs[0], targs[1], args[0]))]
    if t == 'From' and method == 'from':
        return [(st, conv(ex, st, targs[1] if len(targs) > 1 else None, targs[0], args[0]))]
    if t == 'IntoIterator' and method == 'into_iter':
        v = args[0]
        if v.op == 'mref' and S[0] == 'ref' and S[1] == 'mut': return None
        return into_iter(ex, st, fr, v, S, site)
    if t in ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator'): return iterator(ex, st, fr, method, targs, args, site, destty)
    if t == 'FromIterator':
        w = iter_word(ex, st, fr, to_iter(ex, st, args[0]), site)
        return collection(st, strip(targs[0]) if targs else None, w) if w is not None else None
    if t == 'Extend':
        it = into_iter(ex, st, fr, args[1], targs[-1], site)
        if it is None: return None
        w = iter_word(ex, st, fr, it[0][1], site)
        if w is None: return None
        st = it[0][0]; old = ex.load(st, args[0])
        if S and S[0] == 'adt' and S[1].endswith('map::HashMap'): new = hm_all(old, w)
        elif S and S[0] == 'adt' and S[1].endswith('set::HashSet'): new = hm_all(old, key_unit_pairs(w))
        elif S and S[0] == 'adt' and S[1] == 'alloc::vec::Vec': new = cat(old, w)
        else: return None
        ex.store(st, args[0], new); return [(st, UNIT)]
    if t in ('Index', 'IndexMut') and method in ('index', 'index_mut'):
        return index(ex, st, fr, args, site, targs, method)
    if t == 'Hash' and method in ('hash', 'hash_slice'):
        h = args[1]
        if h.op == 'mref':
            ex.store(st, h, app('hashed', ex.load(st, h), val(ex, st, args[0])))
            return [(st, UNIT)]
        return [(st, UNIT)]
    if t == 'Hasher' and method == 'finish':
        h = val(ex, st, args[0])
        if h.op == 'app' and h.a[0] == 'hashed' and h.a[1][1] in HASHES and not (h.a[1][0].op == 'app' and h.a[1][0].a[0] == 'hashed'): return [(st, num(HASHES[h.a[1][1]]))]
        return [(st, app('finish', h))]
    if t in ('Add', 'Sub') and s[0] == 'prim':
        return [(st, lin_add(args[0], args[1], 1 if t == 'Add' else -1))]
    if t in ('Add', 'Sub', 'Mul'): return [(st, app('op:' + t, args[0], args[1]))]
    if t == 'Not': return [(st, bnot(args[0]) if ex.is_bool(args[0]) else app('bitnot', args[0]))]
    if t == 'Rng' and method == 'gen': 
        if args[0].op == 'mref': pass
        return [(st, fresh('rand'))]
    if t == 'Rng' and method == 'gen_range' and len(args) == 3:
        r = fresh('rand')
        st.facts.assume(ge(r, args[1])); st.facts.assume(ge(lin_add(args[2], num(1), -1), r))
        return [(st, r)]
    if t == 'Rng' and method == 'gen_iter': return [(st, mk('adt', 'it:gen', 0, (fresh('gen'),)))]
    if t == 'Rng': return [(st, fresh('rand'))]
    if t == 'SeedableRng': return [(st, app('seeded', *[val(ex, st, a) for a in args]))]
    if t == 'Drop': return [(st, UNIT)]
    if t == 'Debug' or t == 'Display': return [(st, adt(RESULT, 0, (UNIT,)))]
    if t == 'ToString':
        v = val(ex, st, args[0])
        return [(st, v if v.op == 'str' or S and S[0] == 'adt' and S[1].endswith('string::String') else app('to_string', v))]
    return None

def conv(ex, st, src, dst, v):
    if src == dst: return v
    if dst and dst[0] == 'adt':
        if dst[1] == 'alloc::string::String': return v
        if dst[1] == OPT: return some(v)
        if dst[1] in ('alloc::vec::Vec', 'alloc::rcs::rc::Rc', 'alloc::boxed::Box'): return v
    if dst and dst[0] == 'prim' and dst[1] in INTS: return v
    return app('into', mk('str', show_ty(dst)), v)
def show_ty(t):
    if not t: return '?'
    if t[0] == 'adt': return t[1] + ('<%s>' % ','.join(show_ty(x) for x in t[2]) if t[2] else '')
    if t[0] == 'prim': return t[1]
    if t[0] == 'param': return t[2]
    return str(t)

def eq_values(ex, st, a, b):
    if a.op == 'mref': a = ex.load(st, a)
    if b.op == 'mref': b = ex.load(st, b)
    if a.op == 'unk' or b.op == 'unk': return ex_unk(st, 'comparison of an unmodelled value')
    if is_num(a) and is_num(b): return eqi(a, b)
    return eqt(a, b)
def is_num(t):
    import interp
    ty = interp.TYPED.get(t)
    while ty and ty[0] == 'ref': ty = ty[2]
    return bool(ty) and ty[0] == 'prim' and ty[1] in INTS

def order(ex, st, method, ty, a):
    x, y = a[0], a[1]
    isint = ty[0] == 'prim' and ty[1] in INTS
    if method in ('lt', 'le', 'gt', 'ge'):
        if isint:
            return [(st, {'lt': lambda: bnot(ge(x, y)), 'le': lambda: ge(y, x), 'gt': lambda: bnot(ge(y, x)), 'ge': lambda: ge(x, y)}[method]())]
        return [(st, {'lt': lambda: app('lt', x, y), 'le': lambda: bnot(app('lt', y, x)), 'gt': lambda: app('lt', y, x), 'ge': lambda: bnot(app('lt', x, y))}[method]())]
    if method in ('cmp', 'partial_cmp'):
        if isint:
            out = []
            for s, lt in branch(st, bnot(ge(x, y))):
                if lt: out.append((s, 0)); continue
                for s2, e in branch(s, ge(y, x)): out.append((s2, 1 if e else 2))
        else:
            t = app('cmp', x, y); TYPED_default(t, ('adt', ORD, ())); 
            return [(st, t if method == 'cmp' else some(t))]
        r = [(s, mk('adt', ORD, v, ())) for s, v in out]
        return r if method == 'cmp' else [(s, some(v)) for s, v in r]
    if method in ('max', 'min'):
        if isint:
            out = []
            for s, b in branch(st, ge(y, x)): out.append((s, (y if b else x) if method == 'max' else (x if b else y)))
            return out
        return [(st, app(method, x, y))]
    return None

def into_iter(ex, st, fr, v, S, site):
    s = strip(S) if S else ('other', '?')
    if v.op == 'mref': v = ex.load(st, v)
    if v.op == 'adt' and (v.a[0].startswith('it:') or v.a[0].startswith('core::ops::range')): return [(st, v)]
    if s[0] == 'adt':
        if s[1].endswith('hash::map::HashMap'): return [(st, IT(hm_entries(v)))]
        if s[1] == OPT:
            return [(s2, IT(unit(x) if k else NIL)) for s2, k, x in split_opt(ex, st, v)]
        if s[1].startswith('iodyn') or s[1].startswith('eval'): return [(st, v)]   # already an iterator
        if s[1] in ('alloc::vec::Vec', 'alloc::rcs::rc::Rc', 'alloc::vec::into_iter::IntoIter'): return [(st, IT(as_seq(v)))]
    if s[0] in ('slice', 'array'): return [(st, IT(as_seq(v)))]
    if s[0] == 'param': return [(st, v)]
    return [(st, v)] if v.op != 'seq' else [(st, IT(v))]

def elem_ref(m, i): return mk('mref', m.a[0], m.a[1] + (('i', None, None, i, None),))
def index(ex, st, fr, args, site, targs, method='index'):
    v = val(ex, st, args[0]); i = args[1]
    if i.op == 'adt' and i.a[0].startswith('core::ops::range'):
        n = i.a[0].split('::')[-1]
        if method == 'index_mut': return None
        if n == 'RangeFull': return [(st, v)]
        n_ = length(as_seq(v)); p = i.a[2]
        if n == 'RangeFrom': need = [ge(n_, p[0])]
        elif n == 'RangeTo': need = [ge(n_, p[0])]
        elif n == 'Range': need = [ge(p[1], p[0]), ge(n_, p[1])]
        else: return None
        ss = [st]
        for c in need:
            nx = []
            for s0 in ss:
                for s2, ok in branch(s0, c):
                    if ok: nx.append(s2)
                    else: ex.panic(s2, 'slice index out of bounds', *site)
            ss = nx
        return [(s2, s_drop(v, p[0]) if n == 'RangeFrom' else s_take(v, p[0]) if n == 'RangeTo' else seq_slice(ex, s2, v, p[0], p[1])) for s2 in ss]
    s = strip(targs[0]) if targs else None
    if s and s[0] == 'adt' and s[1].endswith('map::HashMap'):
        out = []
        for s2, k, x in split_opt(ex, st, hm_get(v, i)):
            if k: out.append((s2, x))
            else: ex.panic(s2, 'index of a missing key', *site)
        return out
    out = []
    mut = args[0] if method == 'index_mut' and args[0].op == 'mref' else None
    for s2, ok in branch(st, bnot(ge(i, length(as_seq(v))))):
        if ok: out.append((s2, elem_ref(mut, i) if mut is not None else seq_index(ex, s2, v, i)))
        else: ex.panic(s2, 'index out of bounds', *site)
    return out

def iterator(ex, st, fr, method, targs, args, site, destty):
    S = strip(targs[0])
    it0 = args[0]
    it = ex.load(st, it0) if it0.op == 'mref' else it0
    local = S[0] == 'adt' and S[1].split('::')[0] in ex.local_crates()
    if method == 'next' and not local:
        r = iter_next(ex, st, fr, it, site)
        if r is None: return None
        out = []
        for s, o, i2 in r:
            if it0.op == 'mref': ex.store(s, it0, i2)
            out.append((s, o))
        return out
    if it.op == 'adt' and not it.a[0].startswith('it:') and not it.a[0].startswith('core::ops::range') or it.op != 'adt':
        # an iterator this crate implements (or an opaque one): its word of items is opaque
        if method in ('fold', 'collect', 'map', 'count', 'for_each', 'max', 'sum', 'take', 'rev', 'nth', 'enumerate', 'last'):
            it = mk('adt', 'it:opaque', 0, (as_seq(app('items', it)),))
        else: return None
    if method == 'map': return [(st, mk('adt', 'it:map', 0, (it, args[1])))]
    if method in ('by_ref',): return [(st, it0)]
    if method in ('cloned', 'copied', 'fuse', 'peekable', 'into_iter'): return [(st, it)]
    if method == 'take':
        if it.op == 'adt' and it.a[0] == 'it:seq' and not bounded(st, it):
            w = st_norm(st, it.a[2][0]); out = []
            for s, b in branch(st, ge(length(w), lin_add(args[1], num(1)))): out.append((s, mk('adt', 'it:seq', 0, (s_take(st_norm(s, w), args[1]) if b else w,) + it.a[2][1:])))
            return out
        return [(st, mk('adt', 'it:take', 0, (it, args[1])))]
    if method == 'enumerate': return [(st, mk('adt', 'it:enum', 0, (it, num(0))))]
    if method == 'chain':
        b = into_iter(ex, st, fr, args[1], targs[-1], site)
        return [(s, mk('adt', 'it:chain', 0, (it, x))) for s, x in b] if b else None
    if method == 'rev':
        if it.a[0] in ('it:seq', 'it:opaque'): return [(st, IT(rev(it.a[2][0])))]
        if it.a[0] == 'it:map' and it.a[2][0].op == 'adt' and it.a[2][0].a[0] == 'it:seq':
            return [(st, mk('adt', 'it:map', 0, (IT(rev(it.a[2][0].a[2][0])), it.a[2][1])))]
        return None
    if method == 'fold':
        r = iter_fold(ex, st, fr, it, args[1], args[2], site)
        if r is not None: return r
        r = drive(ex, st, fr, it, args[1], site, lambda s, a, x: [(s2, v, False) for s2, v in ex.call_value(s, fr, args[2], [a, x], site)])
        return None if r is None else [(s, a) for s, i, a, _ in r]
    if method == 'filter': return [(st, mk('adt', 'it:filter', 0, (it, args[1])))]
    if method == 'filter_map': return [(st, mk('adt', 'it:fmap', 0, (it, args[1])))]
    if method == 'skip':
        if it.op == 'adt' and it.a[0] == 'it:seq' and not bounded(st, it):
            w = st_norm(st, it.a[2][0]); out = []
            for s, b in branch(st, ge(length(w), args[1])): out.append((s, mk('adt', 'it:seq', 0, (s_drop(st_norm(s, w), args[1]) if b else NIL,) + it.a[2][1:])))
            return out
        return [(st, mk('adt', 'it:skip', 0, (it, args[1])))]
    if method == 'zip':
        b = into_iter(ex, st, fr, args[1], targs[-1], site)
        return [(s, mk('adt', 'it:zip', 0, (it, x))) for s, x in b] if b else None
    if method == 'for_each':
        r = drive(ex, st, fr, it, UNIT, site, lambda s, a, x: [(s2, UNIT, False) for s2, _ in ex.call_value(s, fr, args[1], [x], site)])
        return None if r is None else [(s, UNIT) for s, i, a, _ in r]
    if method in ('find', 'position', 'find_map', 'any', 'all'):
        def body(s, a, x):
            o = []
            for s2, y in ex.call_value(s, fr, args[1], [x], site):
                if method == 'find_map': o += [(s3, some(z) if v else a, bool(v)) for s3, v, z in split_opt(ex, s2, y)]
                else:
                    for s3, b in branch(s2, y):
                        if method == 'find': o.append((s3, some(x) if b else a, b))
                        elif method == 'any': o.append((s3, boolc(b), b))
                        elif method == 'all': o.append((s3, boolc(b), not b))
                        else: o.append((s3, some(a) if b else lin_add(a, num(1)), b))
            return o
        a0 = {'find': none(), 'find_map': none(), 'any': FALSE, 'all': TRUE, 'position': num(0)}[method]
        r = drive(ex, st, fr, it, a0, site, body)
        if r is not None:
            out = []
            for s, i, a, stop in r:
                if it0.op == 'mref': ex.store(s, it0, i)
                out.append((s, none() if method == 'position' and not stop else a))
            return out
    if method == 'collect':
        ty = destty
        w = iter_word(ex, st, fr, it, site)
        if w is None:
            r = drive(ex, st, fr, it, NIL, site, lambda s, a, x: [(s, cat(a, unit(x)), False)])
            if r is None or not (ty and ty[0] == 'adt' and ty[1] == 'alloc::vec::Vec'): return None
            return [(s, a) for s, i, a, _ in r]
        w = st_norm(st, w)
        return collection(st, ty, w) or [(st, app('collect', w))]
    if method in ('count', 'len'):
        w = iter_word(ex, st, fr, it, site)
        return [(st, length(as_seq(w)))] if w is not None else None
    if method in ('max', 'min', 'sum'):
        w = iter_word(ex, st, fr, it, site)
        return [(st, app('seq_' + method, w))] if w is not None else None
    if method == 'last':
        w = iter_word(ex, st, fr, it, site)
        if w is None: return None
        return [(s, none() if e else some(s_last(st_norm(s, w)))) for s, e in split_empty(ex, st, w)]
    if method == 'nth':
        w = iter_word(ex, st, fr, it, site)
        if w is None: return None
        i = args[1]; out = []
        for s, b in branch(st, bnot(ge(i, length(as_seq(w))))):
            out.append((s, some(seq_index(ex, s, w, i)) if b else none()))
        return out
    if method in ('any', 'all'):
        w = iter_word(ex, st, fr, it, site)
        l = lam_of(ex, st, fr, args[1], 1, site)
        if w is None or l is None: return None
        b = app('seq_' + method, l, w)
        import interp; interp.BOOL_TERMS.add(b)
        return [(st, b)]
    return None

def collection(st, ty, w):
    if ty and ty[0] == 'adt' and ty[1] == 'alloc::vec::Vec': return [(st, as_seq(w))]
    if ty and ty[0] == 'adt' and ty[1].endswith('map::HashMap'): return [(st, hm_all(HM0, w))]
    if ty and ty[0] == 'adt' and ty[1].endswith('set::HashSet'): return [(st, hm_all(HM0, key_unit_pairs(w)))]
    return None

# ---------------------------------------------------------------- finite maps
HM0 = mk('app', 'hmap', ())          # the empty map
def hm_ins(m, k, v):
    if m.op == 'app' and m.a[0] == 'hmap': return _hm(m.a[1] + (mk('app', 'ins', (k, v)),))
    return _hm((mk('app', 'base', (m,)), mk('app', 'ins', (k, v))))
def hm_all(m, w):
    """insert every (key,value) of the sequence w"""
    ps = ()
    for k, x in pieces(w):
        if k == 'e': ps += (mk('app', 'ins', (fld(x, 'tup', 0, 0), fld(x, 'tup', 0, 1))),)
        else: ps += (mk('app', 'insall', (x,)),)
    base = m.a[1] if (m.op == 'app' and m.a[0] == 'hmap') else (mk('app', 'base', (m,)),)
    return _hm(base + ps)
def _hm(ps):
    # when every value inserted is (), insertion order and repetition do not matter
    out = []
    for p in ps:
        if p.op == 'app' and p.a[0] == 'base' and p.a[1][0].op == 'app' and p.a[1][0].a[0] == 'hmap': out.extend(p.a[1][0].a[1])
        elif p.op == 'app' and p.a[0] == 'insall' and p.a[1][0].op == 'seq':
            for k, x in pieces(p.a[1][0]):
                out.append(mk('app', 'ins', (fld(x, 'tup', 0, 0), fld(x, 'tup', 0, 1))) if k == 'e' else mk('app', 'insall', (x,)))
        else: out.append(p)
    def setlike(p):
        if p.a[0] == 'ins': return p.a[1][1] is UNIT
        if p.a[0] == 'insall': return p.a[1][0].op == 'app' and p.a[1][0].a[0] == 'map' and p.a[1][0].a[1][0].op == 'lam' and \
            p.a[1][0].a[1][0].a[2].op == 'adt' and p.a[1][0].a[1][0].a[2].a[2][-1:] == (UNIT,)
        return p.a[0] == 'base' and p in SETBASE
    if out and all(setlike(p) for p in out):
        out = set(out); more = True
        while more:
            more = False
            for p in list(out):
                if p.a[0] != 'insall': continue
                f, w = p.a[1][0].a[1]
                if w.op == 'app' and w.a[0] == 'tail':
                    x = call(f, s_first(w.a[1][0]))
                    q = mk('app', 'ins', (fld(x, 'tup', 0, 0), fld(x, 'tup', 0, 1)))
                    if q in out:
                        out -= {p, q}; out.add(mk('app', 'insall', (s_map(f, w.a[1][0]),))); more = True; break
        out = sorted(out, key=lambda t: t.id)
    if len(out) == 1 and out[0].a[0] == 'base': return out[0].a[1][0]
    return mk('app', 'hmap', tuple(out))
SETBASE = set()
def hm_get(m, k): return app('hm_get', m, k)
def hm_entries(m):
    x = fresh('k')
    return s_map(abstract((x,), tup(x, app('hm_at', m, x))), as_seq(hm_keys(m)))
def hm_keys(m): return app('hm_keys', m)
def hm_len(m): return num(0) if m is HM0 else length(as_seq(hm_keys(m)))
dom._reapp['hmap'] = lambda *a: _hm(tuple(a))
def key_unit_pairs(ks):
    x = fresh('k')
    return s_map(abstract((x,), tup(x, UNIT)), ks)

# ---------------------------------------------------------------- plain functions
PANICS = ('core::panicking::panic', 'core::panicking::assert_failed', 'core::panicking::panic_fmt', 'std::panicking::begin_panic', 'core::panicking::unreachable_display',
          'core::panicking::panic_explicit', 'core::panicking::panic_display', 'core::option::expect_failed', 'core::option::unwrap_failed', 'core::panicking::panic_nounwind',
          'core::panicking::panic_str_2015', 'std::panicking::panic_fmt', 'std::rt::begin_panic', 'core::panicking::unreachable_default_msg', 'std::process::abort', 'core::panicking::panic_const')

def library(ex, st, fr, f, args, site, destty):
    p = norm_path(f.a[0])
    r = f.a[4] and norm_path(f.a[4])
    if p in PANICS or p.startswith('core::panicking::panic') or p.startswith('core::panicking::assert_failed'):
        msg = ''
        for a in args:
            a = val(ex, st, a) if a.op == 'mref' else a
            if a.op == 'str': msg = a.a[0]
        ex.panic(st, 'panic:' + (msg or p.split('::')[-1]), *site)
        return []
    fn = LIB.get(p)
    if fn: return fn(ex, st, fr, args, site, destty, f)
    if f.a[2]: return None
    parts = p.split('::')
    if parts[0] in ('core', 'alloc', 'std') and 'slice' in parts or p.startswith('alloc::vec::'):
        m = VEC.get(parts[-1])
        if m: return m(ex, st, fr, args, site, destty, f)
    if p.startswith('core::option::'):
        m = OPTM.get(parts[-1])
        if m: return m(ex, st, fr, args, site, destty, f)
    if p.startswith('core::result::'):
        m = RESM.get(parts[-1])
        if m: return m(ex, st, fr, args, site, destty, f)
    if 'hash::map' in p or 'hash::set' in p:
        m = HMAP.get(parts[-1])
        if m: return m(ex, st, fr, args, site, destty, f)
    if p.startswith('core::num::') or p.startswith('std::f32') or p.startswith('core::f32') or p.startswith('std::f64'):
        m = NUM.get(parts[-1])
        if m: return m(ex, st, fr, args, site, destty, f)
        return [(st, app('num:' + parts[-1], *[val(ex, st, a) for a in args]))]
    if p.startswith('core::fmt') or p.startswith('std::io') or p.startswith('alloc::fmt'):
        return [(st, mk('str', '<fmt>'))]
    if p.startswith('core::bool::'):
        if parts[-1] in ('then', 'then_some'):
            out = []
            for s, b in branch(st, args[0]):
                if not b: out.append((s, none()))
                elif parts[-1] == 'then_some': out.append((s, some(args[1])))
                else: out += [(s2, some(v)) for s2, v in ex.call_value(s, fr, args[1], [], site)]
            return out
    return None

LIB = {}
def lib(*names):
    def d(fn):
        for n in names: LIB[n] = fn
        return fn
    return d

@lib('alloc::boxed::new', 'alloc::rcs::rc::new', 'core::cell::RefCell::new', 'core::convert::identity', 'core::hint::black_box', 'alloc::boxed::box_new', 'alloc::rcs::rc::as_ref')
def _ident(ex, st, fr, a, site, ty, f): return [(st, a[0])]
@lib('core::mem::drop', 'core::mem::forget')
def _drop(ex, st, fr, a, site, ty, f): return [(st, UNIT)]
@lib('core::mem::replace')
def _replace(ex, st, fr, a, site, ty, f):
    if a[0].op != 'mref': return None
    old = ex.load(st, a[0]); ex.store(st, a[0], a[1]); return [(st, old)]
@lib('core::mem::take')
def _take(ex, st, fr, a, site, ty, f):
    if a[0].op != 'mref': return None
    d = default_of(ex, st, f.a[1][0])
    if d is None:
        r = ex.impl_for('core::default::Default', 'default', [f.a[1][0]])
        if not r: return None
        out = []
        for s, v in ex.call_local(st, fr, r[0], [], r[1], site, None, None, ty):
            old = ex.load(s, a[0]); ex.store(s, a[0], v); out.append((s, old))
        return out
    old = ex.load(st, a[0]); ex.store(st, a[0], d); return [(st, old)]
@lib('core::mem::swap')
def _swap(ex, st, fr, a, site, ty, f):
    if a[0].op != 'mref' or a[1].op != 'mref': return None
    x, y = ex.load(st, a[0]), ex.load(st, a[1])
    ex.store(st, a[0], y); ex.store(st, a[1], x); return [(st, UNIT)]
@lib('core::cmp::max', 'core::cmp::min')
def _maxmin(ex, st, fr, a, site, ty, f): return order(ex, st, f.a[0].split('::')[-1], strip(f.a[1][0]), a)
@lib('core::num::max_value')
def _maxv(ex, st, fr, a, site, ty, f):
    n = ty[1] if ty and ty[0] == 'prim' else '?'
    b = {'usize': 64, 'u64': 64, 'u32': 32, 'u16': 16, 'u8': 8}.get(n)
    return [(st, num(2 ** b - 1) if b else app('max', mk('str', n)))]
@lib('core::num::min_value')
def _minv(ex, st, fr, a, site, ty, f): return [(st, num(0) if ty and ty[0] == 'prim' and ty[1].startswith('u') else app('min', mk('str', str(ty))))]
@lib('core::panic::location::Location::caller', 'core::panic::location::caller')
def _caller(ex, st, fr, a, site, ty, f): return [(st, mk('str', '<location>'))]

# adapton
@lib('adapton::engine::cell')
def _cell(ex, st, fr, a, site, ty, f):
    for h in ex.hooks: h(ex, st, 'cell', a[0], [a[1]], site)
    st.event('cell', a[0], a[1], site[0].key)
    return [(st, art(a[0], a[1]))]
@lib('adapton::engine::put')
def _put(ex, st, fr, a, site, ty, f):
    for h in ex.hooks: h(ex, st, 'put', None, [a[0]], site)
    return [(st, art(None, a[0]))]
@lib('adapton::engine::force')
def _force(ex, st, fr, a, site, ty, f):
    t = val(ex, st, a[0])
    return force_term(ex, st, fr, t, site)
def force_term(ex, st, fr, t, site):
    if t.op == 'adt' and t.a[0] == 'thunk':
        name, clo, args, spur = t.a[2]
        return ex.call_value(st, fr, clo, [args, spur], site)
    if t.op == 'ite':
        out = []
        for s, b in branch(st, t.a[0]): out += force_term(ex, s, fr, t.a[1] if b else t.a[2], site)
        return out
    return [(st, force(t))]
@lib('adapton::engine::force_map')
def _force_map(ex, st, fr, a, site, ty, f):
    t = val(ex, st, a[0])
    out = []
    for s, v in force_term(ex, st, fr, t, site): out += ex.call_value(s, fr, a[1], [t, v], site)
    return out
@lib('adapton::engine::thunk')
def _thunk(ex, st, fr, a, site, ty, f):
    nm = a[0]
    st.event('thunk', nm, a[3], site[0].key, a[2], a[4] if len(a) > 4 else UNIT)
    for h in ex.hooks: h(ex, st, 'thunk', nm, list(a), site)
    return [(st, mk('adt', 'thunk', 0, (nm, a[2], a[3], a[4] if len(a) > 4 else UNIT)))]
@lib('adapton::engine::name_fork')
def _fork(ex, st, fr, a, site, ty, f):
    n = val(ex, st, a[0]); return [(st, tup(app('fork0', n), app('fork1', n)))]
@lib('adapton::engine::name_pair')
def _pair(ex, st, fr, a, site, ty, f): return [(st, app('npair', a[0], a[1]))]
@lib('adapton::engine::name_of_string', 'adapton::engine::name_of_str')
def _nstr(ex, st, fr, a, site, ty, f): return [(st, app('nstr', val(ex, st, a[0])))]
@lib('adapton::engine::name_of_usize')
def _nnum(ex, st, fr, a, site, ty, f): return [(st, app('nnum', a[0]))]
@lib('adapton::engine::ns')
def _ns(ex, st, fr, a, site, ty, f):
    st.event('ns', a[0])
    out = ex.call_value(st, fr, a[1], [], site)
    for s, _ in out: s.event('ns-end', a[0])
    return out
@lib('time::duration::span')
def _span(ex, st, fr, a, site, ty, f):
    out = []
    for s, v in ex.call_value(st, fr, a[0], [], site):
        s.event('timed', v); out.append((s, fresh('duration')))
    return out
@lib('rand::thread_rng', 'time::get_time', 'std::hash::random::new', 'core::hash::BuildHasherDefault::default')
def _rng(ex, st, fr, a, site, ty, f): return [(st, fresh('env') if 'hash' not in f.a[0] else app('hasher0'))]

# Option
OPTM = {}
def optm(*names):
    def d(fn):
        for n in names: OPTM[n] = fn
        return fn
    return d
def O(ex, st, a): return split_opt(ex, st, val(ex, st, a))
@optm('as_ref', 'cloned', 'copied', 'clone', 'as_deref', 'to_owned', 'iter')
def _o_id(ex, st, fr, a, site, ty, f): return [(st, val(ex, st, a[0]))] if f.a[0].split('::')[-1] != 'iter' else into_iter(ex, st, fr, val(ex, st, a[0]), ('adt', OPT, ()), site)
@optm('as_mut')
def _o_asmut(ex, st, fr, a, site, ty, f):
    if a[0].op != 'mref': return None
    out = []
    for s, k, x in O(ex, st, a[0]):
        out.append((s, some(mk('mref', a[0].a[0], a[0].a[1] + (('f', OPT, 1, 0, 1),))) if k else none()))
    return out
@optm('is_some')
def _o_iss(ex, st, fr, a, site, ty, f):
    t = val(ex, st, a[0]); reg(t); return [(st, isvar(t, 1) if not_ite(t) else bnot(iso(t)))]
@optm('is_none')
def _o_isn(ex, st, fr, a, site, ty, f):
    t = val(ex, st, a[0]); reg(t); return [(st, bnot(isvar(t, 1)) if not_ite(t) else iso(t))]
def not_ite(t): return t.op != 'ite'
def iso(t):
    if t.op == 'ite': return ite(t.a[0], iso(t.a[1]), iso(t.a[2]))
    return bnot(isvar(t, 1))
def reg(t):
    TYPED_default(t, ('adt', OPT, ()))
    dom.NULLARY[(t, 0)] = OPT
@optm('unwrap', 'expect', 'unwrap_unchecked')
def _o_unwrap(ex, st, fr, a, site, ty, f):
    out = []
    for s, k, x in O(ex, st, a[0]):
        if k: out.append((s, x))
        else: ex.panic(s, 'unwrap of None' + (':' + a[1].a[0] if len(a) > 1 and a[1].op == 'str' else ''), *site)
    return out
@optm('unwrap_or')
def _o_uor(ex, st, fr, a, site, ty, f): return [(s, x if k else a[1]) for s, k, x in O(ex, st, a[0])]
@optm('unwrap_or_default')
def _o_uod(ex, st, fr, a, site, ty, f):
    d = default_of(ex, st, f.a[1][0])
    return [(s, x if k else d) for s, k, x in O(ex, st, a[0])] if d is not None else None
@optm('unwrap_or_else')
def _o_uoe(ex, st, fr, a, site, ty, f):
    out = []
    for s, k, x in O(ex, st, a[0]):
        if k: out.append((s, x))
        else: out += ex.call_value(s, fr, a[1], [], site)
    return out
@optm('map')
def _o_map(ex, st, fr, a, site, ty, f):
    out = []
    for s, k, x in O(ex, st, a[0]):
        if k: out += [(s2, some(v)) for s2, v in ex.call_value(s, fr, a[1], [x], site)]
        else: out.append((s, none()))
    return out
@optm('and_then')
def _o_and(ex, st, fr, a, site, ty, f):
    out = []
    for s, k, x in O(ex, st, a[0]):
        if k: out += ex.call_value(s, fr, a[1], [x], site)
        else: out.append((s, none()))
    return out
@optm('map_or')
def _o_mapor(ex, st, fr, a, site, ty, f):
    out = []
    for s, k, x in O(ex, st, a[0]):
        if k: out += ex.call_value(s, fr, a[2], [x], site)
        else: out.append((s, a[1]))
    return out
@optm('map_or_else')
def _o_mapore(ex, st, fr, a, site, ty, f):
    out = []
    for s, k, x in O(ex, st, a[0]):
        if k: out += ex.call_value(s, fr, a[2], [x], site)
        else: out += ex.call_value(s, fr, a[1], [], site)
    return out
@optm('is_some_and')
def _o_isa(ex, st, fr, a, site, ty, f):
    out = []
    for s, k, x in O(ex, st, a[0]):
        if k: out += ex.call_value(s, fr, a[1], [x], site)
        else: out.append((s, FALSE))
    return out
@optm('is_none_or')
def _o_ino(ex, st, fr, a, site, ty, f):
    out = []
    for s, k, x in O(ex, st, a[0]):
        if k: out += ex.call_value(s, fr, a[1], [x], site)
        else: out.append((s, TRUE))
    return out
@optm('filter')
def _o_filter(ex, st, fr, a, site, ty, f):
    out = []
    for s, k, x in O(ex, st, a[0]):
        if not k: out.append((s, none())); continue
        for s2, b in ex.call_value(s, fr, a[1], [x], site):
            for s3, bb in branch(s2, b): out.append((s3, some(x) if bb else none()))
    return out
@optm('or')
def _o_or(ex, st, fr, a, site, ty, f): return [(s, some(x) if k else a[1]) for s, k, x in O(ex, st, a[0])]
@optm('and')
def _o_andv(ex, st, fr, a, site, ty, f): return [(s, a[1] if k else none()) for s, k, x in O(ex, st, a[0])]
@optm('or_else')
def _o_orelse(ex, st, fr, a, site, ty, f):
    out = []
    for s, k, x in O(ex, st, a[0]):
        if k: out.append((s, some(x)))
        else: out += ex.call_value(s, fr, a[1], [], site)
    return out
@optm('take')
def _o_take(ex, st, fr, a, site, ty, f):
    if a[0].op != 'mref': return None
    v = ex.load(st, a[0]); ex.store(st, a[0], none()); return [(st, v)]
@optm('replace')
def _o_replace(ex, st, fr, a, site, ty, f):
    if a[0].op != 'mref': return None
    v = ex.load(st, a[0]); ex.store(st, a[0], some(a[1])); return [(st, v)]
@optm('zip')
def _o_zip(ex, st, fr, a, site, ty, f):
    out = []
    for s, k, x in O(ex, st, a[0]):
        if not k: out.append((s, none())); continue
        for s2, k2, y in split_opt(ex, s, a[1]): out.append((s2, some(tup(x, y)) if k2 else none()))
    return out
@optm('ok_or')
def _o_okor(ex, st, fr, a, site, ty, f):
    return [(s, adt(RESULT, 0, (x,)) if k else adt(RESULT, 1, (a[1],))) for s, k, x in O(ex, st, a[0])]

RESM = {}
def _r_unwrap(ex, st, fr, a, site, ty, f):
    out = []
    for s, k, x in split_opt(ex, st, val(ex, st, a[0]), RESULT):
        if k == 0: out.append((s, x))
        else: ex.panic(s, 'unwrap of Err', *site)
    return out
RESM['unwrap'] = RESM['expect'] = _r_unwrap
RESM['ok'] = lambda ex, st, fr, a, site, ty, f: [(s, some(x) if k == 0 else none()) for s, k, x in split_opt(ex, st, val(ex, st, a[0]), RESULT)]

# Vec / slices
VEC = {}
def vec(*names):
    def d(fn):
        for n in names: VEC[n] = fn
        return fn
    return d
def V(ex, st, a): return as_seq(val(ex, st, a))
@vec('new', 'with_capacity')
def _v_new(ex, st, fr, a, site, ty, f): return [(st, NIL)]
@vec('len')
def _v_len(ex, st, fr, a, site, ty, f): return [(st, length(V(ex, st, a[0])))]
@vec('is_empty')
def _v_empty(ex, st, fr, a, site, ty, f):
    return [(st, eqi(length(V(ex, st, a[0])), num(0)))]
@vec('capacity')
def _v_cap(ex, st, fr, a, site, ty, f): return [(st, fresh('capacity'))]
@vec('reserve', 'shrink_to_fit', 'reserve_exact')
def _v_noop(ex, st, fr, a, site, ty, f): return [(st, UNIT)]
@vec('push')
def _v_push(ex, st, fr, a, site, ty, f):
    if a[0].op != 'mref': return None
    ex.store(st, a[0], cat(V(ex, st, a[0]), unit(a[1]))); return [(st, UNIT)]
@vec('pop')
def _v_pop(ex, st, fr, a, site, ty, f):
    if a[0].op != 'mref': return None
    out = []
    for s, e in split_empty(ex, st, V(ex, st, a[0])):
        if e: out.append((s, none())); continue
        v = st_norm(s, V(ex, s, a[0]))
        ex.store(s, a[0], as_seq(s_init(v))); out.append((s, some(s_last(v))))
    return out
def _firstlast(which):
    def g(ex, st, fr, a, site, ty, f):
        out = []
        for s, e in split_empty(ex, st, V(ex, st, a[0])):
            v = st_norm(s, V(ex, s, a[0]))
            out.append((s, none() if e else some((s_first if which == 'first' else s_last)(v))))
        return out
    return g
VEC['first'] = _firstlast('first'); VEC['last'] = _firstlast('last')
@vec('iter_mut')
def _v_mut(ex, st, fr, a, site, ty, f): return None
@vec('first_mut', 'last_mut', 'get_mut')
def _v_mut1(ex, st, fr, a, site, ty, f):
    if a[0].op != 'mref' or len(a) > 1 and a[1].op == 'adt': return None
    out = []; which = f.a[0].split('::')[-1]
    v = st_norm(st, V(ex, st, a[0]))
    i = a[1] if which == 'get_mut' else num(0) if which == 'first_mut' else lin_add(length(v), num(-1))
    for s, ok in branch(st, bnot(ge(i, length(v))) if which == 'get_mut' else ge(length(v), num(1))):
        out.append((s, some(elem_ref(a[0], i)) if ok else none()))
    return out
@vec('get')
def _v_get(ex, st, fr, a, site, ty, f):
    v = V(ex, st, a[0]); i = a[1]
    if i.op == 'adt': return None
    out = []
    for s, b in branch(st, bnot(ge(i, length(v)))): out.append((s, some(seq_index(ex, s, v, i)) if b else none()))
    return out
@vec('extend_from_slice')
def _v_ext(ex, st, fr, a, site, ty, f):
    if a[0].op != 'mref': return None
    ex.store(st, a[0], cat(V(ex, st, a[0]), V(ex, st, a[1]))); return [(st, UNIT)]
@vec('append')
def _v_app(ex, st, fr, a, site, ty, f):
    if a[0].op != 'mref' or a[1].op != 'mref': return None
    ex.store(st, a[0], cat(V(ex, st, a[0]), V(ex, st, a[1]))); ex.store(st, a[1], NIL); return [(st, UNIT)]
@vec('reverse')
def _v_rev(ex, st, fr, a, site, ty, f):
    if a[0].op != 'mref': return None
    ex.store(st, a[0], rev(V(ex, st, a[0]))); return [(st, UNIT)]
@vec('clear')
def _v_clear(ex, st, fr, a, site, ty, f):
    ex.store(st, a[0], NIL); return [(st, UNIT)]
@vec('truncate')
def _v_trunc(ex, st, fr, a, site, ty, f):
    v = V(ex, st, a[0]); out = []
    for s, b in branch(st, ge(length(v), a[1])):
        if b: ex.store(s, a[0], as_seq(s_take(v, a[1])))
        out.append((s, UNIT))
    return out
@vec('insert')
def _v_ins(ex, st, fr, a, site, ty, f):
    v = V(ex, st, a[0])
    if a[1] is num(0): r = cat(unit(a[2]), v)
    elif a[1] is length(v): r = cat(v, unit(a[2]))
    else: r = cat(s_take(v, a[1]), unit(a[2]), s_drop(v, a[1]))
    out = []
    for s, b in branch(st, ge(length(v), a[1])):
        if b: ex.store(s, a[0], r); out.append((s, UNIT))
        else: ex.panic(s, 'insertion index out of bounds', *site)
    return out
@vec('remove', 'swap_remove')
def _v_rem(ex, st, fr, a, site, ty, f):
    v = V(ex, st, a[0])
    out = []
    for s, b in branch(st, bnot(ge(a[1], length(v)))):
        if not b: ex.panic(s, 'removal index out of bounds', *site); continue
        v2 = st_norm(s, v)
        if a[1] is num(0) and f.a[0].endswith('::remove'): ex.store(s, a[0], as_seq(s_tail(v2))); out.append((s, s_first(v2)))
        elif a[1] is lin_add(length(v), num(-1)): ex.store(s, a[0], as_seq(s_init(v2))); out.append((s, s_last(v2)))
        elif f.a[0].endswith('::remove'):
            ex.store(s, a[0], cat(as_seq(s_take(v2, a[1])), as_seq(s_drop(v2, lin_add(a[1], num(1)))))); out.append((s, seq_index(ex, s, v2, a[1])))
        else:
            s.mark('elements put in another place')
            ex.store(s, a[0], app('removed', v2, a[1])); out.append((s, app('nth', v2, a[1])))
    return out
@vec('split_at')
def _v_splitat(ex, st, fr, a, site, ty, f):
    v = V(ex, st, a[0]); out = []
    for s, b in branch(st, ge(length(v), a[1])):
        if b: out.append((s, tup(as_seq(s_take(v, a[1])), as_seq(s_drop(v, a[1])))))
        else: ex.panic(s, 'split_at out of bounds', *site)
    return out
@vec('split_off')
def _v_splitoff(ex, st, fr, a, site, ty, f):
    v = V(ex, st, a[0]); out = []
    for s, b in branch(st, ge(length(v), a[1])):
        if b:
            ex.store(s, a[0], as_seq(s_take(v, a[1]))); out.append((s, as_seq(s_drop(v, a[1]))))
        else: ex.panic(s, 'split_off out of bounds', *site)
    return out
@vec('split_first', 'split_last')
def _v_splitfl(ex, st, fr, a, site, ty, f):
    out = []
    fst = f.a[0].endswith('split_first')
    for s, e in split_empty(ex, st, V(ex, st, a[0])):
        v = st_norm(s, V(ex, s, a[0]))
        out.append((s, none() if e else some(tup(s_first(v), as_seq(s_tail(v))) if fst else tup(s_last(v), as_seq(s_init(v))))))
    return out
@vec('drain')
def _v_drain(ex, st, fr, a, site, ty, f):
    if a[1].op == 'adt' and a[1].a[0].endswith('RangeFull'):
        v = V(ex, st, a[0]); ex.store(st, a[0], NIL); return [(st, IT(v))]
    return None
@vec('iter', 'as_slice', 'to_vec', 'into_vec', 'into_boxed_slice', 'as_mut_slice', 'to_owned', 'as_ref', 'deref', 'clone', 'into_iter', 'as_ref')
def _v_iter(ex, st, fr, a, site, ty, f):
    n = f.a[0].split('::')[-1]
    if n == 'as_mut_slice': return [(st, a[0])]
    v = V(ex, st, a[0])
    return [(st, IT(v) if n in ('iter', 'into_iter') else v)]
@vec('deref_mut')
def _v_dm(ex, st, fr, a, site, ty, f): return [(st, a[0])]
@vec('concat')
def _v_concat(ex, st, fr, a, site, ty, f):
    v = V(ex, st, a[0])
    if all(k == 'e' for k, _ in pieces(v)): return [(st, cat(*[x for _, x in pieces(v)]))]
    return None
@vec('contains')
def _v_contains(ex, st, fr, a, site, ty, f):
    b = app('contains', V(ex, st, a[0]), val(ex, st, a[1]))
    import interp; interp.BOOL_TERMS.add(b)
    return [(st, b)]
@vec('swap')
def _v_swapel(ex, st, fr, a, site, ty, f):
    st.mark('elements put in another place')
    ex.store(st, a[0], app('swapped', V(ex, st, a[0]), a[1], a[2])); return [(st, UNIT)]
LIB['alloc::boxed::box_assume_init_into_vec_unsafe'] = lambda ex, st, fr, a, site, ty, f: [(st, val(ex, st, a[0]))]
LIB['alloc::boxed::into_vec'] = _ident
LIB['alloc::slice::into_vec'] = _ident
LIB['alloc::slice::hack::into_vec'] = _ident
def _newuninit(ex, st, fr, a, site, ty, f):
    import interp
    return [(st, interp.mref(interp.new_cell(st, mk('bot', 'uninitialised'))))]
LIB['alloc::boxed::new_uninit'] = _newuninit
LIB['alloc::string::String::new'] = lambda ex, st, fr, a, site, ty, f: [(st, mk('str', '""'))]

# HashMap
HMAP = {}
def hmap(*names):
    def d(fn):
        for n in names: HMAP[n] = fn
        return fn
    return d
@hmap('new', 'with_capacity', 'with_hasher', 'default')
def _h_new(ex, st, fr, a, site, ty, f): return [(st, HM0)]
@hmap('insert')
def _h_ins(ex, st, fr, a, site, ty, f):
    if a[0].op != 'mref': return None
    m = ex.load(st, a[0])
    v = a[2] if len(a) > 2 else UNIT
    ex.store(st, a[0], hm_ins(m, a[1], v))
    return [(st, hm_get(m, a[1]))]
@hmap('get', 'get_mut')
def _h_get(ex, st, fr, a, site, ty, f):
    if f.a[0].endswith('get_mut'): return None
    return [(st, hm_get(val(ex, st, a[0]), val(ex, st, a[1])))]
@hmap('contains_key', 'contains')
def _h_ck(ex, st, fr, a, site, ty, f):
    t = hm_get(val(ex, st, a[0]), val(ex, st, a[1])); reg(t)
    return [(st, isvar(t, 1))]
@hmap('keys', 'into_keys')
def _h_keys(ex, st, fr, a, site, ty, f): return [(st, IT(as_seq(hm_keys(val(ex, st, a[0])))))]
@hmap('iter', 'into_iter')
def _h_iter(ex, st, fr, a, site, ty, f): return [(st, IT(hm_entries(val(ex, st, a[0]))))]
@hmap('len')
def _h_len(ex, st, fr, a, site, ty, f):
    m = val(ex, st, a[0])
    if m.op == 'adt' and m.a[0] == 'it:seq': return [(st, length(m.a[2][0]))]
    return [(st, hm_len(m))]
@hmap('is_empty')
def _h_isempty(ex, st, fr, a, site, ty, f): return [(st, eqi(hm_len(val(ex, st, a[0])), num(0)))]
@hmap('remove')
def _h_rem(ex, st, fr, a, site, ty, f):
    m = ex.load(st, a[0]); k = val(ex, st, a[1])
    ex.store(st, a[0], app('hm_del', m, k)); return [(st, hm_get(m, k))]

NUM = {}
def _n(name):
    def d(fn): NUM[name] = fn; return fn
    return d
@_n('saturating_sub')
def _ssub(ex, st, fr, a, site, ty, f): return [(s, lin_add(a[0], a[1], -1) if b else num(0)) for s, b in branch(st, ge(a[0], a[1]))]
@_n('checked_sub')
def _csub(ex, st, fr, a, site, ty, f): return [(s, some(lin_add(a[0], a[1], -1)) if b else none()) for s, b in branch(st, ge(a[0], a[1]))]
@_n('wrapping_add')
def _wadd(ex, st, fr, a, site, ty, f): return [(st, lin_add(a[0], a[1]))]
NUM['saturating_add'] = NUM['wrapping_add']
NUM['checked_add'] = lambda ex, st, fr, a, site, ty, f: [(st, some(lin_add(a[0], a[1])))]
NUM['max'] = lambda ex, st, fr, a, site, ty, f: order(ex, st, 'max', ('prim', 'usize'), a)
NUM['min'] = lambda ex, st, fr, a, site, ty, f: order(ex, st, 'min', ('prim', 'usize'), a)
NUM['cmp'] = lambda ex, st, fr, a, site, ty, f: order(ex, st, 'cmp', ('prim', 'usize'), a)
NUM['max_value'] = _maxv
import bits as _bits
def _width(f):
    p = f.a[0] if isinstance(f.a[0], str) else str(f.a)
    for n in ('128', '64', '32', '16', '8'):
        if 'impl u' + n in p or 'impl i' + n in p: return int(n)
    return 64
def _count(kind):
    def m(ex, st, fr, a, site, ty, f):
        x = st_norm(st, val(ex, st, a[0])); w = _width(f)
        lo, hi, exact = _bits.count_range(kind, x, w)
        if lo == hi: return [(st, num(lo))]
        r = app('num:' + kind, x) if not exact else fresh('bits')
        if not exact: st.mark('bits of a value that is not tracked')
        st.facts.assume(ge(r, num(lo))); st.facts.assume(ge(num(hi), r))
        return [(st, r)]
    return m
for _k in _bits.COUNTS: NUM[_k] = _count(_k)
NUM['min_value'] = _minv

# ---------------------------------------------------------------- derived impls
def derived(ex, st, fn, trait, method, args):
    if method in ('eq', 'ne'):
        r = eq_values(ex, st, val(ex, st, args[0]), val(ex, st, args[1]))
        return [(st, r if method == 'eq' else bnot(r))]
    if method == 'clone': return [(st, val(ex, st, args[0]))]
    if method in ('fmt',): return [(st, adt(RESULT, 0, (UNIT,)))]
    if method == 'hash':
        h = args[1]
        if h.op == 'mref': ex.store(st, h, app('hashed', ex.load(st, h), val(ex, st, args[0])))
        return [(st, UNIT)]
    if method in ('partial_cmp', 'cmp'):
        return None
    return None
