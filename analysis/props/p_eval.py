"""C31 the evaluation harness: building, editing, computing."""
from spec import *
from words import *
import theory, interp
from interp import mref

EV = 'eval::eval_vec::EvalVec'
def V(t, m): return '<eval_vec::EvalVec as primitives::%s>::%s' % (t, m)
def vec_of(e): return fld(e, EV, 0, 0)
def pair(o, i): return fld(o.val, 'tup', 0, i)
def walk(live):
    """every live value and the parts of structs, whatever their type"""
    seen = set()
    def go(key, t, d):
        yield key, t
        if t.op == 'adt' and d and not t.a[0].startswith('it:'):
            for i, x in enumerate(t.a[2]): yield from go(key + (i,), x, d - 1)
        elif t.op == 'clo' and d:
            for i, x in enumerate(t.a[1]): yield from go(key + (i,), x, d - 1)
    for key, ty, t in live:
        for k, x in go(tuple(key), t, 4):
            if k not in seen: seen.add(k); yield k, x, ty
def templates(ex, s, live):
    """what has been moved over so far, followed by what is still to come"""
    vs, its, ns = [], [], []
    for k, t, ty in walk(live):
        if t.op == 'adt' and t.a[0] == 'it:seq': its.append((k, t.a[2][0]))
        elif t.op == 'seq' or t in SEQ_TERMS: vs.append((k, t))
        elif t.op == 'app' and t.a[0] == 'op:Rem': ns.append((k, t))
    out = []
    for k, v in vs:
        for j, w in its: out.append((('AP', k, j), cat(v, w)))
        for m, n in ns:
            out.append((('TK', k, m), as_seq(s_take(v, n))))
            for j, w in its: out += [(('IR', k, j, m), cat(rev(w), as_seq(s_drop(v, n)))), (('IF', k, j, m), cat(w, as_seq(s_drop(v, n))))]
    return out
def candidates(ex, s, live):
    vs, ns = set(), set()
    for k, t, ty in walk(live):
        if t.op == 'app' and t.a[0] == 'op:Rem': ns.add(t)
        elif t in SEQ_TERMS: vs.add(t)
    return [ge(length(v), n) for v in vs for n in ns]
def as_seq(t): SEQ_TERMS.add(t); return t
def setup(S):
    S.opts.update(templates=templates, candidates=candidates)
def is_drawn(k, x):
    if k == 'e': return x.op == 'sym' and x.a[0].startswith('rand') or x.op == 'app' and x.a[0] in ('first', 'last', 'nth') and is_drawn('s', x.a[1][0])
    while x.op == 'app' and x.a[0] in ('take', 'drop', 'tail', 'init', 'rev'): x = x.a[1][0]
    return x.op == 'app' and x.a[0] == 'randoms'
def distinct(w):
    """no drawn value used twice"""
    es = [x for k, x in pieces(w)]
    return len(es) == len(set(es))
def batch(o, old, new, n, end=False):
    """new is old with n freshly drawn elements at one place"""
    f = o.st.facts; c = theory.canon(f, new)
    was = pieces(theory.canon(f, old))
    is_new = lambda p: is_drawn(*p) and p not in was
    ps = pieces(c); d = [i for i, p in enumerate(ps) if is_new(p)]
    if end and d: d = [i for i in d if i >= min(j for j in range(len(ps) + 1) if all(is_new(p) for p in ps[j:]))]
    if d:
        b = seq(ps[d[0]:d[-1] + 1]); rest = seq(ps[:d[0]] + ps[d[-1] + 1:])
    else: b, rest = NIL, c
    if theory.equal(f, rest, old) and all(is_new(p) for p in pieces(b)):
        if not distinct(b): return False, 'a drawn element is used twice: ' + show(b)
        return [(length(b), n, 'number of new elements')]
    for lhs, rhs in list(f.words):
        for w in (lhs, rhs):
            if w.op == 'app' and w.a[0] == 'take' and w.a[1][0] is old:
                i = w.a[1][1]
                if theory.equal(f, as_seq(s_take(new, i)), as_seq(s_take(old, i))) is not True: continue
                e = theory.canon(f, as_seq(s_drop(new, i)))
                qs = pieces(e); k = 0
                while k < len(qs) and is_drawn(*qs[k]): k += 1
                if k and theory.equal(f, seq(qs[k:]), as_seq(s_drop(old, i))): return [(length(seq(qs[:k])), n, 'number of new elements')]
    return False, '%s is not %s with one batch of new elements%s' % (show(c), show(theory.canon(f, old)), ' at the end' if end else '')
def as_seq(t): SEQ_TERMS.add(t); return t
def ordered(f, v):
    """v as max chosen by the program: (a, b) with a >= b known"""
    pass
@obligation('C31')
def vec_build(S):
    setup(S)
    g = S.symbol('coord'); d = S.symbol('data', ('adt', 'alloc::vec::Vec', ())); SEQ_TERMS.add(d)
    r = S.run(V('CreateEmpty<G>', 'inc_empty')); S.each(r, 'starts empty', lambda o: [(vec_of(pair(o, 1)), NIL)]); S.no_panic(r, 'no panic')
    r = S.run(V('CreateFrom<std::vec::Vec<E>, G>', 'inc_from'), [d]); S.each(r, 'holds the data given', lambda o: [(vec_of(pair(o, 1)), d)]); S.no_panic(r, 'no panic')
    r = S.run(V('CreateInc<G>', 'inc_init')); n = r.args[0]
    S.each(r, 'holds the number of elements asked for', lambda o: batch(o, NIL, vec_of(pair(o, 1)), n)); S.no_panic(r, 'no panic')
@obligation('C31')
def vec_edit(S):
    setup(S)
    v = S.symbol('vec', ('adt', 'alloc::vec::Vec', ())); g = S.symbol('coord'); e = adt(EV, 0, (v, g)); SEQ_TERMS.add(v)
    for t, m in (('EditExtend', 'extend'), ('EditAppend', 'append'), ('EditInsert', 'insert')):
        r = S.run(V(t, m), [e], pre=(lambda st: st.facts.assume(bnot(eqi(length(v), num(0))))) if m == 'insert' else None); n = r.args[1]
        S.each(r, 'adds one batch of that size' + (' at the end' if m != 'insert' else ''), lambda o: batch(o, v, vec_of(pair(o, 1)), n, m != 'insert'))
        S.no_panic(r, 'no panic')
@obligation('C31')
def vec_compute(S):
    setup(S)
    v = S.symbol('vec', ('adt', 'alloc::vec::Vec', ())); g = S.symbol('coord'); e = adt(EV, 0, (v, g)); SEQ_TERMS.add(v)
    r = S.run(V('CompMax', 'comp_max'), [e])
    def mx(o):
        x, want = pair(o, 1), app('seq_max', v)
        if theory.equal(o.st.facts, x, want): return True
        if o.st.facts.norm(v) is NIL: return [(x, none())]
        if o.st.facts.decide(bnot(eqi(length(v), num(0)))) is not True: o.st.mark('of a vector that may be empty')
        if not contains(x, lambda y: y.op == 'app' and y.a[0] in ('seq_max', 'seq_min')) and not (x.op == 'adt' and x.a[1] == 0): o.st.mark('computed in another way')
        return False, 'computed %s' % show(x)
    S.each(r, 'the largest element', mx); S.no_panic(r, 'no panic')
    r = S.run(V('CompRev', 'comp_rev'), [e]); S.each(r, 'the elements in reverse order', lambda o: [(pair(o, 1), rev(v))]); S.no_panic(r, 'no panic')
    r = S.run(V('CompNative<O>', 'comp_native'), [e]); S.each(r, 'the function applied to the whole vector', lambda o: [(pair(o, 1), call(r.args[1], v))]); S.no_panic(r, 'no panic')
    r = S.run(V('CompMap<E, O, F>', 'comp_map'), [e]); S.each(r, 'the function applied to each element in order', lambda o: [(pair(o, 1), s_map(r.args[1], v))]); S.no_panic(r, 'no panic')
    for t, m in (('CompFold<E, O, F>', 'comp_fold'), ('CompFoldMeta<E, O, M, F, N>', 'comp_fold_meta')):
        r = S.run(V(t, m), [e]); S.each(r, 'a left to right fold from the value given', lambda o: [(pair(o, 1), foldl(r.args[2], r.args[1], v))]); S.no_panic(r, 'no panic')

# ---- the two raz harnesses, over what the operations of a raz do (C05, C06, C11 to C17, C20)
RAZ_, TREE_ = 'spec:raz', 'spec:tree'     # (left, right, archive points made, current section on the left, on the right) / (elements, archive points)
theory.SINGLE |= {RAZ_, TREE_}
def rz(l, r, m, c, d=NIL): return adt(RAZ_, 0, (l, r, m, c, d))
def part(t, i):
    w = fld(t, t.a[0] if t.op == 'adt' else RAZ_, 0, i); SEQ_TERMS.add(w); return w
def tword(t, i=0):
    w = fld(t, TREE_, 0, i); SEQ_TERMS.add(w); return w
def keyed():
    def new(ex, st, fr, a, site, sub): return [(st, rz(NIL, NIL, NIL, NIL))]
    def push(left):
        def c(ex, st, fr, a, site, sub):
            if a[0].op != 'mref': return None
            z = ex.load(st, a[0]); l, r, m, k, d = (part(z, i) for i in range(5)); x = unit(a[1])
            if left: n = rz(cat(l, x), r, m, cat(k, x), d)
            else: n = rz(l, cat(x, r), m, k, cat(d, x))
            ex.store(st, a[0], n); return [(st, length(part(n, 3 if left else 4)))]
        return c
    def archive(left):
        def c(ex, st, fr, a, site, sub):
            if a[0].op != 'mref': return None
            z = ex.load(st, a[0]); l, r, m, k, d = (part(z, i) for i in range(5)); out = []
            for b in (True, False):
                s = st.copy()
                try: s.facts.assume(eqi(length(k if left else d), num(0)), b)
                except Infeasible: continue
                if not b: ex.store(s, a[0], rz(l, r, cat(m, unit(tup(length(l), a[1], a[2]))), NIL if left else k, d if left else NIL))
                out.append((s, UNIT))
            return out
        return c
    def pop(left):
        def c(ex, st, fr, a, site, sub):
            if a[0].op != 'mref': return None
            z = ex.load(st, a[0]); l, r, m, k, d = (part(z, i) for i in range(5)); out = []
            for b in (True, False):
                s = st.copy()
                try: s.facts.assume(eqi(length(l if left else r), num(0)), b)
                except Infeasible: continue
                if b: out.append((s, none())); continue
                w = s.facts.norm(l if left else r); n = length(w); m2, k2 = fresh('points'), fresh('section'); SEQ_TERMS.update((m2, k2))
                if left: x = s_last(w); y = rz(s_init(w), r, m2, k2, d)
                else: x = s_first(w); y = rz(l, s_tail(w), m2, k, k2)
                ex.store(s, a[0], y); out.append((s, some(x)))
            return out
        return c
    def peek(left):
        def c(ex, st, fr, a, site, sub):
            z = ex.load(st, a[0]) if a[0].op == 'mref' else a[0]; w = part(z, 0 if left else 1); out = []
            for b in (True, False):
                s = st.copy()
                try: s.facts.assume(eqi(length(w), num(0)), b)
                except Infeasible: continue
                v = s.facts.norm(w); out.append((s, none() if b else some(s_last(v) if left else s_first(v))))
            return out
        return c
    def unfocus(ex, st, fr, a, site, sub):
        z = a[0]; return [(st, adt(TREE_, 0, (cat(part(z, 0), part(z, 1)), part(z, 2))))]
    def meta(ex, st, fr, a, site, sub):
        t = ex.load(st, a[0]) if a[0].op == 'mref' else a[0]
        if ex.opts['harness'] == 'IRaz': return [(st, adt('iodyn::raz_meta::Count', 0, (length(tword(t)),)))]
        return [(st, adt('iodyn::raz_meta::Names', 0, (app('names_of', tword(t)),)))]
    def focus(ex, st, fr, a, site, sub):
        w, i = tword(a[0]), a[1]; out = []
        def z(s, l, r): c, d = fresh('section'), fresh('section'); SEQ_TERMS.update((c, d)); out.append((s, some(rz(l, r, NIL, NIL if l is NIL else c, NIL if r is NIL else d))))
        if ex.opts['harness'] == 'IRaz':
            if i.op == 'int' and i.a[0] >= 2 ** 32 - 1: z(st, w, NIL); return out     # the end marker
            for b in (True, False):
                s = st.copy()
                try: s.facts.assume(ge(length(w), i), b)
                except Infeasible: continue
                if b: z(s, as_seq(s_take(w, i)), as_seq(s_drop(w, i)))
                else: out.append((s, none()))
            return out
        v = None
        if i.op == 'adt':
            # the position enumeration: its variants as the library names them
            vs = ex.prog.adts.get(i.a[0])
            v = vs['variants'][i.a[1]]['name'] if vs else None
        if v == 'Right': z(st, w, NIL)
        elif v == 'Left': z(st, NIL, w)
        else:
            n = fresh('at'); st.facts.assume(ge(n, num(0))); st.facts.assume(ge(length(w), n))
            z(st, as_seq(s_take(w, n)), as_seq(s_drop(w, n)))
            if not contains(i, lambda y: y.op == 'app' and y.a[0] == 'names_of'): st2 = st.copy(); out.append((st2, none()))
        return out
    def focus_left(ex, st, fr, a, site, sub): d = fresh('section'); SEQ_TERMS.add(d); return [(st, rz(NIL, tword(a[0]), NIL, NIL, d))]
    def memo_from(ex, st, fr, a, site, sub):
        x = ex.load(st, a[0]) if a[0].op == 'mref' else a[0]
        return [(st, adt(TREE_, 0, (as_seq(app('stack_word', x)), NIL)))]
    def clone(ex, st, fr, a, site, sub): return [(st, ex.load(st, a[0]) if a[0].op == 'mref' else a[0])]
    def op(name):
        def c(ex, st, fr, a, site, sub):
            x = fresh('result'); st.event('compute', name, tuple(a), x); return [(st, x)]
        return c
    d = {'raz::Raz::new': new, 'raz::Raz::push_left': push(True), 'raz::Raz::push_right': push(False), 'raz::Raz::archive_left': archive(True), 'raz::Raz::archive_right': archive(False), 'raz::Raz::pop_left': pop(True), 'raz::Raz::pop_right': pop(False), 'raz::Raz::peek_left': peek(True), 'raz::Raz::peek_right': peek(False),
         'raz::RazTree::focus_left': focus_left,
         'raz::Raz::unfocus': unfocus,
         'raz::RazTree::meta': meta, 'raz::RazTree::focus': focus, 'raz::RazTree::empty': lambda ex, st, fr, a, site, sub: [(st, adt(TREE_, 0, (NIL, NIL)))],
         'tree_cursor::gen_level': lambda ex, st, fr, a, site, sub: [(st, fresh('level'))]}
    for m in ('fold_up', 'fold_up_nl', 'fold_up_gauged', 'fold_lr', 'fold_lr_meta', 'fold_lr_archive', 'map'): d['raz::RazTree::' + m] = op(m)
    return d, clone, memo_from
def raz_setup(S, which):
    setup(S); S.opts['harness'] = which
    d, clone, memo_from = keyed()
    def other(ex, st, fr, a, site, sub):
        """an operation this check has no summary of"""
        st.mark('raz operation without a summary')
        for x in a:
            if x.op == 'mref': ex.store(st, x, fresh('havoc'))
        return [(st, fresh('other'))]
    for f in S.prog.fns.values():
        k = f.key
        if not f.path.startswith('iodyn::raz::') or '{closure' in k or k in d: continue
        if k.startswith('<raz::') and k.endswith('Clone>::clone'): d[k] = clone
        elif k.startswith('<raz::RazTree as memo::MemoFrom') and k.endswith('::memo_from'): d[k] = memo_from
        elif 'raz::' in k: d[k] = other
    S.contracts = d
HARN = {'IRaz': ('eval_iraz::EvalIRaz', 'raz::Raz<E, iodyn::raz_meta::Count>', 'raz::RazTree<E, iodyn::raz_meta::Count>'),
        'Names': ('eval_raz_name_index::EvalRazNameIndex', 'raz::Raz<E, iodyn::raz_meta::Names>', 'raz::RazTree<E, iodyn::raz_meta::Names>')}
def H(S, which, trait, m):
    p = '<%s as primitives::' % HARN[which][0]
    c = [k.key for k in S.prog.fns.values() if k.key.startswith(p + trait) and k.key.endswith('>::' + m)]
    return sorted(set(c))
def the_tree(t):
    """the tree a harness holds (its one part that is a raz tree)"""
    found = []
    def f(x):
        if x.op == 'adt' and x.a[0] == TREE_: found.append(x)
        return False
    contains(t, f)
    return found[0] if len(set(found)) == 1 else None
def words(o, i=1):
    t = the_tree(theory.canon(o.st.facts, pair(o, i)))
    return None if t is None else tword(t)
def wsym(S, n):
    w = S.symbol(n, ('adt', 'alloc::vec::Vec', ())); SEQ_TERMS.add(w); return w
def harness(S, which, **kw):
    """an arbitrary harness around a tree; its fields are told apart by what the constructor puts there"""
    p = HARN[which][0]; us, ns_, co = S.symbol('us', ('prim', 'usize')), S.symbol('ns', ('prim', 'usize')), S.symbol('coord0')
    r = S.run(p + '::new', [us, ns_, co])
    if len(r.outs) != 1 or r.outs[0].val.op != 'adt': raise Undecided('constructor of ' + p)
    p = 'eval::' + p; out, gs = [], []
    for (n, t, *_), x in zip(S.prog.adts[p]['variants'][0]['fields'], r.outs[0].val.a[2]):
        if t[0] == 'adt' and t[1] == OPT: y = some(adt(TREE_, 0, (kw['w'], NIL)))
        else: y = kw.get('at') if x is num(0) and kw.get('at') is not None else S.symbol(n, t)
        if x is us or x is ns_: gs.append(y)
        out.append(y)
    def pre(st):
        for g in gs: st.facts.assume(ge(g, num(1)))
        st.facts.assume(bnot(eqi(length(kw['w']), num(0))))
    return adt(p, 0, out), pre
@obligation('C31')
def raz_build(S):
    for w in HARN:
        raz_setup(S, w)
        l, rr, m, k, t = (wsym(S, x) for x in ('left', 'right', 'points', 'section', 'tree'))
        for key, a, want in ((H(S, w, 'CreateEmpty', 'inc_empty'), [], NIL),
                             ([x for x in H(S, w, 'CreateFrom', 'inc_from') if 'raz::Raz<' in x], [rz(l, rr, m, k)], cat(l, rr)),
                             ([x for x in H(S, w, 'CreateFrom', 'inc_from') if 'raz::RazTree<' in x], [adt(TREE_, 0, (t, m))], t),
                             ([x for x in H(S, w, 'CreateFrom', 'inc_from') if 'AtTail<' in x], [], None)):
            if len(key) != 1: raise Missing('%s %d' % (HARN[w][0], len(key)))
            r = S.run(key[0], a)
            S.each(r, 'holds exactly the data given', lambda o: [(words(o), app('stack_word', r.args[0]) if want is None else want)]); S.no_panic(r, 'no panic')
@obligation('C31')
def raz_edit(S):
    for which in HARN:
        raz_setup(S, which)
        w = wsym(S, 'tree'); h, pre = harness(S, which, w=w)
        for t, m in (('EditAppend', 'append'), ('EditInsert', 'insert')):
            def named(st): pre(st); some_name(st, w)
            r = S.run(H(S, which, t, m)[0], [h], pre=named)
            S.each(r, 'adds one batch of that size' + (' at the end' if m == 'append' else ''), lambda o: batch(o, w, words(o), r.args[1], m == 'append'))

def some_name(st, w):
    st.facts.assume(ge(length(app('hm_keys', app('names_of', w))), num(1)))
GAUGES = ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3))
BATCHES = ((1, 1), (3, 2), (4, 3), (0, 7))
def marks_ok(o, ms, start, c0, b, dg, ng, seen):
    """archive points made by an edit of b elements at `start` when c0 elements were edited before"""
    f = o.st.facts; got = pieces(f.norm(ms))
    want = [k for k in range(1, b + 1) if (c0 + k) % dg == 0]
    if any(k != 'e' for k, _ in got): o.st.mark('archive points moved'); return False, 'undetermined archive points ' + show(ms)
    if len(got) != len(want): return False, '%d archive points for %d elements with gauge %d, %d before' % (len(got), b, dg, c0)
    out = []
    for (_, m), k in zip(got, want):
        pos, lev, nm = (fld(m, 'tup', 0, i) for i in range(3))
        out.append((pos, lin_add(start, num(k)), 'place of the archive point'))
        named = (c0 + k) % (dg * ng) == 0; v = f.variant(nm)
        if v is None: return False, 'undetermined name'
        if bool(v) != named: return False, 'archive point after element %d is %snamed (gauges %d, %d)' % (c0 + k, '' if v else 'not ', dg, ng)
        if v:
            n = theory.canon(f, payload(nm))
            if n in seen: return False, 'the name %s is used twice' % show(n)
            seen.add(n)
    return out
@obligation('C31')
def raz_gauges(S):
    """bounded compositions of calls with given gauges and batch sizes; elements, levels and places symbolic"""
    for which in HARN:
        raz_setup(S, which)
        rng = lambda st: mref(interp.new_cell(st, sym('rng', '')))
        for m, t in (('append', 'EditAppend'), ('insert', 'EditInsert')):
            for dg, ng in GAUGES:
                for b1, b2 in BATCHES:
                    w = wsym(S, 'tree'); key = H(S, which, t, m)[0]
                    frm = [x for x in H(S, which, 'CreateFrom', 'inc_from') if 'raz::RazTree<' in x][0]
                    def body(call, st):
                        st.facts.assume(bnot(eqi(length(w), num(0)))); some_name(st, w); out = []
                        for s, h in call(frm, st, [adt(TREE_, 0, (w, NIL)), num(dg), num(ng), sym('coord', ''), rng(st)]):
                            for s1, h1 in call(key, s, [fld(h, 'tup', 0, 1), num(b1), rng(s)]):
                                if the_tree(h1): some_name(s1, tword(the_tree(h1)))
                                for s2, h2 in call(key, s1, [fld(h1, 'tup', 0, 1), num(b2), rng(s1)]): out.append((s2, tup(h1, h2)))
                        return out
                    r = S.script(key, body, peel=12)
                    def post(o):
                        t1, t2 = the_tree(fld(o.val, 'tup', 0, 0)), the_tree(fld(o.val, 'tup', 0, 1))
                        if t1 is None or t2 is None: return False, 'no tree'
                        seen = set(); out = []
                        for old, tr, c0, b in ((w, t1, 0, b1), (tword(t1), t2, b1, b2)):
                            x = batch(o, old, tword(tr), num(b), m == 'append')
                            if isinstance(x, tuple): return x
                            ps = pieces(tword(tr))
                            start = length(old)
                            if m == 'insert':
                                d = [i for i, p in enumerate(ps) if is_drawn(*p) and p not in pieces(old)]
                                start = length(seq(ps[:d[0]])) if d else num(0)
                            y = marks_ok(o, tword(tr, 1), start, c0, b, dg, ng, seen)
                            if isinstance(y, tuple): return y
                            out += x + y
                        return out
                    S.each(r, 'gauges %d, %d, batches of %d and %d: one batch each, archive points by the gauges, names used once' % (dg, ng, b1, b2), post)
                    S.no_panic(r, 'gauges %d, %d, batches of %d and %d: no panic' % (dg, ng, b1, b2))
@obligation('C31')
def raz_init(S):
    for which in HARN:
        raz_setup(S, which); key = H(S, which, 'CreateInc', 'inc_init')[0]
        for dg, ng in GAUGES:
            for n in (0, 1, 2, 5, 7):
                def body(call, st): return call(key, st, [num(n), num(dg), num(ng), sym('coord', ''), mref(interp.new_cell(st, sym('rng', '')))])
                r = S.script(key, body, peel=12)
                def post(o):
                    tr = the_tree(o.val)
                    if tr is None: return False, 'no tree'
                    x = batch(o, NIL, tword(tr), num(n))
                    y = marks_ok(o, tword(tr, 1), num(0), 0, n, dg, ng, set())
                    return x if isinstance(x, tuple) else y if isinstance(y, tuple) else x + y
                S.each(r, 'gauges %d, %d, size %d: that many elements, archive points by the gauges, names used once' % (dg, ng, n), post)
                S.no_panic(r, 'gauges %d, %d, size %d: no panic' % (dg, ng, n))

# ---- computations of the raz harnesses: those of the library on the tree held, with the functions given
def computed(o):
    return [e for e in o.st.events if e[0] == 'compute']
def same_fn(o, f, g, n):
    """f and g are the same function of n arguments"""
    if f is g: return True
    xs = [fresh('arg') for _ in range(n)]
    fs = [o.run.ex.load(o.st, f) if f.op == 'mref' else f]
    a, b = o.run.apply(o, f, xs), o.run.apply(o, g, xs)
    if len(a) == 1 and len(b) == 1:
        if a[0].st.taint != o.st.taint: o.st.mark('function value'); return False
        return theory.equal(a[0].st.facts, a[0].val, b[0].val) is True
    o.st.mark('function value with several cases'); return False
def returns_arg(o, f, n, i):
    xs = [fresh('arg') for _ in range(n)]
    return all(theory.equal(q.st.facts, q.val, xs[i]) for q in o.run.apply(o, f, xs))
def is_max(o, f):
    x, y = fresh('arg'), fresh('arg'); qs = o.run.apply(o, f, [x, y])
    for q in qs:
        v = theory.canon(q.st.facts, q.val)
        if v.op == 'app' and v.a[0] in ('max', 'min') and set(v.a[1]) == {x, y}:
            if v.a[0] == 'min': return False
            continue
        d = q.st.facts.decide(ge(x, y) if v is x else ge(y, x)) if v in (x, y) else None
        if d is None: o.st.mark('maximum in another way')
        if d is not True: return False
    return bool(qs)
@obligation('C31')
def raz_compute(S):
    todo = [('CompMax', 'comp_max', 'fold_up', None), ('CompTreeFold<', 'comp_tfold', 'fold_up', (1, 2)), ('CompTreeFoldNL<', 'comp_tfoldnl', 'fold_up_nl', (1, 1, 1)),
            ('CompTreeFoldG<', 'comp_tfoldg', 'fold_up_gauged', (1, 4)), ('CompMap<', 'comp_map', 'map', (1,)), ('CompFold<', 'comp_fold', 'fold_lr_meta', 'fold'),
            ('CompFoldMeta<', 'comp_fold_meta', 'fold_lr_meta', (0, 2, 2)), ('CompFoldArchive<', 'comp_fold_archive', 'fold_lr_archive', (0, 2, 2, 2))]
    for which in HARN:
        raz_setup(S, which)
        for t, m, opn, how in todo:
            key = H(S, which, t, m)
            if not key:
                if which == 'Names' and m in ('comp_tfoldnl', 'comp_tfoldg'): continue
                raise Missing(HARN[which][0] + '::' + m)
            w = wsym(S, 'tree'); h, pre = harness(S, which, w=w)
            r = S.run(key[0], [h], pre=pre)
            def post(o):
                ev = [e for e in computed(o)]; res = pair(o, 1)
                ev = [e for e in ev if theory.equal(o.st.facts, e[3], res) is True]
                if len(ev) != 1: o.st.mark('not one computation of the library'); return False, 'the result is not that of one computation'
                _, name, args, _ = ev[0]
                tr = args[0]
                if theory.equal(o.st.facts, tword(tr) if tr.op == 'adt' else tr, w) is not True: return False, 'computed on another tree'
                a = list(args[1:]); g = list(o.run.args[1:])
                if how is None:
                    if name != opn: o.st.mark('another computation'); return False, name
                    return (returns_arg(o, a[0], 1, 0), 'each element stands for itself') if not returns_arg(o, a[0], 1, 0) else (is_max(o, a[1]), 'the larger of two')
                if how == 'fold':
                    if name not in ('fold_lr', 'fold_lr_meta'): o.st.mark('another computation'); return False, name
                    if theory.equal(o.st.facts, a[0], g[0]) is not True: return False, 'starts from the value given'
                    if not same_fn(o, a[1], g[1], 2): return False, 'folds with the function given'
                    return (name == 'fold_lr' or returns_arg(o, a[2], 2, 0)), 'levels and names are ignored'
                if name != opn: o.st.mark('another computation'); return False, name
                for i, n in enumerate(how):
                    if n == 0:
                        if theory.equal(o.st.facts, a[i], g[i]) is not True: return False, 'starts from the value given'
                    elif not same_fn(o, a[i], g[i], n): return False, 'argument %d is the function given' % (i + 1)
                return True
            S.each(r, 'the computation of the library, on the tree held, with the functions given', post); S.no_panic(r, 'no panic')
PROBES = (0, 1, 2, 3, 5, 8, 10, 16, 64, 100, 101, 128, 255, 256, 257, 512, 1000, 1001, 1024, 4096, 10000, 65535, 65536, 1000000, 2 ** 32)
@obligation('C31')
def fresh_names(S):
    for which in HARN:
        raz_setup(S, which); p = HARN[which][0]
        def body(call, st):
            out = []
            for s, h in call(p + '::new', st, [num(2), num(2), sym('coord', '')]):
                c = interp.new_cell(s, h)
                for s1, a in call(p + '::next_name', s, [mref(c)]):
                    for s2, b in call(p + '::next_name', s1, [mref(c)]):
                        for s3, d in call(p + '::next_name', s2, [mref(c)]): out.append((s3, tup(a, b, d)))
            return out
        r = S.script(p + '::next_name', body)
        S.each(r, 'names are new each time', lambda o: len(set(theory.canon(o.st.facts, x) for x in o.val.a[2])) == 3)
        w = wsym(S, 'tree'); h, pre = harness(S, which, w=w)
        r = S.run(p + '::next_name', [h], pre=pre)
        def same(o):
            t2 = the_tree(o.arg(0))
            if t2 is None: return False, 'no tree'
            return [(tword(t2), w, 'the collection')]
        S.each(r, 'taking a name leaves the collection alone', same)
        def body2(call, st):
            pre(st); c = interp.new_cell(st, h); out = []
            for s1, a in call(p + '::next_name', st, [mref(c)]):
                for s2, b in call(p + '::next_name', s1, [mref(c)]): out.append((s2, tup(a, b)))
            return out
        r = S.script(p + '::next_name', body2)
        def differ(o):
            a, b = (theory.canon(o.st.facts, x) for x in o.val.a[2])
            if a is b: return False, 'the name %s twice' % show(a)
            if not all(x.op == 'app' and x.a[0] == 'nnum' for x in (a, b)): o.st.mark('names made in another way'); return False, 'names'
            return bnot(eqi(a.a[1][0], b.a[1][0]))
        S.each(r, 'two names in a row differ, after any number of names', differ)
        # the counter of a long-lived harness: names made at distant counts are different too
        got, q0 = {}, {}
        for n in PROBES:
            h2, pre2 = harness(S, which, w=w, at=num(n))
            r = S.run(p + '::next_name', [h2], pre=pre2); got[n] = r; q0[n] = h2
        def distinct(o, at):
            a = theory.canon(o.st.facts, o.val)
            for n, q in got.items():
                if n != at and len(q.outs) == 1 and theory.canon(q.outs[0].st.facts, q.outs[0].val) is a: return False, 'the same name after %d and after %d names' % (n, at)
            h1 = o.arg(0)
            for x, y in zip(q0[at].a[2], h1.a[2]):
                y = theory.canon(o.st.facts, y)
                if x is num(at) and y.op == 'int' and y.a[0] < at: return False, 'a counter goes back from %d to %d' % (at, y.a[0])
            return True
        for n, q in got.items():
            def post(o, n=n): return distinct(o, n)
            S.each(q, 'a name not used after other counts (%d)' % n, post)
@obligation('C31')
def iastack(S):
    setup(S); p = 'eval_iastack::EvalIAStack'
    r = S.run('<%s as primitives::CreateEmpty<G>>::inc_empty' % p)
    def post(o):
        a = fld(pair(o, 1), 'eval::' + p, 0, 0); return [(ASEQ(a), NIL)]
    S.each(r, 'starts empty', post); S.no_panic(r, 'no panic')

# ---- actions: which primitive is used with which arguments, in which namespace
P = 'eval::primitives::'
ACT = 'eval::actions::'
def act(typ, trait, m): return '<actions::%s as actions::%s>::%s' % (typ, trait, m)
PRIMS = {'CreateEmpty': 'inc_empty', 'CreateFrom': 'inc_from', 'CreateInc': 'inc_init', 'EditExtend': 'extend', 'EditAppend': 'append', 'EditInsert': 'insert', 'CompMax': 'comp_max', 'CompRev': 'comp_rev',
         'CompNative': 'comp_native', 'CompTreeFold': 'comp_tfold', 'CompTreeFoldNL': 'comp_tfoldnl', 'CompTreeFoldG': 'comp_tfoldg', 'CompMap': 'comp_map', 'CompFold': 'comp_fold',
         'CompFoldMeta': 'comp_fold_meta', 'CompFoldArchive': 'comp_fold_archive'}
def act_setup(S):
    def prim(name):
        def c(ex, st, fr, args, site, targs):
            vs = tuple(ex.load(st, a) if a.op == 'mref' else a for a in args)
            d, x = fresh('duration'), fresh('answer')
            st.event('prim', name, vs, d, x)
            return [(st, tup(d, x))]
        return c
    S.contracts = {'%s%s::%s' % (P, t, m): prim(m) for t, m in PRIMS.items()}
    S.opts['call_events'] = True
def plain(evs):
    out = []
    for e in evs:
        if e[0] == 'ns': out.append(('ns', e[1]))
        elif e[0] == 'ns-end': out.append(('end',))
        elif e[0] in ('prim', 'call'): out.append(e)
    return out
def inside(evs, pick):
    """(event, enclosing namespaces) of the events picked"""
    sp, out = [], []
    for e in plain(evs):
        if e[0] == 'ns': sp.append(e[1])
        elif e[0] == 'end': sp.pop()
        elif pick(e): out.append((e, tuple(sp)))
    return out
def value_of(typ, S, **kw):
    fs = S.prog.adts[ACT + typ]['variants'][0]['fields']
    return adt(ACT + typ, 0, [kw[f[0]] for f in fs])
def used(o, name, args, result, nsname=None):
    """exactly one use of the primitive, with those arguments, giving the result"""
    ev = inside(o.st.events, lambda e: e[0] == 'prim')
    if len(ev) != 1: return False, '%d primitives used' % len(ev)
    (_, n, vs, d, x), sp = ev[0]
    if n != name: return False, 'uses ' + n
    if len(vs) < len(args): return False, 'arguments'
    out = [(a, b, 'argument %d of %s' % (i, n)) for i, (a, b) in enumerate(zip(vs, args)) if b is not None]
    if nsname is None:
        if sp: return False, 'in a namespace of its own'
    else:
        if len(sp) != 1: return False, 'not in one namespace'
        out.append((sp[0], nsname, 'namespace'))
    return out + result(d, x)
@obligation('C31')
def creators(S):
    act_setup(S)
    for typ, p, fs in (('IncrementalEmpty', 'inc_empty', ('datagauge', 'namegauge', 'coord')), ('IncrementalFrom', 'inc_from', ('data', 'datagauge', 'namegauge', 'coord')),
                       ('IncrementalInit', 'inc_init', ('size', 'datagauge', 'namegauge', 'coord'))):
        xs = {f: S.symbol(f) for f in fs}
        r = S.run(act(typ, 'Creator<time::Duration, D>', 'create'), [value_of(typ, S, **xs)])
        S.each(r, 'builds with the parameters given', lambda o: used(o, p, [xs[f] for f in fs], lambda d, x: [(o.val, tup(d, x), 'result')])); S.no_panic(r, 'no panic')
@obligation('C31')
def editors(S):
    act_setup(S)
    for typ, p in (('SingleAppend', 'append'), ('BatchAppend', 'append'), ('BatchInsert', 'insert'), ('BatchExtend', 'extend')):
        n = num(1) if typ == 'SingleAppend' else S.symbol('n', ('prim', 'usize')); d = S.symbol('data')
        r = S.run(act(typ, 'Editor<time::Duration, D>', 'edit'), [adt(ACT + typ, 0, [] if typ == 'SingleAppend' else [n]), d])
        S.each(r, 'one edit of the data with the batch size given', lambda o: used(o, p, [d, n], lambda t, x: [(o.val, tup(t, x), 'result')])); S.no_panic(r, 'no panic')
def made(S, typ, names):
    """the action as its constructor makes it"""
    xs = [S.symbol(n) for n in names]
    if not names: return adt(ACT + typ, 0, []), xs
    r = S.run('actions::%s::new' % typ, xs)
    if len(r.outs) != 1: raise Undecided('constructor of ' + typ)
    return r.outs[0].val, xs
@obligation('C31')
def computors(S):
    act_setup(S); data = S.symbol('data')
    T, V_, TT = 'time::Duration', 'std::vec::Vec<time::Duration>', None
    for typ, p, fs, ns_ in (('FindMax', 'comp_max', (), False), ('Native', 'comp_native', ('f',), False), ('Reverse', 'comp_rev', (), False), ('TreeFold', 'comp_tfold', ('init', 'bin'), False),
                            ('TreeFoldNL', 'comp_tfoldnl', ('init', 'bin', 'binnl'), False), ('TreeFoldG', 'comp_tfoldg', ('init', 'bin'), False), ('Mapper', 'comp_map', ('name', 'f'), True),
                            ('Folder', 'comp_fold', ('accum', 'f'), False), ('FFolder', 'comp_fold', ('accum', 'f', 'finish'), False), ('MFolder', 'comp_fold_meta', ('name', 'accum', 'f', 'm', 'finish'), True),
                            ('HFolder', 'comp_fold_archive', ('name', 'accum', 'f', 'ff', 'm', 'finish'), True)):
        a, xs = made(S, typ, fs)
        keys = sorted(k.key for k in S.prog.fns.values() if k.key.startswith('<actions::%s as actions::Computor<' % typ) and k.key.endswith('>::compute'))
        if not keys: raise Missing('actions::%s::compute' % typ)
        nm = xs[0] if ns_ else None
        fin = xs[-1] if 'finish' in fs else None
        args = [data] + xs[1 if ns_ else 0:len(xs) - (fin is not None)]
        for key in keys:
            r = S.run(key, [a, data])
            def post(o):
                kind = key[key.index('Computor<') + 9:]
                def result(d, x):
                    y = x
                    if fin is not None: y = call(fin, x)
                    if kind.startswith('(std::vec::Vec'): return [(o.val, tup(unit(d), y), 'result')]
                    if kind.startswith('('): return [(o.val, tup(d, y), 'result')]
                    return [(o.val, d, 'result')]
                u = used(o, p, args, result, nm)
                if isinstance(u, tuple) or fin is None: return u
                fs_ = inside(o.st.events, lambda e: e[0] == 'call' and e[1] is fin)
                if len(fs_) != 1: return False, '%d calls of the finishing function' % len(fs_)
                sp = fs_[0][1]
                if nm is None: return u if not sp else (False, 'finishing in a namespace')
                if len(sp) != 1: return False, 'the finishing step is not in one namespace'
                if theory.equal(o.st.facts, sp[0], nm) is True: return False, 'folding and finishing share a namespace'
                if not contains(sp[0], lambda y: y is nm): return False, 'the finishing step is in a namespace not made from the name given'
                return u
            S.each(r, 'one computation of the data with the functions given', post); S.no_panic(r, 'no panic')
@obligation('C31')
def composition(S):
    a, b, d = S.symbol('first'), S.symbol('second'), S.symbol('data')
    log = []
    def comp(ex, st, fr, args, site, targs):
        vs = tuple(ex.load(st, x) if x.op == 'mref' else x for x in args)
        t, x = fresh('durations'), fresh('answer'); SEQ_TERMS.add(t); st.event('prim', 'compute', vs, t, x); return [(st, tup(t, x))]
    S.contracts = {'eval::actions::Computor::compute': comp}
    key = act('Compute2', 'Computor<(std::vec::Vec<time::Duration>, K), I>', 'compute')
    r0 = S.run('actions::Compute2::new', [a, b])
    r = S.run(key, [r0.outs[0].val, d])
    def post(o):
        ev = [e for e in o.st.events if e[0] == 'prim']
        if len(ev) != 2: return False, '%d steps' % len(ev)
        (_, _, v1, t1, x1), (_, _, v2, t2, x2) = ev
        return [(v1[0], a, 'first step'), (v1[1], d, 'on the data'), (v2[0], b, 'second step'), (v2[1], x1, 'on the result of the first'), (o.val, tup(cat(t1, t2), x2), 'all times and the last result')]
    S.each(r, 'one computation after the other', post); S.no_panic(r, 'no panic')
    x, y = S.symbol('x'), S.symbol('y')
    r = S.run(act('Proj0', 'Computor<(std::vec::Vec<time::Duration>, R), (R, E)>', 'compute'), [None, tup(x, y)])
    S.each(r, 'the first part of the pair', lambda o: [(o.val, tup(NIL, x))])
