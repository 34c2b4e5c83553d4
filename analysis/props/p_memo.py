"""C20 trees built from archive stacks."""
from spec import *
from words import *
import zipper, razth
from razth import *
from props.p_raz import session, topmeta, rtree, rmeta, meta_right
import props.p_tree as p_tree
MAX32 = num(2 ** 32 - 1)
def MF(which): return '<raz::RazTree as memo::MemoFrom<archive_stack::%s<E, u32>>>::memo_from' % which

def stack(S, name='s'):
    c = S.symbol(name + '.cur', ('adt', 'alloc::vec::Vec', ())); o = S.symbol(name + '.arch', ('adt', OPT, ()))
    return adt(ASTACK, 0, [c, adt(STACK, 0, [o])])
def fresh_stack():
    c, o = fresh('cur'), fresh('arch'); SEQ_TERMS.add(c); interp.TYPED[o] = ('adt', OPT, ())
    return adt(ASTACK, 0, [c, adt(STACK, 0, [o])])
def helper(S, which):
    """the recursive builder inside memo_from, recognised by its parameters"""
    out = []
    for f in S.prog.fns.values():
        if f.key.startswith(MF(which) + '::') and f.nargs == 5 and '{closure' not in f.key:
            t = [f.locals[i + 1] for i in range(5)]
            if t[0][0] == 'adt' and t[0][1] == ASTACK and t[1] == ('prim', 'u32') == t[4] and t[2][1] == OPT and t[3][1] == TREE: out.append(f)
    return out

def content(which, st, lev, nm, t):
    """everything the builder still has to place, in sequence order"""
    w = [MSEQ(st)] + ([unit(mark(lev, pnm(nm)))] if lev is not None else [])
    if which == 'AtTail': return cat(*(w + [W('IT', some(t))]))
    return cat(W('IT', some(t)), *[rev(x) for x in reversed(w)])
def entry_ok(which, f, a):
    """what the builder needs: a pending section, and levels in order"""
    s, l, n, t, m = a
    return [bnot(eqi(length(cur(s)), num(0))), ge(l, num(1)), ge(num(2 ** 32 - 2), l)] + \
        ([ge(l, tlevel(t)), bnot(ge(l, m))] if which == 'AtTail' else [bnot(ge(tlevel(t), l)), ge(m, l)])
def exit_facts(which, l, m):
    return [ge(l, m) if which == 'AtTail' else bnot(ge(m, l)), ge(num(2 ** 32 - 2), l), ge(l, num(1))]
def tree_bound(which, t, m): return bnot(ge(tlevel(t), m)) if which == 'AtTail' else ge(m, tlevel(t))
def builder_contract(which, key):
    def c(ex, st, fr, args, site, sub):
        args = [ex.load(st, a) if a.op == 'mref' else a for a in args]
        for h in theory.SATURATE: h(st.facts)
        out = []
        for x in entry_ok(which, st.facts, args):
            if st.facts.decide(st.facts.norm(x)) is True: continue
            # outside the induction hypothesis: follow the code itself
            bad = st.copy()
            try: bad.facts.assume(x, False)
            except Infeasible: bad = None
            if bad:
                if ex.stack.count(key) >= 3: bad.mark('levels not in order at a recursive call'); out.append((bad, fresh('deep')))
                else: out += ex.run_fn(ex.prog.fns[key] if key in ex.prog.fns else ex.prog.find(key), args, bad, dict(sub or {}))
            try: st.facts.assume(x)
            except Infeasible: return out
        s, l, n, t, m = args
        lhs = content(which, s, l, n, t)
        st1 = st.copy(); t1 = fresh('tree'); e = adt(ASTACK, 0, [NIL, adt(STACK, 0, [none()])])
        st1.facts.words.append((W('IT', some(t1)), lhs)); st1.facts.assume(tree_bound(which, t1, m))
        out.append((st1, tup(e, none(), none(), t1)))
        st2 = st.copy(); t2, s2, l2, n2 = fresh('tree'), fresh_stack(), fresh('level'), fresh('name'); interp.TYPED[n2] = ('adt', OPT, ())
        try:
            for x in exit_facts(which, l2, m) + [bnot(eqi(length(cur(s2)), num(0))), tree_bound(which, t2, m)]: st2.facts.assume(x)
            st2.facts.words.append((content(which, s2, l2, n2, t2), lhs))
            out.append((st2, tup(s2, some(l2), n2, t2)))
        except Infeasible: pass
        return out
    return c
def c_new(ex, st, fr, args, site, sub):
    """every node built follows the level convention"""
    lev, nm, d, l, r = args
    for h in theory.SATURATE: h(st.facts)
    for b, k in ((l, 1), (r, 0)):
        if st.facts.variant(b) == 1 and st.facts.decide(st.facts.norm(ge(lev, lin_add(tlevel(payload(b)), num(k))))) is not True:
            st.events += (('badlevel', lev, tlevel(payload(b))),)
    return None
def convention(o):
    bad = [e for e in o.st.events if e[0] == 'badlevel']
    return (not bad), 'a node of level %s is built over a branch of level %s' % ((show(bad[0][1]), show(bad[0][2])) if bad else ('', ''))

def build(which):
    def go(S):
        session(S); razth.SMALL[0] = True
        hs = helper(S, which)
        C = {h.key: builder_contract(which, h.key) for h in hs}; C[p_tree.L('new')] = c_new
        for h in hs:
            s = stack(S); l, m = S.symbol('l', ('prim', 'u32')), S.symbol('m', ('prim', 'u32'))
            n = S.symbol('n', ('adt', OPT, ())); t = S.symbol('t', ('adt', TREE, ()))
            def pre(st):
                for x in entry_ok(which, st.facts, [s, l, n, t, m]): st.facts.assume(x)
            # the function itself is analysed, its recursive calls are the induction hypothesis
            r = S.run(h, [s, l, n, t, m], pre=pre, contracts=C)
            want = content(which, s, l, n, t)
            def post(o):
                v = o.val; s2, l2, n2, t2 = (fld(v, 'tup', 0, i) for i in range(4)); f = o.st.facts
                k = f.variant(l2)
                if k is None: return False, 'unknown whether a section is left'
                if k == 0: return [(content(which, s2, None, n2, t2), want, 'content'), (MSEQ(s2), NIL, 'nothing is left'), (n2, none(), 'no name is left')]
                return [(content(which, s2, payload(l2), n2, t2), want, 'content')]
            S.each(r, 'keeps every element and archive point in order', post)
            def post(o):
                v = o.val; l2, t2 = fld(v, 'tup', 0, 1), fld(v, 'tup', 0, 3); f = o.st.facts
                if f.decide(f.norm(tree_bound(which, t2, m))) is not True: return False, 'the tree reaches the level limit'
                if f.variant(l2) == 1:
                    if f.is_empty(cur(fld(v, 'tup', 0, 0))) is not False: return False, 'a pending archive point without a section'
                    for x in exit_facts(which, payload(l2), m):
                        if f.decide(f.norm(x)) is not True: return False, 'stops at an archive point below the limit: ' + show(x)
                return convention(o)
            S.each(r, 'keeps the level convention', post)
            S.no_panic(r, 'no panic')
        a = stack(S, 'stack')
        r = S.run(MF(which), [adt('iodyn::archive_stack::' + which, 0, [a])], contracts=C)
        def post(o):
            f = o.st.facts; e = f.is_empty(cur(a)); v = f.variant(archopt(a))
            if e is None: return False, 'the active section is not examined'
            if not e: want = MSEQ(a)
            elif v is None: return False, 'the archive is not examined'
            elif v == 0: return [(rtree(o.val), none(), 'no tree without elements')]
            else:
                h = payload(archopt(a)); b = force(fld(h, HEAD, 0, 1))
                want = cat(W('MARCH', fld(b, BODY, 0, 1)), as_seq(fld(fld(b, BODY, 0, 0), 'tup', 0, 1)))
            if which == 'AtHead': want = rev(want)
            return [(isvar(rtree(o.val), 1), TRUE, 'a tree'), (W('IT', rtree(o.val)), want, 'elements and archive points')]
        S.each(r, 'a tree of all elements and archive points in order', post)
        S.each(r, 'the metadata is that of the tree', lambda o: meta_right(o, o.val))
        S.each(r, 'keeps the level convention', convention)
        S.no_panic(r, 'no panic')
    return go
def as_seq(x):
    if x.op != 'seq': SEQ_TERMS.add(x)
    return x
obligation('C20', 'tail')(build('AtTail'))
obligation('C20', 'head')(build('AtHead'))
@obligation('C20')
def conversions(S):
    """memo_into is memo_from; converting to the same type copies"""
    t = S.symbol('t', ('param', 'T'))
    r = S.run('<T as memo::MemoFrom<T>>::memo_from', [t])
    S.each(r, 'a value converted to its own type is itself', lambda o: [(o.val, t)]); S.no_panic(r, 'no panic')
    r = S.run('<T as memo::MemoInto<U>>::memo_into', [t])
    def post(o):
        v = o.val
        if v.op == 'app' and str(v.a[0]).endswith('memo_from') and len(v.a[1]) == 1: return [(v.a[1][0], t, 'of the value itself')]
        return False, 'computed ' + show(v)
    S.each(r, 'memo_into is memo_from of the value', post); S.no_panic(r, 'no panic')
