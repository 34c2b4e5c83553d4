"""C07 cursor movement, C08 split and join, C10 iteration."""
from spec import *
from words import *
import zipper
from zipper import invariants, assume_inv, prove, top, topd, popped, direction

def K(n): return 'tree_cursor::Cursor::' + n
UP = 'iodyn::tree_cursor::UpResult'; FORCE = 'iodyn::tree_cursor::Force'
FAIL, LEFT, RIGHT = (mk('adt', UP, i, ()) for i in range(3))
NO, YES, DISCARD = (mk('adt', FORCE, i, ()) for i in range(3))

def session(S):
    zipper.ON[0] = True
    S.opts.update(zipper.OPTS)
    return S
def cursor(S, name='self', clean=True):
    c = S.symbol(name, ('adt', CURSOR, (('param', 0, 'E'),)))
    c = adt(CURSOR, 0, [S.symbol(name + '.dirty', ('prim', 'bool')), S.symbol(name + '.left', ('adt', 'alloc::vec::Vec', ())),
                        S.symbol(name + '.tree', ('adt', OPT, ())), S.symbol(name + '.right', ('adt', 'alloc::vec::Vec', ()))])
    return c, (lambda st: assume_inv(st, c, clean))

def keeps(o, c):
    """the result cursor satisfies the invariants"""
    for p in invariants(c):
        if not prove(o.st.facts, p): return False, 'invariant %s of the resulting cursor: %s' % (p[0], show(c))
    return None

def levels_ok(o, t):
    """left branch lower, right branch not higher, in the tree t just built"""
    f = o.st.facts
    for b, k in ((tl(t), 1), (tr(t), 0)):
        v = f.variant(b)
        g = f
        if v == 0: continue
        if v is None:
            g = f.copy()
            try: g.set_variant(b, 1); zipper.saturate(g)
            except Infeasible: continue
        if g.decide(g.norm(ge(tlevel(t), lin_add(tlevel(payload(b)), num(k))))) is not True:
            return False, 'the %s branch is %s the new node' % (('left', 'not below') if k else ('right', 'above'))
    return None

@obligation('C07')
@obligation('C08')
def up(S):
    session(S); c, pre = cursor(S)
    r = S.run(K('up'), [c], pre=pre)
    def post(o):
        f = o.st.facts; n = o.arg(0)
        k = direction(f, cleft(c), cright(c))
        if k is None: return False, 'direction not determined by the levels'
        if k == '': return [(o.val, FAIL), (n, c, 'nothing moves')]
        src = cleft(c) if k == 'l' else cright(c)
        P = top(src); child = ctree(n)
        t = payload(ctree(n))
        res = [(o.val, LEFT if k == 'l' else RIGHT, 'direction'), (isvar(ctree(n), 1), TRUE, 'focus is a node'),
               (cleft(n), popped(cleft(c)) if k == 'l' else cleft(c), 'left stack'), (cright(n), cright(c) if k == 'l' else popped(cright(c)), 'right stack'),
               (tlevel(t), tlevel(P), 'level of the parent'), (tname(t), tname(P), 'name of the parent'),
               (tr(t) if k == 'l' else tl(t), ctree(c), 'branch moved out of'), (tl(t) if k == 'l' else tr(t), tl(P) if k == 'l' else tr(P), 'other branch')]
        if f.decide(cdirty(c)) is False: res += [(cdirty(n), topd(src), 'dirty flag'), (t, P, 'the parent is reused')]
        else:
            d = lambda x: some(tdata(payload(x))) if f.variant(x) == 1 else none() if f.variant(x) == 0 else None
            l, rr = (d(tl(P)), d(ctree(c))) if k == 'l' else (d(ctree(c)), d(tr(P)))
            if l is None or rr is None: return False, 'a branch is not examined when rebuilding'
            res += [(cdirty(n), TRUE, 'dirty flag'), (tdata(t), app(REBUILD, l, tdata(P), tlevel(P), tname(P), rr), 'data is rebuilt from the new branches')]
        return res
    S.each(r, 'moving up restores the parent, rebuilt when changed', post)
    S.each(r, 'keeps the content', lambda o: [(CT(o.arg(0)), CT(c))])
    S.each(r, 'keeps the cursor invariants', lambda o: keeps(o, o.arg(0)) or True)
    S.each(r, 'keeps the level convention', lambda o: (o.st.facts.decide(eqi(length(cleft(c)), num(0))) is True and o.st.facts.decide(eqi(length(cright(c)), num(0))) is True) or levels_ok(o, payload(ctree(o.arg(0)))) or True)
    S.no_panic(r, 'no panic')

@obligation('C07')
def up_discard(S):
    session(S); c, pre = cursor(S)
    r = S.run(K('up_discard'), [c], pre=pre)
    def post(o):
        f = o.st.facts; n = o.arg(0)
        k = direction(f, cleft(c), cright(c))
        if k is None: return False, 'direction not determined by the levels'
        if k == '': return [(o.val, FAIL), (n, c, 'nothing moves')]
        src = cleft(c) if k == 'l' else cright(c)
        return [(o.val, LEFT if k == 'l' else RIGHT, 'direction'), (ctree(n), some(top(src)), 'the old parent'), (cdirty(n), topd(src), 'dirty flag'),
                (cleft(n), popped(cleft(c)) if k == 'l' else cleft(c), 'left stack'), (cright(n), cright(c) if k == 'l' else popped(cright(c)), 'right stack')]
    S.each(r, 'moving up without keeping changes', post)
    S.no_panic(r, 'no panic')

@obligation('C07')
@obligation('C08')
def down(S):
    session(S)
    for side in ('left', 'right'):
        for forced in (None, NO, YES, DISCARD):
            c, pre = cursor(S)
            if forced is None: r = S.run(K('down_' + side), [c], pre=pre)
            else: r = S.run(K('down_%s_force' % side), [c, forced], pre=pre)
            what = {None: '', NO: ' (Force::No)', YES: ' (Force::Yes)', DISCARD: ' (Force::Discard)'}[forced]
            def post(o):
                f = o.st.facts; n = o.arg(0); t = ctree(c)
                if f.variant(t) is None: return False, 'the focus is not examined'
                if f.variant(t) == 0: return [(o.val, FALSE), (n, c, 'nothing moves')]
                x = payload(t); b = tl(x) if side == 'left' else tr(x)
                if forced in (None, NO):
                    if f.variant(b) is None: return False, 'the branch is not examined'
                    if f.variant(b) == 0: return [(o.val, FALSE), (n, c, 'nothing moves')]
                res = [(o.val, TRUE, 'moved'), (ctree(n), b, 'focus')]
                if forced is DISCARD: return res + [(cdirty(n), TRUE, 'dirty flag'), (cleft(n), cleft(c)), (cright(n), cright(c))]
                e = unit(tup(cdirty(c), x))
                return res + [(cdirty(n), FALSE, 'dirty flag'), (cleft(n), cat(cleft(c), e) if side == 'right' else cleft(c), 'left stack'),
                              (cright(n), cat(cright(c), e) if side == 'left' else cright(c), 'right stack')]
            S.each(r, 'moving down %s%s' % (side, what), post)
            if forced is not DISCARD:
                S.each(r, 'keeps the content%s' % what, lambda o: [(CT(o.arg(0)), CT(c))])
            S.each(r, 'keeps the cursor invariants%s' % what, lambda o: keeps(o, o.arg(0)) or True)
            S.no_panic(r, 'no panic' + what)

@obligation('C07')
def there_and_back(S):
    """down then up returns to an equal cursor"""
    session(S)
    for side, back in (('left', RIGHT), ('right', LEFT)):
        c, pre = cursor(S)
        fn = S.fn(K('down_%s_force' % side)); upfn = S.fn(K('up'))
        r = S.run(fn, [c, YES], pre=pre)
        def then_up(r):
            return [Out(r, s, v) for o in r.outs if o.st.facts.decide(o.val) is True for s, v in r.ex.run_fn(upfn, [r.args[0]], o.st.copy(), {})]
        r.mapouts = then_up
        S.each(r, 'down %s then up is where it started' % side, lambda o: [(o.arg(0), c), (o.val, back)])

@obligation('C07')
def observers(S):
    session(S)
    c, pre = cursor(S)
    t = ctree(c)
    def opt(o, f):
        v = o.st.facts.variant(t)
        return [(o.val, none())] if v == 0 else [(o.val, f(payload(t)))] if v == 1 else (False, 'focus not examined')
    for k, f in (('peek', lambda x: some(tdata(x))), ('peek_level', lambda x: some(tlevel(x))), ('peek_name', tname), ('left_tree', tl), ('right_tree', tr)):
        r = S.run(K(k), [c], pre=pre)
        S.each(r, 'reports the focused node', lambda o: opt(o, f)); S.no_panic(r, 'no panic')
    r = S.run(K('at_tree'), [c], pre=pre); S.each(r, 'the focused tree', lambda o: [(o.val, t)])
    for k in ('new', 'with_depth'):
        r = S.run(K(k)); S.each(r, 'starts empty', lambda o: [(CT(o.val), NIL), (ctree(o.val), none())])
        S.each(r, 'satisfies the cursor invariants', lambda o: keeps(o, o.val) or True)
    tsym = S.symbol('tree')
    r = S.run('<tree_cursor::Cursor as std::convert::From<level_tree::Tree<E>>>::from', [tsym])
    S.each(r, 'stands for the whole tree', lambda o: [(CT(o.val), W('T', some(tsym))), (ctree(o.val), some(tsym)), (cleft(o.val), NIL), (cright(o.val), NIL)])
    S.each(r, 'satisfies the cursor invariants', lambda o: keeps(o, o.val) or True)
    r = S.run('<tree_cursor::Cursor as std::clone::Clone>::clone', [c])
    S.each(r, 'a clone is the same cursor', lambda o: [(o.val, c)])

@obligation('C08')
def split_cursor(S):
    session(S); c, pre = cursor(S)
    r = S.run(K('split'), [c], pre=pre)
    def post(o):
        v = o.deep(); l, t, rr = (fld(v, 'tup', 0, i) for i in range(3))
        f = o.st.facts
        mid = f.variant(t)
        res = [(t, ctree(c), 'the focused tree')]
        if f.variant(ctree(c)) is None: return False, 'focus not examined'
        here = NIL if f.variant(ctree(c)) == 0 else unit(nodeitem(payload(ctree(c))))
        return res + [(cat(CT(l), here, CT(rr)), CT(c), 'content left, focused node, content right'), (cright(l), NIL), (cleft(rr), NIL)]
    S.each(r, 'loses and duplicates nothing', post)
    S.each(r, 'both parts keep the cursor invariants', lambda o: keeps(o, fld(o.deep(), 'tup', 0, 0)) or keeps(o, fld(o.deep(), 'tup', 0, 2)) or True)
    S.no_panic(r, 'no panic')

def c_up(ex, st, fr, args, site, sub):
    """what the obligations of C07 establish about moving up"""
    if args[0].op != 'mref': return None
    c = ex.load(st, args[0])
    out = []
    L, R = cleft(c), cright(c)
    for el, s1 in split(st, eqi(length(L), num(0))):
        for er, s2 in split(s1, eqi(length(R), num(0))):
            if el and er: out.append((s2, FAIL)); continue
            if not el and not er: cs = split(s2, bnot(ge(tlevel(top(L)), tlevel(top(R)))))
            else: cs = [(not el, s2)]
            for left, s3 in cs:
                P = top(L if left else R); t = ctree(c)
                node = adt(TNODE, 0, (app('upd', tdata(P), fresh('data')), tl(P) if left else t, t if left else tr(P)))
                nt = adt(TREE, 0, (tlevel(P), tname(P), art(None, node)))
                d = fresh('dirty'); interp.BOOL_TERMS.add(d)
                n = adt(CURSOR, 0, (d, popped(L) if left else L, some(nt), R if left else popped(R)))
                if all(prove(s3.facts, p) for p in invariants(c)):
                    for p in invariants(n): s3.facts.preds.add(p)
                else: s3.mark('cursor invariant not established before moving up')
                ex.store(s3, args[0], n)
                out.append((s3, LEFT if left else RIGHT))
    return out
def split(st, cond):
    d = st.facts.decide(cond)
    if d is not None: return [(d, st)]
    out = []
    for v in (True, False):
        s = st.copy()
        try:
            s.facts.assume(cond, v); zipper.saturate(s.facts)
        except Infeasible: continue
        out.append((v, s))
    return out
CC = {K('up'): c_up}

@obligation('C08')
def join(S):
    session(S); l, pl = cursor(S, 'l'); rr, pr = cursor(S, 'r')
    def pre(st): pl(st); pr(st)
    r = S.run(K('join'), [l, None, None, None, rr], pre=pre, contracts=CC, opts={'shapes': 'one'})
    lv, nm, d = r.args[1:4]
    want = cat(CT(l), unit(tup(lv, nm, core(d))), CT(rr))
    S.each(r, 'content of left, the new node, content of right', lambda o: [(CT(o.val), want)])
    S.each(r, 'focused on the new node', lambda o: [(isvar(ctree(o.val), 1), TRUE), (tlevel(payload(ctree(o.val))), lv), (tname(payload(ctree(o.val))), nm)])
    S.each(r, 'keeps the cursor invariants', lambda o: keeps(o, o.val) or True)
    S.each(r, 'keeps the level convention', lambda o: levels_ok(o, payload(ctree(o.val))) or True)
    S.no_panic(r, 'no panic')

# ---- iteration
ITOPTS = {'templates': lambda ex, s, live: [x for key, t in zipper.cursors(live) for x in ((('A', key), AHEAD(t)), (('R', key), W('RFD', cright(t))))],
          'loop_preds': None, 'pred_holds': None}
def idle(f, c):
    """an iterator without a current node has nothing left"""
    v = f.variant(ctree(c))
    if v == 1: return True
    if v is None: return False
    return f.is_empty(cright(c)) is True
def iterator(S, name='self'):
    c, _ = cursor(S, name)
    t = S.symbol(name + '.cur', ('adt', ITERR, ()))
    return c, adt(ITERR, 0, [c])
def icur(v): return fld(v, ITERR, 0, 0)

def c_next(ex, st, fr, args, site, sub):
    """what iter_next establishes"""
    if args[0].op != 'mref': return None
    it = ex.load(st, args[0]); c = icur(it)
    interp.TYPED.setdefault(ctree(c), ('adt', OPT, ()))
    out = []
    v = st.facts.variant(ctree(c))
    for k in ((0, 1) if v is None else (v,)):
        s = st.copy()
        try: s.facts.set_variant(ctree(c), k)
        except Infeasible: continue
        if k == 0: out.append((s, none())); continue
        n = fresh('next'); s.facts.words.append((W('REM', n), cat(W('TD', tr(payload(ctree(c)))), W('RFD', cright(c)))))
        ex.store(s, args[0], adt(ITERR, 0, [n]))
        out.append((s, some(tdata(payload(ctree(c))))))
    return out
IT = '<tree_cursor::IterR as std::iter::Iterator>::next'

@obligation('C10')
def into_iters(S):
    c, pre = cursor(S)
    for p in ('loop_preds', 'pred_holds'): S.opts.pop(p, None)
    r = S.run(K('into_iters'), [c], opts={'templates': ITOPTS['templates']})
    def post(o):
        v = o.val; n = icur(fld(v, 'tup', 0, 2)); f = o.st.facts; t = ctree(c)
        if f.variant(t) is None: return False, 'focus not examined'
        want = W('RFD', cright(c)) if f.variant(t) == 0 else cat(W('TD', tr(payload(t))), W('RFD', cright(c)))
        if f.variant(ctree(n)) is None:
            return False, 'the iterator starts at an unknown place'
        if not idle(f, n): return False, 'the iterator starts without a current node although data remains'
        return [(W('REM', n), want, 'right iterator'), (fld(v, 'tup', 0, 1), t, 'the focused tree')]
    S.each(r, 'iterates over exactly what lies right of the focus', post)
    S.no_panic(r, 'no panic')

@obligation('C10')
def iter_next(S):
    c, it = iterator(S)
    r = S.run(IT, [it], pre=lambda st: None, opts={'templates': ITOPTS['templates']})
    def post(o):
        f = o.st.facts; t = ctree(c); n = icur(o.arg(0))
        if f.variant(t) is None: return False, 'the current node is not examined'
        if f.variant(t) == 0: return [(o.val, none(), 'the end stays the end')]
        if f.variant(ctree(n)) is None: return False, 'unknown position after the step'
        if not idle(f, n): return False, 'no current node although data remains'
        return [(o.val, some(tdata(payload(t))), 'yields the current node'), (W('REM', n), cat(W('TD', tr(payload(t))), W('RFD', cright(c))), 'the rest follows in order')]
    S.each(r, 'yields the next node in order and keeps the rest', post)
    def post_end(o):
        f = o.st.facts; n = icur(o.arg(0))
        if f.variant(ctree(c)) != 0: return None
        if f.variant(ctree(n)) == 1: return False, 'the iterator finds a node after the end'
        return True
    r = S.run(IT, [it], pre=lambda st: (st.facts.set_variant(ctree(c), 0), st.facts.assume(eqi(length(cright(c)), num(0)))), opts={'templates': ITOPTS['templates']})
    S.each(r, 'stays at the end', post_end)
    S.no_panic(r, 'no panic')

@obligation('C10')
def fold_out(S):
    c, it = iterator(S)
    init, f = S.symbol('init'), S.symbol('bin')
    k = 'tree_cursor::IterR::fold_out'
    def c_fold(ex, st, fr, args, site, sub):
        lam = models.lam_of(ex, st, fr, args[2], 2, site)
        if lam is None: return None
        return [(st, foldl(lam, args[1], W('REM', icur(args[0]))))]
    r = S.run(k, [it, init, f], contracts={IT: c_next, k: c_fold})
    S.each(r, 'folds the rest of the sequence in order', lambda o: [(o.val, foldl(f, init, W('REM', c)))])
    S.no_panic(r, 'no panic')
