"""C12 focusing a raz tree."""
from spec import *
from words import *
import zipper, razth
from zipper import top, saturate, cases
from razth import *
from props.p_raz import session, RT, rtree, raztree, META, NAV, POS, COUNT, NAMES, cnt, MAXU
from props.p_zip import left, right, lf, ls, rs, rf, shape_ok, templates, OPTS

CT_ = ('adt', CURSOR, ())
def c_split(ex, st, fr, args, site, sub):
    """law of RazMeta::split_vec: two slices that make up the vector"""
    v, i = args
    a, b = fresh('sl'), fresh('sr'); SEQ_TERMS.add(a); SEQ_TERMS.add(b)
    st.facts.words.append((cat(a, b), ex.deref(st, v) if hasattr(ex, 'deref') else v))
    return [(st, tup(a, b))]
GEN = {'iodyn::' + META + 'split_vec': c_split}

@obligation('C12')
def focus_any(S):
    session(S); S.opts.update(OPTS)
    t, v = raztree(S)
    for fn in ('focus', 'focus_left'):
        r = S.run(RT(fn), [v], contracts=GEN if fn == 'focus' else {})
        if fn == 'focus':
            def post(o):
                f = o.st.facts
                if f.variant(o.val) is None: return False, 'undetermined result'
                if f.variant(o.val) == 1: return None
                if any(k == 3 and x.op == 'app' and x.a[0] == META + 'navigate' for x, k in f.var.items()): return True
                return False, 'gives up although the metadata did not reject the position'
            S.each(r, 'gives up only when the metadata rejects the position', post)
            some_ = lambda o: payload(o.val) if o.st.facts.variant(o.val) == 1 else None
        else: some_ = lambda o: o.val
        def post(o):
            z = some_(o)
            if z is None: return None
            return [(cat(left(z), right(z)), W('ET', t), 'elements left and right of the cursor')]
        S.each(r, 'the zipper holds exactly the elements of the tree', post)
        S.each(r, 'one-sided forests', lambda o: None if some_(o) is None else shape_ok(o, some_(o)))
        if fn == 'focus_left': S.each(r, 'nothing is left of the cursor', lambda o: [(left(o.val), NIL)])
        S.no_panic(r, 'no panic')

IDX = ('prim', 'usize')
def is_index(ty): return ty and ty[0] == 'other' and str(ty[1]).endswith('>::Index')
def count_opts(idx, tot):
    def preds(ex, lt):
        out = list(zipper.loop_preds(ex, lt))
        for ty, c in lt:
            if ty and ty[0] == 'adt' and ty[1] == CURSOR:
                for ty2, n in lt:
                    if ty2 == IDX and n.op in ('sym', 'int', 'fld', 'lin'): out.append(('POSN', n, cleft(c), ctree(c), idx, tot))
        return list(dict.fromkeys(out))
    return dict(OPTS, project=lambda ty: IDX if is_index(ty) else None, loop_preds=preds, pred_holds=lambda ex, f, p: any(h(f, p) for h in theory.PRED_PROVE))
@obligation('C12')
def focus_count(S):
    session(S); razth.COUNTED[0] = True
    t, v = raztree(S)
    idx = S.symbol('index', IDX); tot = length(W('ET', t)); S.opts.update(count_opts(idx, tot))
    SUB = {0: ('param', 0, 'E'), 1: ('adt', COUNT, ()), 2: IDX}
    def base(st): st.facts.set_variant(t, 1); st.facts.assume(ge(MAXU, idx)); st.facts.assume(ge(lin_add(MAXU, num(-1)), tot))
    for what, pre in (('index in range', lambda st: (base(st), st.facts.assume(ge(tot, idx)))), ('end marker', lambda st: (base(st), st.facts.assume(eqi(idx, MAXU))))):
        r = S.run(RT('focus'), [v, idx], sub=SUB, pre=pre)
        S.each(r, 'finds every position, ' + what, lambda o: [(isvar(o.val, 1), TRUE)])
        S.each(r, 'as many elements to the left as asked, ' + what, lambda o: [(length(left(payload(o.val))), idx if what[0] == 'i' else tot)])
        S.no_panic(r, 'no panic, ' + what)
    def pre(st): base(st); st.facts.assume(ge(idx, lin_add(tot, num(1)))); st.facts.assume(bnot(eqi(idx, MAXU)))
    r = S.run(RT('focus'), [v, idx], sub=SUB, pre=pre)
    S.each(r, 'no position past the end', lambda o: [(isvar(o.val, 0), TRUE)])
import models
from props.p_raz import LEFTP, RIGHTP
@obligation('C12')
def focus_ends(S):
    session(S); t, v = raztree(S)
    NAME = ('adt', 'adapton::engine::Name', ())
    for M, I, what in ((('tuple',), ('tuple',), 'without metadata'), (('adt', NAMES, ()), NAME, 'by name')):
        PT = ('adt', POS, (I,))
        S.opts.update(dict(OPTS, project=lambda ty: PT if is_index(ty) else None))
        SUB = {0: ('param', 0, 'E'), 1: M, 2: PT}
        for pos, side in ((LEFTP, 'left'), (RIGHTP, 'right')):
            r = S.run(RT('focus'), [v, pos], sub=SUB)
            S.each(r, 'the %s end is always found, %s' % (side, what), lambda o: [(isvar(o.val, 1), TRUE)])
            S.each(r, 'nothing lies beyond the %s end, %s' % (side, what), lambda o: [((left if side == 'left' else right)(payload(o.val)), NIL)])
            S.no_panic(r, 'no panic at the %s end, %s' % (side, what))
    # a name
    i = S.symbol('i', PT); nm = fld(i, POS, 2, 0)
    def knows(f, p, k): return f.variant(models.hm_get(fld(fld(tdata(p), TDATA, BRANCH, k), NAMES, 0, 0), nm)) == 1
    def holds(f, p): return p in f.preds or f.is_empty(p[1]) is False and knows(f, top(p[1]), 0) and knows(f, top(p[1]), 1)
    def preds(ex, lt): return zipper.loop_preds(ex, lt) + [('HASN', cright(c), nm) for ty, c in lt if ty and ty[0] == 'adt' and ty[1] == CURSOR]
    S.opts.update(loop_preds=preds, pred_holds=lambda ex, f, p: holds(f, p) if p[0] == 'HASN' else zipper.prove(f, p))
    r = S.run(RT('focus'), [v, i], sub=SUB, pre=lambda st: (st.facts.set_variant(i, 2), st.facts.set_variant(t, 1)))
    def post(o):
        f = o.st.facts
        if f.variant(o.val) is None: return False, 'undetermined result'
        if f.variant(o.val) == 0:
            return None
        z = payload(o.val); R = cright(rf(z))
        if not holds(f, ('HASN', R, nm)): return False, 'what follows the cursor is not an archive point both sides of which know the name'
        return [(ASEQ(rs(z)), NIL, 'elements between the cursor and the archive point')]
    S.each(r, 'a name leads right in front of its archive point', post)

# ---- any metadata: the search follows what the metadata answers
FIRST = spec_reset.flag()   # the first question: the whole tree and the position given
LAST = 'raz_meta::FirstLast::last'
def strip(c):
    while c.op == 'adt' and c.a[0] == OPT and c.a[1] == 1: c = c.a[2][0]
    return c.a[0] if c.op == 'fld' and c.a[1] == OPT else c
def back(c, side):
    """the node whose branch on that side is c (an optional node)"""
    c = strip(c); k = razth.kind(c)
    return k[1] if k and k[0] == 'b' and c.a[3] == 1 + side else None
def owner(x):
    """the node in whose data the term lies"""
    for _ in range(4):
        if x.op != 'fld': return None
        k = razth.kind(x)
        if k: return k[1] if k[0] == 'd' else None
        x = x.a[0]
def asked(f, p, v, depth=0):
    """the questions put to the metadata at the node p that were answered with variant v"""
    for x, k in list(f.var.items()):
        if k == v and x.op == 'app' and x.a[0] == META + 'navigate' and x.a[1][0] is fld(tdata(p), TDATA, BRANCH, 0) and x.a[1][1] is fld(tdata(p), TDATA, BRANCH, 1) and followed(f, some(p), x.a[1][2], depth + 1): yield x
def followed(f, c, n, depth=0):
    """was the node c reached, with the index n, by following the answers of the metadata?"""
    c = strip(c)
    if FIRST[0] and FIRST[0](c, n) or any(q[0] == 'FOLLOW' and strip(q[1]) is c and q[2] is n for q in f.preds): return True
    if depth > 14: return False
    for side in (0, 1):
        p = back(c, side)
        if p is not None and any(fld(x, NAV, side, 0) is n for x in asked(f, p, side, depth)): return True
    return n.op == 'app' and n.a[0].endswith(LAST) and infront(f, c)
def infront(f, c):
    """right in front of a node at which the search was told to stop: on the right edge of its left branch"""
    for _ in range(14):
        c = strip(c)
        if any(q[0] == 'INFRONT' and strip(q[1]) is c for q in f.preds): return True
        p = back(c, 0)
        if p is not None and any(True for _ in asked(f, p, 2)): return True
        c = back(c, 1)
        if c is None: return False
        c = some(c)
    return False
theory.PRED_PROVE.append(lambda f, p: bool(FIRST[0]) and (followed(f, p[1], p[2]) if p[0] == 'FOLLOW' else infront(f, p[1]) if p[0] == 'INFRONT' else False))
@obligation('C12')
def focus_follows(S):
    session(S); S.opts.update(OPTS)
    t, v = raztree(S); idx = S.symbol('index')
    FIRST[0] = lambda c, n: c is t and (n is idx or n.op == 'app' and n.a[0] == 'into' and n.a[1][-1] is idx)
    def preds(ex, lt):
        out = list(zipper.loop_preds(ex, lt))
        cs = [c for ty, c in lt if ty and ty[0] == 'adt' and ty[1] == CURSOR]
        for c in cs:
            out.append(('INFRONT', ctree(c)))
            for ty, n in lt:
                if is_index(ty): out.append(('FOLLOW', ctree(c), n))
        return list(dict.fromkeys(out))
    def holds(ex, f, p):
        return any(h(f, p) for h in theory.PRED_PROVE)
    S.opts.update(loop_preds=preds, pred_holds=holds, seed=('FOLLOW', 'INFRONT') + tuple(S.opts.get('seed', ())))
    def c_split(ex, st, fr, args, site, sub):
        st.events = st.events + (('split', args[1], ex.deref(st, args[0]) if hasattr(ex, 'deref') else args[0]),)
        return GEN['iodyn::' + META + 'split_vec'](ex, st, fr, args, site, sub)
    r = S.run(RT('focus'), [v, idx], contracts={'iodyn::' + META + 'split_vec': c_split})
    def post(o):
        f = o.st.facts; sp = [e for e in o.st.events if e[0] == 'split']
        if f.variant(t) == 0: return None
        if f.variant(o.val) is None: return False, 'undetermined result'
        if f.variant(o.val) == 0:
            for x, k in f.var.items():
                if k == 3 and x.op == 'app' and x.a[0] == META + 'navigate':
                    p = owner(x.a[1][0])
                    if p is not None and any(True for _ in asked(f, p, 3)): return True
            return False, 'gives up without a question that followed the answers before it'
        if len(sp) != 1: return False, 'the leaf is split %d times' % len(sp)
        p = owner(sp[0][2])
        if p is None: return False, 'what is split is not a leaf of the tree'
        if followed(f, some(p), sp[0][1]): return True
        return False, 'a leaf or an index is used that the answers of the metadata did not lead to: %s' % show(sp[0][1])
    S.each(r, 'follows the answers of the metadata', post)
