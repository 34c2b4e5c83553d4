"""C11 editing at the cursor of a raz."""
from spec import *
from words import *
import zipper, razth
from zipper import direction, top, topd, popped, assume_inv
from razth import *
from props.p_raz import session, Rz, RT, rtree, rmeta, meta_right, raztree, topmeta, VEC, TDATA
import props.p_cursor as p_cursor
from props.p_cursor import FAIL, LEFT, RIGHT, K, split
from props.p_memo import stack, fresh_stack

def forest(S, name):
    """a one-sided cursor: what lies beyond the focus is ignored"""
    left = name.startswith('l')
    d, v, t = S.symbol(name + '.dirty', ('prim', 'bool')), S.symbol(name + '.anc', ('adt', 'alloc::vec::Vec', ())), S.symbol(name + '.tree', ('adt', OPT, ()))
    c = adt(CURSOR, 0, [d, v if left else NIL, t, NIL if left else v])
    return c
def raz(S):
    lf, rf = forest(S, 'l_forest'), forest(S, 'r_forest')
    ls, rs = stack(S, 'l_stack'), stack(S, 'r_stack')
    r = adt(RAZ, 0, [lf, ls, rs, rf])
    def pre(st):
        for c in (lf, rf): assume_inv(st, c, clean=True)
    return r, pre
def lf(r): return fld(r, RAZ, 0, 0)
def ls(r): return fld(r, RAZ, 0, 1)
def rs(r): return fld(r, RAZ, 0, 2)
def rf(r): return fld(r, RAZ, 0, 3)
def left(r): return cat(W('ELF', cleft(lf(r))), ASEQ(ls(r)))
def right(r): return cat(rev(ASEQ(rs(r))), W('ERF', cright(rf(r))))
def shape_ok(o, r):
    f = o.st.facts
    for c, v, side in ((lf(r), cright(lf(r)), 'left'), (rf(r), cleft(rf(r)), 'right')):
        if f.is_empty(v) is not True: return False, 'the %s forest keeps nodes of the other side' % side
    for c in (lf(r), rf(r)):
        for p in zipper.invariants(c):
            if p[0] in ('OL', 'OR') and not zipper.prove(f, p): return False, 'order of the ancestors: ' + show(c)
    return True

def expansions(f, w):
    """the word w, and what loop equations say it also is"""
    w = theory.canon(f, w)
    out = [w]
    for a, b in f.words:
        if SEQ(a) and theory.canon(f, b) is w: out.append(theory._words(f, f.norm(a)))
    return out
def SEQ(t): return t.op == 'seq' or t in SEQ_TERMS or (t.op == 'app' and t.a[0] in theory.WORD_APPS)
def ends_with(f, w, x):
    for e in expansions(f, w):
        ps = pieces(e)
        if ps and (ps[-1][0] == 'e' and theory.equal(f, ps[-1][1], x) or ps[-1][0] == 's' and f.is_empty(ps[-1][1]) is False and theory.equal(f, s_last(ps[-1][1]), x)
                   or ps[-1][0] == 'r' and f.is_empty(ps[-1][1]) is False and theory.equal(f, s_first(ps[-1][1]), x)): return True
    return False
def starts_with(f, w, x):
    for e in expansions(f, w):
        ps = pieces(e)
        if ps and (ps[0][0] == 'e' and theory.equal(f, ps[0][1], x) or ps[0][0] == 's' and f.is_empty(ps[0][1]) is False and theory.equal(f, s_first(ps[0][1]), x)
                   or ps[0][0] == 'r' and f.is_empty(ps[0][1]) is False and theory.equal(f, s_last(ps[0][1]), x)): return True
    return False

def c_up(ex, st, fr, args, site, sub):
    """C07/C15: the parent, with its other branch and the focused tree as branches; data is that of a branch"""
    if args[0].op != 'mref': return None
    c = ex.load(st, args[0]); out = []
    L, R = cleft(c), cright(c)
    for el, s1 in split(st, eqi(length(L), num(0))):
        for er, s2 in split(s1, eqi(length(R), num(0))):
            if el and er: out.append((s2, FAIL)); continue
            cs = split(s2, bnot(ge(tlevel(top(L)), tlevel(top(R))))) if not el and not er else [(not el, s2)]
            for l, s3 in cs:
                P = top(L if l else R); t = ctree(c)
                d = fresh('data'); interp.TYPED[d] = ('adt', TDATA, ()); s3.facts.set_variant(d, BRANCH)
                nt = adt(TREE, 0, (tlevel(P), tname(P), art(None, adt(TNODE, 0, (d, tl(P) if l else t, t if l else tr(P))))))
                b = fresh('dirty'); interp.BOOL_TERMS.add(b)
                n = adt(CURSOR, 0, (b, popped(L) if l else L, some(nt), R if l else popped(R)))
                # C07: moving up keeps the invariants of the cursor
                if all(zipper.prove(s3.facts, p) for p in zipper.invariants(c)):
                    for p in zipper.invariants(n): s3.facts.preds.add(p)
                ex.store(s3, args[0], n)
                out.append((s3, LEFT if l else RIGHT))
    return out
UPC = {K('up'): c_up}
def templates(ex, s, live):
    out = []
    for key, c in zipper.cursors(live):
        out += [(('EL', key), seq([S_(W('ELF', cleft(c))), S_(W('ET', ctree(c)))])), (('ER', key), seq([S_(W('ET', ctree(c))), S_(W('ERF', cright(c)))])), (('EC', key), ECT(c))]
    return out
S_ = dom.S
OPTS = dict(zipper.OPTS, templates=templates)
def setup(S):
    session(S); S.opts.update(OPTS); S.contracts = dict(UPC)

@obligation('C11')
def new(S):
    setup(S)
    r = S.run(Rz('new')); S.each(r, 'starts empty', lambda o: [(left(o.val), NIL), (right(o.val), NIL)]); S.each(r, 'one-sided forests', lambda o: shape_ok(o, o.val))
@obligation('C11')
def push(S):
    setup(S); z, pre = raz(S)
    for side in ('left', 'right'):
        r = S.run(Rz('push_' + side), [z], pre=pre); e = r.args[1]
        def post(o):
            n = o.arg(0)
            if side == 'left': return [(left(n), cat(left(z), unit(e)), 'left of the cursor'), (right(n), right(z), 'right of the cursor')]
            return [(left(n), left(z), 'left of the cursor'), (right(n), cat(unit(e), right(z)), 'right of the cursor')]
        S.each(r, 'inserts the element next to the cursor', post)
        S.each(r, 'reports the length of the unarchived section', lambda o: [(o.val, length(cur((ls if side == 'left' else rs)(o.arg(0)))))])
        S.each(r, 'keeps the forests', lambda o: shape_ok(o, o.arg(0)))
        S.no_panic(r, 'no panic')
@obligation('C11')
def archive(S):
    setup(S); z, pre = raz(S)
    for side in ('left', 'right'):
        r = S.run(Rz('archive_' + side), [z], pre=pre); lev, nm = r.args[1:3]
        S.each(r, 'no element moves', lambda o: [(left(o.arg(0)), left(z)), (right(o.arg(0)), right(z))])
        def post(o):
            n = o.arg(0); a, b = (ls(z), ls(n)) if side == 'left' else (rs(z), rs(n))
            e = o.st.facts.is_empty(cur(a))
            if e is None: return False, 'the section is not examined'
            return [(MSEQ(b), MSEQ(a) if e else cat(MSEQ(a), unit(mark(lev, pnm(nm)))), 'archive points')]
        S.each(r, 'adds an archive point of that level and name after a non-empty section', post)
        S.each(r, 'keeps the forests', lambda o: shape_ok(o, o.arg(0)))
        S.no_panic(r, 'no panic')
@obligation('C11')
def pop(S):
    setup(S); z, pre = raz(S)
    for side in ('left', 'right'):
        r = S.run(Rz('pop_' + side), [z], pre=pre)
        def post(o):
            f = o.st.facts; n = o.arg(0); v = f.variant(o.val)
            if v is None: return False, 'undetermined result'
            near, far = (left, right) if side == 'left' else (right, left)
            res = [(far(n), far(z), 'the other side of the cursor')]
            if v == 0: return res + [(near(z), NIL, 'None only at the end'), (near(n), NIL, 'nothing left')]
            e = unit(payload(o.val))
            return res + [(cat(left(n), e) if side == 'left' else cat(e, right(n)), near(z), 'removes exactly the element next to the cursor')]
        S.each(r, 'removes the element next to the cursor', post)
        S.each(r, 'keeps the forests', lambda o: shape_ok(o, o.arg(0)))
        S.no_panic(r, 'no panic')
@obligation('C11')
@obligation('C21')
def peek(S):
    setup(S); z, pre = raz(S)
    S.contracts = {}   # moving up has to be followed into the code: it may rebuild and so allocate
    for side in ('left', 'right'):
        r = S.run(Rz('peek_' + side), [z], pre=pre)
        def post(o):
            f = o.st.facts; v = f.variant(o.val); w = left(z) if side == 'left' else right(z)
            if v is None: return False, 'undetermined result'
            if v == 0: return [(w, NIL, 'None only at the end')]
            return (ends_with if side == 'left' else starts_with)(f, w, payload(o.val)), 'the element shown, %s, is not next to the cursor' % show(payload(o.val))
        S.each(r, 'shows the element next to the cursor', post)
        S.no_panic(r, 'no panic')
        def events(o):
            ev = [e for e in flat_events(o.st.events) if e[0] in ('cell', 'memo', 'put')]
            return (not ev), 'looking allocates %s' % (ev[0][:2],) if ev else ''
        S.each(r, 'allocates and overwrites nothing', events)
def flat_events(ev):
    for e in ev:
        if e and e[0] == 'loop':
            for x in flat_events(e[1]): yield x
        elif e: yield e
