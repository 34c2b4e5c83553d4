"""C13, C14 unfocusing a raz."""
from spec import *
from words import *
import zipper, razth
from zipper import top, assume_inv, invariants
from razth import *
from props.p_raz import session, Rz, RT, rtree, rmeta, meta_right, raztree, VEC
from props.p_zip import raz, left, right, lf, ls, rs, rf, c_up
from props.p_cursor import K
import props.p_cursor as p_cursor

OU32 = ('adt', OPT, (('prim', 'u32'),))
def isname(ty): return ty and ty[0] == 'adt' and ty[1] == OPT and ty[2] and ty[2][0][0] == 'adt' and ty[2][0][1].endswith('::Name')
def mleft(r): return cat(W('ILF', cleft(lf(r))), MSEQ(ls(r)))
def mright(r): return cat(rev(MSEQ(rs(r))), W('IRF', cright(rf(r))))

def c_join(ex, st, fr, args, site, sub):
    """C08 joins, for raz trees: both sides keep a focus, so the new node has both branches"""
    l, lev, nm, d, r = args
    f = st.facts
    for c in (l, r):
        if f.variant(ctree(c)) != 1: st.mark('joining a cursor that may have no focus')
        for p in invariants(c):
            if not zipper.prove(f, p): st.mark('cursor invariant not established before joining'); break
    if f.variant(d) not in (DUMMY, BRANCH): st.mark('joining with data that may be that of a leaf')
    if f.decide(f.norm(ge(lev, num(1)))) is not True: st.mark('joining at a level that may be 0')
    x = fresh('joined'); n = adt(CURSOR, 0, [TRUE, fresh('left'), some(x), fresh('right')])
    cleft(n), cright(n)
    interp.TYPED[x] = ('adt', TREE, ())
    f.set_variant(tdata(x), BRANCH); f.set_variant(tl(x), 1); f.set_variant(tr(x), 1)
    zipper.eqn(f, tname(x), nm); zipper.eqn(f, tlevel(x), lev); f.assume(eqi(tlevel(x), lev))
    for p in invariants(n): f.preds.add(p)
    f.words.append((ECT(n), cat(ECT(l), ECT(r))))
    f.words.append((ICT(n), cat(ICT(l), unit(mark(lev, nm)), ICT(r))))
    st.events += (('join', d),)
    return [(st, n)]
UC = {K('up'): c_up, K('join'): c_join}

def stacks(live): return [(k, t) for k, ty, t in live if ty and ty[0] == 'adt' and ty[1] == ASTACK]
def opts(marks):
    CTX = ICT if marks else ECT
    def templates(ex, s, live):
        cs, st = zipper.cursors(live), stacks(live)
        out = [(('C', k), CTX(c)) for k, c in cs]
        if marks:
            levs = [(k, t) for k, ty, t in live if ty == OU32]; nms = [(k, t) for k, ty, t in live if len(k) == 1 and isname(ty)]
            st = [((k, k2, k3), cat(MSEQ(a), W('PEND', lv, n))) for k, a in st for k2, lv in levs for k3, n in nms]
        else: st = [((k,), ASEQ(a)) for k, a in st]
        for k, c in cs:
            for k1, a in st:
                out += [(('L', k, k1), cat(a, CTX(c))), (('R', k, k1), cat(CTX(c), rev(a)))]
                for k2, b in st:
                    if any(x == y for x, y in zip(k1, k2)): continue
                    out.append((('LR', k, k1, k2), cat(a, CTX(c), rev(b))))
        return out
    def preds(ex, lt):
        out = list(zipper.loop_preds(ex, lt))
        for ty, a in lt:
            if ty and ty[0] == 'adt' and ty[1] == ASTACK:
                for ty2, x in lt:
                    if ty2 == OU32: out.append(('PEND', x, cur(a), archopt(a)))
                    elif isname(ty2) and marks: out.append(('NMOF', x, archopt(a)))
        return list(dict.fromkeys(out))
    return {'merge': True, 'seed': ('PEND', 'NMOF'), 'target_only': ('L', 'R', 'LR'), 'shapes': 'one', 'templates': templates, 'loop_preds': preds, 'pred_holds': lambda ex, f, p: any(h(f, p) for h in theory.PRED_PROVE)}

def slices(z):
    """for refutation: every part of the cursor empty but two"""
    dims = ['lf', 'la', 'lc', 'rc', 'ra', 'rf']
    def g(keep):
        def f(fa):
            given(*[(d, True) for d in dims if d not in keep])(z, fa)
            for h in theory.SATURATE: h(fa)
        return f
    return [g((a, b)) for i, a in enumerate(dims) for b in dims[i + 1:]]
def run(S, marks):
    session(S); S.opts.update(opts(marks)); S.contracts = dict(UC)
    z, pre = raz(S)
    w = MSEQ if marks else ASEQ
    S.opts['slices'] = slices(z)
    S.opts['targets'] = [cat(w(ls(z)), rev(w(rs(z)))), cat(mleft(z), mright(z)) if marks else cat(left(z), right(z))]
    return z, S.run(Rz('unfocus'), [z], pre=pre)

@obligation('C13')
def unfocus(S):
    z, r = run(S, False)
    def post(o):
        t = rtree(o.val); want = cat(left(z), right(z))
        return [(W('ET', t), want, 'elements of the tree')]
    S.each(r, 'the tree holds exactly the elements left and right of the cursor', post)
    S.each(r, 'the metadata is that of the tree', lambda o: meta_right(o, o.val))
    S.no_panic(r, 'no panic')

def drop_last(f, w):
    ps = pieces(theory.canon(f, w))
    return seq(ps[:-1]) if ps and ps[-1][0] == 'e' else None
def drop_first(f, w):
    ps = pieces(theory.canon(f, w))
    return seq(ps[1:]) if ps and ps[0][0] == 'e' else None

def case(S, name, given):
    """given(z, st): the case, as facts of the entry state"""
    session(S); S.opts.update(opts(True)); S.contracts = dict(UC)
    z, pre = raz(S)
    st0 = interp.St()
    def entry(st):
        pre(st); given(z, st.facts)
    entry(st0)
    for h in theory.SATURATE: h(st0.facts)
    def words(L, R):
        out = [cat(L, R)]
        if given in DROPS:
            a, b = drop_last(st0.facts, L), drop_first(st0.facts, R)
            out += ([cat(a, R)] if a is not None else []) + ([cat(L, b)] if b is not None else [])
        return out
    wants = words(mleft(z), mright(z))
    S.opts['slices'] = slices(z)
    S.opts['targets'] = words(MSEQ(ls(z)), rev(MSEQ(rs(z)))) + wants
    r = S.run(Rz('unfocus'), [z], pre=entry)
    def post(o):
        t = W('IT', rtree(o.val))
        if any(theory.equal(o.st.facts, t, w) is True for w in wants): return True
        return [(t, wants[-1], 'elements and archive points of the tree')]
    S.each(r, name, post)
def given(*kinds):
    """(which, empty?) pairs"""
    def g(z, f):
        for k, v in kinds:
            if k in ('lc', 'rc'): f.assume(eqi(length(cur(ls(z) if k == 'lc' else rs(z))), num(0)), v)
            elif k in ('la', 'ra'):
                a = archopt(ls(z) if k == 'la' else rs(z))
                f.set_variant(a, 0 if v else 1)
                if v: NULLARY[(a, 0)] = OPT
            else: f.assume(eqi(length(cleft(lf(z)) if k == 'lf' else cright(rf(z))), num(0)), v)
    return g
CASES = [('cursor right of an element of the left section', given(('lc', False))),
         ('cursor left of an element of the right section', given(('lc', True), ('rc', False))),
         ('cursor at an archive point of the left stack', given(('lc', True), ('rc', True), ('la', False))),
         ('cursor at an archive point of the right stack', given(('lc', True), ('rc', True), ('la', True), ('ra', False))),
         ('cursor at an archive point of the left forest', given(('lc', True), ('rc', True), ('la', True), ('ra', True), ('lf', False))),
         ('cursor at an archive point of the right forest', given(('lc', True), ('rc', True), ('la', True), ('ra', True), ('lf', True), ('rf', False))),
         ('empty sequence', given(('lc', True), ('rc', True), ('la', True), ('ra', True), ('lf', True), ('rf', True)))]
DROPS = set(g for _, g in CASES[2:6])
for i, (n, g) in enumerate(CASES):
    obligation('C14', 'case%d' % i)(lambda S, n=n, g=g: case(S, n, g))

@obligation('C13')
def raz_join(S):
    """what c_join relies on: joining two focused cursors over raz trees yields a branch with both sides"""
    session(S)
    ty = ('adt', CURSOR, (('adt', TDATA, (('param', 0, 'E'), ('param', 1, 'M'))),))
    S.opts.update(p_cursor_opts())
    l, rr = S.symbol('l', ty), S.symbol('r', ty)
    def pre(st):
        for c in (l, rr):
            assume_inv(st, c); st.facts.set_variant(ctree(c), 1)
        st.facts.assume(ge(lev, num(1))); st.facts.exclude(d, LEAF)
    lev = S.symbol('lev', ('prim', 'u32'))
    d = S.symbol('d', ('adt', TDATA, (('param', 0, 'E'), ('param', 1, 'M'))))
    r = S.run(K('join'), [l, lev, None, d, rr], pre=pre, sub=dict((g[0], ty[2][0]) for g in S.fn(K('join')).generics), contracts={K('up'): c_up})
    nm = r.args[2]
    def post(o):
        c = o.val; t = payload(ctree(c)); f = o.st.facts
        res = [(isvar(ctree(c), 1), TRUE, 'has a focus'), (tlevel(t), lev, 'level'), (tname(t), nm, 'name')]
        for b, w in ((tl(t), 'left'), (tr(t), 'right')):
            if f.variant(b) != 1: return False, w + ' branch missing'
        if f.variant(tdata(t)) != BRANCH: return False, 'data is not that of a branch: ' + show(theory.canon(f, tdata(t)))
        return res + [(ICT(c), cat(ICT(l), unit(mark(lev, nm)), ICT(rr)), 'elements and archive points')]
    S.each(r, 'joins everything into one branch', post)
def p_cursor_opts():
    def templates(ex, s, live): return [(('C', k), ICT(c)) for k, c in zipper.cursors(live)]
    return {'templates': templates, 'shapes': 'one', 'loop_preds': zipper.loop_preds, 'pred_holds': lambda ex, f, p: zipper.prove(f, p)}
