"""Theory of the RAZ: well-formed trees of raz data, and the sequence a zipper stands for.

Well-formed raz tree (shown to be preserved): a node is a leaf (level 0, a non-empty
vector, no branches) or a branch (level at least 1, both branches); the placeholder
variant never occurs.  Well-formed sections of an archive stack are non-empty and
archived with a level of at least 1 (0 is reserved for leaves)."""
from dom import *
import dom, theory, zipper
from words import *
from words import _forest
from zipper import child_of, top

import spec_reset
ON = spec_reset.flag()
SMALL = spec_reset.flag()   # archive levels stay below u32::MAX
TDATA = 'iodyn::raz::TreeData'; RAZ = 'iodyn::raz::Raz'; RTREE = 'iodyn::raz::RazTree'
DUMMY, BRANCH, LEAF = 0, 1, 2
def leafvec(d):
    v = fld(d, TDATA, LEAF, 0)
    if v.op != 'seq': SEQ_TERMS.add(v)
    return v

_kind = {}
def kind(t):
    """('d' | 'b', tree) when t is the data or a branch of an opaque tree node"""
    r = _kind.get(t, 0)
    if r == 0:
        r = None
        if t.op == 'fld' and t.a[1] == TNODE:
            b = t.a[0]
            if b.op == 'app' and b.a[0] == 'force':
                l = b.a[1][0]
                if l.op == 'fld' and l.a[1] == TREE and l.a[3] == 2: r = ('d' if t.a[3] == 0 else 'b', l.a[0])
        _kind[t] = r
    return r
def ancestor(p):
    """is p on the stack of a cursor (then it has both branches)"""
    if p.op == 'fld' and p.a[1] == 'tup' and p.a[3] == 1:
        v = p.a[0]
        return v.op == 'app' and v.a[0] in ('last', 'nth', 'first')
    return False
def branchy(f, p):
    if ancestor(p): return True
    v = f.var.get(tdata(p))
    if v is not None: return v == BRANCH
    for b in (tl(p), tr(p)):
        v = f.var.get(b)
        if v is not None: return v == 1
    return None
def possible(f, t):
    if not ON[0]: return None
    k = kind(t)
    if not k: return None
    b = branchy(f, k[1])
    if k[0] == 'd': return (BRANCH, LEAF) if b is None else (BRANCH,) if b else (LEAF,)
    return None if b is None else (1,) if b else (0,)
dom.POSSIBLE.append(possible)

def axioms(x, atoms):
    if not ON[0]: return []
    if x.op == 'app' and x.a[0] == 'len':
        v = x.a[1][0]
        if v.op == 'fld' and v.a[1] == TDATA and v.a[2] == LEAF and kind(v.a[0]): return [lin_add(x, num(-1))]
        if section(v, 1): return [lin_add(x, num(-1))]
    if section(x, 0): return [lin_add(x, num(-1))] + ([lin_add(num(2 ** 32 - 2), x, -1)] if SMALL[0] else [])
    if x.op == 'fld' and x.a[1] == TREE and x.a[3] == 0 and ancestor(x.a[0]): return [lin_add(x, num(-1))]
    return []
def section(v, i):
    if v.op == 'fld' and v.a[1] == 'tup' and v.a[3] == i:
        b = v.a[0]
        return b.op == 'fld' and b.a[1] == BODY and b.a[3] == 0
    return False
dom.AXIOMS.append(axioms)

def saturate(f):
    """levels and absent branches that follow from the variants known"""
    if not ON[0]: return
    m = f.memo()
    if m.get('razsat'): return
    for t, v in list(f.var.items()):
        k = kind(t)
        if not k: continue
        p = k[1]; b = branchy(f, p)
        if b is None: continue
        if b: f.assume(ge(tlevel(p), num(1)))
        else:
            f.assume(eqi(tlevel(p), num(0)))
            for c in (tl(p), tr(p)):
                if c not in f.var:
                    f.set_variant(c, 0); NULLARY[(c, 0)] = OPT
    pends(f)
    if COUNTED[0]:
        xs = {x for l in f.lins for x, _ in lin_parts(l)[1] if x.op == 'app' and x.a[0] == 'len'}
        for t in list(f.var):
            k = kind(t)
            if k and k[1].op == 'fld' and k[1].a[1] == OPT: xs.add(length(W('ET', k[1].a[0])))
        for a, b in list(f.words):
            if a.op == 'seq' or a.op == 'app' and a.a[0] in theory.WORD_APPS: f.assume(eqi(length(a), length(theory._words(f, f.norm(b)))))
        for x in sorted(xs, key=lambda x: x.id):
            if x.op == 'app':
                y = theory._words(f, x)
                if y is not x: f.assume(eqi(x, y))
    f.memo()['razsat'] = True
theory.SATURATE.append(saturate)

# ---- elements only
def EDATA(f, d):
    v = f.variant(d)
    if v == LEAF: return [S(leafvec(d))]
    return []
@word('ET')
def _et(f, o):
    v = f.variant(o)
    if v is None: return None
    if v == 0: return []
    p = payload(o); d = tdata(p)
    dv = f.variant(d)
    if dv is None: return None
    if dv == LEAF: return [S(leafvec(d))]
    return [S(W('ET', tl(p))), S(W('ET', tr(p)))]
word('ELF')(lambda f, v: _forest(f, v, 'ELF', lambda t: [S(W('ET', tl(t)))], False))
word('ERF')(lambda f, v: _forest(f, v, 'ERF', lambda t: [S(W('ET', tr(t)))], True))
# ---- elements and archive points
def mark(l, n): return app('mark', l, n)
@word('IT')
def _it(f, o):
    v = f.variant(o)
    if v is None: return None
    if v == 0: return []
    p = payload(o); d = tdata(p)
    dv = f.variant(d)
    if dv is None: return None
    if dv == LEAF: return [S(leafvec(d))]
    return [S(W('IT', tl(p))), E(mark(tlevel(p), tname(p))), S(W('IT', tr(p)))]
word('ILF')(lambda f, v: _forest(f, v, 'ILF', lambda t: [S(W('IT', tl(t))), E(mark(tlevel(t), tname(t)))], False))
word('IRF')(lambda f, v: _forest(f, v, 'IRF', lambda t: [E(mark(tlevel(t), tname(t))), S(W('IT', tr(t)))], True))
def pairname(n): return app('npair', n, app('nstr', mk('str', '"tree"')))
def pnm(o):
    """the name a tree node gets from the (optional) name of an archive point"""
    if o.op == 'adt': return some(pairname(o.a[2][0])) if o.a[1] else none()
    return app('pnm', o)
dom._reapp['pnm'] = pnm
def _pnm(f, o):
    v = f.variant(o)
    if v is None: return None
    return some(pairname(payload(o))) if v else none()
theory.CANON_APPS['pnm'] = _pnm
@word('MARCH')
def _march(f, o):
    """archived sections with their archive points, oldest first"""
    v = f.variant(o)
    if v is None: return None
    if v == 0: return []
    h = payload(o); b = force(fld(h, HEAD, 0, 1)); mv = fld(b, BODY, 0, 0)
    vec = fld(mv, 'tup', 0, 1)
    if vec.op != 'seq': SEQ_TERMS.add(vec)
    return [S(W('MARCH', fld(b, BODY, 0, 1))), S(vec), E(mark(fld(mv, 'tup', 0, 0), pnm(fld(h, HEAD, 0, 0))))]
@word('PEND')
def _pend(f, lev, nm):
    """the archive point taken off the stack with the section before it"""
    v = f.variant(lev)
    if v is None: return None
    return [E(mark(payload(lev), nm))] if v else []
def MSEQ(a):
    c = cur(a); return seq([S(W('MARCH', archopt(a))), S(c)])

def ECT(c): return seq([S(W('ELF', cleft(c))), S(W('ET', ctree(c))), S(W('ERF', cright(c)))])
def ICT(c): return seq([S(W('ILF', cleft(c))), S(W('IT', ctree(c))), S(W('IRF', cright(c)))])

# ---- positions by element count
COUNTED = spec_reset.flag()   # the metadata of every branch counts the elements below
COUNT = 'iodyn::raz_meta::Count'
MAXU = num(2 ** 64 - 1)
def elen(*ws): return length(seq([S(w) for w in ws]))
def count_axiom(x, atoms):
    if not COUNTED[0] or x.op != 'fld' or x.a[1] != COUNT: return []
    m = x.a[0]
    if m.op == 'fld' and m.a[1] == TDATA and m.a[2] == BRANCH:
        k = kind(m.a[0])
        if k and k[0] == 'd':
            e = elen(W('ET', (tl, tr)[m.a[3]](k[1])))
            return [lin_add(x, e, -1), lin_add(e, x, -1)]
    return []
dom.AXIOMS.append(count_axiom)
#  POSN(i, L, t, idx, tot): with L left of the focus t, position i inside t is position idx of all tot elements
def posn(f, p):
    i, L, t, idx, tot = p[1:]
    a, b = W('ELF', L), W('ET', t)
    return i, idx, tot, [(elen(a), elen(b), elen(a, b))] + [tuple(theory._words(f, f.norm(x)) for x in (elen(a), elen(b), elen(a, b)))]
def posn_sat(f, p):
    i, idx, tot, ls = posn(f, p)
    d, j = f.decide(eqi(i, MAXU)), f.decide(eqi(idx, MAXU))
    for a, b, ab in ls:
        f.assume(ge(tot, ab))
        if d is False: f.assume(eqi(idx, lin_add(a, i))); f.assume(ge(b, i)); f.assume(ge(lin_add(MAXU, num(-1)), idx))
        elif d and j is not None: f.assume(eqi(ab, tot if j else idx))
def posn_prove(f, p):
    f = f.copy()
    try: saturate(f)
    except Infeasible: return True
    i, idx, tot, _ = posn(f, p)
    for d, g in zipper.cases(f, eqi(i, MAXU)):
        for j, h in zipper.cases(g, eqi(idx, MAXU)):
            try: saturate(h)
            except Infeasible: continue
            a, b, ab = posn(h, p)[3][1]
            if h.decide(h.norm(ge(tot, ab))) is not True: return False
            if not d:
                if j: return False
                if h.decide(h.norm(eqi(idx, lin_add(a, i)))) is not True or h.decide(h.norm(ge(b, i))) is not True: return False
            elif h.decide(h.norm(eqi(ab, tot if j else idx))) is not True: return False
    return True

# ---- predicates of the unfocus loops
#  PEND(lev, cur, arch): lev is some exactly while sections remain; the current one is then non-empty
#  NMOF(nm, arch): nm is the tree name of the archive point on top of arch
def pends(f):
    for p in list(f.preds):
        if p[0] == 'PEND':
            lev, c, ar = p[1:]
            v = f.variant(lev)
            if v is None:
                e = f.is_empty(c)
                if e is not None: f.set_variant(lev, 0 if e else 1); v = 0 if e else 1
                elif f.variant(ar) == 1: f.set_variant(lev, 1); v = 1
            if v == 0:
                if ar.op != 'adt': NULLARY[(ar, 0)] = OPT
                f.set_variant(ar, 0)
                f.assume(eqi(length(c), num(0)))
            elif v == 1:
                f.assume(ge(length(c), num(1)))
                f.assume(ge(payload(lev), num(1)))
        elif p[0] == 'POSN': posn_sat(f, p)
        elif p[0] == 'NMOF':
            nm, ar = p[1:]
            v = f.variant(ar)
            if v == 0: f.set_variant(nm, 0)
            elif v == 1: zipper.eqn(f, nm, pnm(fld(payload(ar), HEAD, 0, 0)))
def prove(f, p):
    if p[0] == 'POSN': return posn_prove(f, p)
    if p[0] == 'PEND':
        lev, c, ar = p[1:]
        lev = theory.canon(f, lev); v = f.variant(lev)
        if v is None: return False
        if v == 0: return f.is_empty(c) is True and f.variant(ar) == 0
        return f.is_empty(c) is False and f.decide(f.norm(ge(payload(lev), num(1)))) is True
    if p[0] == 'NMOF':
        nm, ar = p[1:]; v = f.variant(ar)
        if v is None: return False
        return theory.equal(f, nm, pnm(fld(payload(ar), HEAD, 0, 0)) if v else none()) is True
    return False
theory.PRED_PROVE.append(prove)
