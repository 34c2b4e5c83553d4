"""Theory of tree cursors (zippers): inductive predicates on the two stacks of
ancestors, unfolded on demand, and the level order of trees.

  OL(L)  levels do not increase from the bottom of the left stack to its top
  OR(R)  levels decrease strictly from the bottom of the right stack to its top
  TB(L,t,R)  the focused tree is not above the top of L and below the top of R
  LB(V,n,k)  the top of the stack V, if any, has at least level n+k
  CL(d,L,t,R)  a cursor that is not dirty is focused on the very branch its parent
               holds, and so on upwards until the first dirty ancestor
"""
from dom import *
import dom, theory
from words import *

import spec_reset
ON = spec_reset.flag()   # trees have consistent levels (precondition of the cursor properties)

def child_of(o):
    """(parent tree, 'l'|'r') when o is the branch option of a tree's node"""
    if o.op == 'fld' and o.a[1] == TNODE and o.a[3] in (1, 2):
        b = o.a[0]
        if b.op == 'app' and b.a[0] == 'force':
            l = b.a[1][0]
            if l.op == 'fld' and l.a[1] == TREE and l.a[3] == 2: return l.a[0], 'l' if o.a[3] == 1 else 'r'
    return None
def level_axiom(x, atoms):
    if not ON[0]: return []
    if x.op == 'fld' and x.a[1] == TREE and x.a[3] == 0:
        p = x.a[0]
        if p.op == 'fld' and p.a[1] == OPT:
            c = child_of(p.a[0])
            if c: return [lin_add(tlevel(c[0]), lin_add(x, num(1 if c[1] == 'l' else 0)), -1)]
    return []
dom.AXIOMS.append(level_axiom)

def top(v): return fld(s_last(v), 'tup', 0, 1)
def topd(v):
    d = fld(s_last(v), 'tup', 0, 0)
    import interp; interp.BOOL_TERMS.add(d); return d
def popped(v):
    i = s_init(v)
    if i.op != 'seq': SEQ_TERMS.add(i)
    return i

def direction(f, L, R):
    """'l', 'r', '' (no parent) or None when the facts do not tell"""
    el, er = f.is_empty(L), f.is_empty(R)
    if el is None or er is None: return None
    if el and er: return ''
    if er: return 'l'
    if el: return 'r'
    c = f.decide(bnot(ge(tlevel(top(L)), tlevel(top(R)))))
    return None if c is None else 'l' if c else 'r'

def saturate(f, limit=400):
    if not ON[0] or not f.preds or f.memo().get('saturated'): return
    todo = sorted(f.preds, key=lambda p: tuple(str(getattr(x, "id", x)) for x in p)); seen = set()
    n = 0
    def add(p):
        if p not in f.preds: f.preds.add(p)
        if p not in seen and p not in todo: todo.append(p)
    def lin(l):
        if l.op == 'bool':
            if l is FALSE: raise Infeasible()
            return
        f.assume(l)
    while todo and n < limit:
        p = todo.pop(); n += 1
        if p in seen: continue
        seen.add(p)
        if p[0] in ('OL', 'OR'):
            v = p[1]
            if f.is_empty(v) is False:
                i = popped(v)
                if f.is_empty(i) is False:
                    lin(ge(tlevel(top(i)), lin_add(tlevel(top(v)), num(0 if p[0] == 'OL' else 1))))
                if depth_of(i) < 20: add((p[0], i))
        elif p[0] == 'TB':
            L, t, R = p[1:]
            if f.variant(t) == 1:
                x = payload(t)
                if f.is_empty(L) is False: lin(ge(tlevel(top(L)), tlevel(x)))
                if f.is_empty(R) is False: lin(ge(tlevel(top(R)), lin_add(tlevel(x), num(1))))
        elif p[0] == 'LB':
            if f.is_empty(p[1]) is False: lin(ge(tlevel(top(p[1])), lin_add(p[2], p[3])))
        elif p[0] == 'CL':
            d, L, t, R = p[1:]
            if f.decide(d) is not False: continue
            k = direction(f, L, R)
            if k in ('l', 'r'):
                P = top(L if k == 'l' else R); c = tr(P) if k == 'l' else tl(P)
                eqn(f, t, c)
                if k == 'l': add(('CL', topd(L), popped(L), some(P), R))
                else: add(('CL', topd(R), L, some(P), popped(R)))
    if todo and n >= limit: f.cut = True; dom.CUT[0] += 1
    f.memo()['saturated'] = True

def eqn(f, a, b):
    if a is b: return
    if a.op == 'adt': a, b = b, a
    if (a, b) in f.words: return
    va, vb = f.variant(a), f.variant(b)
    if va is not None: f.set_variant(b, va)
    if vb is not None: f.set_variant(a, vb)
    f.words.append((a, b))

def known(f, p):
    if p in f.preds: return True
    for q in list(f.preds):
        if q[0] == p[0] and len(q) == len(p) and all(theory.equal(f, x, y) for x, y in zip(q[1:], p[1:])): return True
    return False

def cases(f, cond):
    d = f.decide(cond)
    if d is not None: return [(d, f)]
    out = []
    for v in (True, False):
        g = f.copy()
        try: g.assume(cond, v); saturate(g)
        except Infeasible: continue
        out.append((v, g))
    return out

def prove(f, p, depth=0):
    try: saturate(f)
    except Infeasible: return True
    if known(f, p): return True
    if depth > 24: dom.CUT[0] += 1; return False
    if p[0] in ('OL', 'OR'):
        v = f.norm(p[1])
        for e, g in cases(f, eqi(length(v), num(0))):
            if e: continue
            i = popped(v)
            for e2, h in cases(g, eqi(length(i), num(0))):
                if e2: continue
                if h.decide(h.norm(ge(tlevel(top(i)), lin_add(tlevel(top(v)), num(0 if p[0] == 'OL' else 1))))) is not True: return False
            if not known(g, (p[0], i)) and f.is_empty(i) is not True and not prove(g, (p[0], i), depth + 1): return False
        return True
    if p[0] == 'LB':
        return all(e or g.decide(g.norm(ge(tlevel(top(p[1])), lin_add(p[2], p[3])))) is True for e, g in cases(f, eqi(length(p[1]), num(0))))
    if p[0] == 'TB':
        L, t, R = p[1:]
        t = f.norm(t)
        vs = [f.variant(t)] if f.variant(t) is not None else [1]
        if vs == [0]: return True
        g = f.copy()
        try:
            if t.op != 'adt': g.set_variant(t, 1)
            saturate(g)
        except Infeasible: return True
        t = theory.canon(g, t)
        x = payload(t)
        x0 = payload(g.norm(p[2]))
        return all(unleveled(g, V, x0, k) or x is not x0 and unleveled(g, V, x, k) for V, k in ((L, 0), (R, 1)))
    if p[0] == 'CL':
        d, L, t, R = p[1:]
        for dv, g in cases(f, d):
            if dv: continue
            for el, g1 in cases(g, eqi(length(L), num(0))):
                for er, g2 in cases(g1, eqi(length(R), num(0))):
                    if el and er: continue
                    if not el and not er: cs = cases(g2, bnot(ge(tlevel(top(L)), tlevel(top(R)))))
                    else: cs = [(not el, g2)]
                    for left, h in cs:
                        P = top(L if left else R); c = tr(P) if left else tl(P)
                        if theory.equal(h, t, c) is not True: return False
                        q = ('CL', topd(L), popped(L), some(P), R) if left else ('CL', topd(R), L, some(P), popped(R))
                        if not prove(h, q, depth + 1): return False
        return True
    return False
def unleveled(f, v, x, k):
    for e, g in cases(f, eqi(length(v), num(0))):
        if e: continue
        if g.decide(g.norm(ge(tlevel(top(v)), lin_add(tlevel(x), num(k))))) is not True: return False
    return True

def invariants(c):
    return [('OL', cleft(c)), ('OR', cright(c)), ('TB', cleft(c), ctree(c), cright(c)), ('CL', cdirty(c), cleft(c), ctree(c), cright(c))]
def assume_inv(st, c, clean=True):
    import interp
    interp.BOOL_TERMS.add(cdirty(c))
    interp.TYPED.setdefault(ctree(c), ('adt', OPT, ()))
    for p in invariants(c):
        if clean or p[0] != 'CL': st.facts.preds.add(p)

def cursors(live):
    return [(key, t) for key, ty, t in live if ty and ty[0] == 'adt' and ty[1] == CURSOR]
def loop_preds(ex, lt):
    out = []
    for ty, t in lt:
        if ty and ty[0] == 'adt' and ty[1] == CURSOR:
            out += invariants(t)
            for ty2, n in lt:
                if ty2 == ('prim', 'u32') and n.op in ('sym', 'int', 'fld'):
                    out += [('LB', cleft(t), n, num(0)), ('LB', cright(t), n, num(1))]
    return list(dict.fromkeys(out))
def templates(ex, s, live):
    return [(('T', key), CT(t)) for key, t in cursors(live)]
OPTS = {'templates': templates, 'loop_preds': loop_preds, 'pred_holds': lambda ex, f, p: prove(f, p)}
theory.SATURATE.append(saturate)
theory.PRED_PROVE.append(prove)
def depth_of(v):
    n = 0
    while v.op == 'app' and v.a[0] == 'init': v = v.a[1][0]; n += 1
    return n
