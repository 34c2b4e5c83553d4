"""Comparing two terms under the facts of a trace partition.

equal(facts, a, b) is True (provably the same value), False is never claimed: it
answers None when the canonical forms differ.  The canonical form uses the facts
(known variants, emptiness, equations kept at loop heads) and the rewrite rules
of the word theory (content of trees, cursors and stacks), see words.py."""
from dom import *
import dom

WORD_RULES = []     # functions (facts, pieces list) -> pieces list or None
OPEN_RULES = []     # functions (facts, term, other_terms) -> replacement word or None

SATURATE = []       # functions (facts): add consequences of the predicate instances known
PRED_PROVE = []     # functions (facts, predicate instance) -> bool

def canon(facts, t, depth=0):
    for h in SATURATE:
        try: h(facts)
        except Infeasible: pass
    m = facts.memo(); k = ('c', t)
    r = m.get(k)
    if r is None: r = m[k] = _canon(facts, t, depth)
    return r
def _canon(facts, t, depth):
    t = facts.norm(t)
    t = _words(facts, t)
    if depth < 200:
        t2 = apply_eqs(facts, t)
        if t2 is not t: return canon(facts, t2, depth + 1)
    elif apply_eqs(facts, t) is not t:
        import interp
        raise interp.Undecided('equations of the state do not settle')
    return t

def _words(facts, t):
    m = facts.memo(); k = ('w', t)
    r = m.get(k)
    if r is None: r = m[k] = _words0(facts, t)
    return r
def _words0(facts, t):
    def f(x):
        if x.op == 'seq':
            ps = [(k, _words(facts, y)) for k, y in x.a]
            return norm_word(facts, ps)
        if x.op == 'app' and x.a[0] in WORD_APPS:
            n = tuple(_words(facts, y) for y in x.a[1])
            y = app(x.a[0], *n)
            return norm_word(facts, [S(y)])
        if x.op == 'app' and x.a[0] in CANON_APPS:
            n = tuple(_words(facts, y) for y in x.a[1])
            y = CANON_APPS[x.a[0]](facts, *n)
            return app(x.a[0], *n) if y is None else y
        return None
    return subst(t, f)
WORD_APPS = set()
CANON_APPS = {}     # application -> function (facts, args) -> its value where the facts fix it, or None

def norm_word(facts, ps):
    ps = list(ps)
    for _ in range(200):
        for r in WORD_RULES:
            q = r(facts, ps)
            if q is not None:
                ps = q; break
        else: break
    out = []
    for k, x in ps:
        if k != 'e' and x.op != 'seq' and facts.is_empty(x) is True and x in dom.SEQ_TERMS: continue
        if k == 'e' and CANON_APPS and contains(x, lambda y: y.op == 'app' and y.a[0] in CANON_APPS): x = _words(facts, x)
        out.append((k, x))
    return seq(out)

def isword(l): return l.op == 'seq' or (l.op == 'app' and l.a[0] in WORD_APPS) or l in dom.SEQ_TERMS
def apply_eqs(facts, t):
    m = facts.memo()
    eqs = m.get('eqs')
    if eqs is None:
        eqs = []
        for lhs, rhs in facts.words:
            l = _words(facts, facts.norm(lhs)); r = _words(facts, facts.norm(rhs))
            if l is not r and (l, r) not in eqs: eqs.append((l, r))
        # left sides of word equations are read modulo the other equations, like the terms they are applied to
        sc = [(l, r) for l, r in eqs if not isword(l) and l.op not in ('int', 'bool') and not contains(r, lambda x: x is l)]
        ws = []
        for l, r in eqs:
            if not isword(l): continue
            for n in range(40):
                if n == 39: facts.cut = True
                l2 = l
                for a, b in sc:
                    if a is not l2: l2 = subst(l2, lambda x: b if x is a else None)
                if l2 is l: break
                l = _words(facts, l2)
            if l is not r: ws.append((l, r))
        eqs = sc + ws
        facts.memo()['eqs'] = eqs
    for l, r in eqs:
        if isword(l):
            lp = pieces(l)
            if not lp: continue
            t2 = subst_word(t, lp, pieces(r))
        else:
            t2 = subst(t, lambda x: r if x is l else None)
        if t2 is not t: return t2
    return t

def subst_word(t, lp, rp):
    n = len(lp)
    def f(x):
        if x.op == 'seq' or (n == 1 and lp[0][0] == 's' and x is lp[0][1]):
            ps = pieces(x)
            for i in range(len(ps) - n + 1):
                if ps[i:i + n] == lp:
                    if ps[i:i+n] == rp: continue
                    return seq(ps[:i] + rp + ps[i + n:])
            rl = rev_pieces(lp)
            for i in range(len(ps) - n + 1):
                if ps[i:i + n] == rl:
                    return seq(ps[:i] + rev_pieces(rp) + ps[i + n:])
        return None
    return subst(t, f)

def equal(facts, a, b):
    if a is b: return True
    a = canon(facts, a); b = canon(facts, b)
    if _eq(facts, a, b): return True
    x, y = explode(facts, a), explode(facts, b)
    if x is a and y is b: return None
    return _eq(facts, x, y)

def known_len(facts, v):
    m = facts.memo(); k = ('kl', v)
    if k not in m:
        r = None; l = length(v)
        if any(l is x for t in facts.lins for x, _ in dom.lin_parts(t)[1]):
            if facts.decide(ge(l, num(17))) is False:
                for n in range(1, 17):
                    if facts.decide(ge(l, num(n))) is not True: break
                    if facts.decide(ge(l, num(n + 1))) is False: r = n; break
        m[k] = r
    return m[k]
def elt(v, i):
    if v.op == 'seq' and all(k == 'e' for k, _ in v.a) and i.op == 'int' and i.a[0] < len(v.a): return v.a[i.a[0]][1]
    return app('elt', v, i)
dom._reapp['elt'] = elt
def explode(facts, t):
    """sequences of a known small length written out element by element"""
    def f(x):
        if x.op in ('sym', 'fld', 'app') and x in dom.SEQ_TERMS and not (x.op == 'app' and x.a[0] in DERIVED) and x not in SEQ_WORDS:
            n = known_len(facts, x)
            if n: return seq([E(app('elt', x, num(i))) for i in range(n)])
        return None
    return subst(t, f)
DERIVED = {'init', 'tail', 'take', 'drop', 'map', 'rev'}
SEQ_WORDS = ()

def _eq(facts, a, b):
    if a is b: return True
    if facts.bools and a.op not in ('int', 'lin', 'bool') and b.op not in ('int', 'lin', 'bool'):
        e = dom.eqt(a, b)
        if e.op == 'eq' and facts.bools.get(e) is True: return True
    if a.op == 'adt' and b.op == 'adt':
        if a.a[0] != b.a[0] or a.a[1] != b.a[1] or len(a.a[2]) != len(b.a[2]): return None
        return True if all(_eq(facts, x, y) for x, y in zip(a.a[2], b.a[2])) else None
    for x, y in ((a, b), (b, a)):
        if x.op == 'adt' and y.op != 'adt' and y.op not in ('int', 'lin', 'bool'):
            v = facts.variant(y)
            if v == x.a[1] or x.a[0] == 'tup' or (v is None and single(x)):
                if all(_eq(facts, canon(facts, fld(y, x.a[0], x.a[1], i)), canon(facts, z)) for i, z in enumerate(x.a[2])): return True
    if a.op == 'ite' or b.op == 'ite':
        t = a if a.op == 'ite' else b
        c = t.a[0]
        ok = True
        for v in (True, False):
            f2 = facts.copy()
            try: f2.assume(c, v)
            except Infeasible: continue
            if not equal(f2, a, b): ok = False
        return True if ok else None
    if isint(a) or isint(b):
        if facts.decide(eqi(a, b)) is True: return True
    if a.op in ('ge0', 'eq0', 'not', 'and', 'isvar', 'bool', 'eq') or b.op in ('ge0', 'eq0', 'not', 'and', 'isvar', 'bool', 'eq'):
        if bool_equal(facts, a, b): return True
    if a.op == 'app' and b.op == 'app' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
        if all(_eq(facts, x, y) for x, y in zip(a.a[1], b.a[1])): return True
    if a.op == 'art' and b.op == 'art':
        na, nb = a.a[0], b.a[0]
        if (na is None) == (nb is None) and (na is None or _eq(facts, na, nb)) and _eq(facts, a.a[1], b.a[1]): return True
    if a.op == 'seq' or b.op == 'seq':
        return seq_equal(facts, a, b)
    return None

def single(x):
    return x.a[1] == 0 and x.a[0] not in (OPT, 'core::result::Result') and x.a[0] in SINGLE
SINGLE = set()

def isint(t): return t.op in ('int', 'lin') or t.op == 'app' and t.a[0] == 'len'

def bool_equal(facts, a, b):
    for v in (True, False):
        f = facts.copy()
        try: f.assume(a, v)
        except Infeasible: continue
        try:
            d = f.decide(b)
        except Infeasible: continue
        if d != v: return False
    return True

def seq_equal(facts, a, b, depth=0):
    pa, pb = pieces(a), pieces(b)
    while pa and pb and pa[0][0] == pb[0][0] and _eq(facts, pa[0][1], pb[0][1]): pa, pb = pa[1:], pb[1:]
    while pa and pb and pa[-1][0] == pb[-1][0] and _eq(facts, pa[-1][1], pb[-1][1]): pa, pb = pa[:-1], pb[:-1]
    if not pa and not pb: return True
    if depth > 40: dom.CUT[0] += 1; return None
    for r in OPEN_RULES:
        q = r(facts, pa, pb)
        if q is not None:
            return seq_equal(facts, norm_open(facts, q[0]), norm_open(facts, q[1]), depth + 1)
    return None
def norm_open(facts, ps): return seq(ps)
