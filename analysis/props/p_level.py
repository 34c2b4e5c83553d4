"""C29 generated levels."""
import bits
from spec import *
from words import *
from props.p_raz import MAXU

NB = 'iodyn::trees::NegBin'
def exact(o, t):
    def walk(x):
        if isinstance(x, Term):
            if x.op == 'app' and x.a[0] == 'op:Rem' and x.a[1][0].op == 'sym' and x.a[1][1].op == 'int': return False   # every remainder occurs
            if x.op == 'app' and (x.a[0].startswith('op:') or x.a[0].startswith('num:')): return True
            return any(walk(y) for y in x.a)
        return isinstance(x, tuple) and any(walk(y) for y in x)
    tested, inexact = set(), set()
    def feasible(b, v):
        """a test of bits that cannot come out this way excludes the path; several tests of bits may exclude one another"""
        if b.op == 'not': return feasible(b.a[0], not v)
        if not walk(b): return
        tested.add(b)
        x = b.a[0] if b.op == 'eq0' else None
        if x is not None and x.op == 'lin' and x.a[0] == 0 and len(x.a[1]) == 1: x = x.a[1][0][0]
        if x is None or x.op != 'app': inexact.add(b); return
        n, ex = bits.count_range('count_ones', x, 64)[1:]
        if not v and n == 0: raise Infeasible()
        if not ex: inexact.add(b)
    for b, v in o.st.facts.bools.items(): feasible(b, v)
    for l in o.st.facts.lins:
        if walk(l): tested.add(l); inexact.add(l)
    if len(tested) > 1 or inexact: o.st.mark('tests of bits that are not tracked together')
    if walk(o.st.facts.norm(t)): o.st.mark('arithmetic that is not tracked')
    return t

@obligation('C29')
def branch_level(S):
    for k in ('level_tree::gen_branch_level', 'inc_level'):
        r = S.run(k)
        S.each(r, 'never the leaf level 0', lambda o: ge(exact(o, o.val), num(1)))
        S.no_panic(r, 'no panic')
@obligation('C29')
def negbin(S):
    r = S.run('<trees::NegBin as rand::Rand>::rand')
    S.each(r, 'never the leaf level 0', lambda o: ge(exact(o, fld(o.val, NB, 0, 0)), num(1)))
    S.each(r, 'at most 64', lambda o: ge(num(64), exact(o, fld(o.val, NB, 0, 0))))
    S.no_panic(r, 'no panic')
@obligation('C29')
def level_steps(S):
    """the Level operations of NegBin and usize: neighbours are one step apart, the extremes bound every level"""
    for ty, top, inner in (('trees::NegBin', 255, lambda x: fld(x, NB, 0, 0)), ('usize', None, lambda x: x)):
        K = lambda n: '<%s as trees::Level>::%s' % (ty, n)
        x = S.symbol('self.' + ty, ('adt', NB, ()) if top else ('prim', 'usize'))
        n = inner(x)
        if top: dom.INT_MAX[n] = top
        r = S.run(K('l_inc'), [x]); S.each(r, 'one step up', lambda o: [(inner(o.val), lin_add(n, num(1)))])
        r = S.run(K('l_dec'), [x], pre=lambda st: st.facts.assume(ge(n, num(1)))); S.each(r, 'one step down', lambda o: [(inner(o.val), lin_add(n, num(1), -1))])
        r = S.run(K('l_min')); S.each(r, 'the least level', lambda o: [(inner(o.val), num(0))])
        r = S.run(K('l_max')); S.each(r, 'the greatest level', lambda o: [(inner(o.val), num(top) if top else MAXU)])
