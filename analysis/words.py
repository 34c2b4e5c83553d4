"""Content words: the sequence a data structure stands for, by structural unfolding.

W(name, x) is the word of x.  It unfolds whenever the facts fix the shape of x,
so two expressions for the same content get the same canonical word."""
from dom import *
import dom, theory

UNFOLD = {}
def word(name):
    def d(f):
        UNFOLD[name] = f
        theory.WORD_APPS.add(name)
        return f
    return d
def W(name, *x):
    t = app(name, *x); SEQ_TERMS.add(t); return t

def rule(facts, ps):
    for i, (k, x) in enumerate(ps):
        if k == 'e' or x.op != 'app': continue
        u = UNFOLD.get(x.a[0])
        if not u: continue
        r = u(facts, *x.a[1])
        if r is None: continue
        if k == 'r': r = rev_pieces(r)
        return ps[:i] + list(r) + ps[i + 1:]
    return None
theory.WORD_RULES.append(rule)

def vopt(facts, t):
    """variant of an Option under the facts"""
    return facts.variant(t)

# ---- persistent list (stack.rs): Option<Head>
HEAD = 'iodyn::stack::Head'; BODY = 'iodyn::stack::Body'; STACK = 'iodyn::stack::Stack'
@word('LIST')
def _list(facts, o):
    v = facts.variant(o)
    if v is None: return None
    if v == 0: return []
    h = fld(o, OPT, 1, 0)
    b = force(fld(h, HEAD, 0, 1))
    return [E(fld(b, BODY, 0, 0)), S(W('LIST', fld(b, BODY, 0, 1)))]
def LIST(stack): return W('LIST', fld(stack, STACK, 0, 0))
# list of names alongside
@word('LISTN')
def _listn(facts, o):
    v = facts.variant(o)
    if v is None: return None
    if v == 0: return []
    h = fld(o, OPT, 1, 0)
    b = force(fld(h, HEAD, 0, 1))
    return [E(fld(h, HEAD, 0, 0)), S(W('LISTN', fld(b, BODY, 0, 1)))]
def LISTN(stack): return W('LISTN', fld(stack, STACK, 0, 0))

# ---- archive stack: oldest element first, top of the stack last
ASTACK = 'iodyn::archive_stack::AStack'
@word('ARCH')
def _arch(facts, o):
    v = facts.variant(o)
    if v is None: return None
    if v == 0: return []
    b = force(fld(fld(o, OPT, 1, 0), HEAD, 0, 1))
    mv = fld(b, BODY, 0, 0)
    vec = fld(mv, 'tup', 0, 1); SEQ_TERMS.add(vec)
    return [S(W('ARCH', fld(b, BODY, 0, 1))), S(vec)]
def ASEQ(a):
    c = fld(a, ASTACK, 0, 0); SEQ_TERMS.add(c)
    return seq([S(W('ARCH', fld(fld(a, ASTACK, 0, 1), STACK, 0, 0))), S(c)])
def cur(a):
    c = fld(a, ASTACK, 0, 0); SEQ_TERMS.add(c); return c
def arch(a): return fld(a, ASTACK, 0, 1)
def archopt(a): return fld(arch(a), STACK, 0, 0)

# ---- level trees: Option<Tree>
TREE = 'iodyn::level_tree::Tree'; TNODE = 'iodyn::level_tree::TreeNode'
def tlevel(t): return fld(t, TREE, 0, 0)
def tname(t): return fld(t, TREE, 0, 1)
def tnode(t): return force(fld(t, TREE, 0, 2))
def tdata(t): return fld(tnode(t), TNODE, 0, 0)
def tl(t): return fld(tnode(t), TNODE, 0, 1)
def tr(t): return fld(tnode(t), TNODE, 0, 2)
def payload(o): return fld(o, OPT, 1, 0)

REBUILD = 'tree_cursor::TreeUpdate::rebuild'
def core(d):
    """the data of a node up to what rebuilding a node may change"""
    while d.op == 'app' and d.a[0] in (REBUILD, 'upd'): d = d.a[1][1 if d.a[0] == REBUILD else 0]
    return app('core', d)
dom._reapp['core'] = core
def nodeitem(t): return tup(tlevel(t), tname(t), core(tdata(t)))

@word('T')
def _t(facts, o):
    v = facts.variant(o)
    if v is None: return None
    if v == 0: return []
    t = payload(o)
    return [S(W('T', tl(t))), E(nodeitem(t)), S(W('T', tr(t)))]
@word('LF')
def _lf(facts, vec):
    return _forest(facts, vec, 'LF', lambda t: [S(W('T', tl(t))), E(nodeitem(t))], False)
@word('RF')
def _rf(facts, vec):
    return _forest(facts, vec, 'RF', lambda t: [E(nodeitem(t)), S(W('T', tr(t)))], True)
def _forest(facts, vec, name, item, right):
    SEQ_TERMS.add(vec)
    ps = pieces(vec)
    if len(ps) == 1 and ps[0][0] == 's':
        e = facts.is_empty(vec)
        if e is True: return []
        if e is False:
            i = s_init(vec); SEQ_TERMS.add(i)
            it = item(fld(s_last(vec), 'tup', 0, 1))
            return it + [S(W(name, i))] if right else [S(W(name, i))] + it
        return None
    if any(k == 'r' for k, _ in ps): return None
    out = []
    for k, x in ps:
        w = item(fld(x, 'tup', 0, 1)) if k == 'e' else [S(W(name, x))]
        out = w + out if right else out + w
    return out
CURSOR = 'iodyn::tree_cursor::Cursor'
def cdirty(c): return fld(c, CURSOR, 0, 0)
def cleft(c):
    v = fld(c, CURSOR, 0, 1); SEQ_TERMS.add(v); return v
def ctree(c): return fld(c, CURSOR, 0, 2)
def cright(c):
    v = fld(c, CURSOR, 0, 3); SEQ_TERMS.add(v); return v
def CT(c): return seq([S(W('LF', cleft(c))), S(W('T', ctree(c))), S(W('RF', cright(c)))])

# ---- data only, in order
def W1(name):
    def u(facts, o):
        v = facts.variant(o)
        if v is None: return None
        if v == 0: return []
        t = payload(o)
        return [S(W(name, tl(t))), E(tdata(t)), S(W(name, tr(t)))]
    return u
word('TD')(W1('TD'))
@word('RFD')
def _rfd(facts, vec):
    return _forest(facts, vec, 'RFD', lambda t: [E(tdata(t)), S(W('TD', tr(t)))], True)
def AHEAD(c):
    """data of the focused subtree and of everything to its right"""
    return seq([S(W('TD', ctree(c))), S(W('RFD', cright(c)))])
ITERR = 'iodyn::tree_cursor::IterR'; ITERL = 'iodyn::tree_cursor::IterL'
@word('REM')
def _rem(facts, c):
    """what an iterator standing at cursor c still yields"""
    t = ctree(c); v = facts.variant(t)
    if v is None: return None
    if v == 0: return []
    return [E(tdata(payload(t))), S(W('TD', tr(payload(t)))), S(W('RFD', cright(c)))]
