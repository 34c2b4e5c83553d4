"""C22 names never collide within an operation, C23 memoised steps are keyed on all their data."""
from spec import *
from words import *
import zipper, razth
import props.p_tree as p_tree, props.p_memo as p_memo, props.p_cursor as p_cursor
from props.p_raz import session
from razth import *
L = p_tree.L

def chosen(x):
    """the name in an engine art-id choice, or None"""
    return x.a[2][0] if x.op == 'adt' and len(x.a[2]) == 1 else None
def root(n):
    """strip the derivations of names: (base, derived?)"""
    k = 0
    while n.op == 'app' and n.a[0] in ('fork0', 'fork1', 'npair'): n = n.a[1][0]; k += 1
    return n, k
def uses(o):
    out = []
    for e in o.st.events:
        if e[0] == 'thunk':
            n = chosen(e[1])
            out.append(('memo', n if n is None else theory.canon(o.st.facts, n)))
        elif e[0] == 'cell': out.append(('cell', theory.canon(o.st.facts, e[1])))
    return out
def distinct(base, memo_roots_only=False):
    """base(o): the names an operation may build on"""
    def post(o):
        u = uses(o); ok = [theory.canon(o.st.facts, b) for b in base(o)]
        for i, (k, n) in enumerate(u):
            if n is None: return False, 'a memoised step is not identified by a name'
            r, d = root(n)
            if r not in ok: return False, 'a %s is named %s, which is not derived from the name at hand' % (k, show(n))
            if k == 'memo' and not d: return False, 'a memoised step uses the name %s of the node itself' % show(n)
            for k2, n2 in u[:i]:
                if n2 is n: return False, 'the name %s is used for a %s and a %s' % (show(n), k2, k)
        return True
    return post
def named(o, n):
    return [payload(n)] if o.st.facts.variant(n) == 1 else []

def functions(o, allowed):
    """what is passed outside the key of a memoised step: function values only"""
    def pure(x):
        if x in allowed or x is UNIT or x.op == 'fn': return True
        if x.op == 'clo': return all(pure(y) for y in x.a[1])
        if x.op == 'adt' and x.a[0] == 'tup': return all(pure(y) for y in x.a[2])
        if x.op == 'lam': return True
        return False
    for e in o.st.events:
        if e[0] != 'thunk': continue
        if not pure(e[4]): return False, 'the memoised step captures %s outside its key' % show(e[4])
        if not pure(e[5]): return False, 'data is passed outside the key: %s' % show(e[5])
    return True

def tree_runs(S):
    t = S.symbol('self'); f = S.symbol('f'); acc = S.symbol('acc'); start = S.symbol('start', ('adt', OPT, ()))
    for k, a in (('fold_up_meta', [t, f]), ('fold_lr_meta', [t, start, acc, f]), ('map', [t, f])):
        yield k, t, f, S.run(L(k), a, contracts=p_tree.TC)
def fold_out_run(S):
    c, it = p_cursor.iterator(S)
    init, f = S.symbol('init'), S.symbol('bin'); k = 'tree_cursor::IterR::fold_out'
    def c_fold(ex, st, fr, args, site, sub):
        return [(st, fresh('folded'))]
    return c, f, S.run(k, [it, init, f], contracts={p_cursor.IT: p_cursor.c_next, k: c_fold})

@obligation('C22')
def tree_names(S):
    for k, t, f, r in tree_runs(S):
        S.each(r, 'names of the two subcomputations differ and come from the node', distinct(lambda o: named(o, tname(t))))
        def post(o):
            if o.st.facts.variant(tname(t)) != 0: return None
            return (not uses(o)), 'an unnamed node uses names'
        S.each(r, 'an unnamed node uses no name', post)
@obligation('C22')
def fold_out_names(S):
    c, f, r = fold_out_run(S)
    S.each(r, 'the name of the step comes from the current node', distinct(lambda o: named(o, tname(payload(ctree(c)))) if o.st.facts.variant(ctree(c)) == 1 else []))
@obligation('C23')
def tree_keys(S):
    for k, t, f, r in tree_runs(S): S.each(r, 'only the function is outside the key', lambda o: functions(o, (f,)))
@obligation('C23')
def fold_out_keys(S):
    c, f, r = fold_out_run(S)
    S.each(r, 'only the function is outside the key', lambda o: functions(o, (f,)))
def builders(S, judge):
    for which in ('AtTail', 'AtHead'):
        hs = p_memo.helper(S, which)
        C = {h.key: p_memo.builder_contract(which, h.key) for h in hs}
        for h in hs:
            s = p_memo.stack(S); l, m = S.symbol('l', ('prim', 'u32')), S.symbol('m', ('prim', 'u32'))
            n = S.symbol('n', ('adt', OPT, ())); t = S.symbol('t', ('adt', TREE, ()))
            def pre(st):
                for x in p_memo.entry_ok(which, st.facts, [s, l, n, t, m]): st.facts.assume(x)
            judge(s, n, S.run(h, [s, l, n, t, m], pre=pre, contracts=C), C, True)
        a = p_memo.stack(S, 'stack')
        judge(a, None, S.run(p_memo.MF(which), [adt('iodyn::archive_stack::' + which, 0, [a])], contracts=C), C, False)
@obligation('C22')
def builder_names(S):
    session(S); razth.SMALL[0] = True
    def judge(s, n, r, C, helper):
        def post(o):
            u = uses(o)
            for i, (k, x) in enumerate(u):
                if x is None: return False, 'a memoised step is not identified by a name'
                if k == 'memo' and not root(x)[1]: return False, 'a memoised step uses the name %s of the archive itself' % show(x)
                if k == 'cell' and not root(x)[1]: return False, 'a tree cell uses the name %s of the archive cell' % show(x)
                for k2, x2 in u[:i]:
                    if x2 is x: return False, 'the name %s is used for a %s and a %s' % (show(x), k2, k)
            return True
        S.each(r, 'names of cells and memoised steps are pairwise different', post)
    builders(S, judge)
@obligation('C23')
def builder_keys(S):
    session(S); razth.SMALL[0] = True
    builders(S, lambda s, n, r, C, helper: S.each(r, 'nothing is outside the key', lambda o: functions(o, ())))

def functional(ty):
    """a shared function value, or nothing"""
    if ty[0] == 'tuple': return all(functional(t) for t in ty[1:])
    if ty[0] == 'adt' and ty[1].endswith('::Rc'): return ty[2][0][0] in ('param', 'closure', 'fndef', 'fnptr', 'dyn')
    return ty[0] in ('closure', 'fndef', 'fnptr', 'dyn')
@obligation('C23')
def all_sites(S):
    """the type of what is passed outside the key, at every memoised step of the program"""
    for fn in sorted(S.prog.fns.values(), key=lambda f: f.path):
        if '::tests::' in fn.path: continue
        for b in fn.blocks:
            t = b['t']
            if t[0] != 'call' or t[1][0] != 'fn' or t[1][1]['path'] != 'adapton::engine::thunk': continue
            S.sites += 1; S.fns.add(fn.key)
            ty = mir.freeze(t[1][1]['args'][1])
            ok = functional(ty)
            S.record(fn, 'type of the data outside the key', 'holds' if ok else 'violated', '' if ok else 'data of type %s is passed outside the key' % (ty,))
    S.rules.append('at every call of adapton::engine::thunk the spurious argument consists of shared function values only')

# ---- C33: recursion below named parts goes through memoised steps
def noted(contracts, which=0):
    """the contracts, with an event for each recursive call"""
    def w(c):
        def f(ex, st, fr, args, site, sub):
            st.event('rec', tuple(ex.load(st, a) if a.op == 'mref' else a for a in args))
            return c(ex, st, fr, args, site, sub)
        return f
    return {k: w(c) for k, c in contracts.items()}
def memoised(o, named_at):
    """every recursive call for which named_at holds was made by a memoised step of the same data"""
    th = [e for e in o.st.events if e[0] == 'thunk']; f = o.st.facts
    for e in o.st.events:
        if e[0] != 'rec' or not named_at(e[1]): continue
        x = theory.canon(f, e[1][0])
        hit = [t for t in th if contains(adt('tup', 0, list(t[2])) if isinstance(t[2], (list, tuple)) else t[2], lambda y: theory.canon(f, y) is x)]
        if not hit: return False, 'the recursion on %s below a named part is not memoised' % show(x)
    return True
@obligation('C33')
def tree_steps(S):
    t = S.symbol('self'); f = S.symbol('f'); acc = S.symbol('acc'); start = S.symbol('start', ('adt', OPT, ()))
    for k, a in (('fold_up_meta', [t, f]), ('fold_lr_meta', [t, start, acc, f]), ('map', [t, f])):
        r = S.run(L(k), a, contracts=noted(p_tree.TC))
        def post(o):
            if o.st.facts.variant(tname(t)) == 0: return None
            return memoised(o, lambda a: True)
        S.each(r, 'each branch of a named node is one memoised step', post)
@obligation('C33')
def fold_out_steps(S):
    c, it = p_cursor.iterator(S)
    init, f = S.symbol('init'), S.symbol('bin'); k = 'tree_cursor::IterR::fold_out'
    C = noted({k: lambda ex, st, fr, args, site, sub: [(st, fresh('folded'))]})
    r = S.run(k, [it, init, f], contracts={p_cursor.IT: p_cursor.c_next, **C})
    def post(o):
        v = o.st.facts.variant(ctree(c))
        if v != 1 or o.st.facts.variant(tname(payload(ctree(c)))) == 0: return None
        return memoised(o, lambda a: True)
    S.each(r, 'the rest after a named node is one memoised step', post)
@obligation('C33')
def builder_steps(S):
    session(S); razth.SMALL[0] = True
    for which in ('AtTail', 'AtHead'):
        hs = p_memo.helper(S, which)
        wraps = [h for h in hs if any(b['t'][0] == 'call' and b['t'][1][0] == 'fn' and b['t'][1][1]['path'] == 'adapton::engine::thunk' for b in h.blocks)]
        core = [h for h in hs if h not in wraps]
        if not core or not wraps: raise Undecided('builders of another form')
        C = noted({h.key: p_memo.builder_contract(which, h.key) for h in core})
        runs = []
        for h in core:
            s = p_memo.stack(S); l, m = S.symbol('l', ('prim', 'u32')), S.symbol('m', ('prim', 'u32'))
            n = S.symbol('n', ('adt', OPT, ())); t = S.symbol('t', ('adt', TREE, ()))
            def pre(st, a=(s, l, n, t, m)):
                for x in p_memo.entry_ok(which, st.facts, list(a)): st.facts.assume(x)
            runs.append(S.run(h, [s, l, n, t, m], pre=pre, contracts=C))
        runs.append(S.run(p_memo.MF(which), [adt('iodyn::archive_stack::' + which, 0, [p_memo.stack(S, 'stack')])], contracts=C))
        for r in runs:
            S.each(r, 'building from a named archive point on is one memoised step', lambda o: memoised(o, lambda a: len(a) > 2 and o.st.facts.variant(a[2]) != 0))
