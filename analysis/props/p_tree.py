"""C03 tree construction, C04 bottom-up fold, C05 in-order fold, C06 map, C09 level convention."""
from spec import *
from words import *

def L(n): return 'level_tree::Tree::' + n
def optcase(st, o, f):
    """f(payload) under Some, none() under None; None when the shape is not examined"""
    v = st.facts.variant(o)
    if v == 0: return none()
    if v == 1: return some(f(payload(o)))
    return None

@obligation('C03')
def tree_new(S):
    r = S.run(L('new'))
    lv, nm, d, l, rr = r.args
    def post(o):
        t = payload(o.val)
        res = [(isvar(o.val, 1), TRUE, 'construction succeeds'), (tlevel(t), lv, 'level'), (tname(t), nm, 'name'), (tdata(t), d, 'data'),
               (tl(t), l, 'left branch'), (tr(t), rr, 'right branch')]
        v = o.st.facts.variant(nm)
        ev = [e for e in o.st.events if e[0] == 'cell']
        if v == 0: res.append((num(len(ev)), num(0), 'named cells of an unnamed tree'))
        elif v == 1:
            res.append((num(len(ev)), num(1), 'named cells')); res += [(e[1], payload(nm), 'cell name') for e in ev]
        else: return False, 'the name is ignored'
        return res
    S.each(r, 'the tree holds exactly the given parts', post)
    S.no_panic(r, 'construction always succeeds')

@obligation('C03')
def tree_accessors(S):
    t = S.symbol('self')
    for k, f, what in (('level', tlevel, 'level'), ('name', tname, 'name'), ('l_tree', tl, 'left branch'), ('r_tree', tr, 'right branch'), ('peek', tdata, 'data')):
        r = S.run(L(k), [t]); S.each(r, 'returns the ' + what, lambda o: [(o.val, f(t))]); S.no_panic(r, 'no panic')
    r = S.run('<level_tree::Tree as std::clone::Clone>::clone', [t])
    S.each(r, 'a clone is the same tree', lambda o: [(o.val, adt(TREE, 0, [fld(t, TREE, 0, i) for i in range(3)]))])

# contracts: recursive calls stand for the function being described
def flat(args):
    return args
def c_foldup(ex, st, fr, args, site, sub):
    f = models.lam_of(ex, st, fr, args[1], 5, site)
    if f is None: return None
    return [(st, app('FOLDUP', args[0], f))]
def c_foldup3(ex, st, fr, args, site, sub):
    f = models.lam_of(ex, st, fr, args[1], 3, site)
    if f is None: return None
    xs = [fresh('x') for _ in range(5)]
    return [(st, app('FOLDUP', args[0], abstract(tuple(xs), call(f, xs[0], xs[1], xs[4]))))]
def c_foldlr(ex, st, fr, args, site, sub):
    f = models.lam_of(ex, st, fr, args[3], 4, site)
    if f is None: return None
    return [(st, app('FOLDLR', args[0], args[1], args[2], f))]
def c_map(ex, st, fr, args, site, sub):
    f = models.lam_of(ex, st, fr, args[1], 5, site)
    if f is None: return None
    return [(st, app('TMAP', args[0], f))]
TC = {L('fold_up_meta'): c_foldup, L('fold_up'): c_foldup3, L('fold_lr_meta'): c_foldlr, L('map'): c_map}

@obligation('C04')
def fold_up_meta(S):
    t = S.symbol('self'); f = S.symbol('f')
    r = S.run(L('fold_up_meta'), [t, f], contracts=TC)
    def post(o):
        l = optcase(o.st, tl(t), lambda x: app('FOLDUP', x, f)); rr = optcase(o.st, tr(t), lambda x: app('FOLDUP', x, f))
        if l is None or rr is None: return False, 'a branch is not examined'
        return [(o.val, call(f, l, tdata(t), tlevel(t), tname(t), rr))]
    S.each(r, 'combines left result, data, level, name, right result', post)
    S.no_panic(r, 'no panic')
    r = S.run(L('fold_up'), [t, f], contracts=TC)
    xs = [fresh('x') for _ in range(5)]
    want = app('FOLDUP', t, abstract(tuple(xs), call(f, xs[0], xs[1], xs[4])))
    S.each(r, 'is the fold that ignores level and name', lambda o: [(o.val, want)])

@obligation('C05')
def fold_lr_meta(S):
    t = S.symbol('self'); f = S.symbol('f'); acc = S.symbol('acc'); start = S.symbol('start', ('adt', OPT, ()))
    r = S.run(L('fold_lr_meta'), [t, start, acc, f], contracts=TC)
    def post(o):
        vl, vr = o.st.facts.variant(tl(t)), o.st.facts.variant(tr(t))
        if vl is None or vr is None: return False, 'a branch is not examined'
        if vl == 0 and vr == 0: return [(o.val, call(f, acc, tdata(t), tlevel(t), start), 'leaf')]
        a = app('FOLDLR', payload(tl(t)), start, acc, f) if vl else acc
        a = call(f, a, tdata(t), tlevel(t), tname(t))
        if vr: a = app('FOLDLR', payload(tr(t)), tname(t), a, f)
        return [(o.val, a, 'left branch, then node, then right branch')]
    S.each(r, 'folds in order, every node once', post)
    S.no_panic(r, 'no panic')
    r = S.run(L('fold_lr'), [t, acc, f], contracts=TC)
    xs = [fresh('x') for _ in range(4)]
    lam = abstract(tuple(xs), call(f, xs[0], xs[1]))
    def post(o):
        v = o.val
        if v.op != 'app' or v.a[0] != 'FOLDLR': return False, 'not the in-order fold: ' + show(v)
        return [(v.a[1][0], t), (v.a[1][2], acc), (v.a[1][3], lam)]
    S.each(r, 'is the fold that ignores level and name', post)

@obligation('C06')
def tree_map(S):
    t = S.symbol('self'); f = S.symbol('f')
    r = S.run(L('map'), [t, f], contracts=TC)
    def post(o):
        l = optcase(o.st, tl(t), lambda x: app('TMAP', x, f)); rr = optcase(o.st, tr(t), lambda x: app('TMAP', x, f))
        if l is None or rr is None: return False, 'a branch is not examined'
        n = o.val
        return [(tlevel(n), tlevel(t), 'level'), (tname(n), tname(t), 'name'), (tl(n), l, 'left branch'), (tr(n), rr, 'right branch'),
                (tdata(n), call(f, tdata(t), tlevel(t), tname(t), l, rr), 'data')]
    S.each(r, 'same shape, levels and names; data mapped', post)
    S.no_panic(r, 'no panic')

@obligation('C09')
def good_levels(S):
    t = S.symbol('tree')
    def c(ex, st, fr, args, site, sub):
        x = app('GOOD', args[0]); interp.BOOL_TERMS.add(x); return [(st, x)]
    r = S.run('level_tree::good_levels', [t], contracts={'level_tree::good_levels': c})
    def post(o):
        f = o.st.facts
        conds = []
        for ch, strict in ((tl(t), True), (tr(t), False)):
            v = f.variant(ch)
            if v is None: return False, 'a branch is not examined'
            if v == 0: continue
            x = payload(ch); g = app('GOOD', x); interp.BOOL_TERMS.add(g)
            conds.append(ge(tlevel(t), lin_add(tlevel(x), num(1))) if strict else ge(tlevel(t), tlevel(x)))
            conds.append(g)
        want = TRUE
        for c_ in conds: want = band(want, c_)
        d = f.decide(o.val); w = f.decide(want)
        if d is not None and w is not None: return d == w, 'returns %s, required %s' % (d, w)
        return [(o.val, want)]
    S.each(r, 'accepts exactly: left branch lower, right branch not higher, at every node', post)
