"""C15 branch metadata, C16 Count, C17 Names and ()."""
from spec import *
from words import *
import zipper, razth
from razth import *

def Rz(n): return 'raz::Raz::' + n
def RT(n): return 'raz::RazTree::' + n
VEC = ('adt', 'alloc::vec::Vec', (('param', 0, 'E'),))

def session(S):
    zipper.ON[0] = True; razth.ON[0] = True
    return S
META = 'raz_meta::RazMeta::'
def meta_of(f, d, lev, nm):
    """what the metadata of a branch is computed from: the branch's own data"""
    v = f.variant(d)
    if v == LEAF: return app(META + 'from_vec', leafvec(d), lev, nm)
    if v == BRANCH: return app(META + 'from_meta', fld(d, TDATA, BRANCH, 0), fld(d, TDATA, BRANCH, 1), lev, nm)
    return None

NAV = 'iodyn::raz_meta::Navigation'; POS = 'iodyn::raz_meta::Position'
COUNT = 'iodyn::raz_meta::Count'; NAMES = 'iodyn::raz_meta::Names'
MAXU = num(2 ** 64 - 1)

# ---------------------------------------------------------------- C15
REB = '<raz::TreeData as tree_cursor::TreeUpdate>::rebuild'
def branch_meta(f, b, lev, nm):
    """metadata of one side of a node, from the data at the top of that branch (b: optional data)"""
    v = f.variant(b)
    if v is None: return None
    if v == 0: return app(META + 'from_none', lev, nm)
    return meta_of(f, payload(b), lev, nm)
@obligation('C15')
def rebuild(S):
    session(S)
    l, r = S.symbol('l', ('adt', OPT, ())), S.symbol('r', ('adt', OPT, ()))
    d, lev, nm = S.symbol('old'), S.symbol('level', ('prim', 'u32')), S.symbol('name', ('adt', OPT, ()))
    def pre(st):
        for b in (l, r): st.facts.exclude(payload(b), DUMMY)
    rn = S.run(REB, [l, d, lev, nm, r], pre=pre)
    def post(o):
        f = o.st.facts
        v = f.variant(d)
        if v is None and o.val.op == 'adt' and o.val.a[1] == BRANCH: v = -1
        if v == LEAF: return [(o.val, adt(TDATA, LEAF, [leafvec(d)]), 'the elements of a leaf')]
        if v is None: return False, 'the old data is not examined'
        if v == -1:
            g = f.copy()
            try: g.set_variant(d, LEAF)
            except Infeasible: pass
            else: return False, 'a leaf may lose its elements'
        a, b = branch_meta(f, l, lev, nm), branch_meta(f, r, lev, nm)
        if a is None or b is None: return False, 'a branch is not examined'
        return [(o.val, adt(TDATA, BRANCH, [a, b]), 'metadata of the two branches')]
    S.each(rn, 'a leaf keeps its elements, a branch is summarised from its own two branches', post)
    S.no_panic(rn, 'no panic')

def topmeta(f, t):
    """metadata of a raz tree with the optional tree t"""
    v = f.variant(t)
    if v is None: return None
    if v == 0: return app(META + 'from_none', num(0), none())
    return meta_of(f, tdata(payload(t)), num(0), none())
def rtree(v): return fld(v, RTREE, 0, 1)
def rmeta(v): return fld(v, RTREE, 0, 0)
def meta_right(o, v):
    """(metadata, what it has to be) of the raz tree v"""
    m = topmeta(o.st.facts, theory.canon(o.st.facts, rtree(v)))
    if m is None: return False, 'the metadata does not depend on the tree'
    return [(rmeta(v), m, 'metadata of the whole tree')]
def raztree(S, name='self'):
    t = S.symbol(name + '.tree', ('adt', OPT, ())); m = S.symbol(name + '.meta')
    return t, adt(RTREE, 0, [m, t])
@obligation('C15')
def construct(S):
    session(S)
    r = S.run(RT('empty')); S.each(r, 'the empty tree', lambda o: [(rtree(o.val), none()), (rmeta(o.val), app(META + 'from_none', num(0), none()))])
    r = S.run(RT('from_vec')); vec = r.args[0]
    def post(o):
        e = o.st.facts.is_empty(vec)
        if e is None: return False, 'emptiness is not examined'
        if e: return [(o.val, none(), 'no tree without elements')]
        t = rtree(payload(o.val))
        return [(isvar(o.val, 1), TRUE, 'a tree'), (W('IT', t), vec, 'exactly the elements of the vector'), (tlevel(payload(t)), num(0)), (tname(payload(t)), none()),
                (rmeta(payload(o.val)), app(META + 'from_vec', vec, num(0), none()), 'metadata of the whole tree')]
    S.each(r, 'a tree of one leaf holding the vector', post); S.no_panic(r, 'no panic')
    lt, l = raztree(S, 'l'); rt, rr = raztree(S, 'r')
    lev = S.symbol('level', ('prim', 'u32'))
    r = S.run(RT('join'), [l, lev, None, rr], pre=lambda st: st.facts.assume(ge(lev, num(1))))
    nm = r.args[2]
    def post(o):
        f = o.st.facts
        a, b = f.variant(lt), f.variant(rt)
        if a == 0 or b == 0: return [(o.val, none(), 'None when a side is empty')]
        if a is None or b is None: return False, 'a side is not examined'
        v = payload(o.val); x = payload(rtree(v))
        return [(isvar(o.val, 1), TRUE, 'Some when both sides have elements'), (isvar(rtree(v), 1), TRUE), (tlevel(x), lev, 'level'), (tname(x), nm, 'name'), (tl(x), lt, 'left branch'), (tr(x), rt, 'right branch')]
    S.each(r, 'the two trees below one new node', post)
    def post(o):
        f = o.st.facts
        if f.variant(o.val) != 1: return None
        v = payload(o.val); x = payload(rtree(v))
        a, b = (meta_of(f, tdata(payload(t)), lev, nm) for t in (lt, rt))
        if a is None or b is None: return False, 'the data of a branch is not examined'
        return [(tdata(x), adt(TDATA, BRANCH, [a, b]), 'metadata of the new node')] + list(meta_right(o, v))
    S.each(r, 'the new node and the tree summarise their own branches', post)
    S.no_panic(r, 'no panic')
    s, v = raztree(S)
    r = S.run(RT('meta'), [v]); S.each(r, 'reports the metadata', lambda o: [(o.val, rmeta(v))])
    r = S.run(RT('is_empty'), [v]); S.each(r, 'is_empty exactly without a tree', lambda o: [(o.val, bnot(isvar(s, 1)))])
    r = S.run('<raz::RazTree as std::clone::Clone>::clone', [v]); S.each(r, 'a clone is the same tree', lambda o: [(o.val, v)])

# ---------------------------------------------------------------- C16
def Cn(n): return '<raz_meta::Count as raz_meta::RazMeta<E>>::' + n
def cnt(x): return fld(x, COUNT, 0, 0)
@obligation('C16')
def count(S):
    r = S.run(Cn('from_none')); S.each(r, 'nothing counts zero', lambda o: [(cnt(o.val), num(0))])
    r = S.run(Cn('from_vec')); S.each(r, 'a leaf counts its elements', lambda o: [(cnt(o.val), length(r.args[0]))])
    r = S.run(Cn('from_meta')); S.each(r, 'a branch counts the elements of both sides', lambda o: [(cnt(o.val), lin_add(cnt(r.args[0]), cnt(r.args[1])))])
    S.no_panic(r, 'no panic')
@obligation('C16')
def count_navigate(S):
    l, rr, i = S.symbol('l', ('adt', COUNT, ())), S.symbol('r', ('adt', COUNT, ())), S.symbol('i', ('prim', 'usize'))
    L, Rr = cnt(l), cnt(rr)
    def pre(st):
        for x in (L, Rr, i): st.facts.assume(ge(x, num(0)))
        for x in (lin_add(L, Rr), i): st.facts.assume(ge(MAXU, x))
    r = S.run(Cn('navigate'), [l, rr, i], pre=pre)
    def post(o):
        f = o.st.facts; v = f.variant(o.val)
        if v is None: return False, 'undetermined direction'
        j = fld(o.val, NAV, v, 0) if v < 2 else None
        end = eqi(i, MAXU)
        if v == 0:
            c = band(ge(L, i), eqi(j, i)); c2 = band(eqi(i, L), eqi(j, MAXU)); ok = bor(c, c2); what = 'left, index %s' % show(j)
        elif v == 1:
            c = band(band(ge(i, L), ge(lin_add(L, Rr), i)), eqi(j, lin_add(i, L, -1))); ok = bor(c, band(end, eqi(j, MAXU))); what = 'right, index %s' % show(j)
        elif v == 2: ok = eqi(i, L); what = 'between the branches'
        else: ok = band(bnot(ge(lin_add(L, Rr), i)), bnot(end)); what = 'no such place'
        d = f.decide(ok)
        if d is None:
            for s_ in split_cases(f, [eqi(i, L), end, ge(L, i), ge(lin_add(L, Rr), i)] + ([eqi(j, MAXU), eqi(j, i)] if j is not None else [])):
                if s_.decide(ok) is not True: return False, 'goes ' + what
            return True
        return d, 'goes ' + what
    S.each(r, 'an index leads to the branch it falls into, adjusted to that branch', post)
    S.no_panic(r, 'no panic')
def split_cases(f, conds):
    todo = [f]
    for c in conds:
        n = []
        for g in todo:
            for v in (True, False):
                h = g.copy()
                try: h.assume(c, v)
                except Infeasible: continue
                n.append(h)
        todo = n
    return todo
@obligation('C16')
def count_split(S):
    v, i = S.symbol('vec', VEC), S.symbol('i', ('prim', 'usize'))
    def pre(st):
        st.facts.assume(ge(i, num(0)))
    r = S.run(Cn('split_vec'), [v, i], pre=pre)
    def post(o):
        f = o.st.facts; a, b = fld(o.val, 'tup', 0, 0), fld(o.val, 'tup', 0, 1)
        e = f.decide(eqi(i, MAXU))
        res = [(cat(a, b), v, 'the two parts together')]
        if e is None:
            w = theory.canon(f, length(a))
            if theory.equal(f, length(a), i) is True: return res
            return False, 'the end marker is not examined'
        return res + ([(b, NIL, 'nothing after the end')] if e else [(length(a), i, 'elements before the position')])
    S.each(r, 'splits a leaf after the given number of elements', post)
    S.no_panic(r, 'only an index beyond the leaf panics', allow=lambda st, k, f: st.facts.decide(ge(length(v), i)) is False and st.facts.decide(eqi(i, MAXU)) is False)
    r = S.run('<usize as raz_meta::FirstLast>::first'); S.each(r, 'the first position', lambda o: [(o.val, num(0))])
    r = S.run('<usize as raz_meta::FirstLast>::last'); S.each(r, 'the end marker', lambda o: [(o.val, MAXU)])

# ---------------------------------------------------------------- C17
def Nn(n): return '<raz_meta::Names as raz_meta::RazMeta<E>>::' + n
def Un(n): return '<() as raz_meta::RazMeta<E>>::' + n
LEFTP, RIGHTP = mk('adt', POS, 0, ()), mk('adt', POS, 1, ())
@obligation('C17')
def names_of(S):
    def atoms(f, m):
        """the keys of a map as a set: single keys, and all the keys of other maps"""
        m = f.norm(m)
        if not (m.op == 'app' and m.a[0] == 'hmap'): return {('keys', m)} if m.op in ('sym', 'fld') else None
        out = set()
        for p in m.a[1]:
            if p.a[0] == 'ins': out.add(('key', theory.canon(f, p.a[1][0]))); continue
            if p.a[0] == 'base':
                a = atoms(f, p.a[1][0])
                if a is None: return None
                out |= a; continue
            for k, w in pieces(p.a[1][0]):
                if k == 'e': out.add(('key', theory.canon(f, fld(w, 'tup', 0, 0)))); continue
                if w.op == 'app' and w.a[0] == 'map' and w.a[1][0].op == 'lam':
                    x = fresh('k'); lam, of = w.a[1]
                    if fld(call(lam, x), 'tup', 0, 0) is x:
                        for k2, q in pieces(of):
                            if k2 == 'e': out.add(('key', q))
                            elif q.op == 'app' and q.a[0] == 'hm_keys' and q.a[1][0].op in ('sym', 'fld'): out.add(('keys', f.norm(q.a[1][0])))
                            else: return None
                        continue
                return None
        return out
    def each_key(f, m):
        w = models.hm_keys(m); out = []
        while len(out) < 40:
            e = f.is_empty(w)
            if e: return out
            if e is None: return out + [('keys', m)]
            out.append(('key', nth_key(s_first(w)))); w = s_tail(w)
        return out + [('keys', m)]
    is_keys = lambda y: y.op == 'app' and y.a[0] == 'hm_keys'
    def nth_key(k):
        """first(tail(take(w, 5))) is the element 1 of w"""
        if not (k.op == 'app' and k.a[0] == 'first'): return k
        w = k.a[1][0]; n = 0
        while w.op == 'app' and w.a[0] in ('tail', 'take', 'drop'):
            if w.a[0] == 'drop' and w.a[1][1].op != 'int': return k
            n += {'tail': 1, 'take': 0}.get(w.a[0]) if w.a[0] != 'drop' else w.a[1][1].a[0]
            w = w.a[1][0]
        return app('key', w, num(n))
    for k, n in (('from_none', 1), ('from_vec', 2), ('from_meta', 3)):
        r = S.run(Nn(k)); nm = r.args[n]
        if k == 'from_meta':
            base = {('keys', fld(r.args[0], NAMES, 0, 0)), ('keys', fld(r.args[1], NAMES, 0, 0))}
        else: base = set()
        def post(o):
            f = o.st.facts; v = f.variant(nm)
            got = atoms(f, theory.canon(f, fld(o.val, NAMES, 0, 0)))
            if got is not None: got = {(a, b) for a, b in got if a == 'key' or f.is_empty(models.hm_keys(b)) is not True}
            if got is None:
                o.st.mark('a set of names that is not in a known form'); return False, 'the set of names: ' + show(fld(o.val, NAMES, 0, 0))
            if v is None: return False, 'the name of the node is not examined'
            want = {(a, f.norm(b)) for a, b in base if f.is_empty(models.hm_keys(b)) is not True} | ({('key', theory.canon(f, payload(nm)))} if v else set())
            one_by_one = lambda: any(a == 'key' and contains(b, is_keys) for a, b in got ^ want)
            if one_by_one():
                # the keys of a map were taken one by one: all of them, where their number is known
                got, want = [{y for a, b in x for y in (each_key(f, b) if a == 'keys' else [(a, nth_key(b))])} for x in (got, want)]
                if any(a == 'key' and contains(b, is_keys) for a, b in got - want) or not any(a == 'key' for a, b in want - got) and got != want: o.st.mark('keys of a map taken one by one')
            return got == want, 'the set of names: computed %s  required %s' % tuple(sorted('%s %s' % (a, show(b)) for a, b in x) for x in (got, want))
        S.each(r, 'exactly the names of both branches and the given one' if k == 'from_meta' else 'exactly the given name', post)
        S.no_panic(r, 'no panic')
    for k in ('from_none', 'from_vec', 'from_meta'):
        r = S.run(Un(k)); S.each(r, 'is ()', lambda o: [(o.val, UNIT)])
def as_seq(x):
    if x.op != 'seq': SEQ_TERMS.add(x)
    return x
@obligation('C17')
def names_navigate(S):
    l, rr, i = S.symbol('l', ('adt', NAMES, ())), S.symbol('r', ('adt', NAMES, ())), S.symbol('i', ('adt', POS, ()))
    r = S.run(Nn('navigate'), [l, rr, i])
    def post(o):
        f = o.st.facts; v = f.variant(o.val); p = f.variant(i)
        if p is None: return False, 'the position is not examined'
        if p == 0: return [(o.val, adt(NAV, 0, [LEFTP]), 'the leftmost position')]
        if p == 1: return [(o.val, adt(NAV, 1, [RIGHTP]), 'the rightmost position')]
        nm = fld(i, POS, 2, 0)
        a, b = (f.variant(models.hm_get(fld(m, NAMES, 0, 0), nm)) for m in (l, rr))
        if v is None: return False, 'undetermined direction'
        # both summaries include the name of the node itself
        want = {(1, 1): adt(NAV, 2, []), (1, 0): adt(NAV, 0, [i]), (0, 1): adt(NAV, 1, [i]), (0, 0): adt(NAV, 3, [])}.get((a, b))
        if want is None:
            return False, 'a side is not examined'
        return [(o.val, want, 'the side that knows the name')]
    S.each(r, 'a name leads to the node that carries it', post)
    S.no_panic(r, 'no panic')
    r = S.run(Un('navigate'), [None, None, i])
    def post(o):
        p = o.st.facts.variant(i)
        if p == 0: return [(o.val, adt(NAV, 0, [LEFTP]), 'the leftmost position')]
        if p == 1: return [(o.val, adt(NAV, 1, [RIGHTP]), 'the rightmost position')]
        return None
    S.each(r, 'the ends', post)
    S.no_panic(r, 'the ends are valid positions', allow=lambda st, k, f: st.facts.variant(i) == 2)
@obligation('C17')
def names_split(S):
    v, i = S.symbol('vec', VEC), S.symbol('i', ('adt', POS, ()))
    for k in (Nn, Un):
        r = S.run(k('split_vec'), [v, i])
        def post(o):
            p = o.st.facts.variant(i)
            if p == 0: return [(o.val, tup(NIL, v), 'before all elements')]
            if p == 1: return [(o.val, tup(v, NIL), 'after all elements')]
            return [(cat(fld(o.val, 'tup', 0, 0), fld(o.val, 'tup', 0, 1)), v, 'the two parts together')]
        S.each(r, 'splits a leaf at its ends', post)
        S.no_panic(r, 'the ends are valid positions', allow=lambda st, k, f: st.facts.variant(i) == 2)
    for k, w in (('first', LEFTP), ('last', RIGHTP)):
        r = S.run('<raz_meta::Position as raz_meta::FirstLast>::' + k); S.each(r, 'the %s position' % k, lambda o: [(o.val, w)])
    r = S.run('<raz_meta::Position as std::convert::From<I>>::from'); S.each(r, 'a specific position', lambda o: [(o.val, adt(POS, 2, [r.args[0]]))])

# ---------------------------------------------------------------- C18
import props.p_tree as p_tree
def c_up3(ex, st, fr, args, site, sub): return [(st, app('FOLDUP', args[0], args[1], num(3)))]
def c_up5(ex, st, fr, args, site, sub): return [(st, app('FOLDUP', args[0], args[1], num(5)))]
def c_lr2(ex, st, fr, args, site, sub): return [(st, app('FOLDLR', args[0], args[1], args[2], num(2)))]
def c_lr4(ex, st, fr, args, site, sub): return [(st, app('FOLDLR', args[0], args[2], args[3], num(4)))]
def c_tmap(ex, st, fr, args, site, sub): return [(st, app('TMAP', args[0], args[1]))]
RTC = {p_tree.L('fold_up'): c_up3, p_tree.L('fold_up_meta'): c_up5, p_tree.L('fold_lr'): c_lr2, p_tree.L('fold_lr_meta'): c_lr4, p_tree.L('map'): c_tmap}
def find_app(t, name):
    out = []
    contains(t, lambda x: out.append(x) if x.op == 'app' and x.a[0] == name else False)
    return out
def closures(r, name, args, pre, keep=lambda o: True):
    """outcomes of the function handed to the tree traversal `name`, on one node described by args(arity)"""
    res = []
    for o in r.outs:
        if not keep(o): continue
        ts = find_app(o.val, name)
        if len(ts) != 1:
            res.append((o, None)); continue
        a = ts[0].a[1]
        res += [(p, a) for p in r.apply(o, a[-2] if name != 'TMAP' else a[-1], args(a[-1].a[0] if name != 'TMAP' else 5), pre)]
    return res
def node_cases(S, r, label, name, args, pre, post, keep=lambda o: True):
    def mo(rn):
        out = []
        for p, a in closures(rn, name, args, pre, keep):
            if a is None: out.append(Out(rn, p.st, none()))
            else: out.append(p)
        return out
    def none_(v): return v.op == 'adt' and v.a[0] == OPT
    r.mapouts = mo
    S.each(r, label, post)
    r.mapouts = None
def up_fold(S, key, leafspec, branchspec):
    session(S)
    t, v = raztree(S)
    fs = [S.symbol('f%d' % i) for i in range(S.fn(RT(key)).nargs - 1)]
    r = S.run(RT(key), [v] + fs, contracts=RTC)
    def post(o):
        f = o.st.facts; k = f.variant(t)
        if k is None: return False, 'the tree is not examined'
        if k == 0: return [(o.val, none(), 'None without elements')]
        w = payload(o.val)
        ok = isvar(o.val, 1) is TRUE and w.op == 'app' and w.a[0] == 'FOLDUP'
        if not ok: return False, 'not a bottom-up fold of the tree: ' + show(o.val)
        return [(w.a[1][0], payload(t), 'folds the whole tree')]
    S.each(r, 'the fold of the tree, None when empty', post)
    S.no_panic(r, 'no panic')
    d, lev, nm = S.symbol('data', ('adt', TDATA, ())), S.symbol('level', ('prim', 'u32')), S.symbol('name', ('adt', OPT, ()))
    a, b = S.symbol('left'), S.symbol('right')
    vec = leafvec(d)
    some_tree = lambda o: o.st.facts.variant(t) == 1
    def pre(st): st.facts.set_variant(d, LEAF); st.facts.assume(ge(length(vec), num(1)))
    node_cases(S, r, 'a leaf contributes its elements in order', 'FOLDUP', lambda n: [none(), d, none()] if n == 3 else [none(), d, lev, nm, none()], pre,
               lambda o: [(o.val, leafspec(fs, vec))], some_tree)
    def pre(st): st.facts.set_variant(d, BRANCH)
    node_cases(S, r, 'a branch combines left and right in order', 'FOLDUP', lambda n: [some(a), d, some(b)] if n == 3 else [some(a), d, lev, nm, some(b)], pre,
               lambda o: [(o.val, branchspec(fs, a, lev, nm, b))], some_tree)
    S.no_panic(r, 'no panic at any node')
def reduce1(f, init, vec):
    """init(x0) f init(x1) f ..., for a non-empty vector"""
    return foldl(f, call(init, s_first(vec)), s_map(init, s_tail(vec)))
@obligation('C18')
def fold_up(S): up_fold(S, 'fold_up', lambda fs, v: reduce1(fs[1], fs[0], v), lambda fs, a, l, n, b: call(fs[1], a, b))
@obligation('C18')
def fold_up_nl(S): up_fold(S, 'fold_up_nl', lambda fs, v: reduce1(fs[1], fs[0], v), lambda fs, a, l, n, b: call(fs[2], a, l, n, b))
@obligation('C18')
def fold_up_gauged(S): up_fold(S, 'fold_up_gauged', lambda fs, v: call(fs[0], v), lambda fs, a, l, n, b: call(fs[1], a, l, n, b))
def lr_fold(S, key, leafspec, branchspec):
    session(S)
    t, v = raztree(S); init = S.symbol('init')
    fs = [S.symbol('f%d' % i) for i in range(S.fn(RT(key)).nargs - 2)]
    r = S.run(RT(key), [v, init] + fs, contracts=RTC)
    def post(o):
        f = o.st.facts; k = f.variant(t)
        if k is None: return False, 'the tree is not examined'
        if k == 0: return [(o.val, init, 'the initial value without elements')]
        w = o.val
        if not (w.op == 'app' and w.a[0] == 'FOLDLR'): return False, 'not a left-to-right fold of the tree: ' + show(o.val)
        return [(w.a[1][0], payload(t), 'folds the whole tree'), (w.a[1][1], init, 'starts with the initial value')]
    S.each(r, 'the fold of the tree, the initial value when empty', post)
    S.no_panic(r, 'no panic')
    d, lev, nm = S.symbol('data', ('adt', TDATA, ())), S.symbol('level', ('prim', 'u32')), S.symbol('name', ('adt', OPT, ()))
    acc = S.symbol('acc'); vec = leafvec(d)
    some_tree = lambda o: o.st.facts.variant(t) == 1
    args = lambda n: [acc, d] if n == 2 else [acc, d, lev, nm]
    def pre(st): st.facts.set_variant(d, LEAF); st.facts.assume(ge(length(vec), num(1)))
    node_cases(S, r, 'a leaf folds its elements in order', 'FOLDLR', args, pre, lambda o: [(o.val, leafspec(fs, acc, vec, nm))], some_tree)
    def pre(st): st.facts.set_variant(d, BRANCH)
    node_cases(S, r, 'a branch point folds its level and name', 'FOLDLR', args, pre, lambda o: [(o.val, branchspec(fs, acc, lev, nm))], some_tree)
    S.no_panic(r, 'no panic at any node')
@obligation('C18')
def fold_lr(S): lr_fold(S, 'fold_lr', lambda fs, a, v, n: foldl(fs[0], a, v), lambda fs, a, l, n: a)
@obligation('C18')
def fold_lr_meta(S): lr_fold(S, 'fold_lr_meta', lambda fs, a, v, n: foldl(fs[0], a, v), lambda fs, a, l, n: call(fs[1], a, tup(l, n)))
@obligation('C18')
def fold_lr_archive(S): lr_fold(S, 'fold_lr_archive', lambda fs, a, v, n: call(fs[1], foldl(fs[0], a, v), n), lambda fs, a, l, n: call(fs[2], a, l))

# ---------------------------------------------------------------- C19
@obligation('C19')
@obligation('C15')
def map_raz(S):
    session(S)
    t, v = raztree(S); g = S.symbol('f')
    r = S.run(RT('map'), [v, g], contracts=RTC)
    def post(o):
        f = o.st.facts; k = f.variant(t)
        if k is None: return False, 'the tree is not examined'
        if k == 0: return [(rtree(o.val), none(), 'empty stays empty')]
        w = rtree(o.val)
        if not (isvar(w, 1) is TRUE and payload(w).op == 'app' and payload(w).a[0] == 'TMAP'): return False, 'not a map of the tree: ' + show(w)
        return [(payload(w).a[1][0], payload(t), 'maps the whole tree')]
    S.each(r, 'the map of the tree', post)
    S.each(r, 'the metadata is that of the mapped tree', lambda o: meta_right(o, o.val))
    S.no_panic(r, 'no panic')
    d, lev, nm = S.symbol('data', ('adt', TDATA, ())), S.symbol('level', ('prim', 'u32')), S.symbol('name', ('adt', OPT, ()))
    a, b = S.symbol('left'), S.symbol('right')
    vec = leafvec(d)
    some_tree = lambda o: o.st.facts.variant(t) == 1
    def pre(st): st.facts.set_variant(d, LEAF); st.facts.assume(ge(length(vec), num(1)))
    node_cases(S, r, 'a leaf maps every element in order', 'TMAP', lambda n: [d, lev, nm, none(), none()], pre,
               lambda o: [(o.val, adt(TDATA, LEAF, [s_map(g, vec)]))], some_tree)
    def pre(st):
        st.facts.set_variant(d, BRANCH)
        for x in (a, b): st.facts.exclude(tdata(x), DUMMY)
    def post(o):
        ma, mb = (meta_of(o.st.facts, tdata(x), lev, nm) for x in (a, b))
        if ma is None or mb is None: return False, 'the mapped branches are not examined'
        return [(o.val, adt(TDATA, BRANCH, [ma, mb]), 'metadata of the mapped branches')]
    node_cases(S, r, 'a branch summarises its mapped branches', 'TMAP', lambda n: [d, lev, nm, some(a), some(b)], pre, post, some_tree)
    S.no_panic(r, 'no panic at any node')
