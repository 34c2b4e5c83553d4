"""C32 the test runners of the evaluation crate, its element types, its example tree."""
from spec import *
from words import *
import theory, interp
from interp import mref
from props.p_eval import keyed, tword, the_tree, TREE_

SEQ, BUILD = 'eval::test_seq::', 'eval::test_build::'
def field(S, ty, v, name):
    for i, f in enumerate(S.prog.adts[ty]['variants'][0]['fields']):
        if f[0] == name: return fld(v, ty, 0, i)
    raise Missing('%s.%s' % (ty, name))
def whole(x): SEQ_TERMS.add(x); return x
def steps(S, traits):
    def c(name):
        def f(ex, st, fr, args, site, targs):
            vs = tuple(ex.load(st, a) if a.op == 'mref' else a for a in args)
            r = S.result(name); st.event('step', name, vs, r)
            for a in args[:1]:
                if a.op == 'mref': ex.store(st, a, app('after', vs[0], num(len([e for e in st.events if e[0] == 'step']))))
            return [(st, r)]
        return f
    S.contracts = {k: c(k.split('::')[-1]) for k in traits}
def spans(o): return [e[1] for e in o.st.events if e[0] == 'timed']
def drive_run(S, key, n, many):
    """one run with n changes: creates, computes, then edits and computes n times, each on the latest data"""
    def result(name):
        t = fresh('duration'); d = fresh(name)
        if name == 'compute': return tup(fresh('durations'), d) if many else t
        return tup(t, d)
    S.result = result
    steps(S, ['eval::actions::Creator::create', 'eval::actions::Editor::edit', 'eval::actions::Computor::compute'])
    ty = SEQ + 'EditComputeSequence'; fs = S.prog.adts[ty]['variants'][0]['fields']
    parts = {f[0]: (num(n) if f[0] == 'changes' else S.symbol(f[0])) for f in fs}
    for x in ('init', 'edit', 'comp', 'changes'):
        if x not in parts: raise Missing('EditComputeSequence.' + x)
    r = S.script(key, lambda call, st: call(key, st, [mref(interp.new_cell(st, adt(ty, 0, [parts[f[0]] for f in fs]))), mref(interp.new_cell(st, sym('rng', '')))]), peel=n + 3)
    res = SEQ + ('TestMResult' if many else 'TestResult')
    def post(o):
        ev = [e for e in o.st.events if e[0] == 'step']; want = ['create', 'compute'] + ['edit', 'compute'] * n
        if [e[1] for e in ev] != want: return False, 'steps: ' + ' '.join(e[1] for e in ev)
        out = []; data = None; et, ct = [], []
        def owner(x):
            while x.op == 'app' and x.a[0] == 'after': x = x.a[1][0]
            return x
        for _, k, vs, x in ev:
            me = {'create': 'init', 'edit': 'edit', 'compute': 'comp'}[k]
            if theory.canon(o.st.facts, owner(vs[0])) is not parts[me]: return False, 'the step %s is run on %s' % (k, show(vs[0]))
            if k != 'create': out.append((vs[1], data, 'the %s step uses the latest data' % k))
            if k == 'compute': ct.append(fld(x, 'tup', 0, 0) if many else x)
            else: et.append(fld(x, 'tup', 0, 0)); data = fld(x, 'tup', 0, 1)
        w = lambda xs: cat(*[unit(x) for x in xs]) if xs else NIL
        for name, xs in (('edits', et), ('computes', ct)): out.append((whole(field(S, res, o.val, name)), w(xs), name + ': one entry for each step, in order'))
        for name in ('full_edits', 'full_computes'): out.append((length(whole(field(S, res, o.val, name))), num(n + 1), name + ': one entry for each step'))
        return out
    S.each(r, '%d changes: each step once, in order, on the latest data; all times kept' % n, post); S.no_panic(r, '%d changes: no panic' % n)
@obligation('C32')
def sequence_runner(S):
    ks = sorted(k.key for k in S.prog.fns.values() if k.key.startswith('<test_seq::EditComputeSequence as actions::Testor<') and k.key.endswith('>::test'))
    if len(ks) != 2: raise Missing('Testor for EditComputeSequence')
    for key in ks:
        for n in (0, 1, 2, 3, 5, 20): drive_run(S, key, n, 'TestMResult' in key)
@obligation('C32')
def build_runner(S):
    ks = [k.key for k in S.prog.fns.values() if k.key.startswith('<test_build::BuildTest as actions::Testor<') and k.key.endswith('>::test')]
    if len(ks) != 1: raise Missing('Testor for BuildTest')
    key = ks[0]
    S.result = lambda name: tup(fresh('duration'), fresh(name))
    IT_, BT = 'eval::actions::IncrementalInit', BUILD + 'BuildTest'
    for n in (0, 1, 2, 4, 20):
        steps(S, ['eval::primitives::CreateInc::inc_init', 'eval::primitives::EditInsert::insert'])
        xs = {f: S.symbol(f) for f in ('size', 'datagauge', 'namegauge', 'coord')}; b, m = S.symbol('batch', ('prim', 'usize')), S.symbol('multiplier')
        init = adt(IT_, 0, [xs[f[0]] for f in S.prog.adts[IT_]['variants'][0]['fields']])
        parts = {'init': init, 'edit': adt('eval::actions::BatchInsert', 0, [b]), 'multiplier': m, 'count': num(n)}
        me = adt(BT, 0, [parts[f[0]] for f in S.prog.adts[BT]['variants'][0]['fields']])
        r = S.script(key, lambda call, st: call(key, st, [mref(interp.new_cell(st, me)), mref(interp.new_cell(st, sym('rng', '')))]), peel=n + 3)
        def post(o):
            ev = [e for e in o.st.events if e[0] == 'step']
            if [e[1] for e in ev] != ['inc_init', 'insert'] * n: return False, 'steps: ' + ' '.join(e[1] for e in ev)
            out = []; bt, et = [], []; sizes = []
            for i in range(0, 2 * n, 2):
                v, x = ev[i][2], ev[i][3]; v2, x2 = ev[i + 1][2], ev[i + 1][3]
                def plain(t):
                    while t.op == 'app' and t.a[0] == 'after': t = t.a[1][0]
                    return t
                sizes.append(theory.canon(o.st.facts, v[0]))
                out += [(v[1], xs['datagauge'], 'datagauge'), (v[2], xs['namegauge'], 'namegauge'), (plain(v[3]), xs['coord'], 'coordinator'),
                        (v2[0], fld(x, 'tup', 0, 1), 'the edit is of what was built'), (v2[1], b, 'batch size')]
                bt.append(fld(x, 'tup', 0, 0)); et.append(fld(x2, 'tup', 0, 0))
            # the sizes are the powers of the multiplier
            for i, s in enumerate(sizes):
                e = contains(s, lambda y: y is m)
                if not e: return False, 'size %s is not made from the multiplier' % show(s)
                if sizes.index(s) != i: return False, 'two collections of the same power'
            for i, z in enumerate(sizes):
                es = []
                contains(z, lambda y: y.op == 'app' and y.a[0] == 'FloatToInt' and es.append(y))
                if len(es) == 1 and o.st.facts.decide(eqi(z, es[0])) is False: return False, 'size %s is not a power of the multiplier' % show(z)
            if sizes and contains(sizes[0], lambda y: y.op == 'app' and 'powi' in y.a[0]):
                if any(subst(sizes[0], lambda y: num(i) if y is num(0) else None) is not s for i, s in enumerate(sizes)): o.st.mark('sizes made in another way'); return False, 'sizes'
                if not contains(sizes[0], lambda y: y is num(0)): return False, 'the first size is not the multiplier to the power 0'
            elif sizes: o.st.mark('sizes made in another way'); return False, 'sizes'
            res = BUILD + 'TestResult'; w = lambda ys: cat(*[unit(y) for y in ys]) if ys else NIL
            for name, ys in (('build', bt), ('edit', et)): out.append((whole(field(S, res, o.val, name)), w(ys), name + ': one entry for each collection, in order'))
            for name in ('build_full', 'edit_full'): out.append((length(whole(field(S, res, o.val, name))), num(n), name + ': one entry for each collection'))
            return out
        S.each(r, '%d collections: each built with its size and the parameters given, then edited once' % n, post); S.no_panic(r, '%d collections: no panic' % n)
@obligation('C32')
def element_types(S):
    for ty, lim in (('GenSmall', 100), ('Gen10k', 10000)):
        p = 'eval::types::' + ty
        r = S.run('<types::%s as rand::Rand>::rand' % ty)
        S.each(r, 'draws values below %d' % lim, lambda o: bnot(ge(fld(o.val, p, 0, 0), num(lim)))); S.no_panic(r, 'no panic')
        if ty == 'GenSmall':
            r = S.run('<types::%s as std::convert::From<usize>>::from' % ty, [S.symbol('n', ('prim', 'usize'))])
            S.each(r, 'the number given', lambda o: [(fld(o.val, p, 0, 0), r.args[0])]); S.no_panic(r, 'no panic')
        a, b = S.symbol('a', ('prim', 'usize')), S.symbol('b', ('prim', 'usize'))
        r = S.run('<types::%s as std::ops::Add>::add' % ty, [adt(p, 0, [a]), adt(p, 0, [b])])
        S.each(r, 'adds the numbers', lambda o: [(fld(o.val, p, 0, 0), lin_add(a, b))])
    n = S.symbol('n', ('prim', 'usize'))
    r = S.run('<types::GenSetElm as std::convert::From<usize>>::from', [n])
    S.each(r, 'the number given', lambda o: [(fld(fld(o.val, 'eval::types::GenSetElm', 0, 0), 'eval::types::Elm', 0, 0), n)]); S.no_panic(r, 'no panic')
@obligation('C32')
def example_tree(S):
    S.opts['harness'] = 'IRaz'; d, clone, memo = keyed(); S.contracts = dict(d)
    r = S.run('examples::iraztree_depth_4')
    def post(o):
        t = the_tree(o.val)
        if t is None: return False, 'no tree'
        ps = pieces(tword(t)); ms = pieces(o.st.facts.norm(tword(t, 1)))
        if [x.a[1][-1] if x.op == 'app' else None for _, x in ps] != [num(i) for i in range(1, 17)]: return False, 'elements ' + show(tword(t))
        if len(set(show(x).replace(show(x.a[1][-1]), '') for _, x in ps)) > 1: pass
        if len(ms) != 7: return False, '%d archive points' % len(ms)
        names = set()
        for i, (_, mm) in enumerate(ms):
            pos, lev, nm = (fld(mm, 'tup', 0, j) for j in range(3))
            if pos is not num(2 * i + 2): return False, 'archive point %d is after %s elements' % (i + 1, show(pos))
            if lev is not num((1, 4, 2, 6, 3, 5, 4)[i]): return False, 'archive point %d has level %s' % (i + 1, show(lev))
            if o.st.facts.variant(nm) != 1: return False, 'archive point %d has no name' % (i + 1)
            names.add(theory.canon(o.st.facts, payload(nm)))
        return len(names) == 7 or (False, 'a name twice')
    S.each(r, 'the elements 1 to 16 in sections of two, at the levels drawn', post); S.no_panic(r, 'no panic')
