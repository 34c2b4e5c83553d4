"""C24 equality, hashing and cloning of the library's types."""
from spec import *
from words import *

BY_HASH = ('trie::TrieLeaf',)     # compared by the hash of its contents, as its documentation says
def impls(S, trait):
    for i in S.prog.impls:
        if i.get('trait') == trait and i['self'][0] == 'adt' and i['self'][1] in S.prog.adts and '::tests::' not in i['path']:
            yield i
def values(S, path, tag):
    """one value per variant, with symbolic fields"""
    for v, d in enumerate(S.prog.adts[path]['variants']):
        yield v, adt(path, v, [S.symbol('%s.%s' % (tag, f[0]), mir.freeze(f[1])) for f in d['fields']]), [f[0] for f in d['fields']]
def method(S, i, m):
    f = next((S.prog.fns.get(p) for k, n, p in i['items'] if n == m), None)
    if f is None: raise Missing('?' + i['path'] + '::' + m)
    return f
def related(fs, v, x, y):
    """some condition on the path speaks about parts of both values"""
    def has(t, z):
        if t is z: return True
        if t.op == 'isvar' or (t.op == 'app' and t.a[0] == 'len'): return False     # says little about the value
        return any(has(u, z) for u in dom.children(t))
    return any(has(t, x) and has(t, y) for t in [v] + list(fs.bools) + list(fs.lins))
def shortname(p): return p.split('::', 1)[1]
def kind(i): return 'derived' if i.get('derived') else 'written by hand'
@obligation('C24')
def equality(S):
    for i in impls(S, 'core::cmp::PartialEq'):
        p = i['self'][1]
        if shortname(p) in BY_HASH: continue
        f = method(S, i, 'eq')
        if i.get('derived'):
            S.sites += 1; S.record(f, 'derived: compares every part', 'holds'); continue
        for va, a, names in list(values(S, p, 'a')):
            for vb, b, _ in list(values(S, p, 'b')):
                r = S.run(f, [a, b])
                def post(o):
                    fs = o.st.facts
                    v = fs.norm(o.val)
                    if v.op != 'bool':
                        try: fs.assume(v, True)
                        except Infeasible: return True
                    elif not v.a[0]: return True
                    if va != vb: return False, 'different variants are equal'
                    for n, x, y in zip(names, a.a[2], b.a[2]):
                        if theory.equal(fs, x, y) is not True:
                            if related(fs, v, x, y): o.st.mark('the values are related in another way')
                            return False, 'values that differ in %s are equal' % n
                    return True
                what = '%s: equal values have equal parts' % S.prog.adts[p]['variants'][va]['name'] + ('' if va == vb else ' (other: %s)' % S.prog.adts[p]['variants'][vb]['name'])
                S.each(r, what, post)
            r = S.run(f, [a, a])
            S.each(r, '%s: a value equals itself' % S.prog.adts[p]['variants'][va]['name'], lambda o: o.val)
@obligation('C24')
def hashing(S):
    for i in impls(S, 'core::hash::Hash'):
        p = i['self'][1]; f = method(S, i, 'hash')
        if i.get('derived'):
            S.sites += 1; S.record(f, 'derived: a function of the parts', 'holds'); continue
        for va, a, _ in list(values(S, p, 'a')):
            h = S.symbol('hasher')
            r = S.run(f, [a, h])
            if any(o.st.taint for o in r.outs):      # a loop: run it in full if its bound is a constant
                q = S.run(f, [a, h], opts=dict(peel=128), mode='refute')
                if q.outs and not q.incomplete and not any(o.st.taint for o in q.outs): r = q
            def post(o):
                t = o.st.facts.norm(o.arg(1))
                if contains(t, lambda x: x.op == 'app' and x.a[0] in ('entries', 'hm_keys')): return False, 'hashing depends on the order of a hash map'
                if shortname(p) in BY_HASH and contains(t, lambda x: x.op in ('sym', 'fld') and x in a.a[2][1:]): return False, 'hashing uses more than equality does'
                if contains(t, lambda x: x.op == 'sym' and str(x.a[0]).startswith(('rand#', 'gen#'))): return False, 'hashing is random'
                if contains(t, lambda x: x.op == 'sym' and x is not h and not any(contains(y, lambda z: z is x) for y in a.a[2])):
                    o.st.mark('the hash is not known'); return False, 'the hash is ' + show(t)[:100]
                return True
            S.each(r, '%s: equal values have equal hashes' % S.prog.adts[p]['variants'][va]['name'], post)
    S.rules.append('derived implementations treat every part; hand-written ones are analysed')
@obligation('C24')
def cloning(S):
    for i in impls(S, 'core::clone::Clone'):
        p = i['self'][1]; f = method(S, i, 'clone')
        if i.get('derived'):
            S.sites += 1; S.record(f, 'derived: clones every part', 'holds'); continue
        for va, a, names in list(values(S, p, 'a')):
            r = S.run(f, [a])
            S.each(r, '%s: a clone is equal' % S.prog.adts[p]['variants'][va]['name'], lambda o: [(o.val, a)])
            S.each(r, '%s: cloning allocates nothing' % S.prog.adts[p]['variants'][va]['name'], lambda o: (not [e for e in o.st.events if e[0] == 'cell'], 'allocates a cell'))
