"""C28 tries."""
from spec import *
from words import *

TRIE, LEAFT, BIN = 'iodyn::trie::Trie', 'iodyn::trie::TrieLeaf', 'iodyn::trie::TrieBin'
EMPTY, LEAF, BRANCH = 0, 1, 2
def T(n): return 'trie::Trie::' + n
def part(S, ty, v, name):
    for i, f in enumerate(S.prog.adts[ty]['variants'][0]['fields']):
        if f[0] == name: return fld(v, ty, 0, i)
    raise Missing('?%s.%s' % (ty, name))
def payload_(t, v): return fld(t, TRIE, v, 0)

def c_find(ex, st, fr, args, site, sub):
    import models
    return [(st, app('FIND', *[models.val(ex, st, a) for a in args]))]

@obligation('C28')
def find(S):
    t, h, k = S.symbol('t', ('adt', TRIE, ())), S.symbol('h', ('adt', 'iodyn::trie::HashVal', ())), S.symbol('k')
    bits = fld(h, 'iodyn::trie::HashVal', 0, 0)
    r = S.run(T('find'), [t, h, k], contracts={T('find'): c_find})
    HV = 'iodyn::trie::HashVal'
    def low(b): return [eqi(app('op:BitAnd', b, num(1)), num(0)), eqi(app('op:Rem', b, num(2)), num(0))]
    def shifted(n):
        """the bits left after n branches, in the ways they are written"""
        a = b = bits
        for _ in range(n): a, b = app('op:Shr', a, num(1)), app('op:Div', b, num(2))
        return [a, b] + ([app('op:Shr', bits, num(n)), app('op:Div', bits, num(1 << n))] if n > 1 else [])
    def walk(o, t, n):
        """what is required of the search from here: the result itself, or the search in a branch; None if the path does not say"""
        f = o.st.facts; v = f.variant(f.norm(t))
        if v == EMPTY: return none(), None
        if v == LEAF: return models.hm_get(part(S, LEAFT, payload_(t, LEAF), 'map'), k), None
        if v is None: return None, (t, n)
        ds = [d for b in shifted(n) for d in (f.decide(f.norm(c)) for c in low(b)) if d is not None]
        if not ds: return None, None
        to = f.norm(force(part(S, BIN, payload_(t, BRANCH), 'left' if ds[0] else 'right')))
        return walk(o, to, n + 1) if n < 16 and f.variant(to) is not None else (None, (to, n + 1))
    def post(o):
        f = o.st.facts; v = f.variant(t)
        if v is None: return False, 'the kind of the trie is not examined'
        x = f.norm(o.val)
        if v == BRANCH and not any(f.decide(f.norm(c)) is not None for c in low(bits)):
            o.st.mark('the side is chosen in a way that is not tracked')
            return False, 'the search does not go on in a branch by the lowest bit: ' + show(x)
        want, on = walk(o, t, 0)
        if want is not None: return [(o.val, want, 'nothing in the empty trie' if want is none() else 'what the map of the leaf has')]
        if on is None or not (x.op == 'app' and x.a[0] == 'FIND'):
            if on is None or f.norm(on[0]) is not f.norm(t) and v == BRANCH and x.op != 'adt' and not (x.op == 'app' and x.a[0] == 'FIND'): o.st.mark('the search ends in a way that is not tracked')
            return False, 'the search does not go on in a branch by the lowest bit: ' + show(x)
        hh = f.norm(fld(x.a[1][1], HV, 0, 0))
        if hh not in [f.norm(y) for y in shifted(on[1])]:
            if not (hh is bits or hh.op == 'app' and hh.a[0] in ('op:Shr', 'op:Shl', 'op:Div') and hh.a[1][0] is bits and hh.a[1][1].op == 'int'): o.st.mark('bits that are not tracked')
            return False, 'the rest of the hash: ' + show(hh)
        return [(x.a[1][0], on[0], 'the branch'), (x.a[1][2], k, 'the key')]
    S.each(r, 'searches the leaf, or the branch chosen by the lowest bit of the hash', post)
    S.no_panic(r, 'no panic')

@obligation('C28')
def from_map(S):
    r = S.run(T('empty'))
    S.each(r, 'is the empty trie', lambda o: o.st.facts.variant(o.val) == EMPTY)
    m = S.symbol('hm', ('adt', 'std::collections::hash::map::HashMap', ()))
    r = S.run(T('from_hashmap'), [m])
    def post(o):
        if o.st.facts.variant(o.val) != LEAF: return False, 'not a leaf: ' + show(o.val)
        return [(part(S, LEAFT, payload_(o.val, LEAF), 'map'), m, 'the map of the leaf')]
    S.each(r, 'holds exactly the map given', post)
    S.no_panic(r, 'no panic')

CASES = (('empty', EMPTY), ('leaf', LEAF), ('branch', BRANCH))
@obligation('C28')
def union(S):
    n = S.symbol('n', ('adt', 'adapton::engine::Name', ()))
    for ln, lv in CASES:
        for rn, rv in CASES:
            if BRANCH in (lv, rv) and EMPTY not in (lv, rv): continue    # no branch can be built: see the finding
            lt, rt = S.symbol('lt.%s%s' % (ln, rn), ('adt', TRIE, ())), S.symbol('rt.%s%s' % (ln, rn), ('adt', TRIE, ()))
            def pre(st):
                st.facts.set_variant(lt, lv); st.facts.set_variant(rt, rv)
                for x, v in ((lt, lv), (rt, rv)):
                    if v == EMPTY: NULLARY[(x, EMPTY)] = TRIE
            r = S.run(T('union'), [lt, rt, n], pre=pre)
            if EMPTY in (lv, rv):
                S.each(r, '%s and %s: the other trie' % (ln, rn), lambda o: [(o.val, rt if lv == EMPTY else lt)])
            S.no_panic(r, '%s and %s: no panic' % (ln, rn))
