"""C26 the skip list is a finite map; C27 its cells have names of their own."""
from spec import *
from words import *
import itertools

SK = 'iodyn::skiplist::Skiplist'; PATH = 'iodyn::skiplist::Path'
def F(m): return '<skiplist::Skiplist as skiplist::FinMap<K, V>>::' + m

def growth(n):
    """the ways n operations can share keys"""
    def go(pre, top):
        if len(pre) == n: yield tuple(pre); return
        for x in range(top + 1):
            for y in go(pre + [x], max(top, x + 1)): yield y
    return go([], 0)

def history(S, bits, ops, hashes, hq, kinds):
    """ops: key number per ext; hashes: of each key; hq: of a key never used. Afterwards every key is looked up."""
    nk = max(ops) + 1
    keys = [S.symbol('key%d' % i) for i in range(nk)] + [S.symbol('other')]
    vals = [S.symbol('v%d' % i, ('adt', OPT, ())) for i in range(len(ops))]
    nm = S.symbol('name', ('adt', 'adapton::engine::Name', ()))
    models.HASHES.clear()
    for k, h in zip(keys, list(hashes) + [hq]): models.HASHES[k] = h | (5 << (bits + 2))   # bits above the mask are to be ignored
    def body(call, st):
        for a, b in itertools.combinations(keys, 2): st.facts.assume(bnot(eqt(a, b)))
        states = []
        for s, m in call(F('emp'), st, [num(bits), nm]):
            cell = new_cell(s, m); states.append((s, cell, []))
        for i, k in enumerate(ops):
            nxt = []
            for s, c, res in states:
                if kinds[i] == 'archive':
                    for s1, _ in call(F('archive'), s, [mref(c), S.symbol('name%d' % i)]): s = s1
                for s2, r in call(F('ext'), s, [mref(c), keys[k], vals[i]]): nxt.append((s2, c, res + [r]))
            states = nxt
        out = []
        for s, c, res in states:
            got = [(s, [])]
            for k in keys:
                got = [(s2, g + [v]) for s1, g in got for s2, v in call(F('get'), s1, [mref(c), k])]
            out += [(s2, tup(tup(*res), tup(*g))) for s2, g in got]
        return out
    r = S.script(F('ext'), body)
    def post(o):
        last = {}; prs = []
        for i, k in enumerate(ops):
            prs.append((fld(fld(o.val, 'tup', 0, 0), 'tup', 0, i), last.get(k, none()), 'what the key mapped to before'))
            last[k] = vals[i]
        for i in range(len(keys)):
            prs.append((fld(fld(o.val, 'tup', 0, 1), 'tup', 0, i), last.get(i, none()), 'what a key maps to afterwards'))
        return prs
    what = 'keys %s with hashes %s' % (''.join('ABCD'[k] for k in ops), ','.join(map(str, list(hashes) + [hq])))
    S.each(r, 'history of ' + what, post)
    S.no_panic(r, 'no panic, ' + what)

def summary(S, n0, what):
    """one line for the histories that hold"""
    new = S.obl[n0:]; held = [o for o in new if o['status'] == 'holds']
    S.obl[n0:] = [o for o in new if o['status'] != 'holds'] + ([dict(held[0], label=what, detail='%d obligations' % len(held))] if held else [])
def family(bits, ops, ha=None, kinds=None, q=None):
    def f(S):
        n0 = len(S.obl); nk = max(ops) + 1
        for hs in itertools.product(*[[ha] if i == 0 and ha is not None else range(1 << bits) for i in range(nk)]):
            for hq in (q or (lambda hs: (hs[-1],)))(hs): history(S, bits, ops, hs, hq, kinds or ['ext'] * len(ops))
        summary(S, n0, 'all histories of this shape')
    return f
every = lambda hs: range(4)
for _n in (0, 1, 2, 3):
    for _ops in growth(_n):
        if _n: obligation('C26', 'histories ' + ''.join('ABC'[k] for k in _ops))(family(2, _ops, q=every))
obligation('C26', 'one bit')(family(1, (0, 1, 2, 0)))
for _h in range(8):
    obligation('C26', 'three bits, first hash %d' % _h)(family(3, (0, 1, 2), _h))
obligation('C26', 'archiving in between')(family(2, (0, 1, 0), kinds=['ext', 'archive', 'archive']))
for _ops in growth(4):
    if max(_ops) < 3: obligation('C26', 'histories ' + ''.join('ABC'[k] for k in _ops))(family(2, _ops))

# ---- any history: one step of the structure, with the recursive search as its own induction hypothesis
HV = 'iodyn::skiplist::HashVal'; REC = 'skiplist::build_path_rec'
OPTV = ('adt', OPT, ())
def shape(S):
    """the representation this argument is about; another one is left to the bounded histories"""
    def names(a): return [f[0] for f in S.prog.adts[a]['variants'][0]['fields']] if a in S.prog.adts else None
    if names(SK) != ['path_len', 'name', 'cntr', 'head'] or names(PATH) != ['hash', 'kvs', 'paths'] or names(HV) != ['0']: raise Missing('?representation of the skip list')
    f = S.fn('?' + REC)
    if f.nargs != 4 or f.locals[2] != ('adt', HV, ()) or f.locals[3][0] != 'ref' or f.locals[4][:2] != ('ref', 'mut'): raise Missing('?' + REC)
def D(x, g):
    """what the list behind the optional link x knows for hash g"""
    t = app('sk:D', x, num(g)); interp.TYPED[t] = OPTV
    return t
def owner(a): return a.a[0] if a.op == 'fld' and a.a[1] == OPT else some(a)
def first_diff(a, b, lo=0): return next(i for i in itertools.count(lo) if (a ^ b) >> i & 1)
def search(ex, st, fr, args, site, sub):
    """induction hypothesis of the recursive search"""
    w, k = args[0], fld(args[1], HV, 0, 0)
    a = ex.load(st, args[2]) if args[2].op == 'mref' else args[2]
    c = ex.load(st, args[3]); ps = pieces(fld(c, 'iodyn::skiplist::Cursor', 0, 0))
    if w.op != 'int' or k.op != 'int' or any(p[0] != 'e' for p in ps): return None
    if a.op == 'art' and ex.stack.count(REC) < 3: return None
    new = []
    for i in range(len(ps), w.a[0]):
        s = app('sk:side', owner(a), num(k.a[0]), num(i)); interp.TYPED[s] = OPTV; new.append(s)
    ex.store(st, args[3], adt('iodyn::skiplist::Cursor', 0, [seq([E(p[1]) for p in ps] + [E(x) for x in new])]))
    r = D(owner(a), k.a[0])
    return [(st, r)]
def know(f, x, g, here):
    """here(g): knowledge of the node at hand"""
    if x.op == 'app' and x.a[0] == 'sk:side': return know(f, x.a[1][0], g, here)
    if x.op == 'adt': return none() if x.a[1] == 0 else here(f, g) if x.a[2][0].op == 'art' else know(f, owner(x.a[2][0]), g, here)
    return none() if f.variant(x) == 0 else D(x, g)

def node(S, w, h):
    kvs = S.symbol('kvs', ('adt', 'alloc::vec::Vec', ()))
    ps = [S.symbol('p%d' % i, OPTV) for i in range(w)]
    n = dom.art(S.symbol('nodename'), adt(PATH, 0, [adt(HV, 0, [num(h)]), kvs, seq([E(p) for p in ps])]))
    def here(f, g): return some(kvs) if g == h else know(f, ps[first_diff(g, h)], g, None)
    return n, here

def hashes_beyond(w, k, i, hs=()):
    """hashes that agree with k in the bits below i and not in bit i: all of them for few bits, otherwise some that
    follow k, its complement and the hashes at hand above bit i"""
    low = k & ((1 << i) - 1) | (~k & 1 << i)
    if w <= 4: return [low | x << (i + 1) for x in range(1 << (w - i - 1))]
    full = (1 << w) - 1; hi = full & ~((1 << (i + 1)) - 1)
    return sorted({low | x & hi for x in (k, ~k & full, 0) + tuple(hs)})
def search_case(S, w, k, h, b):
    n, here = node(S, w, h)
    cs = [S.symbol('c%d' % i, OPTV) for i in range(b)]
    cur = adt('iodyn::skiplist::Cursor', 0, [seq([E(c) for c in cs])])
    r = S.run('?' + REC, [num(w), adt(HV, 0, [num(k)]), n, cur], contracts={REC: search}, mode='refute', opts={'peel': w + 1})
    def post(o):
        f = o.st.facts
        prs = [(o.val, here(f, k), 'entries found')]
        ps = pieces(f.norm(fld(o.arg(3), 'iodyn::skiplist::Cursor', 0, 0)))
        if any(p[0] != 'e' for p in ps): o.st.mark('links that are not tracked')
        if len(ps) != w: return False, 'a path of %d links' % len(ps)
        for i in range(w):
            if i < b: prs.append((ps[i][1], cs[i], 'link %d' % i)); continue
            for g in hashes_beyond(w, k, i, (h,)):
                prs.append((know(f, ps[i][1], g, here), here(f, g), 'what link %d leads to for hash %d' % (i, g)))
        return prs
    what = '%d bits: key %d at a node of hash %d, %d bits agree' % (w, k, h, b)
    S.each(r, what, post); S.no_panic(r, 'no panic, ' + what)
SEARCHES = 'the search finds the entries of the hash and links to all the others'
def searching(w):
    def f(S):
        shape(S); n0 = len(S.obl)
        for k in range(1 << w):
            for h in range(1 << w):
                for b in range(w):
                    if not (k ^ h) & ((1 << b) - 1): search_case(S, w, k, h, b)
        summary(S, n0, SEARCHES)
    return f
def searching_wide(w, starts):
    """paths of usual length: every first bit in which key and node differ, above them some bits that agree and some that do not"""
    def f(S):
        shape(S); n0 = len(S.obl); full = (1 << w) - 1; k = 0x9d3b61f25ca35a3c96 & full
        for b in starts:
            search_case(S, w, k, k, b)
            for j in range(b, w):
                hi = full & ~((1 << (j + 1)) - 1)
                search_case(S, w, k, k ^ (1 << j) ^ (0x3a1f57c83a5c69f1e7 & hi), b)
        summary(S, n0, SEARCHES)
    return f
for _w in (1, 2, 3, 4): obligation('C26', 'search, %d bits' % _w)(searching(_w))
for _w, _b in ((8, range(8)), (16, range(16)), (32, range(32)), (64, (0, 1, 31, 63))): obligation('C26', 'search, %d bits' % _w)(searching_wide(_w, _b))

def updating(w, n):
    """one update of an arbitrary list whose entries of that hash are n pairs"""
    def f(S):
        shape(S); n0 = len(S.obl)
        for k in range(1 << w) if w < 8 else (0, 1, (1 << w) - 1, 0x9d3b61f25ca35a3c96 & ((1 << w) - 1)):
            for hit in range(n + 1): update(S, w, n, k, hit)
        summary(S, n0, 'an update changes exactly the entry of its key')
    return f
def update(S, w, n, k, hit):
    self_, nm, c = S.symbol('head', OPTV), S.symbol('name'), S.symbol('cntr', ('prim', 'usize'))
    key, v = S.symbol('key'), S.symbol('v', OPTV)
    models.HASHES.clear(); models.HASHES[key] = k | (3 << w & ((1 << 64) - 1))
    ks = [key if i == hit else S.symbol('k%d' % i) for i in range(n)]; vs = [S.symbol('w%d' % i, OPTV) for i in range(n)]
    old = D(self_, k)
    def pre(st):
        for a, b in itertools.combinations(ks if hit < n else ks + [key], 2): st.facts.assume(bnot(eqt(a, b)))
        if n: st.facts.assume(isvar(self_, 1))
    def c_search(ex, st, fr, args, site, sub):
        r = search(ex, st, fr, args, site, sub)
        if r is None: return None
        out = []
        for s, x in r:
            if x is not old: s.mark('search for another hash')
            out.append((s, some(seq([E(tup(a, b)) for a, b in zip(ks, vs)])) if n else none()))
        return out
    me = adt(SK, 0, [num(w), nm, c, self_])
    r = S.run(F('ext'), [me, key, v], pre=pre, contracts={REC: c_search}, mode='refute', opts={'peel': max(w, n) + 1, 'unroll': 4})
    def post(o):
        f = o.st.facts; m = o.arg(0); h = f.norm(fld(m, SK, 0, 3))
        if h.op != 'adt' or h.a[1] != 1: return False, 'no head'
        p = force(h.a[2][0]); ps = pieces(f.norm(fld(p, PATH, 0, 2)))
        prs = [(fld(fld(p, PATH, 0, 0), HV, 0, 0), num(k), 'hash of the new node'), (fld(m, SK, 0, 0), num(w), 'path length')]
        if any(x[0] != 'e' for x in ps): o.st.mark('links that are not tracked')
        if len(ps) != w: return False, '%d links' % len(ps)
        for g in range(1 << w) if w < 8 else [g for i in range(w) for g in hashes_beyond(w, k, i)]:
            if g != k: prs.append((know(f, ps[first_diff(g, k)][1], g, None), none() if f.variant(self_) == 0 else D(self_, g), 'entries of hash %d' % g))
        prs.append((o.val, vs[hit] if hit < n else none(), 'the result'))
        want = [tup(a, v if i == hit else b) for i, (a, b) in enumerate(zip(ks, vs))] + ([] if hit < n else [tup(key, v)])
        got = pieces(f.norm(fld(p, PATH, 0, 1)))
        if any(x[0] != 'e' for x in got): o.st.mark('entries that are not tracked')
        if len(got) != len(want): return False, 'entries %s' % show(fld(p, PATH, 0, 1))
        left = [x[1] for x in got]
        for y in want:      # in any order
            x = next((x for x in left if fld(x, 'tup', 0, 0) is fld(y, 'tup', 0, 0)), None)
            if x is None: return False, 'no entry for %s' % show(fld(y, 'tup', 0, 0))
            left.remove(x); prs.append((x, y, 'entry'))
        return prs
    what = '%d bits, key of hash %d, entry %d of %d' % (w, k, hit, n)
    S.each(r, what, post); S.no_panic(r, 'no panic, ' + what)
for _w in (1, 2, 3):
    for _n in range(4): obligation('C26', 'update, %d bits, %d entries' % (_w, _n))(updating(_w, _n))

for _w in (8, 32): obligation('C26', 'update, %d bits, 2 entries' % _w)(updating(_w, 2))

def looking(n):
    """looking up among the entries found"""
    def f(S):
        shape(S); n0 = len(S.obl); w, k = 2, 2
        for hit in range(n + 1):
            head, key = S.symbol('head', OPTV), S.symbol('key')
            models.HASHES.clear(); models.HASHES[key] = k | (3 << w)
            ks = [key if i == hit else S.symbol('k%d' % i) for i in range(n)]; vs = [S.symbol('w%d' % i, OPTV) for i in range(n)]
            def pre(st):
                for a, b in itertools.combinations(ks if hit < n else ks + [key], 2): st.facts.assume(bnot(eqt(a, b)))
                if n: st.facts.assume(isvar(head, 1))
            def c_search(ex, st, fr, args, site, sub):
                r = search(ex, st, fr, args, site, sub)
                if r is None: return None
                for s, x in r:
                    if x is not D(head, k): s.mark('search for another hash')
                return [(s, some(seq([E(tup(a, b)) for a, b in zip(ks, vs)])) if n else none()) for s, x in r]
            me = adt(SK, 0, [num(w), S.symbol('name'), S.symbol('cntr', ('prim', 'usize')), head])
            r = S.run(F('get'), [me, key], pre=pre, contracts={REC: c_search}, mode='refute', opts={'peel': n + 3, 'unroll': 4})
            what = 'entry %d of %d' % (hit, n)
            S.each(r, what, lambda o: [(o.val, vs[hit] if hit < n else none())]); S.no_panic(r, 'no panic, ' + what)
        summary(S, n0, 'a lookup gives the entry of its key')
    return f
for _n in range(4): obligation('C26', 'lookup, %d entries' % _n)(looking(_n))

@obligation('C26')
def rest(S):
    """the other methods in terms of ext; archiving and copying change no entry"""
    me = S.symbol('self', ('adt', SK, ())); key, v = S.symbol('key'), S.symbol('v')
    def c_ext(ex, st, fr, args, site, sub):
        m = ex.load(st, args[0]); ex.store(st, args[0], app('extended', m, args[1], args[2]))
        r = app('extresult', m, args[1], args[2]); interp.TYPED[r] = OPTV
        return [(st, r)]
    C = {F('ext'): c_ext}
    r = S.run(F('put'), [me, key, v], contracts=C)
    S.each(r, 'putting sets the entry', lambda o: [(o.arg(0), app('extended', me, key, some(v)))] if contains(o.arg(0), lambda x: x.op == 'app' and x.a[0] == 'extended') else o.st.mark('not in terms of ext') or False)
    r = S.run(F('rem'), [me, key], contracts=C)
    S.each(r, 'removing clears the entry', lambda o: [(o.arg(0), app('extended', me, key, none())), (o.val, app('extresult', me, key, none()))] if contains(o.arg(0), lambda x: x.op == 'app' and x.a[0] == 'extended') else o.st.mark('not in terms of ext') or False)
    n = S.symbol('n')
    r = S.run(F('archive'), [me, n])
    S.each(r, 'archiving keeps path length and entries', lambda o: [(fld(o.arg(0), SK, 0, 0), fld(me, SK, 0, 0)), (fld(o.arg(0), SK, 0, 3), fld(me, SK, 0, 3))] if shape(S) is None else None)
def ops_history(S):
    """put and rem histories, independent of the representation"""
    n0 = len(S.obl)
    for ha, hb in itertools.product(range(4), repeat=2):
        a, b, v1, v2, v3, nm = [S.symbol(x) for x in ('a', 'b', 'v1', 'v2', 'v3', 'name')]
        models.HASHES.clear(); models.HASHES.update({a: ha | 64, b: hb | 32})
        def body(call, st):
            st.facts.assume(bnot(eqt(a, b)))
            sts = [(s, new_cell(s, m), []) for s, m in call(F('emp'), st, [num(2), nm])]
            for m, args in (('put', [a, v1]), ('put', [b, v2]), ('rem', [a]), ('get', [a]), ('get', [b]), ('put', [a, v3]), ('get', [a]), ('rem', [b]), ('get', [b])):
                sts = [(s2, c, r + [x]) for s, c, r in sts for s2, x in call(F(m), s, [mref(c)] + args)]
            return [(s, tup(*r)) for s, c, r in sts]
        r = S.script(F('put'), body)
        want = [None, None, some(v1), none(), some(v2), None, some(v3), some(v2), none()]
        what = 'hashes %d and %d' % (ha, hb)
        S.each(r, what, lambda o: [(fld(o.val, 'tup', 0, i), w, 'step %d' % (i + 1)) for i, w in enumerate(want) if w is not None])
        S.no_panic(r, 'no panic, ' + what)
    summary(S, n0, 'put, remove, look up')
obligation('C26', 'put and remove')(ops_history)

# ---- C27: names of cells
def differ(f, a, b):
    """can two names be told apart whatever the run? True / False / None"""
    a, b = f.norm(a), f.norm(b)
    if a is b: return False
    if a.op == 'app' and b.op == 'app':
        if a.a[0] == b.a[0] == 'npair':
            ds = [differ(f, x, y) for x, y in zip(a.a[1], b.a[1])]
            return True if True in ds else False if ds == [False, False] else None
        if a.a[0] == b.a[0] == 'nnum':
            d = lin_add(a.a[1][0], b.a[1][0], -1)
            return d.a[0] != 0 if d.op == 'int' else None
        return True if a.a[0] != b.a[0] and a.a[0] in NAMERS and b.a[0] in NAMERS else None
    return True if a.op == 'sym' and b.op == 'sym' else None   # names given by the caller are distinct
NAMERS = ('npair', 'nnum', 'nstr', 'fork0', 'fork1')
def base(n):
    while n.op == 'app' and n.a[0] in ('npair', 'fork0', 'fork1'): n = n.a[1][0]
    return n
def cells_of(o): return [e[1] for e in o.st.events if e[0] == 'cell']
def names_run(S, kinds, start):
    """a list in an arbitrary or new state, then updates and archivings; one bit, so that paths get shared as well"""
    keys = [S.symbol('key%d' % i) for i in range(len(kinds))]; nms = [S.symbol('name%d' % i) for i in range(len(kinds) + 1)]
    models.HASHES.clear()
    for i, k in enumerate(keys): models.HASHES[k] = i & 1
    marks = []
    def body(call, st):
        for a, b in itertools.combinations(keys, 2): st.facts.assume(bnot(eqt(a, b)))
        sts = [(s, new_cell(s, m)) for s, m in call(F('emp'), st, [num(1), nms[0]])]
        now = nms[0]; marks.append(('n', now))
        for i, k in enumerate(kinds):
            if k == 'archive': now = nms[i + 1]; marks.append(('n', now))
            else: marks.append(('e', now))
            m, args = {'archive': ('archive', [nms[i + 1]]), 'put': ('put', [keys[i], S.symbol('v%d' % i)]), 'rem': ('rem', [keys[max(i - 1, 0)]]), 'get': ('get', [keys[max(i - 1, 0)]])}[k]
            sts = [(s2, c) for s, c in sts for s2, _ in call(F(m), s, [mref(c)] + args)]
        return [(s, UNIT) for s, c in sts]
    r = S.script(F('ext'), body)
    want = [now for (m, now), k in zip(marks[1:], kinds) if k in ('put', 'rem')]
    def post(o):
        cs = cells_of(o)
        if len(cs) != len(want): return False, '%d cells for %d updates' % (len(cs), len(want))
        for c, w in zip(cs, want):
            if base(c) is not w: return False, 'the cell %s is not named after %s' % (show(c), show(w))
        for a, b in itertools.combinations(cs, 2):
            d = differ(o.st.facts, a, b)
            if d is None: o.st.mark('names that are not comparable'); return False, 'names %s and %s' % (show(a), show(b))
            if not d: return False, 'two cells of the name %s' % show(a)
        return True
    what = ', '.join(kinds)
    S.each(r, what, post)
@obligation('C27')
def name_histories(S):
    n0 = len(S.obl)
    for n in (1, 2, 3, 4):
        for kinds in itertools.product(('put', 'archive', 'rem') if n < 4 else ('put', 'archive'), repeat=n): names_run(S, kinds, None)
    names_run(S, ('put', 'get', 'put', 'get', 'get', 'put'), None)
    summary(S, n0, 'all cells have names of their own, after the current name')
@obligation('C27')
def any_history(S):
    """from any state: the counter only grows while the name stays"""
    shape(S)
    me, key, v = S.symbol('self', ('adt', SK, ())), S.symbol('key'), S.symbol('v', OPTV)
    c0, n0 = fld(me, SK, 0, 2), fld(me, SK, 0, 1)
    def c_search(ex, st, fr, args, site, sub):
        r = fresh('found'); interp.TYPED[r] = OPTV
        ex.store(st, args[3], adt('iodyn::skiplist::Cursor', 0, [app('links', args[1], args[2])]))
        return [(st, r)]
    for m, args in (('ext', [me, key, v]), ('put', [me, key, v]), ('rem', [me, key])):
        r = S.run(F(m), args, contracts={REC: c_search})
        def post(o):
            cs = cells_of(o)
            if len(cs) != 1: return False, '%d cells' % len(cs)
            a = cs[0]
            if not (a.op == 'app' and a.a[0] == 'npair' and a.a[1][1].op == 'app' and a.a[1][1].a[0] == 'nnum'): o.st.mark('another naming scheme'); return False, show(a)
            k = a.a[1][1].a[1][0]
            f = o.st.facts
            if theory.equal(f, a.a[1][0], n0) is not True or theory.equal(f, fld(o.arg(0), SK, 0, 1), n0) is not True: return False, 'the cell is named %s' % show(a)
            if f.decide(f.norm(ge(k, c0))) is not True: return False, 'number %s may have been used before' % show(k)
            return bnot(ge(k, fld(o.arg(0), SK, 0, 2)))
        S.each(r, 'the number of the cell was not used and will not be used again', post)
    n = S.symbol('n')
    r = S.run(F('archive'), [me, n])
    S.each(r, 'archiving starts over after the new name', lambda o: [(fld(o.arg(0), SK, 0, 1), n)])
    S.each(r, 'archiving allocates nothing', lambda o: (not cells_of(o), 'allocates cells'))
    r = S.run(F('get'), [me, key], contracts={REC: c_search})
    S.each(r, 'looking up allocates nothing', lambda o: (not cells_of(o), 'allocates cells'))
