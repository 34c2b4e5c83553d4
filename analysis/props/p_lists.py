"""C01 archive stack, C02 persistent list."""
from spec import *
from words import *

def A(name): return 'archive_stack::AStack::' + name

def inv_arch(a):
    """every archived section of a well-formed archive stack is non-empty: the section on top"""
    def pre(st):
        o = archopt(a)
        def top():
            b = force(fld(fld(o, OPT, 1, 0), HEAD, 0, 1))
            v = fld(fld(b, BODY, 0, 0), 'tup', 0, 1); SEQ_TERMS.add(v)
            st.facts.assume(bnot(eqi(length(v), num(0))))
        top()
    return pre

@obligation('C01')
def new_empty(S):
    for k in ('new', 'with_capacity'):
        r = S.run(A(k))
        S.each(r, 'starts empty', lambda o: [(ASEQ(o.val), NIL)])
        S.no_panic(r, 'no panic')

@obligation('C01')
def from_vec(S):
    r = S.run('<archive_stack::AStack as std::convert::From<std::vec::Vec<E>>>::from')
    S.each(r, 'holds exactly the vector', lambda o: [(ASEQ(o.val), r.args[0])])

@obligation('C01')
def push(S):
    a = S.symbol('self'); r = S.run(A('push'), [a])
    S.each(r, 'push appends one element', lambda o: [(ASEQ(o.arg(0)), cat(ASEQ(a), unit(r.args[1])))])
    S.each(r, 'push leaves the archive', lambda o: [(arch(o.arg(0)), arch(a))])
    S.no_panic(r, 'no panic')

def popspec(S, k, elem):
    a = S.symbol('self')
    r = S.run(A(k), [a], pre=inv_arch(a))
    def post(o):
        v = o.st.facts.variant(o.val)
        if v is None: return False, 'undetermined result'
        if v == 0: return [(ASEQ(a), NIL, 'None only when empty'), (ASEQ(o.arg(0)), ASEQ(a))]
        return [(cat(ASEQ(o.arg(0)), unit(elem(o))), ASEQ(a), 'removes exactly the top element')]
    S.each(r, 'LIFO removal', post)
    S.no_panic(r, 'no panic on a well-formed stack')
    return a, r

@obligation('C01')
def pop(S): popspec(S, 'pop', lambda o: fld(o.val, OPT, 1, 0))
@obligation('C01')
def pop_meta(S):
    a, r = popspec(S, 'pop_meta', lambda o: fld(fld(o.val, OPT, 1, 0), 'tup', 0, 0))
    def post(o):
        if o.st.facts.variant(o.val) == 0: return None
        m = fld(fld(o.val, OPT, 1, 0), 'tup', 0, 1)
        if o.st.facts.is_empty(cur(a)):
            b = force(fld(fld(archopt(a), OPT, 1, 0), HEAD, 0, 1))
            return [(m, some(fld(fld(b, BODY, 0, 0), 'tup', 0, 0)), 'metadata of the opened archive')]
        return [(m, none(), 'no metadata when nothing is opened')]
    S.each(r, 'metadata of the archive opened', post)
@obligation('C01')
def iter_next(S):
    a = S.symbol('self')
    it = adt('iodyn::archive_stack::Iter', 0, (a,))
    r = S.run('<archive_stack::Iter as std::iter::Iterator>::next', [it], pre=inv_arch(a))
    def post(o):
        n = fld(o.arg(0), 'iodyn::archive_stack::Iter', 0, 0)
        v = o.st.facts.variant(o.val)
        if v == 0: return [(ASEQ(a), NIL), (ASEQ(n), NIL)]
        return [(cat(ASEQ(n), unit(fld(o.val, OPT, 1, 0))), ASEQ(a))]
    S.each(r, 'iterates from the top', post)
    S.no_panic(r, 'no panic')
    r = S.run('<archive_stack::AStack as std::iter::IntoIterator>::into_iter', [a])
    S.each(r, 'iterates over all elements', lambda o: [(ASEQ(fld(o.val, 'iodyn::archive_stack::Iter', 0, 0)), ASEQ(a))])
@obligation('C01')
def peek(S):
    a = S.symbol('self'); r = S.run(A('peek'), [a], pre=inv_arch(a))
    def post(o):
        v = o.st.facts.variant(o.val)
        if v == 0: return [(ASEQ(a), NIL)]
        w = theory.canon(o.st.facts, ASEQ(a)); ps = pieces(w)
        if not ps or not (ps[-1][0] == 'e' or o.st.facts.is_empty(ps[-1][1]) is False): return False, 'peek of an empty stack'
        k, x = ps[-1]
        return [(fld(o.val, OPT, 1, 0), x if k == 'e' else s_last(x), 'the element pop would return')]
    S.each(r, 'peek shows the top element', post)
    S.no_panic(r, 'no panic')
@obligation('C01')
def archive(S):
    a = S.symbol('self')
    for k in ('archive', 'archive_with_capacity'):
        r = S.run(A(k), [a])
        def post(o):
            n = o.arg(0)
            if o.st.facts.is_empty(cur(a)): return [(o.val, FALSE), (ASEQ(n), ASEQ(a)), (arch(n), arch(a))]
            res = [(o.val, TRUE), (ASEQ(n), ASEQ(a), 'archiving keeps every element'), (cur(n), NIL)]
            h = fld(archopt(n), OPT, 1, 0)
            b = force(fld(h, HEAD, 0, 1))
            res += [(fld(fld(b, BODY, 0, 0), 'tup', 0, 0), r.args[2], 'metadata archived'), (fld(fld(b, BODY, 0, 0), 'tup', 0, 1), cur(a), 'section archived'),
                    (fld(h, HEAD, 0, 0), r.args[1], 'archive name'), (fld(b, BODY, 0, 1), archopt(a), 'older archives kept')]
            return res
        S.each(r, 'archive point', post)
        S.no_panic(r, 'no panic')
@obligation('C01')
def next_archive(S):
    a = S.symbol('self'); r = S.run(A('next_archive'), [a])
    def post(o):
        n = o.arg(0); v = o.st.facts.variant(o.val)
        av = o.st.facts.variant(archopt(a))
        if v == 0: return [(ASEQ(a), NIL), (ASEQ(n), NIL)]
        p = fld(o.val, OPT, 1, 0); vec, m = fld(p, 'tup', 0, 0), fld(p, 'tup', 0, 1)
        res = [(cat(ASEQ(n), vec), ASEQ(a), 'exposing an archive loses nothing'), (vec, cur(a), 'the active section')]
        if av == 0: res += [(m, none()), (ASEQ(n), NIL)]
        elif av == 1:
            b = force(fld(fld(archopt(a), OPT, 1, 0), HEAD, 0, 1))
            res += [(m, some(fld(fld(b, BODY, 0, 0), 'tup', 0, 0))), (cur(n), fld(fld(b, BODY, 0, 0), 'tup', 0, 1)), (archopt(n), fld(b, BODY, 0, 1))]
        return res
    S.each(r, 'exposes sections last to first', post)
    S.no_panic(r, 'no panic')
@obligation('C01')
def observers(S):
    a = S.symbol('self')
    r = S.run(A('is_empty'), [a])
    def post(o):
        f = o.st.facts
        e = f.decide(o.val)
        ce, av = f.is_empty(cur(a)), f.variant(archopt(a))
        if e is True: return ce is True and av == 0, 'is_empty is true'
        if e is False: return ce is False or av == 1, 'is_empty is false'
        return [(o.val, band(eqi(length(cur(a)), num(0)), bnot(isvar(archopt(a), 1))))]
    S.each(r, 'is_empty iff no element', post)
    r = S.run(A('active_len'), [a]); S.each(r, 'active_len', lambda o: [(o.val, length(cur(a)))])
    r = S.run(A('active_data'), [a]); S.each(r, 'active_data', lambda o: [(o.val, cur(a))])
    r = S.run(A('name'), [a])
    def nm(o):
        v = o.st.facts.variant(archopt(a))
        if v == 0: return [(o.val, none())]
        if v == 1: return [(o.val, fld(fld(archopt(a), OPT, 1, 0), HEAD, 0, 0))]
        return False, 'archive not examined'
    S.each(r, 'name of the last archive', nm)
    r = S.run(A('extend'), [a]); S.each(r, 'extend appends in order', lambda o: [(ASEQ(o.arg(0)), cat(ASEQ(a), r.args[1]))])
    def emp(st): st.facts.assume(eqi(length(cur(a)), num(0)))
    r = S.run(A('extend_rev'), [a], pre=emp); S.each(r, 'extend_rev on an empty section', lambda o: [(ASEQ(o.arg(0)), cat(ASEQ(a), rev(r.args[1])))])

# ------------------------------------------------------------------ C02
def P(n): return 'stack::Stack::' + n
def H(n): return 'stack::Head::' + n

def hd(o): return fld(o, OPT, 1, 0)
def headlist(h): return W('LIST', some(h))
def headnames(h): return W('LISTN', some(h))

def cellname(S, r, label):
    def post(o):
        ev = [e for e in o.st.events if e[0] == 'cell']
        nm = r.args[1] if len(r.args) == 3 else r.args[0]
        v = o.st.facts.variant(nm)
        if v == 0: return (not ev), 'an unnamed push allocates a named cell'
        if v == 1: return [(x[1], fld(nm, OPT, 1, 0), 'cell name') for x in ev] + [(num(len(ev)), num(1), 'named cells allocated')]
        return False, 'the name is ignored'
    S.each(r, label, post)

@obligation('C02')
def list_push(S):
    r = S.run(P('new')); S.each(r, 'new list is empty', lambda o: [(LIST(o.val), NIL)])
    s = S.symbol('self')
    r = S.run(P('push'), [s])
    S.each(r, 'push puts the element in front', lambda o: [(LIST(o.val), cat(unit(r.args[2]), LIST(s))), (LISTN(o.val), cat(unit(r.args[1]), LISTN(s)))])
    cellname(S, r, 'named push allocates one cell of that name')
    S.no_panic(r, 'no panic')
    r = S.run(H('push'), [s])
    S.each(r, 'push puts the element in front', lambda o: [(headlist(o.val), cat(unit(r.args[2]), headlist(s))), (headnames(o.val), cat(unit(r.args[1]), headnames(s)))])
    cellname(S, r, 'named push allocates one cell of that name')
    r = S.run(H('new'))
    S.each(r, 'one element', lambda o: [(headlist(o.val), unit(r.args[1])), (headnames(o.val), unit(r.args[0]))])
    cellname(S, r, 'named head allocates one cell of that name')
@obligation('C02')
def list_observe(S):
    s = S.symbol('self')
    o1 = fld(s, STACK, 0, 0)
    def optlist(st, val, want):
        v = st.facts.variant(o1)
        if v is None: return False, 'list not examined'
        if v == 0: return [(val, none())]
        return [(val, some(want()))]
    def body(h): return force(fld(h, HEAD, 0, 1))
    r = S.run(P('peek'), [s]); S.each(r, 'peek is the first element', lambda o: optlist(o.st, o.val, lambda: fld(body(hd(o1)), BODY, 0, 0))); S.no_panic(r, 'no panic')
    r = S.run(P('pull'), [s]); S.each(r, 'pull drops the first element', lambda o: optlist(o.st, o.val, lambda: adt(STACK, 0, (fld(body(hd(o1)), BODY, 0, 1),)))); S.no_panic(r, 'no panic')
    def nm(o):
        v = o.st.facts.variant(o1)
        return [(o.val, none())] if v == 0 else [(o.val, fld(hd(o1), HEAD, 0, 0))] if v == 1 else (False, 'list not examined')
    r = S.run(P('name'), [s]); S.each(r, 'name of the first element', nm)
    r = S.run(P('is_empty'), [s])
    S.each(r, 'is_empty', lambda o: [(o.val, bnot(isvar(o1, 1)))])
    r = S.run(P('iter'), [s]); S.each(r, 'iterates the whole list', lambda o: [(fld(o.val, 'iodyn::stack::Iter', 0, 0), o1)])
    r = S.run(H('peek'), [s]); S.each(r, 'peek is the first element', lambda o: [(o.val, fld(body(s), BODY, 0, 0))])
    r = S.run(H('pull'), [s]); S.each(r, 'pull drops the first element', lambda o: [(W('LIST', o.val), W('LIST', fld(body(s), BODY, 0, 1)))])
    r = S.run(H('name'), [s]); S.each(r, 'name of the first element', lambda o: [(o.val, fld(s, HEAD, 0, 0))])
    r = S.run(H('iter'), [s]); S.each(r, 'iterates the whole list', lambda o: [(W('LIST', fld(o.val, 'iodyn::stack::Iter', 0, 0)), headlist(s))])
    IT = 'iodyn::stack::Iter'
    r = S.run('<stack::Iter as std::iter::Iterator>::next', [s])
    def nx(o):
        n = fld(s, IT, 0, 0); m = fld(o.arg(0), IT, 0, 0)
        v = o.st.facts.variant(n)
        if v == 0: return [(o.val, none()), (W('LIST', m), NIL)]
        return [(o.val, some(fld(body(hd(n)), BODY, 0, 0))), (m, fld(body(hd(n)), BODY, 0, 1))]
    S.each(r, 'yields elements front to back', nx)
    r = S.run('stack::Iter::name', [s])
    def inm(o):
        n = fld(s, IT, 0, 0); v = o.st.facts.variant(n)
        return [(o.val, none())] if v == 0 else [(o.val, fld(hd(n), HEAD, 0, 0))] if v == 1 else (False, 'iterator not examined')
    S.each(r, 'name before the next element', inm)
