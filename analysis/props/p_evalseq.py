"""C30 the sequences of the evaluation crate."""
from spec import *
from words import *
from razth import *
import theory
from props.p_lists import inv_arch
import props.p_zip as p_zip

AL = 'eval::accum_lists::'
KINDS = ('List', 'RcList', 'VecList', 'RcVecList')
def Q(kind, trait, m): return '<accum_lists::%s as interface::%s>::%s' % (kind, trait, m)
ARCH_T = 'IFaceArchive<(u32, std::option::Option<adapton::engine::Name>)>'
NIL_V, CONS, NAME, ART = 0, 1, 2, 3

@word('EVL')
def _evl(facts, l):
    """elements of an accumulator list, oldest first"""
    k = kind_of(l)
    if k is None: return None
    v = facts.variant(l)
    if v is None: return None
    p = AL + k
    if v == NIL_V: return []
    if v == CONS:
        x = fld(l, p, CONS, 0)
        if k in ('VecList', 'RcVecList'): SEQ_TERMS.add(x); return [S(W('EVL', typed(fld(l, p, CONS, 1), k))), S(x)]
        return [S(W('EVL', typed(fld(l, p, CONS, 1), k))), E(x)]
    if v == NAME: return [S(W('EVL', typed(fld(l, p, NAME, 1), k)))]
    return [S(W('EVL', typed(force(fld(l, p, ART, 0)), k)))]
KIND = {}
def typed(t, k):
    interp.TYPED.setdefault(t, ('adt', AL + k, ())); KIND[t] = k; return t
def kind_of(t):
    if t.op == 'adt': return t.a[0].split('::')[-1] if t.a[0].startswith(AL) else None
    if t in KIND: return KIND[t]
    ty = interp.TYPED.get(t)
    return ty[1].split('::')[-1] if ty and ty[0] == 'adt' and ty[1].startswith(AL) else None
def C(t): return W('EVL', t)
def wf(S, f, l, k):
    """no empty section on top"""
    if k in ('List', 'RcList') or f.variant(l) != CONS: return True
    return f.is_empty(fld(l, AL + k, CONS, 0)) is False
def assume_wf(f, l, k):
    if k in ('List', 'RcList'): return
    x = fld(l, AL + k, CONS, 0); SEQ_TERMS.add(x)
    f.assume(bnot(eqi(length(x), num(0))))
def c_pop(k):
    def c(ex, st, fr, args, site, sub):
        """induction hypothesis: popping the rest removes its last element"""
        l = typed(args[0], k); out = []
        for e in (True, False):
            s = st.copy(); n = typed(fresh('rest'), k)
            try: s.facts.assume(eqi(length(C(l)), num(0)), e)
            except Infeasible: continue
            assume_wf(s.facts, n, k)
            if e:
                s.facts.words.append((C(l), NIL)); s.facts.words.append((C(n), NIL)); out.append((s, tup(none(), n)))
            else:
                v = fresh('elem'); s.facts.words.append((C(l), cat(C(n), unit(v)))); out.append((s, tup(some(v), n)))
        return out
    return c
def lists(S):
    for k in KINDS:
        l = typed(S.symbol('self', ('adt', AL + k, ())), k)
        yield k, l, (lambda st, l=l, k=k: assume_wf(st.facts, l, k))
def popped_ok(o, before, after, rest=None):
    f = o.st.facts; v = f.variant(fld(o.val, 'tup', 0, 0))
    if v is None: return False, 'undetermined result'
    if v == 0: return [(before, NIL, 'nothing only when empty'), (after, NIL, 'stays empty')]
    return [(cat(after, unit(payload(fld(o.val, 'tup', 0, 0)))), before, 'removes exactly the newest element')]
@obligation('C30')
def accumulators(S):
    for k, l, pre in lists(S):
        r = S.run(Q(k, 'IFaceNew', 'new')); S.each(r, 'starts empty', lambda o: [(C(typed(o.val, k)), NIL)])
        r = S.run(Q(k, 'IFaceSeq<T>', 'seq_push'), [l], pre=pre)
        S.each(r, 'pushes one element', lambda o: [(C(typed(o.val, k)), cat(C(l), unit(r.args[1])))])
        S.each(r, 'leaves no empty section', lambda o: wf(S, o.st.facts, o.val, k))
        S.no_panic(r, 'no panic')
        pop = Q(k, 'IFaceSeq<T>', 'seq_pop')
        r = S.run(pop, [l], pre=pre, contracts={pop: c_pop(k)})
        S.each(r, 'last in, first out, through names and articulations', lambda o: popped_ok(o, C(l), C(typed(fld(o.val, 'tup', 0, 1), k))))
        def keeps(o):
            n = fld(o.val, 'tup', 0, 1)
            return True if n.op != 'adt' else wf(S, o.st.facts, n, k)
        S.each(r, 'leaves no empty section', keeps)
        S.no_panic(r, 'no panic')
        r = S.run(Q(k, ARCH_T, 'archive'), [l], pre=pre); nm = fld(r.args[1], 'tup', 0, 1)
        S.each(r, 'archiving keeps the elements', lambda o: [(C(typed(o.val, k)), C(l))])
        def names(o):
            f = o.st.facts; cs = [e for e in o.st.events if e[0] == 'cell']; v = f.variant(nm)
            if v == 0: return not cs, 'a cell without a name was asked for'
            if v is None: return False, 'the name is not examined'
            if len(cs) != 1: return False, '%d cells' % len(cs)
            return [(some(cs[0][1]) if cs[0][1].op != 'adt' or cs[0][1].a[0] != OPT else cs[0][1], nm, 'one cell of the given name')]
        S.each(r, 'a named archive is one cell of that name', names)
        S.no_panic(r, 'no panic')
@obligation('C30')
def vectors(S):
    v = S.symbol('self', ('adt', 'alloc::vec::Vec', ())); SEQ_TERMS.add(v)
    r = S.run('<std::vec::Vec as interface::IFaceNew>::new'); S.each(r, 'starts empty', lambda o: [(o.val, NIL)])
    r = S.run('<std::vec::Vec as interface::IFaceSeq<T>>::seq_push', [v]); S.each(r, 'pushes one element', lambda o: [(o.val, cat(v, unit(r.args[1])))])
    r = S.run('<std::vec::Vec as interface::IFaceSeq<T>>::seq_pop', [v]); S.each(r, 'last in, first out', lambda o: popped_ok(o, v, fld(o.val, 'tup', 0, 1))); S.no_panic(r, 'no panic')
    r = S.run('<std::vec::Vec as interface::IFaceArchive<M>>::archive', [v]); S.each(r, 'archiving keeps the elements', lambda o: [(o.val, v)])
@obligation('C30')
def stacks(S):
    a = S.symbol('self'); P = '<iodyn::archive_stack::AStack as interface::'
    r = S.run(P + 'IFaceNew>::new'); S.each(r, 'starts empty', lambda o: [(ASEQ(o.val), NIL)])
    r = S.run(P + 'IFaceSeq<T>>::seq_push', [a], pre=inv_arch(a)); S.each(r, 'pushes one element', lambda o: [(ASEQ(o.val), cat(ASEQ(a), unit(r.args[1])))])
    r = S.run(P + 'IFaceSeq<T>>::seq_pop', [a], pre=inv_arch(a)); S.each(r, 'last in, first out', lambda o: popped_ok(o, ASEQ(a), ASEQ(fld(o.val, 'tup', 0, 1)))); S.no_panic(r, 'no panic')
    for t, meta in ((ARCH_T, True), ('IFaceArchive<(M, std::option::Option<adapton::engine::Name>)>', False)):
        r = S.run(P + t + '>::archive', [a], pre=inv_arch(a)); m, nm = (fld(r.args[1], 'tup', 0, i) for i in (0, 1))
        S.each(r, 'archiving keeps the elements', lambda o: [(ASEQ(o.val), ASEQ(a))])
        def post(o):
            e = o.st.facts.is_empty(cur(a))
            if e is None: return False, 'the section is not examined'
            if e: return [(arch(o.val), arch(a), 'nothing to archive')]
            h = fld(archopt(o.val), OPT, 1, 0); b = force(fld(h, HEAD, 0, 1))
            return [(fld(h, HEAD, 0, 0), nm, 'the given name')] + ([(fld(fld(b, BODY, 0, 0), 'tup', 0, 0), m, 'the given level')] if meta else [])
        S.each(r, 'a non-empty section is archived under the given name', post)
        S.no_panic(r, 'no panic')
def popper(near):
    def c(ex, st, fr, args, site, sub):
        """C11: removes exactly the element next to the cursor on one side"""
        if args[0].op != 'mref': return None
        z = ex.load(st, args[0]); out = []
        ws = (p_zip.left(z), p_zip.right(z))
        for e in (True, False):
            s = st.copy()
            try: s.facts.assume(eqi(length(ws[near]), num(0)), e)
            except Infeasible: continue
            if e: s.facts.words.append((ws[near], NIL)); out.append((s, none())); continue
            n, x = fresh('raz'), unit(fresh('elem')); interp.TYPED.setdefault(n, ('adt', RAZ, ()))
            a, b = (p_zip.left(n), p_zip.right(n))
            s.facts.words += [(ws[0], cat(a, x)), (b, ws[1])] if near == 0 else [(ws[1], cat(x, b)), (a, ws[0])]
            ex.store(s, args[0], n); out.append((s, some(x.a[0][1])))
        return out
    return c
c_pop_left, c_pop_right = popper(0), popper(1)
@obligation('C30')
def razzes(S):
    p_zip.setup(S); z, pre = p_zip.raz(S); P = '<iodyn::raz::Raz as interface::'
    r = S.run(P + 'IFaceNew>::new'); S.each(r, 'starts empty', lambda o: [(p_zip.left(o.val), NIL), (p_zip.right(o.val), NIL)])
    r = S.run(P + 'IFaceSeq<T>>::seq_push', [z], pre=pre); S.each(r, 'pushes one element left of the cursor', lambda o: [(p_zip.left(o.val), cat(p_zip.left(z), unit(r.args[1]))), (p_zip.right(o.val), p_zip.right(z))])
    r = S.run(P + 'IFaceSeq<T>>::seq_pop', [z], pre=pre, contracts={'raz::Raz::pop_left': c_pop_left, 'raz::Raz::pop_right': c_pop_right})
    def post(o):
        n = fld(o.val, 'tup', 0, 1); x = popped_ok(o, p_zip.left(z), p_zip.left(n))
        return x + [(p_zip.right(n), p_zip.right(z), 'the other side')] if isinstance(x, list) else x
    S.each(r, 'last in, first out', post); S.no_panic(r, 'no panic')
    r = S.run(P + ARCH_T + '>::archive', [z], pre=pre); lev, nm = (fld(r.args[1], 'tup', 0, i) for i in (0, 1))
    S.each(r, 'archiving keeps the elements', lambda o: [(p_zip.left(o.val), p_zip.left(z)), (p_zip.right(o.val), p_zip.right(z))])
    def ap(o):
        a, b = p_zip.ls(z), p_zip.ls(o.val); e = o.st.facts.is_empty(cur(a))
        if e is None: return False, 'the section is not examined'
        return [(p_zip.MSEQ(b), p_zip.MSEQ(a) if e else cat(p_zip.MSEQ(a), unit(p_zip.mark(lev, p_zip.pnm(nm)))), 'archive points')]
    S.each(r, 'adds an archive point of that level and name after a non-empty section', ap)
    S.no_panic(r, 'no panic')
