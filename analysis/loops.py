"""Loops: a post-fixpoint over generalised states at the loop head.

States that reach the head with the same shape (known variants and constants) are
generalised by anti-unification; the relations kept are the candidate facts and
the measure equations (templates) that hold in every state joined so far."""
import itertools
import dom
from dom import *
import theory

class Gen(object):
    def __init__(self, st, live, M):
        self.mem = dict((c, st.mem[c]) for c in live if c in st.mem)
        self.rest = st
        self.facts = st.facts.copy()
        self.gamma = set()
        self.M0 = dict(M)      # measure key -> value at the first state joined
        self.keep = OSet(M)
        self.events = st.events; self.taint = st.taint; self.trace = st.trace
        self.rounds = 0
        self.synth = {}; self.joined = False
        self.first_mem = dict(self.mem)
        self.token = 'generalised loop state'

def lgg(a, b, memo, gamma):
    if a is b: return a
    k = (a, b)
    if k in memo: return memo[k]
    if a.op == 'adt' and b.op == 'adt' and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
        return adt(a.a[0], a.a[1], [lgg(x, y, memo, gamma) for x, y in zip(a.a[2], b.a[2])])
    if a.op == 'clo' and b.op == 'clo' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
        return mk('clo', a.a[0], tuple(lgg(x, y, memo, gamma) for x, y in zip(a.a[1], b.a[1])), a.a[2])
    g = fresh('g')
    memo[k] = g; gamma[g] = k
    if a.op == 'seq' or b.op == 'seq' or a in SEQ_TERMS or b in SEQ_TERMS: SEQ_TERMS.add(g)
    import interp
    for x in (a, b):
        if x in interp.TYPED: interp.TYPED[g] = interp.TYPED[x]
    for x in (a, b):
        if x.op == 'bool' or x in interp.BOOL_TERMS: interp.BOOL_TERMS.add(g)
        if x.op == 'adt':
            interp.TYPED.setdefault(g, ('adt', x.a[0], ()))
    return g

def match(pat, t, gamma, sig):
    if pat in gamma:
        o = sig.get(pat)
        if o is None: sig[pat] = t; return True
        return o is t
    if pat is t: return True
    if pat.op == 'adt':
        if t.op == 'adt':
            return pat.a[0] == t.a[0] and pat.a[1] == t.a[1] and len(pat.a[2]) == len(t.a[2]) and all(match(x, y, gamma, sig) for x, y in zip(pat.a[2], t.a[2]))
        if pat.a[1] == 0 and pat.a[0] in theory.SINGLE:
            return all(match(x, fld(t, pat.a[0], 0, i), gamma, sig) for i, x in enumerate(pat.a[2]))
        return False
    if pat.op == 'clo' and t.op == 'clo':
        return pat.a[0] == t.a[0] and all(match(x, y, gamma, sig) for x, y in zip(pat.a[1], t.a[1]))
    return False

def app_sig(sig, t): return subst(t, lambda x: sig.get(x)) if sig else t

def candidate_facts(ex, live_terms, old, new):
    """template facts over the changed symbols, checked by the caller in each state"""
    out = []
    ints, seqs = [], []
    for ty, t in live_terms:
        if ty and ty[0] == 'prim' and ty[1] in ('u32', 'usize', 'u64', 'i32', 'u8', 'u16'): ints.append(t)
        elif t in SEQ_TERMS: seqs.append(t)
    ints = list(dict.fromkeys(ints))[:8]
    for a in ints:
        for k in (1,): out.append(ge(a, num(k)))
        for b in ints:
            if a is not b:
                out.append(ge(a, b)); out.append(bnot(ge(a, b)))
    for s in dict.fromkeys(seqs):
        out.append(bnot(eqi(length(s), num(0)))); out.append(eqi(length(s), num(0)))
    return out

def feasible(s):
    try:
        for h in theory.SATURATE: h(s.facts)
    except Infeasible: return False
    return True

def run_loop(ex, fr, st0, h):
    fn = fr.fn
    loop = (h, fn.loops[h])
    outs = []
    np0 = len(ex.panics)
    sts = st0 if isinstance(st0, list) else [st0]
    if ex.opts.get('mode') == 'refute':
        # a bounded number of exact iterations, nothing generalised
        pend = list(sts)
        for _ in range(ex.opts.get('peel', 3) + 1):
            nxt = []
            for s in pend:
                r = ex.region(fr, s, h, loop)
                outs += [o for o in r if o[0] != 'back']
                nxt += [o[1] for o in r if o[0] == 'back' and feasible(o[1])]
            pend = nxt[:40]
            if len(nxt) > 40: ex.cut = True; 'iterations cut' in ex.incomplete or ex.incomplete.append('iterations cut')
        if pend: ex.cut = True; 'iterations cut' in ex.incomplete or ex.incomplete.append('iterations cut')
        return outs
    pend = [s.copy() for s in sts if feasible(s)] if len(sts) > 1 else [sts[0].copy()]
    if not pend: return []
    own = set(fr.cells.values())
    local_of = {c: l for l, c in fr.cells.items()}
    # kept: live locals, those a live value refers to, those the loop itself borrows mutably
    keepl = set(fn.live[h]) | mut_borrowed(fn, fn.loops[h])
    for s in sts:
        todo = [c for c in s.mem if c not in own or local_of[c] in keepl]; seen = set(todo)
        while todo:
            for c in ex._refs(s.mem[todo.pop()]):
                if c in s.mem and c not in seen: seen.add(c); todo.append(c)
        keepl |= set(local_of[c] for c in seen if c in local_of)
    livel = [l for l in fr.cells if l in keepl]
    keepown = set(fr.cells[l] for l in livel)
    def live_cells(s): return [c for c in s.mem if c not in own or c in keepown]
    def typed(s):
        out = []
        for c in live_cells(s):
            ty = None
            if c in local_of: ty = ex.ty(fr, fn.locals[local_of[c]])
            out.append((c, ty, s.mem[c]))
        return out
    def measures(s, synth):
        M = {}
        live = typed_walk(ex, s, typed(s), fr)
        if ex.templates:
            for k, t in ex.templates(ex, s, live): M[k] = t
        for k, f in synth.items():
            t = f(s)
            if t is not None: M[k] = t
        return M
    try: more, pans = fixpoint(ex, fr, h, loop, pend, live_cells, typed, measures)
    except __import__('interp').Undecided as e:
        ex.incomplete.append(str(e)); more, pans = [], []
    del ex.panics[np0:]
    ex.panics += pans
    return more

def fixpoint(ex, fr, h, loop, pend, live_cells, typed, measures):
    fn = fr.fn
    outs = []; pans = []
    table = {}; results = {}; queue = []
    guard = 0; limit = 120 + len(pend)
    coarse = [0]
    entry = pend[:] if len(pend) == 1 else None
    token = 'generalised loop state (%s, block %d)' % (fn.key, h)
    if entry: entry_taint, entry_events = entry[0].taint, entry[0].events
    def shape(s):
        out = []
        if ex.opts.get('shapes') == 'one': return ()
        for key, ty, t in typed_walk(ex, s, typed(s), fr):
            if ty and ty[0] == 'adt':
                n = ex.prog.nvariants(ty[1])
                if n and n > 1:
                    v = s.facts.variant(t)
                    if v is not None: out.append((key, v))
            elif t.op == 'bool': out.append((key, t.a[0]))
            elif coarse[0] == 0 and t in SEQ_TERMS or t.op == 'seq':
                e = s.facts.is_empty(t)
                if e is True: out.append((key, 'empty'))
        return tuple(sorted(map(str, out)))
    def forget(s):
        """predicates about values no longer in memory (dropping them only weakens the state)"""
        seen, syms = set(), set()
        def f(x):
            if x.op == 'sym': syms.add(x)
            return False
        for c in live_cells(s): contains(s.mem[c], f, seen)
        ok = lambda p: not any(isinstance(x, Term) and contains(x, lambda y: y.op == 'sym' and y not in syms) for x in p[1:])
        s.facts.preds = OSet(p for p in s.facts.preds if ok(p))
        return s
    gc = ex.opts.get('merge')
    while pend or queue:
        guard += 1
        if guard > limit: raise __import__('interp').Undecided('loop does not stabilise in ' + fn.key)
        if pend:
            s = pend.pop()
            if gc:
                if not feasible(s): continue      # (also derives what the predicates about to be dropped imply)
                forget(s)
            k = shape(s)
            if k not in table:
                if len(table) > 10 and coarse[0] == 0: coarse[0] = 1
                if len(table) > 24: raise __import__('interp').Undecided('too many loop shapes in ' + fn.key)
                M = {}
                for mk_, mt in measures(s, {}).items():
                    # the words the caller is interested in, when the measure equals one of them here
                    tg = [i for i, w in enumerate(ex.opts.get('targets', ())) if theory.equal(s.facts, mt, w)]
                    for i in tg: M[('tg', i, mk_)] = ex.opts['targets'][i]
                    if not tg and mk_[0] not in ex.opts.get('target_only', ()): M[mk_] = theory.canon(s.facts, mt)
                if gc and ex.opts.get('loop_preds'):
                    lt = [(ty, t) for _, ty, t in typed_walk(ex, s, typed(s), fr)]
                    for p in ex.opts['loop_preds'](ex, lt):
                        if p[0] in ex.opts.get('seed', ()) and p not in s.facts.preds and ex.opts['pred_holds'](ex, s.facts, p): s.facts.preds.add(p)
                g = Gen(s, live_cells(s), M); g.token = token
                table[k] = g; queue.append(k)
            else:
                if join(ex, fr, table[k], s, live_cells(s), measures, typed, fn):
                    if k not in queue: queue.append(k)
            continue
        k = queue.pop()
        g = table[k]; g.rounds += 1
        if g.rounds > 14: raise __import__('interp').Undecided('loop invariant does not stabilise in ' + fn.key)
        s = state_of(ex, g, measures)
        n1 = len(ex.panics)
        r = ex.region(fr, s.copy(), h, loop)
        pan = ex.panics[n1:]; del ex.panics[n1:]
        results[k] = ([o for o in r if o[0] != 'back'], pan)
        backs = [o[1] for o in r if o[0] == 'back' and feasible(o[1])]
        if g.gamma and synthesise(ex, fr, g, s, backs, typed):
            # the states of this round do not know the new equation yet: they are computed again
            if k not in queue: queue.append(k)
            continue
        pend += backs
    exact = entry and token not in entry_taint and closed_form(ex, fr, table, results, entry_events)
    for k in table:
        o, p = results[k]
        if exact and table[k].gamma: o = [exact(table[k], x, token) for x in o]
        outs += o; pans += p
    return outs, pans

def closed_form(ex, fr, table, results, events):
    """a loop that does nothing but consume a sequence one item after the other, and whose every changing value has
    an equation valid before each iteration, leaves the values of the equations for the empty rest: the state after
    it is then no approximation"""
    gam = set().union(*[g.gamma for g in table.values()]) if table else set()
    if not gam or any(p for _, p in results.values()): return None
    if any(g.events != events for g in table.values()): return None
    ics = None
    for g in table.values():
        if g.gamma:
            n = {k[3] for k in g.synth if k in g.keep}
            ics = n if ics is None else ics & n
    for ic in ics or ():
        def done(o):
            w = o[1].mem.get(ic)
            return o[0] == 'exit' and o[1].events == events and w is not None and w.op == 'adt' and w.a[0] == 'it:seq' and o[1].facts.is_empty(w.a[2][0]) is True
        if not all(done(o) for os, _ in results.values() for o in os): continue
        sol = {}
        for k, g in table.items():
            if not g.gamma: continue
            W = g.mem[ic].a[2][0]
            if W not in g.gamma: break
            m = {W: NIL}
            for key, f in g.synth.items():
                if key not in g.keep or key[3] != ic: continue
                v = g.mem.get(key[1])
                for p in key[2]: v = None if v is None else fld(v, p[0], p[1], p[2])
                if v is None or v not in g.gamma or contains(g.M0[key], lambda y: y in gam): continue
                e = g.rest.copy(); e.mem = dict(g.mem); e.mem[ic] = adt('it:seq', 0, (NIL,) + tuple(g.mem[ic].a[2][1:]))
                if f(e) is v: m[v] = g.M0[key]
            sol[k] = m
        else:
            byg = {id(table[k]): m for k, m in sol.items()}
            def exact(g, o, token):
                st, b = o[1], o[2]; m = byg[id(g)]; memo = {}
                s2 = st.copy()
                s2.mem = {c: subst(t, lambda y: m.get(y), memo) for c, t in st.mem.items()}
                fn = fr.fn; own = {c: l for l, c in fr.cells.items()}
                todo = [c for c in s2.mem if c not in own or own[c] in fn.live[b]]; seen = set(todo)
                while todo:
                    for c in ex._refs(s2.mem[todo.pop()]):
                        if c in s2.mem and c not in seen: seen.add(c); todo.append(c)
                if any(contains(s2.mem[c], lambda y: y in gam) for c in seen): return o
                for it in list(facts_items(s2.facts)):
                    it2 = item_map(it, lambda x: subst(x, lambda y: m.get(y), memo))
                    if it2 != it: item_add(s2.facts, it2)
                s2.taint = tuple(t for t in s2.taint if t != token)
                if any(folds_in(v) for v in m.values()): s2.mark(FOLDED)
                return (o[0], s2, b)
            return exact
    return None

FOLDED = 'loop kept as a fold'      # two folds with different steps may agree: no alarm from such a difference
def folds_in(*ts):
    out = set(); seen = set(); todo = [t for t in ts if isinstance(t, Term)]
    while todo:
        t = todo.pop()
        if t in seen: continue
        seen.add(t)
        if t.op == 'app' and t.a[0] == 'foldl': out.add(t.a[1][0])
        todo += children(t)
    return out

def mut_borrowed(fn, body):
    k = frozenset(body)
    if not hasattr(fn, '_mutb'): fn._mutb = {}
    r = fn._mutb.get(k)
    if r is None:
        r = set()
        for i in body:
            for s in fn.blocks[i]['s']:
                if s[0] == 'assign' and s[2][0] in ('ref', 'addrof', 'rawptr') and s[2][1] == 'mut' and not any(e[0] == 'deref' for e in s[2][2][1:]):
                    r.add(s[2][2][0])
        fn._mutb[k] = r
    return r

def typed_walk(ex, s, cells, fr, depth=3):
    """(key, type, term) of every live value and of the fields of local structs"""
    out = []
    def go(key, ty, t, d):
        while ty and ty[0] == 'ref':
            ty = ty[2]
        if t.op == 'mref':
            return
        if ty and ex.opts.get('project'): ty = ex.opts['project'](ty) or ty
        out.append((key, ty, t))
        if d <= 0 or not ty: return
        if ty[0] == 'adt':
            p = ex.prog.adts.get(ty[1])
            n = ex.prog.nvariants(ty[1])
            if n == 1 and p:
                theory.SINGLE.add(ty[1])
                for i in range(len(p['variants'][0]['fields'])):
                    go(key + (i,), ex.prog.field_type(ty, 0, i), fld(t, ty[1], 0, i), d - 1)
            elif n and n > 1:
                v = s.facts.variant(t)
                if v is not None and ex.prog.nfields(ty[1], v):
                    for i in range(ex.prog.nfields(ty[1], v)):
                        go(key + (v, i), ex.prog.field_type(ty, v, i), fld(t, ty[1], v, i), d - 1)
        elif ty[0] == 'tuple' and t.op == 'adt' and t.a[0] == 'tup':
            for i, x in enumerate(t.a[2]): go(key + (i,), ex.prog.field_type(ty, 0, i), x, d - 1)
    for c, ty, t in cells:
        if ty is None:
            ty = guess_type(ex, s, c, t)
        go((c,), ty, t, depth)
    return out
def guess_type(ex, s, c, t):
    ct = getattr(ex, 'cell_types', {})
    return ct.get(c)

def state_of(ex, g, measures):
    s = g.rest.copy()
    s.mem = dict(g.mem); s.facts = g.facts.copy(); s.events = g.events; s.taint = g.taint
    if g.joined: s.mark(g.token)
    if g.gamma:
        M = measures(s, g.synth)
        for k in list(g.keep):
            m = value_of(M, k)
            if m is not None and m is not g.M0[k]:
                s.facts.words.append((m, g.M0[k]))
                if m.op == 'seq' and ('synth' in k[:1] or g.M0[k].op == 'seq' or g.M0[k] in SEQ_TERMS):
                    try: s.facts.assume(eqi(length(m), length(g.M0[k])))
                    except Infeasible: pass
    return s

def value_of(M, k): return M.get(k[2] if k[0] == 'tg' else k)
def one_step(f, m, m0):
    """is m a fold that is known to be m0, after its first step?"""
    if not (m.op == 'app' and m.a[0] == 'foldl'): return False
    for l, r in list(f.words) + [(m0, m0)]:
        if r is m0 and l.op == 'app' and l.a[0] == 'foldl':
            lam, acc, w = l.a[1]
            if f.is_empty(w) is False and foldl(lam, call(lam, acc, s_first(w)), s_tail(w)) is m: return True
    return False
def check_measures(ex, g, s, measures):
    changed = False
    M = measures(s, g.synth)
    for k in list(g.keep):
        m = value_of(M, k)
        if m is None or not (theory.equal(s.facts, m, g.M0[k]) or one_step(s.facts, m, g.M0[k])):
            g.keep.discard(k); changed = True
    return changed

def facts_items(f):
    for t, v in f.var.items(): yield ('var', t, v)
    for t, vs in f.notvar.items():
        for v in vs: yield ('not', t, v)
    for t, b in f.bools.items(): yield ('bool', t, b)
    for l in f.lins: yield ('lin', l, None)
    for p in f.preds: yield ('pred', p, None)
    for w in f.words: yield ('word', w, None)
def item_holds(f, it):
    k, t, v = it
    if k == 'var': return f.variant(t) == v
    if k == 'not': return v in f.notvar.get(t, ()) or (f.variant(t) not in (None, v))
    if k == 'bool': return f.decide(t) == v
    if k == 'lin': return f.entails_ge0(t) if t.op != 'bool' else t.a[0]
    if k == 'pred': return t in f.preds or any(h(f, t) for h in theory.PRED_PROVE)
    if k == 'word': return t in f.words or theory.equal(f, t[0], t[1]) is True
def item_add(f, it):
    k, t, v = it
    try:
        if k == 'var':
            if t.op != 'adt': f.var[t] = v
        elif k == 'not':
            if t.op != 'adt': f.notvar[t] = frozenset(f.notvar.get(t, frozenset()) | {v})
        elif k == 'bool': f.bools[t] = v
        elif k == 'lin': f.add_ge0(t)
        elif k == 'pred': f.preds.add(t)
        elif k == 'word':
            if t not in f.words: f.words.append(t)
    except Infeasible: pass
def item_map(it, fn):
    k, t, v = it
    if k == 'pred': return (k, (t[0],) + tuple(fn(x) for x in t[1:]), v)
    if k == 'word': return (k, (fn(t[0]), fn(t[1])), v)
    return (k, fn(t), v)
def item_terms(it):
    k, t, v = it
    if k == 'pred': return [x for x in t[1:] if isinstance(x, Term)]
    if k == 'word': return list(t)
    return [t]

def join(ex, fr, g, s, live, measures, typed, fn):
    """merge s into g; True when g became more general"""
    g.joined = True
    changed = False
    cells = [c for c in g.mem]
    if any(c not in s.mem for c in cells):
        for c in cells:
            if c not in s.mem: del g.mem[c]; changed = True
        cells = [c for c in g.mem]
    for t in s.taint:
        if t not in g.taint: g.taint += (t,)
    if len(s.events) > len(g.events) or s.events != g.events:
        if g.events[-1:] != (('loop-events',),):
            # events of a loop are kept as the set of those that may occur
            g.events = merge_events(g.events, s.events)
    sig = {}
    if all(match(g.mem[c], s.mem[c], g.gamma, sig) for c in cells):
        if g.gamma:
            # subsumed by the terms: the relations must hold as well
            drop = []
            for it in list(facts_items(g.facts)):
                it2 = item_map(it, lambda t: app_sig(sig, t))
                if not item_holds(s.facts, it2): drop.append(it)
            if drop:
                changed = True
                f = Facts()
                for it in facts_items(g.facts):
                    if it not in drop: item_add(f, it)
                g.facts = f
        else:
            drop = [it for it in facts_items(g.facts) if not item_holds(s.facts, it)]
            if drop:
                f = Facts()
                for it in facts_items(g.facts):
                    if it not in drop: item_add(f, it)
                g.facts = f; changed = True
        if check_measures(ex, g, s, measures): changed = True
        return changed
    memo, gam = {}, {}
    newmem = {c: lgg(g.mem[c], s.mem[c], memo, gam) for c in cells}
    so = {x: k[0] for x, k in gam.items()}; sn = {x: k[1] for x, k in gam.items()}
    old = g.facts
    newf = Facts()
    inv = {}
    for x, v in so.items():
        if v.op not in ('int', 'bool'): inv.setdefault(v, x)
    single_inv = [(v, x) for x, v in so.items() if v.op not in ('int', 'bool')]
    for it in facts_items(old):
        cands = [it]
        if any(contains(t, lambda y: y in inv) for t in item_terms(it)):
            cands.append(item_map(it, lambda t: subst(t, lambda y: inv.get(y))))
            for v, x in single_inv:
                cands.append(item_map(it, lambda t: subst(t, lambda y: x if y is v else None)))
        for c in cands:
            it2 = item_map(c, lambda t: app_sig(sn, t))
            if item_holds(s.facts, it2): item_add(newf, c)
    # template facts over the generalised values
    tmp = g.rest.copy(); tmp.mem = newmem; tmp.facts = newf
    lt = [(ty, t) for _, ty, t in typed_walk(ex, tmp, [(c, ty, newmem[c]) for c, ty, _ in typed(tmp) if c in newmem], fr)]
    more = ex.opts['candidates'](ex, tmp, typed_walk(ex, tmp, [(c, ty, newmem[c]) for c, ty, _ in typed(tmp) if c in newmem], fr)) if ex.opts.get('candidates') else []
    for c in candidate_facts(ex, lt, old, s.facts) + more:
        if c.op == 'bool': continue
        a = old.decide(app_sig(so, c)); b = s.facts.decide(app_sig(sn, c))
        if a is True and b is True:
            try: newf.assume(c)
            except Infeasible: pass
    for ty, t in lt:
        if t in gam or contains(t, lambda y: y in gam):
            a, b = old.variant(app_sig(so, t)), s.facts.variant(app_sig(sn, t))
            if a is not None and a == b and t.op != 'adt': newf.var[t] = a
    if ex.opts.get('loop_preds'):
        for p in ex.opts['loop_preds'](ex, lt):
            if all(pf.preds.__contains__((p[0],) + tuple(app_sig(sg, x) if isinstance(x, Term) else x for x in p[1:])) or ex.opts['pred_holds'](ex, pf, (p[0],) + tuple(app_sig(sg, x) if isinstance(x, Term) else x for x in p[1:])) for pf, sg in ((old, so), (s.facts, sn))):
                newf.preds.add(p)
    g.mem = newmem; g.facts = newf
    g.gamma = set(gam) | set(x for x in g.gamma if any(contains(t, lambda y: y is x) for t in newmem.values()))
    g.synth = {}
    check_measures(ex, g, s, measures)
    return True

def merge_events(a, b):
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]: n += 1
    extra = [e for e in a[n:] if not (e and e[0] == 'loop-events')] + list(b[n:])
    flat = []
    for e in a[n:]:
        if e and e[0] == 'loop': flat += list(e[1])
    return a[:n] + (('loop', tuple(flat)),)

def synthesise(ex, fr, g, s, backs, typed):
    """fold / append templates read off one generic iteration"""
    new = False
    if not backs or g.rounds > 6: return
    iters = []
    for c, t in g.mem.items():
        if t.op == 'adt' and t.a[0] == 'it:seq' and t.a[2][0] in g.gamma: iters.append((c, t.a[2][0]))
    if not iters: return False
    for ic, W in iters:
        # every back state consumed exactly the first item of W
        if not all(b.mem.get(ic) is not None and b.mem[ic].op == 'adt' and b.mem[ic].a[0] == 'it:seq' and b.mem[ic].a[2][0] is s_tail(W) for b in backs): continue
        x0 = s_first(W)
        for c, t in g.mem.items():
            if c == ic: continue
            for path, A in gamma_parts(t, g.gamma):
                news = []
                for b in backs:
                    v = b.mem.get(c)
                    for p in path:
                        if v is None: break
                        v = fld(v, p[0], p[1], p[2])
                    news.append(v)
                if any(v is None for v in news): continue
                term = news[0]
                if any(v is not term for v in news):
                    if len(news) != 2: continue
                    from models import separating
                    cnd = separating(s, backs[0], backs[1])
                    if cnd is None: continue
                    term = ite(cnd, news[0], news[1])
                if term is A: continue
                key = ('synth', c, path, ic)
                if key in g.synth: continue
                others = lambda y: y in g.gamma and y is not A and y is not W
                a, x = fresh('a'), fresh('x')
                f = None
                if A in SEQ_TERMS:
                    ps = pieces(term)
                    if ps and ps[0] == ('s', A) and len(ps) == 2 and ps[1][0] == 'e':
                        body = subst(ps[1][1], lambda y: x if y is x0 else None)
                        if not contains(body, lambda y: y in g.gamma):
                            lam = abstract((x,), body)
                            f = mkm(c, path, ic, lambda av, w, lam=lam: cat(av, s_map(lam, w)))
                    elif ps and ps[-1] == ('s', A) and len(ps) == 2 and ps[0][0] == 'e':
                        body = subst(ps[0][1], lambda y: x if y is x0 else None)
                        if not contains(body, lambda y: y in g.gamma):
                            lam = abstract((x,), body)
                            f = mkm(c, path, ic, lambda av, w, lam=lam: cat(rev(s_map(lam, w)), av))
                if f is None and term.op == 'app' and term.a[0] == 'hmap':
                    import models
                    ps = term.a[1]
                    ins = [p for p in ps if p.a[0] == 'ins']; bs = [p for p in ps if p.a[0] == 'base' and p.a[1][0] is A]
                    if len(ps) == 2 and len(ins) == 1 and len(bs) == 1:
                        body = subst(tup(*ins[0].a[1]), lambda y: x if y is x0 else None)
                        if not contains(body, lambda y: y in g.gamma):
                            lam = abstract((x,), body)
                            f = mkm(c, path, ic, lambda av, w, lam=lam: models.hm_all(av, s_map(lam, w)))
                            if body.a[2][1] is UNIT: models.SETBASE.add(mk('app', 'base', (A,)))
                if f is None:
                    body = subst(term, lambda y: x if y is x0 else a if y is A else None)
                    if contains(body, lambda y: y in g.gamma): continue
                    lam = abstract((a, x), body)
                    f = mkm(c, path, ic, lambda av, w, lam=lam: foldl(lam, av, w))
                # value at the first state joined
                fs = g.rest.copy(); fs.mem = g.first_mem
                m0 = f(fs)
                if m0 is None: continue
                g.synth[key] = f; g.M0[key] = theory.canon(fs.facts, m0); g.keep.add(key)
                new = True
    return new

def mkm(c, path, ic, h):
    def f(s):
        v = s.mem.get(c); w = s.mem.get(ic)
        if v is None or w is None or w.op != 'adt' or w.a[0] != 'it:seq': return None
        for p in path: v = fld(v, p[0], p[1], p[2])
        return h(v, w.a[2][0])
    return f

def gamma_parts(t, gamma, path=()):
    if t in gamma: yield path, t; return
    if t.op == 'adt' and not t.a[0].startswith('it:'):
        for i, x in enumerate(t.a[2]):
            for r in gamma_parts(x, gamma, path + ((t.a[0], t.a[1], i),)): yield r
