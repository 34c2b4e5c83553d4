"""Obligations over the abstract semantics of the functions of /repo.

An obligation fixes a public entry point, a symbolic entry state (one abstract
state for all inputs satisfying the precondition) and a postcondition on every
outcome the analysis computes.  Three answers:

  holds      the two sides have the same canonical form on every trace partition
  violated   some trace partition whose states are exact (no unmodelled library call,
             no generalised loop state) contradicts the postcondition
  undecided  the analysis lost precision: neither shown nor refuted (never an alarm)
"""
import sys, os, json, time, traceback
sys.setrecursionlimit(20000)
from dom import *
import dom, interp, models, theory, mir, spec_reset, loops
from interp import Exec, St, Frame, mref, new_cell, Undecided

class Missing(Exception): pass

class Out(object):
    __slots__ = ('run', 'st', 'val')
    def __init__(self, run, st, val): self.run, self.st, self.val = run, st, val
    def arg(self, i):
        """value behind the i-th argument (a &mut) after the call"""
        a = self.run.args[i]
        return self.run.ex.load(self.st, a) if a.op == 'mref' else a
    def value(self):
        v = self.val
        return self.run.ex.load(self.st, v) if v.op == 'mref' else v
    def deep(self, v=None):
        """the returned value with every &mut inside read out"""
        v = self.val if v is None else v
        return subst(v, lambda x: self.run.ex.load(self.st, x) if x.op == 'mref' else None)

SELFTEST = os.environ.get('VERIF_SELFTEST')   # development: the bounded executions must not contradict what holds
PATIENCE = 6
DEEP = tuple(map(int, os.environ.get('VERIF_DEEP', '6').split()))   # further exact iterations, where the shallow ones were affordable
class Run(object):
    def __init__(self, ex, fn, args, outs, panics, incomplete):
        self.ex, self.fn, self.args = ex, fn, args
        self.outs, self.panics, self.incomplete = outs, panics, incomplete
        self.again = None; self._ref = {}; self.mapouts = None; self.spent = 0
    def refuters(self):
        """the same entry state with a bounded number of exact loop iterations, few first"""
        if not self.again: return
        for how in [(p, None) for p in (0, 1, 2, 3)] + [(2, s) for s in self.ex.opts.get('slices', ())] + [(p, None) for p in DEEP]:
            if how[0] in DEEP and how[1] is None and (self.spent > PATIENCE or any(q and 'budget' in ' '.join(q.incomplete) for q in self._ref.values())): return
            t0 = time.time()
            if how not in self._ref:
                try: self._ref[how] = self.again(*how)
                except Infeasible: self._ref[how] = None
            self.spent += time.time() - t0
            q = self._ref[how]
            if not q: continue
            yield q
            if how[1] is None and not q.ex.cut and not q.incomplete: return

    def apply(self, o, f, args, pre=None):
        """outcomes of calling the function value f in the final state of outcome o"""
        st = o.st.copy()
        if pre: pre(st)
        fr = Frame(self.fn, {}, 0)
        return [Out(self, s, v) for s, v in self.ex.call_value(st, fr, f, list(args), (self.fn, self.fn.span))]
class Session(object):
    def __init__(self, prog, pid, opts=None):
        self.prog, self.pid = prog, pid
        self.obl = []; self.nobl = 0   # records
        self.fns = set(); self.nruns = 0; self.npaths = 0; self.nloops = 0; self.ncalls = 0; self.nblocks = 0
        self.contracts = {}
        self.opts = dict(opts or {}); self.opts0 = dict(self.opts)
        self.scope = ''
        self.sites = 0
        self.rules = []

    # ---- running
    def fn(self, *keys):
        """a '?' marks a private helper: code without it is free to do without it"""
        for k in keys:
            f = self.prog.find(k.lstrip('?'))
            if f: return f
        raise Missing(keys[0])
    def run(self, key, args=None, pre=None, sub=None, opts=None, contracts=None, mode='prove'):
        """analyse `key` from a symbolic state. args: list of Term / None (fresh symbol) ; &mut args become cells."""
        fn = key if isinstance(key, mir.Fn) else self.fn(key)
        o = dict(self.opts); o.update(opts or {}); o['mode'] = mode
        c = dict(self.contracts); c.update(contracts or {})
        ex = Exec(self.prog, models, c, o)
        ex.session = self
        ex.cell_types = {}
        st = St()
        vals = []; given = []      # the same symbols again when the run is repeated
        args = list(args or [])
        for i in range(fn.nargs):
            ty = mir.subst_ty(fn.locals[i + 1], sub or {})
            a = args[i] if i < len(args) and args[i] is not None else self.symbol('a%d' % i, ty, 'run%d' % self.nruns)
            given.append(a)
            if ty[0] == 'ref' and ty[1] == 'mut' and a.op != 'mref':
                cell = new_cell(st, a); ex.cell_types[cell] = ty[2]
                a = mref(cell)
            vals.append(a)
        if pre: pre(st)
        r = Run(ex, fn, vals, [], [], [])
        self.nruns += 1
        try:
            for s, v in ex.run_fn(fn, vals, st, dict(sub or {})):
                r.outs.append(Out(r, s, v))
        except Undecided as e:
            r.incomplete.append(str(e))
        except RecursionError:
            r.incomplete.append('recursion limit')
        r.panics = ex.panics
        r.incomplete += ex.incomplete
        if mode == 'prove' and (ex.stats['loops'] or r.incomplete):
            def again(peel, cut):
                def entry(st):
                    if pre: pre(st)
                    if cut: cut(st.facts)
                return self.run(fn, given, entry, sub, dict(opts or {}, budget=15000 if cut is not None else 8000 if peel in DEEP else 40000, peel=peel), contracts, 'refute')
            r.again = again
        self.fns |= ex.stats['fns']; self.npaths += len(r.outs) + len(r.panics)
        self.nloops += ex.stats['loops']; self.ncalls += ex.stats['calls']; self.nblocks += ex.stats['blocks']
        return r
    def script(self, key, body, contracts=None, peel=8, budget=60000):
        """a bounded composition of calls, every loop followed exactly: body(call, st) -> [(st, value)];
        call(key, st, args) analyses one function in that state. A loop that goes on beyond `peel` iterations
        leaves the run incomplete (undecided)."""
        fn = self.fn(key)
        c = dict(self.contracts); c.update(contracts or {})
        ex = Exec(self.prog, models, c, dict(self.opts, mode='refute', peel=peel, budget=budget, unroll=peel + 2))
        ex.session = self; ex.cell_types = {}
        st = St()
        r = Run(ex, fn, [], [], [], [])
        self.nruns += 1
        def callf(k, st, args, sub=None):
            f = k if isinstance(k, mir.Fn) else self.fn(k)
            ex.stack.append('script')
            try: return ex.run_fn(f, list(args), st, dict(sub or {}))
            finally: ex.stack.pop()
        try: r.outs = [Out(r, s, v) for s, v in body(callf, st)]
        except Undecided as e: r.incomplete.append(str(e))
        except RecursionError: r.incomplete.append('recursion limit')
        r.panics = ex.panics
        r.incomplete += ex.incomplete
        self.fns |= ex.stats['fns']; self.npaths += len(r.outs) + len(r.panics)
        self.nloops += ex.stats['loops']; self.ncalls += ex.stats['calls']; self.nblocks += ex.stats['blocks']
        return r
    def symbol(self, name, ty=None, tag=''):
        t = sym(name, '%d/%s' % (self.nobl, tag))   # symbols of one obligation never meet those of another
        while ty and ty[0] == 'ref': ty = ty[2]
        if ty:
            interp.TYPED.setdefault(t, ty)
            if ty == ('prim', 'bool'): interp.BOOL_TERMS.add(t)
            if ty[0] == 'adt' and ty[1] == 'alloc::vec::Vec' or ty[0] == 'slice': SEQ_TERMS.add(t)
            if ty[0] == 'adt': self.single(ty)
        return t
    def single(self, ty):
        if self.prog.nvariants(ty[1]) == 1 and ty[1] in self.prog.adts: theory.SINGLE.add(ty[1])

    # ---- judging
    def record(self, run, label, status, detail='', st=None):
        fn = run.fn if hasattr(run, 'fn') else run
        name = fn.key if hasattr(fn, 'key') else str(fn)
        self.obl.append({'fn': name, 'label': label, 'status': status, 'detail': detail,
                         'span': getattr(fn, 'span', ''), 'trace': [list(map(str, x)) for x in (st.trace if st else ())][-40:]})
    def finish(self, run, label, posts, refute):
        """posts: list of (ok, state, detail); refute() gives the same for exact bounded executions"""
        bad = [p for p in posts if not p[0]]
        hard = [p for p in bad if not p[1].taint]
        if not hard and (bad or run.incomplete or SELFTEST) and refute:
            for ps in refute():
                hard = [p for p in ps if not p[0] and not p[1].taint]
                if hard: break
        if hard: self.record(run, label, 'violated', hard[0][2], hard[0][1])
        elif bad: self.record(run, label, 'undecided', '%s [%s]' % (bad[0][2], '; '.join(bad[0][1].taint)), bad[0][1])
        elif run.incomplete: self.record(run, label, 'undecided', 'incomplete: ' + '; '.join(run.incomplete))
        else: self.record(run, label, 'holds', '%d path(s)' % len(posts))
    def each(self, run, label, post, select=None):
        """post(out) -> True / (False, detail) / list of (a, b) pairs required equal, for every normal outcome"""
        def judge(rn):
            posts = []
            for o in (rn.mapouts(rn) if rn.mapouts else rn.outs):
                if select and not select(o): continue
                try:
                    for h in theory.SATURATE: h(o.st.facts)
                    n0 = dom.CUT[0]
                    r = post(o)
                    if r is None: continue
                    ok, det = self.truth(o.st, r)
                except Infeasible: continue
                if not ok and (dom.CUT[0] != n0 or o.st.facts.cut): o.st.mark('a search was given up at its limit')
                st = o.st
                if not ok and loops.FOLDED in st.taint and self.same_folds(st, r):
                    st = st.copy(); st.taint = tuple(t for t in st.taint if t != loops.FOLDED)
                posts.append((ok, st, det))
            return posts
        posts = judge(run)
        def refute():
            for q in run.refuters():
                q.mapouts = run.mapouts
                yield judge(q)
        if not posts and not run.incomplete:
            self.record(run, label, 'violated', 'no execution of this function returns here')
            return
        self.finish(run, label, posts, refute)
    def same_folds(self, st, r):
        """is the pair that differs made of the same folds (over other sequences or from another start)?"""
        if not isinstance(r, list): return False
        for pair in r:
            a, b = pair[0], pair[1]
            if a is None or b is None: return False
            if theory.equal(st.facts, a, b) is not True:
                return loops.folds_in(theory.canon(st.facts, a)) == loops.folds_in(theory.canon(st.facts, b))
        return False
    def truth(self, st, r):
        if r is True: return True, ''
        if r is False: return False, 'does not hold'
        if isinstance(r, tuple) and len(r) == 2 and r[0] in (True, False): return r
        if isinstance(r, Term): return (st.facts.decide(st.facts.norm(r)) is True), 'not implied: ' + show(r)
        for pair in r:
            a, b = pair[0], pair[1]
            if a is None or b is None: return False, 'value missing'
            if theory.equal(st.facts, a, b) is not True:
                return False, '%scomputed  %s   required  %s' % ((pair[2] + ': ') if len(pair) > 2 else '', show(theory.canon(st.facts, a)), show(theory.canon(st.facts, b)))
        return True, ''
    def no_panic(self, run, label, allow=None):
        def judge(rn):
            posts = []
            for st, kind, fn, span in rn.panics:
                try:
                    for h in theory.SATURATE: h(st.facts)
                except Infeasible: continue
                n0 = dom.CUT[0]
                if allow and allow(st, kind, fn): continue
                if dom.CUT[0] != n0 or st.facts.cut: st.mark('a search was given up at its limit')
                posts.append((False, st, 'panics: %s in %s at %s' % (kind, fn.key, span)))
            return posts
        self.finish(run, label, judge(run), lambda: (judge(q) for q in run.refuters()))
    def guard(self, name, f, *a):
        """run one obligation; a missing anchor fails closed, an internal error is undecided"""
        for h in RESET: h()
        self.opts = dict(self.opts0); self.contracts = {}; self.nobl += 1
        try: return f(*a)
        except Missing as e:
            self.obl.append({'fn': str(e), 'label': 'anchor:' + name, 'status': 'undecided' if str(e).startswith('?') else 'violated', 'detail': 'function not found in the current tree', 'span': '', 'trace': []})
        except Undecided as e:
            self.obl.append({'fn': name, 'label': name, 'status': 'undecided', 'detail': str(e), 'span': '', 'trace': []})
        except Infeasible:
            self.obl.append({'fn': name, 'label': name, 'status': 'undecided', 'detail': 'contradictory precondition', 'span': '', 'trace': []})
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'): raise
            self.obl.append({'fn': name, 'label': name, 'status': 'undecided', 'detail': 'analysis error: %s' % ''.join(traceback.format_exception_only(type(e), e)).strip(), 'span': '', 'trace': []})

RESET = [spec_reset.reset, dom._fm_cache.clear, models.HASHES.clear]   # run before every obligation: theories are switched on per obligation
NEEDS_EVAL = {'C24', 'C30', 'C31', 'C32'}   # properties about the evaluation crate
OBLIGATIONS = {}     # property id -> [(name, function(session))]
def obligation(pid, name=None):
    def d(f):
        OBLIGATIONS.setdefault(pid, []).append((name or f.__name__, f))
        return f
    return d
