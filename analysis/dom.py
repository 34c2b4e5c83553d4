"""The abstract domain: interned value terms (a value-numbering / Herbrand
domain with interpreted sequences, linear integers, structs and enums) and the
fact base that refines it along a trace partition.

A term denotes a value of the analysed program as a function of the (unknown)
entry values of the analysed procedure.  Terms are kept in a normal form, so two
expressions the program computes in different ways but that always denote the
same value get the same term.  Nothing here is executed and no solver is called:
entailment of the linear facts is a bounded Fourier-Motzkin elimination.
"""
import itertools

class OSet(dict):
    """a set that is iterated in the order of insertion, so that runs are repeatable"""
    def __init__(self, xs=()): dict.__init__(self, dict.fromkeys(xs))
    def add(self, x): self[x] = None
    def discard(self, x): self.pop(x, None)

class Term(object):
    __slots__ = ('op', 'a', 'id', '_s')
    def __repr__(self): return show(self)
    def __lt__(self, o): return self.id < o.id

_table = {}
_next = itertools.count()

def mk(op, *a):
    k = (op, a)
    t = _table.get(k)
    if t is None:
        t = Term(); t.op = op; t.a = a; t.id = next(_next); t._s = None
        _table[k] = t
    return t

def is_t(x): return isinstance(x, Term)

OPT = 'core::option::Option'
def some(x): return adt(OPT, 1, (x,))
def none(): return mk('adt', OPT, 0, ())
UNIT = mk('adt', 'tup', 0, ())
def tup(*f): return adt('tup', 0, tuple(f))

def sym(name, tag=''): return mk('sym', name, tag)
_fresh = itertools.count()
def fresh(hint): return mk('sym', '%s#%d' % (hint, next(_fresh)), '')

# ---- structs / enums --------------------------------------------------------
def adt(path, v, fields):
    fields = tuple(fields)
    # eta: rebuilding a value from all of its own parts is that value
    if fields:
        f0 = fields[0]
        if f0.op == 'fld' and f0.a[1] == path and f0.a[2] == v and f0.a[3] == 0:
            t = f0.a[0]
            if all(f.op == 'fld' and f.a[0] is t and f.a[1] == path and f.a[2] == v and f.a[3] == i for i, f in enumerate(fields)):
                return t
    return mk('adt', path, v, fields)

def fld(t, path, v, i):
    """field i of variant v of t (t's type is `path`)"""
    if t.op == 'adt':
        if t.a[1] == v and i < len(t.a[2]): return t.a[2][i]
        return mk('bot', 'field of the wrong variant')
    if t.op == 'ite':
        return ite(t.a[0], fld(t.a[1], path, v, i), fld(t.a[2], path, v, i))
    return mk('fld', t, path, v, i)

def ite(c, a, b):
    if a is b: return a
    if c is TRUE: return a
    if c is FALSE: return b
    return mk('ite', c, a, b)

# ---- integers ---------------------------------------------------------------
def num(n): return mk('int', n)
def lin_parts(t):
    if t.op == 'int': return t.a[0], ()
    if t.op == 'lin': return t.a
    return 0, ((t, 1),)
def mklin(c, d):
    items = tuple(sorted(((t, k) for t, k in d.items() if k != 0), key=lambda x: x[0].id))
    if not items: return num(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1: return items[0][0]
    return mk('lin', c, items)
def lin_add(a, b, kb=1):
    ca, da = lin_parts(a); cb, db = lin_parts(b)
    d = dict(da)
    for t, k in db: d[t] = d.get(t, 0) + kb * k
    return mklin(ca + kb * cb, d)
def lin_scale(a, k):
    c, d = lin_parts(a)
    return mklin(c * k, {t: q * k for t, q in d})

# ---- booleans ---------------------------------------------------------------
TRUE = mk('bool', True); FALSE = mk('bool', False)
def boolc(b): return TRUE if b else FALSE
def ge(a, b):
    d = lin_add(a, b, -1)
    if d.op == 'int': return boolc(d.a[0] >= 0)
    return mk('ge0', d)
def eqi(a, b):
    d = lin_add(a, b, -1)
    if d.op == 'int': return boolc(d.a[0] == 0)
    # orient
    c, parts = lin_parts(d)
    if parts[0][1] < 0: d = lin_scale(d, -1)
    return mk('eq0', d)
def isvar(t, v):
    if t.op == 'adt': return boolc(t.a[1] == v)
    return mk('isvar', t, v)
def bnot(b):
    if b is TRUE: return FALSE
    if b is FALSE: return TRUE
    if b.op == 'not': return b.a[0]
    if b.op == 'ge0': return ge(num(-1), b.a[0])
    return mk('not', b)
def band(a, b):
    if a is FALSE or b is FALSE: return FALSE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is b: return a
    return mk('and', *sorted((a, b), key=lambda t: t.id))
def bor(a, b): return bnot(band(bnot(a), bnot(b)))
def eqt(a, b):
    if a is b: return TRUE
    if a.op in ('int', 'lin') or b.op in ('int', 'lin'): return eqi(a, b)
    if a.op == 'bool': return b if a is TRUE else bnot(b)
    if b.op == 'bool': return a if b is TRUE else bnot(a)
    if a.op == 'adt' and b.op == 'adt' and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]: return FALSE
        r = TRUE
        for x, y in zip(a.a[2], b.a[2]): r = band(r, eqt(x, y))
        return r
    for x, y in ((a, b), (b, a)):
        if x.op == 'adt' and y.op != 'adt' and not x.a[2] and x.a[0] != 'tup':
            return isvar(y, x.a[1])
    a, b = sorted((a, b), key=lambda t: t.id)
    return mk('eq', a, b)

# ---- sequences (Vec, slices, iterators' remaining items, content words) ------
def E(x): return ('e', x)
def S(x): return ('s', x)
def R(x): return ('r', x)   # an opaque sequence, reversed

def seq(pieces):
    out = []
    for p in pieces:
        k, t = p
        if k == 's' and t.op == 'seq': out.extend(t.a)
        elif k == 'r' and t.op == 'seq': out.extend(rev_pieces(t.a))
        elif k == 'r' and t.op == 'app' and t.a[0] == 'rev': out.append(S(t.a[1][0]))
        else: out.append(p)
        while _contract(out): pass
    if len(out) == 1 and out[0][0] == 's': return out[0][1]
    return mk('seq', *out)

def _contract(out):
    if len(out) < 2: return False
    (k1, a), (k2, b) = out[-2], out[-1]
    if k1 == 's' and k2 == 'e' and a.op == 'app' and a.a[0] == 'init' and b.op == 'app' and b.a[0] == 'last' and a.a[1] == b.a[1]:
        out[-2:] = [S(a.a[1][0])]; return True
    if k1 == 'e' and k2 == 's' and a.op == 'app' and a.a[0] == 'first' and b.op == 'app' and b.a[0] == 'tail' and a.a[1] == b.a[1]:
        out[-2:] = [S(b.a[1][0])]; return True
    if k1 == 's' and k2 == 's' and a.op == 'app' and b.op == 'app' and a.a[0] == 'take' and b.a[0] == 'drop' and a.a[1] == b.a[1]:
        out[-2:] = [S(a.a[1][0])]; return True
    # mirrored
    if k1 == 'e' and k2 == 'r' and a.op == 'app' and a.a[0] == 'last' and b.op == 'app' and b.a[0] == 'init' and a.a[1] == b.a[1]:
        out[-2:] = [R(a.a[1][0])]; return True
    if k1 == 'r' and k2 == 'e' and a.op == 'app' and a.a[0] == 'tail' and b.op == 'app' and b.a[0] == 'first' and a.a[1] == b.a[1]:
        out[-2:] = [R(a.a[1][0])]; return True
    if k1 == 'r' and k2 == 'r' and a.op == 'app' and b.op == 'app' and a.a[0] == 'drop' and b.a[0] == 'take' and a.a[1] == b.a[1]:
        out[-2:] = [R(a.a[1][0])]; return True
    return False

def rev_pieces(ps):
    out = []
    for k, t in reversed(ps):
        out.append((('e' if k == 'e' else 'r' if k == 's' else 's'), t))
    return out
def pieces(t):
    if t.op == 'seq': return list(t.a)
    return [S(t)]
NIL = mk('seq')
def cat(*ts):
    ps = []
    for t in ts: ps.extend(pieces(t))
    return seq(ps)
def rev(t): return seq(rev_pieces(pieces(t)))
def unit(x): return seq([E(x)])

def length(t):
    """len as a linear term"""
    r = num(0)
    for k, x in pieces(t):
        if k == 'e': r = lin_add(r, num(1))
        else: r = lin_add(r, _len1(x))
    return r
def _len1(x):
    if x.op == 'app':
        f, a = x.a
        if f in ('init', 'tail'): return lin_add(length(a[0]), num(-1))
        if f == 'map': return length(a[1])
        if f == 'drop': return lin_add(length(a[0]), a[1], -1)
        if f == 'take': return a[1]
        if f == 'rev': return length(a[0])
    return app('len', x)

# ---- applications -----------------------------------------------------------
def app(f, *args):
    return mk('app', f, tuple(args))

def art(name, val): return mk('art', name, val)     # a cell/put/thunk holding val
def force(t):
    if t.op == 'art': return t.a[1]
    if t.op == 'ite': return ite(t.a[0], force(t.a[1]), force(t.a[2]))
    return app('force', t)

# ---- traversal --------------------------------------------------------------
def children(t):
    op, a = t.op, t.a
    if op == 'seq': return [x for _, x in a]
    if op == 'lin': return [x for x, _ in a[1]]
    out = []
    for x in a:
        if isinstance(x, Term): out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, Term): out.append(y)
    return out

def subst(t, f, memo=None):
    """rebuild t bottom-up; f(term)->Term or None decides replacement top-down"""
    if memo is None: memo = {}
    r = memo.get(t)
    if r is not None: return r
    r = f(t)
    if r is None: r = _rebuild(t, lambda c: subst(c, f, memo))
    memo[t] = r
    return r

def _rebuild(t, g):
    op, a = t.op, t.a
    if op in ('sym', 'int', 'bool', 'bot', 'str', 'fn', 'mref', 'unk', 'cst'): return t
    if op == 'adt':
        n = tuple(g(x) for x in a[2])
        return t if n == a[2] else adt(a[0], a[1], n)
    if op == 'fld':
        n = g(a[0]); return t if n is a[0] else fld(n, a[1], a[2], a[3])
    if op == 'seq':
        n = [(k, g(x)) for k, x in a]
        return seq(n)
    if op == 'lin':
        r = num(a[0])
        for x, k in a[1]: r = lin_add(r, g(x), k)
        return r
    if op == 'ge0':
        return ge(g(a[0]), num(0))
    if op == 'eq0':
        return eqi(g(a[0]), num(0))
    if op == 'eq': return eqt(g(a[0]), g(a[1]))
    if op == 'isvar': return isvar(g(a[0]), a[1])
    if op == 'not': return bnot(g(a[0]))
    if op == 'and': return band(g(a[0]), g(a[1]))
    if op == 'ite': return ite(g(a[0]), g(a[1]), g(a[2]))
    if op == 'art':
        return art(g(a[0]) if a[0] is not None else None, g(a[1]))
    if op == 'app':
        n = tuple(g(x) for x in a[1])
        if n == a[1]: return t
        return reapp(a[0], n)
    if op == 'clo':
        n = tuple(g(x) for x in a[1])
        return t if n == a[1] else mk('clo', a[0], n, a[2])
    if op == 'lam':
        n = g(a[2])
        if n is a[2]: return t
        xs = tuple(fresh('p') for _ in range(a[0]))
        n = g(subst(a[2], lambda y: xs[int(y.a[0].split('.')[1])] if y.op == 'sym' and y.a[0].startswith('$%d.' % a[1]) else None))
        return abstract(xs, n)
    raise KeyError(op)

_reapp = {}
def reapp(f, args):
    h = _reapp.get(f)
    if h: return h(*args)
    return app(f, *args)
_reapp['force'] = force
_reapp['len'] = length

def s_first(t):
    ps = pieces(t)
    if ps:
        k, x = ps[0]
        if k == 'e': return x
        if len(ps) == 1 and k == 'r': return s_last(x)
        if len(ps) == 1: return app('first', x)
    return app('first', t)
def s_last(t):
    ps = pieces(t)
    if ps:
        k, x = ps[-1]
        if k == 'e': return x
        if len(ps) == 1 and k == 'r': return s_first(x)
        if len(ps) == 1: return app('last', x)
    return app('last', t)
def s_init(t):
    ps = pieces(t)
    if ps and ps[-1][0] == 'e': return seq(ps[:-1])
    if len(ps) == 1 and ps[0][0] == 'r': return rev(s_tail(ps[0][1]))
    return app('init', t)
def s_tail(t):
    ps = pieces(t)
    if ps and ps[0][0] == 'e': return seq(ps[1:])
    if len(ps) == 1 and ps[0][0] == 'r': return rev(s_init(ps[0][1]))
    return app('tail', t)
_reapp['first'] = s_first; _reapp['last'] = s_last; _reapp['init'] = s_init; _reapp['tail'] = s_tail
def _prefix(t, i):
    """how many pieces of t make up its first i elements, if that is a number of whole pieces"""
    ps = pieces(t); n = num(0)
    for k, p in enumerate(ps):
        if n is i: return k, ps
        n = lin_add(n, num(1) if p[0] == 'e' else _len1(p[1]))
    return (len(ps), ps) if n is i else (None, ps)
def s_take(t, i):
    if i is num(0): return NIL
    if i is length(t): return t
    k, ps = _prefix(t, i)
    return app('take', t, i) if k is None else seq(ps[:k])
def s_drop(t, i):
    if i is num(0): return t
    if i is length(t): return NIL
    k, ps = _prefix(t, i)
    return app('drop', t, i) if k is None else seq(ps[k:])
_reapp['take'] = s_take; _reapp['drop'] = s_drop
def s_map(f, t):
    if f.op == 'lam' and f.a[2].op == 'sym' and f.a[2].a[0] == '$%d.0' % f.a[1]: return t
    out = []
    for k, x in pieces(t):
        if k == 'e': out.append(E(call(f, x)))
        elif x.op == 'app' and x.a[0] == 'map':
            a = fresh('x')
            out.append((k, s_map(abstract((a,), call(f, call(x.a[1][0], a))), x.a[1][1])))
        else: out.append((k, app('map', f, x)))
    return seq(out)
_reapp['map'] = s_map
def call(f, *args):
    """apply a function value to arguments (only opaque functions and `lam`s)"""
    if f.op == 'lam' and f.a[0] == len(args):
        m = {mk('sym', '$%d.%d' % (f.a[1], i), ''): x for i, x in enumerate(args)}
        return subst(f.a[2], lambda t: m.get(t))
    return app('call', f, *args)
_reapp['call'] = call

def lam_height(t):
    h = 0
    seen = set()
    w = [t]
    while w:
        x = w.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'lam': h = max(h, x.a[1])
        else: w.extend(children(x))
    return h
def abstract(syms, body):
    """\\syms. body, with canonical parameter names (eta-reduced)"""
    if body.op == 'app' and body.a[0] == 'call' and len(body.a[1]) == len(syms) + 1:
        f = body.a[1][0]
        if tuple(body.a[1][1:]) == tuple(syms) and not any(contains(f, lambda x, s=s: x is s) for s in syms): return f
    h = lam_height(body) + 1
    m = {s: mk('sym', '$%d.%d' % (h, i), '') for i, s in enumerate(syms)}
    return mk('lam', len(syms), h, subst(body, lambda t: m.get(t)))

def foldl(f, acc, s):
    """left fold of f over the sequence s"""
    ps = pieces(s)
    for i, (k, x) in enumerate(ps):
        if k == 'e': acc = call(f, acc, x)
        else:
            if k == 's' and x.op == 'app' and x.a[0] == 'map':
                a, b = fresh('a'), fresh('b')
                acc = foldl(abstract((a, b), call(f, a, call(x.a[1][0], b))), acc, x.a[1][1])
            else:
                acc = app('foldl', f, acc, x if k == 's' else mk('seq', (k, x)))
    return acc
_reapp['foldl'] = foldl

def contains(t, pred, seen=None):
    if seen is None: seen = set()
    if t in seen: return False
    seen.add(t)
    if pred(t): return True
    return any(contains(c, pred, seen) for c in children(t))
def tainted(t): return contains(t, lambda x: x.op in ('unk', 'bot'))

# ---- printing ---------------------------------------------------------------
def show(t, d=0):
    if t is None: return '-'
    if not isinstance(t, Term): return str(t)
    if t._s is not None: return t._s
    s = _show(t)
    if len(s) > 600: s = s[:600] + '~'
    t._s = s
    return s
def _show(t):
    op, a = t.op, t.a
    if op == 'sym': return a[0]
    if op == 'int': return str(a[0])
    if op == 'bool': return str(a[0]).lower()
    if op == 'str': return repr(a[0])
    if op == 'adt':
        if a[0] == 'tup': return '(' + ', '.join(map(show, a[2])) + ')'
        n = a[0].split('::')[-1]
        if a[0] == OPT: return 'None' if a[1] == 0 else 'Some(%s)' % show(a[2][0])
        return '%s#%d{%s}' % (n, a[1], ', '.join(map(show, a[2])))
    if op == 'fld':
        if a[1] == OPT: return '%s!' % show(a[0])
        return '%s.%s%d' % (show(a[0]), ('@%d.' % a[2]) if a[2] else '', a[3])
    if op == 'seq': return '[' + ' '.join((show(x) if k == 'e' else '..' + show(x) if k == 's' else '..rev ' + show(x)) for k, x in a) + ']'
    if op == 'lin': return '(' + ' + '.join(([str(a[0])] if a[0] else []) + [(show(x) if k == 1 else '%d*%s' % (k, show(x))) for x, k in a[1]]) + ')'
    if op == 'ge0': return '%s>=0' % show(a[0])
    if op == 'eq0': return '%s==0' % show(a[0])
    if op == 'eq': return '%s==%s' % (show(a[0]), show(a[1]))
    if op == 'isvar': return '%s is #%d' % (show(a[0]), a[1])
    if op == 'not': return '!(%s)' % show(a[0])
    if op == 'and': return '(%s & %s)' % (show(a[0]), show(a[1]))
    if op == 'ite': return '(%s ? %s : %s)' % tuple(map(show, a))
    if op == 'art': return 'cell<%s>(%s)' % (show(a[0]) if a[0] is not None else '', show(a[1]))
    if op == 'app': return '%s(%s)' % (a[0], ', '.join(map(show, a[1])))
    if op == 'clo': return 'closure %s[%s]' % (a[0].split('::', 1)[-1], ', '.join(map(show, a[1])))
    if op == 'lam': return '\\%d.%s' % (a[0], show(a[2]))
    if op == 'fn': return 'fn ' + str(a[0])
    if op == 'mref': return '&mut c%s' % (a[0],)
    return '%s%s' % (op, tuple(show(x) for x in a))

# ---- facts ------------------------------------------------------------------
class Infeasible(Exception): pass
POSSIBLE = []        # functions (facts, term) -> tuple of the variants possible, or None
NVARIANTS = None     # term -> number of variants of its type, when known

_fm_cache = {}
class Facts(object):
    """what is known on a trace partition; copied when a partition splits"""
    __slots__ = ('var', 'notvar', 'bools', 'lins', 'words', 'preds', 'bounds', '_memo', '_sig', 'cut')
    def __init__(self):
        self.var = {}       # opaque term -> variant index
        self.notvar = {}    # opaque term -> frozenset of excluded variants
        self.bools = {}     # opaque boolean atom -> bool
        self.lins = []      # lin terms known >= 0
        self.words = []     # (lhs word pieces tuple, rhs word pieces tuple)
        self.preds = OSet()  # other predicate instances (tuples)
        self.bounds = {}
        self.cut = False    # a decision on the way here was left open by a limit of the solver
        self._memo = {}; self._sig = None
    def copy(self):
        f = Facts()
        f.var = dict(self.var); f.notvar = dict(self.notvar); f.bools = dict(self.bools)
        f.lins = list(self.lins); f.words = list(self.words); f.preds = OSet(self.preds)
        f.bounds = self.bounds; f.cut = self.cut
        f._memo = self.memo(); f._sig = self._sig
        return f
    def memo(self):
        """results that depend on the facts only; replaced (never cleared: copies share it) when a fact is added"""
        s = (len(self.var), sum(map(len, self.notvar.values())), len(self.bools), len(self.lins), len(self.words), len(self.preds))
        if s != self._sig:
            self._memo = {}; self._sig = s
        return self._memo

    # --- variants
    def variant(self, t):
        if t.op == 'adt': return t.a[1]
        v = self.var.get(t)
        if v is None and POSSIBLE and t.op == 'fld':
            p = self.possible(t)
            if p is not None and len(p) == 1: return p[0]
        return v
    def possible(self, t):
        """variants a theory still allows for t (a tuple), or None"""
        for h in POSSIBLE:
            p = h(self, t)
            if p is not None: return p
        return None
    def set_variant(self, t, v):
        if t.op == 'adt':
            if t.a[1] != v: raise Infeasible()
            return
        o = self.var.get(t)
        if o is not None and o != v: raise Infeasible()
        if o is None and POSSIBLE and t.op == 'fld':
            p = self.possible(t)
            if p is not None and v not in p: raise Infeasible()
        if v in self.notvar.get(t, ()): raise Infeasible()
        self.var[t] = v
    def exclude(self, t, v):
        if t.op == 'adt':
            if t.a[1] == v: raise Infeasible()
            return
        o = self.var.get(t)
        if o == v: raise Infeasible()
        self.notvar[t] = frozenset(self.notvar.get(t, frozenset()) | {v})
        n = NVARIANTS(t) if NVARIANTS else None
        if n:
            p = self.possible(t) if POSSIBLE and t.op == 'fld' else None
            left = [i for i in (range(n) if p is None else p) if i not in self.notvar[t]]
            if not left: raise Infeasible()
            if len(left) == 1: self.var[t] = left[0]

    # --- integers
    def add_ge0(self, l):
        c, p = lin_parts(l)
        if not p:
            if c < 0: raise Infeasible()
            return
        if l in self.lins: return
        if l.op != 'lin': l = mk('lin', 0, ((l, 1),))
        if l in self.lins: return
        if self.entails_ge0(lin_add(num(-1), l, -1)): raise Infeasible()
        self.lins.append(l)
    def entails_ge0(self, l, extra=()):
        c, p = lin_parts(l)
        if not p: return c >= 0
        neg = lin_add(num(-1), l, -1)     # -l-1 >= 0
        n0 = CUT[0]
        if extra:
            r = fm_infeasible([neg] + list(extra), self.lins, self.bounds)
            if CUT[0] != n0: self.cut = True
            return r
        # only the facts that share atoms with the goal matter
        atoms = {x for x, _ in p}; left = self.lins; rel = []
        while True:
            hit = [y for y in left if any(x in atoms for x, _ in y.a[1])] if left else []
            if not hit: break
            rel += hit; left = [y for y in left if y not in hit] if len(hit) < len(left) else []
            for y in hit:
                for x, _ in y.a[1]: atoms.add(x)
        k = (neg, tuple(sorted(rel, key=lambda t: t.id)))
        r = _fm_cache.get(k)
        if r is None:
            r = fm_infeasible([neg], rel, self.bounds)
            if CUT[0] != n0: r = 'cut'
            _fm_cache[k] = r
        if r == 'cut': self.cut = True; CUT[0] += 1; return False
        return r
    def decide(self, b):
        """True/False/None"""
        if b.op == 'bool': return b.a[0]
        m = self.memo(); k = ('d', b)
        if k in m: return m[k]
        r = m[k] = self._decide(b)
        return r
    def _decide(self, b):
        if b.op == 'not':
            r = self.decide(b.a[0]); return None if r is None else not r
        if b.op == 'and':
            x, y = self.decide(b.a[0]), self.decide(b.a[1])
            if x is False or y is False: return False
            if x and y: return True
            return None
        if b.op == 'isvar':
            v = self.variant(b.a[0])
            if v is not None: return v == b.a[1]
            if b.a[1] in self.notvar.get(b.a[0], ()): return False
            return None
        if b.op == 'ge0':
            if self.entails_ge0(b.a[0]): return True
            if self.entails_ge0(lin_add(num(-1), b.a[0], -1)): return False
            return None
        if b.op == 'eq0':
            up = self.entails_ge0(b.a[0]); dn = self.entails_ge0(lin_scale(b.a[0], -1))
            if up and dn: return True
            if self.entails_ge0(lin_add(num(-1), b.a[0], -1)) or self.entails_ge0(lin_add(b.a[0], num(-1))): return False
            return self.bools.get(b)
        if b.op == 'ite':
            c = self.decide(b.a[0])
            if c is not None: return self.decide(b.a[1] if c else b.a[2])
        if b.op == 'eq':
            r = self.bools.get(b)
            if r is not None: return r
            x, y = self.norm(b.a[0]), self.norm(b.a[1])
            if x is y: return True
            if x is not b.a[0] or y is not b.a[1]:
                b2 = eqt(x, y)
                if b2 is not b: return self.decide(b2)
            return None
        return self.bools.get(b)
    def assume(self, b, val=True):
        if b.op == 'bool':
            if b.a[0] != val: raise Infeasible()
            return
        if b.op == 'not': return self.assume(b.a[0], not val)
        d = self.decide(b)
        if d is not None:
            if d != val: raise Infeasible()
            return
        if b.op == 'and' and val:
            self.assume(b.a[0]); self.assume(b.a[1]); return
        if b.op == 'isvar':
            if val: self.set_variant(b.a[0], b.a[1])
            else: self.exclude(b.a[0], b.a[1])
            return
        if b.op == 'ge0':
            self.add_ge0(b.a[0] if val else lin_add(num(-1), b.a[0], -1)); return
        if b.op == 'eq0':
            if val:
                self.add_ge0(b.a[0]); self.add_ge0(lin_scale(b.a[0], -1))
            else:
                if self.entails_ge0(b.a[0]): self.add_ge0(lin_add(b.a[0], num(-1)))
                elif self.entails_ge0(lin_scale(b.a[0], -1)): self.add_ge0(lin_add(lin_scale(b.a[0], -1), num(-1)))
                else: self.bools[b] = False
            return
        self.bools[b] = val

    def is_empty(self, s):
        """is sequence s known empty (True), known non-empty (False), or unknown"""
        l = length(s)
        return self.decide(eqi(l, num(0))) if l.op != 'int' else l.a[0] == 0

    # --- canonical form of a term under the facts
    def norm(self, t, memo=None):
        if memo is None:
            m = self.memo(); k = ('n', t)
            r = m.get(k)
            if r is None: r = m[k] = self._norm(t, {})
            return r
        return self._norm(t, memo)
    def _norm(self, t, memo):
        def f(x):
            if x.op in ('sym', 'fld', 'app'):
                v = self.var.get(x)
                if v is not None and (x, v) in NULLARY:
                    return mk('adt', NULLARY[(x, v)], v, ())
                b = self.bools.get(x)
                if b is not None: return boolc(b)
            if x.op == 'ite':
                c = self.decide(x.a[0])
                if c is not None: return self.norm(x.a[1] if c else x.a[2], memo)
            return None
        r = subst(t, f, memo)
        r = self._drop_empty(r)
        return r
    def _drop_empty(self, t):
        def f(x):
            if x.op == 'seq':
                ps = [(k, y) for k, y in x.a if k == 'e' or self.is_empty(y) is not True]
                if len(ps) != len(x.a):
                    return self._drop_empty(seq(ps))
            elif x.op in ('sym', 'fld') or (x.op == 'app' and x.a[0] in ('init', 'tail', 'take', 'drop', 'map')):
                if x in SEQ_TERMS and self.is_empty(x) is True: return NIL
            return None
        return subst(t, f)

SEQ_TERMS = set()      # opaque terms known to be sequences (registered when used as one)
NULLARY = {}           # (opaque term, variant) -> adt path, when that variant has no fields

CUT = [0]      # how often a search was given up at a limit; what such a search leaves open contradicts nothing
def fm_infeasible(goal, lins, bounds, limit=400):
    """is {goal>=0} + lins + bounds contradictory over the integers (rational relaxation)?"""
    # relevant closure on atoms
    atoms = set()
    for g in goal:
        for x, _ in lin_parts(g)[1]: atoms.add(x)
    rel = []; todo = True; left = list(lins)
    while todo:
        todo = False
        rest = []
        for l in left:
            at = [x for x, _ in lin_parts(l)[1]]
            if any(x in atoms for x in at):
                rel.append(l); atoms.update(at); todo = True
            else: rest.append(l)
        left = rest
    cons = []
    for l in list(goal) + rel:
        c, p = lin_parts(l); cons.append((c, dict(p)))
    todo = sorted(atoms, key=lambda x: x.id); done = set(todo); short = False
    while todo:
        x = todo.pop()
        cons.append((0, {x: 1}))          # every integer of the program is unsigned
        m = int_max(x)
        if m is not None: cons.append((m, {x: -1}))
        if len(done) > 120: short = True; continue
        for l in axioms_for(x, atoms):
            c, p = lin_parts(l); cons.append((c, dict(p)))
            for y, _ in p:
                if y not in done: done.add(y); todo.append(y)
    # eliminate
    def key(c): return (c[0], tuple(sorted(((x.id, k) for x, k in c[1].items()))))
    seen = set(); cs = []
    for c in cons:
        k = key(c)
        if k not in seen: seen.add(k); cs.append(c)
    vs = set(x for c in cs for x in c[1])
    while vs:
        for c in cs:
            if not c[1] and c[0] < 0: return True
        best = min(vs, key=lambda v: (sum(1 for c in cs if c[1].get(v, 0) > 0) * sum(1 for c in cs if c[1].get(v, 0) < 0), v.id))
        pos = [c for c in cs if c[1].get(best, 0) > 0]
        neg = [c for c in cs if c[1].get(best, 0) < 0]
        keep = [c for c in cs if c[1].get(best, 0) == 0]
        seen = set(key(c) for c in keep)
        for a in pos:
            for b in neg:
                ka, kb = a[1][best], -b[1][best]
                d = {}
                for x, k in a[1].items(): d[x] = d.get(x, 0) + k * kb
                for x, k in b[1].items(): d[x] = d.get(x, 0) + k * ka
                d = {x: k for x, k in d.items() if k}
                c = (a[0] * kb + b[0] * ka, d)
                if not d:
                    if c[0] < 0: return True
                    continue
                k = key(c)
                if k not in seen: seen.add(k); keep.append(c)
        if len(keep) > limit: CUT[0] += 1; return False
        cs = keep
        vs.discard(best)
        vs &= set(x for c in cs for x in c[1])
    if any(not c[1] and c[0] < 0 for c in cs): return True
    if short: CUT[0] += 1
    return False

INT_MAX = {}
def int_max(x): return INT_MAX.get(x)
AXIOMS = []     # functions (atom, atoms) -> [lin >= 0]
def axioms_for(x, atoms):
    out = []
    for f in AXIOMS: out.extend(f(x, atoms))
    return out
