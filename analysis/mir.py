"""The resolved program: bodies, types, impls and traits as rustc sees them."""
import re

def freeze(x):
    if isinstance(x, list): return tuple(freeze(y) for y in x)
    return x

def norm_pretty(p):
    """drop generic arguments and impl-block lifetimes from rustc's printed path"""
    out, d = [], 0
    i = 0
    # keep the leading '<X as Trait>' structure, remove inner generics
    p = p.replace('::<', '<')
    def strip(s):
        r, depth = [], 0
        k = 0
        while k < len(s):
            c = s[k]
            if c == '<': depth += 1
            elif c == '>' and not (k and s[k-1] == '-'): depth -= 1
            elif depth == 0: r.append(c)
            k += 1
        return ''.join(r)
    if p.startswith('<'):
        depth = 0
        for k, c in enumerate(p):
            if c == '<': depth += 1
            elif c == '>' and p[k-1] != '-':
                depth -= 1
                if depth == 0: break
        inner, rest = p[1:k], p[k+1:]
        # split ' as ' at depth 0
        depth = 0; cut = None
        for j in range(len(inner)):
            c = inner[j]
            if c == '<': depth += 1
            elif c == '>' and inner[j-1] != '-': depth -= 1
            elif depth == 0 and inner.startswith(' as ', j): cut = j; break
        if cut is None: return strip(inner) + strip(rest)
        return '<%s as %s>%s' % (strip(inner[:cut]), inner[cut+4:], strip(rest))
    return strip(p)

class Fn(object):
    def __init__(self, d, crate):
        self.d = d; self.crate = crate
        self.path = d['path']; self.pretty = d.get('pretty') or d['path']
        self.key = norm_pretty(self.pretty)
        self.nargs = d['nargs']; self.locals = [freeze(t) for t in d['locals']]
        self.blocks = d['blocks']; self.span = d.get('span', '')
        self.generics = [tuple(g) for g in d.get('generics', [])]
        self.derived = d.get('derived', False); self.vis = d.get('vis'); self.kind = d.get('kind')
        self.impl = d.get('impl'); self.unsafe = d.get('unsafe'); self.name = d.get('name')
        self.vars = d.get('vars', []); self.promoted = d.get('promoted') or []
        self._loops = None; self._live = None; self._prom = {}
    def promoted_fn(self, n):
        if n not in self._prom:
            q = dict(self.promoted[n]); q['path'] = '%s#promoted%d' % (self.path, n); q['pretty'] = q['path']
            self._prom[n] = Fn(q, self.crate)
        return self._prom[n]
    def succs(self, b):
        t = self.blocks[b]['t']; k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch': return [x for _, x in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == 'drop': return [t[2]]
        if k == 'call': return [t[4]] if t[4] is not None else []
        if k == 'assert': return [t[3]]
        return []
    @property
    def loops(self):
        """head block -> set of blocks of the natural loop"""
        if self._loops is None:
            order, state = [], {}
            back = []
            stack = [(0, iter(self.succs(0)))]; state[0] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in state:
                        state[s] = 1; stack.append((s, iter(self.succs(s)))); break
                    elif state[s] == 1: back.append((b, s))
                else:
                    state[b] = 2; order.append(b); stack.pop()
            self._rpo = {b: i for i, b in enumerate(reversed(order))}
            pred = {}
            for b in state:
                for s in self.succs(b): pred.setdefault(s, []).append(b)
            self._loops = {}
            for b, h in back:
                body = self._loops.setdefault(h, {h})
                w = [b]
                while w:
                    x = w.pop()
                    if x in body: continue
                    body.add(x); w.extend(pred.get(x, []))
        return self._loops
    def rpo_index(self):
        self.loops
        return self._rpo
    @property
    def live(self):
        """block -> set of locals live on entry"""
        if self._live is None:
            use, dfn = {}, {}
            for i, b in enumerate(self.blocks):
                u, k = set(), set()
                def P(p, isdef=False):
                    if isdef and len(p) == 1:
                        k.add(p[0]); return
                    if p[0] not in k: u.add(p[0])
                    for e in p[1:]:
                        if e[0] == 'index' and e[1] not in k: u.add(e[1])
                def O(o):
                    if o[0] in ('copy', 'move'): P(o[1])
                def RV(r):
                    if r[0] == 'use': O(r[1])
                    elif r[0] in ('ref', 'discr'): P(r[2] if r[0] == 'ref' else r[1])
                    elif r[0] == 'agg':
                        for o in r[2]: O(o)
                    elif r[0] == 'bin': O(r[2]); O(r[3])
                    elif r[0] in ('un', 'cast'): O(r[2])
                    elif r[0] == 'repeat': O(r[1])
                for s in b['s']:
                    if s[0] == 'assign': RV(s[2]); P(s[1], True)
                t = b['t']
                if t[0] == 'switch': O(t[1])
                elif t[0] == 'call':
                    O(t[1]); [O(o) for o in t[2]]; P(t[3], True)
                elif t[0] == 'assert': O(t[1])
                elif t[0] == 'return': u.add(0) if 0 not in k else None
                use[i], dfn[i] = u, k
            live = {i: set() for i in range(len(self.blocks))}
            ch = True
            while ch:
                ch = False
                for i in reversed(range(len(self.blocks))):
                    o = set()
                    for s in self.succs(i): o |= live[s]
                    n = use[i] | (o - dfn[i])
                    if n != live[i]: live[i] = n; ch = True
            self._live = live
        return self._live

class Program(object):
    def __init__(self, dumps):
        self.fns, self.bykey, self.adts, self.impls, self.traits = {}, {}, {}, [], {}
        for crate, d in dumps.items():
            if not d: continue
            for f in d['fns']:
                fn = Fn(f, crate)
                self.fns[fn.path] = fn; self.bykey.setdefault(fn.key, []).append(fn)
            for a in d['adts']: self.adts[a['path']] = a
            for i in d['impls']:
                i = dict(i); i['self'] = freeze(i['self']); i['crate'] = crate
                self.impls.append(i)
            for t in d['traits']: self.traits[t['path']] = t
        self.impl_by_path = {i['path']: i for i in self.impls}
    def find(self, key):
        c = self.bykey.get(key, [])
        return c[0] if len(c) == 1 else None
    def nfields(self, path, v):
        a = self.adts.get(path)
        if a: return len(a['variants'][v]['fields'])
        return STD_FIELDS.get(path, {}).get(v)
    def nvariants(self, path):
        a = self.adts.get(path)
        if a: return len(a['variants'])
        s = STD_FIELDS.get(path)
        return len(s) if s else None
    def field_type(self, ty, v, i):
        """type of field i of variant v of type ty (a frozen type), or None"""
        if ty is None: return None
        if ty[0] == 'tuple': return ty[1][i] if ty[1:] and isinstance(ty[1], tuple) and ty[1] and isinstance(ty[1][0], tuple) else (ty[1 + i] if len(ty) > 1 + i else None)
        if ty[0] == 'adt':
            a = self.adts.get(ty[1])
            if a:
                f = freeze(a['variants'][v]['fields'][i][1])
                return subst_ty(f, dict(enumerate(ty[2])))
            if ty[1] == 'core::option::Option' and v == 1: return ty[2][0]
            if ty[1] == 'core::result::Result': return ty[2][v]
        return None

STD_FIELDS = {
    'core::option::Option': {0: 0, 1: 1}, 'core::result::Result': {0: 1, 1: 1},
    'core::cmp::Ordering': {0: 0, 1: 0, 2: 0}, 'core::ops::control_flow::ControlFlow': {0: 1, 1: 1},
    'core::ops::range::Range': {0: 2},
}

def subst_ty(t, m):
    if not isinstance(t, tuple): return t
    if t and t[0] == 'param': return m.get(t[1], t)
    return tuple(subst_ty(x, m) for x in t)

def unify_ty(pat, ty, m):
    """match impl self type `pat` (with params) against ty; binds params in m"""
    if pat and pat[0] == 'param':
        if pat[1] in m: return m[pat[1]] == ty
        m[pat[1]] = ty; return True
    if not isinstance(pat, tuple) or not isinstance(ty, tuple): return pat == ty
    if len(pat) != len(ty): return False
    return all(unify_ty(a, b, m) if isinstance(a, tuple) and isinstance(b, tuple) else a == b for a, b in zip(pat, ty))
