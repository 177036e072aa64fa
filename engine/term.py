"""Hash-consed terms (the value graph) and numeric abstract domains.

Every value the abstract interpreter manipulates is a T.  Integers are kept in linear normal form over
opaque atoms; atoms over small types carry finite powersets, others intervals; linear inequalities learned
from branch conditions are kept as a set and used by bound propagation (no solver)."""

class T:
    __slots__ = ('op', 'a', 'id', 'sup', '__weakref__')
    def __repr__(self): return show(self)

_tab = {}
_n = [0]
def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.a = a; t.id = _n[0]; _n[0] += 1; t.sup = None
        _tab[k] = t
    return t

ATOM_TY = {}     # atom -> type name
ATOM_RNG = {}    # atom -> (lo, hi)
ATOM_DOM = {}    # atom -> frozenset
ATOM_META = {}

def show(t, d=0):
    if not isinstance(t, T): return repr(t) if isinstance(t, str) else str(t) if not isinstance(t, tuple) else '(%s)' % ','.join(show(x) for x in t)
    if d > 9: return '…'
    o = t.op; a = t.a
    if o == 'int': return str(a[0])
    if o == 'lin':
        s = ' + '.join((('%d*' % c) if c != 1 else '') + show(x, d + 1) for x, c in a[1])
        return '(%s%s)' % (s, (' %+d' % a[0]) if a[0] else '')
    if o == 'adt': return '%s#%d{%s}' % (a[0].split('::')[-1], a[1], ', '.join(show(x, d + 1) for x in a[2:]))
    if o == 'tup': return '(%s)' % ', '.join(show(x, d + 1) for x in a)
    if o == 'str': return repr(a[0])
    if o == 'ref': return '&%s%s' % (a[0], a[1] if a[1] else '')
    if o == 'fld': return '%s.%s%s' % (show(a[0], d + 1), '' if a[1] is None else '%d:' % a[1], a[2])
    if o == 'sym' and a and a[0] == 'lv': return '$%s%d' % (a[2], t.id)
    if o == 'sym': return '$' + '.'.join(str(x) if not isinstance(x, T) else show(x, d + 1) for x in a)
    return '%s(%s)' % (o, ', '.join(show(x, d + 1) for x in a))

def I(n): return mk('int', int(n))
ZERO = I(0); ONE = I(1); TRUE = ONE; FALSE = ZERO
UNIT = mk('tup')
def is_int(t): return t.op == 'int'

def sym(ty, *key):
    t = mk('sym', *key)
    if ty is not None: ATOM_TY.setdefault(t, ty)
    return t
def typed(t, ty):
    if ty is not None and t not in ATOM_TY: ATOM_TY[t] = ty
    return t

INT_RNG = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'usize': (0, 2**64 - 1),
           'u128': (0, 2**128 - 1), 'i8': (-128, 127), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1),
           'isize': (-2**63, 2**63 - 1), 'i128': (-2**127, 2**127 - 1), 'bool': (0, 1), 'char': (0, 0x10ffff)}
BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64}

# ---- linear forms
def lin_parts(t):
    if t.op == 'int': return t.a[0], ()
    if t.op == 'lin': return t.a[0], t.a[1]
    return 0, ((t, 1),)
def mklin(c, d):
    items = tuple(sorted(((x, k) for x, k in d.items() if k), key=lambda p: p[0].id))
    if not items: return I(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1: return items[0][0]
    return mk('lin', c, items)
def add(a, b, kb=1):
    ca, pa = lin_parts(a); cb, pb = lin_parts(b)
    if not pb: return mklin(ca + kb * cb, dict(pa)) if cb else a
    d = dict(pa)
    for x, k in pb: d[x] = d.get(x, 0) + kb * k
    return mklin(ca + kb * cb, d)
def sub(a, b): return add(a, b, -1)
def scale(a, k):
    c, p = lin_parts(a)
    return mklin(c * k, {x: n * k for x, n in p})

# ---- booleans
def b_not(b):
    if b.op == 'int': return I(1 - b.a[0])
    if b.op == 'not': return b.a[0]
    if b.op == 'ge0': return ge0(sub(I(-1), b.a[0]))       # L>=0 negated: -L-1 >= 0
    return mk('not', b)
def ge0(l):
    if l.op == 'int': return I(l.a[0] >= 0)
    return mk('ge0', l)
def eq0(l):
    if l.op == 'int': return I(l.a[0] == 0)
    c, p = lin_parts(l)
    if p[0][1] < 0: l = scale(l, -1)
    c, p = lin_parts(l)
    if len(p) == 1 and p[0][1] == 1 and is_bool(p[0][0]):
        if c == -1: return p[0][0]
        if c == 0: return b_not(p[0][0])
    return mk('eq0', l)
def is_bool(t):
    return t.op in ('ge0', 'eq0', 'not', 'bcond', 'eqt') or ATOM_TY.get(t) == 'bool' or (t.op == 'int' and t.a[0] in (0, 1) and False)

def b_and(a, b):
    if a is FALSE or b is FALSE: return FALSE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is b: return a
    return typed(mk('and', *sorted((a, b), key=lambda t: t.id)), 'bool')
def b_or(a, b):
    if a is TRUE or b is TRUE: return TRUE
    if a is FALSE: return b
    if b is FALSE: return a
    if a is b: return a
    return typed(mk('or', *sorted((a, b), key=lambda t: t.id)), 'bool')

# ---- bit operations
def bit(op, a, b, ty=None):
    if a.op == 'int' and b.op == 'int':
        x, y = a.a[0], b.a[0]
        if op == 'and': return I(x & y)
        if op == 'or': return I(x | y)
        if op == 'xor': return I(x ^ y)
        if op == 'shl': return I((x << y) & ((1 << BITS.get(ty, 64)) - 1)) if 0 <= y < 128 else typed(mk('shl', a, b), ty)
        if op == 'shr': return I(x >> y) if y >= 0 else typed(mk('shr', a, b), ty)
        if op == 'mul': return I(x * y)
        if op == 'div' and y: return I(x // y)
        if op == 'rem' and y: return I(x % y)
    if op in ('and', 'or', 'xor', 'mul'):
        if a.op == 'int': a, b = b, a
        if op == 'mul' and b.op == 'int': return scale(a, b.a[0])
        if b is ZERO:
            if op in ('and', 'mul'): return ZERO
            return a
        if a is b:
            if op == 'xor': return ZERO
            if op != 'mul': return a
        if b.op != 'int' and a.id > b.id: a, b = b, a
        if b.op == 'int' and a.op == op and a.a[1].op == 'int':     # (x & c1) & c2
            return bit(op, a.a[0], bit(op, a.a[1], b), ty)
        if op == 'and' and b.op == 'int' and a.op == 'or' and a.a[1].op == 'int':    # (x | c1) & c2
            k = a.a[1].a[0] & b.a[0]
            if k == b.a[0]: return b
            if k == 0: return bit('and', a.a[0], b, ty)
    if op in ('shl', 'shr') and b is ZERO: return a
    if op == 'shr' and a.op == 'shr' and a.a[1].op == 'int' and b.op == 'int':
        return typed(mk('shr', a.a[0], I(a.a[1].a[0] + b.a[0])), ty)
    return typed(mk(op, a, b), ty)

OPS = {'and', 'or', 'xor', 'shl', 'shr', 'mul', 'div', 'rem', 'bnot', 'trunc', 'lin', 'ge0', 'eq0', 'not', 'min'}

def support(t):
    """leaf atoms of an integer/boolean expression"""
    s = t.sup
    if s is None:
        if t.op == 'int': s = frozenset()
        elif t.op == 'lin':
            s = frozenset().union(*(support(x) for x, _ in t.a[1]))
        elif t.op in OPS:
            s = frozenset().union(*(support(x) for x in t.a if isinstance(x, T)))
        else: s = frozenset((t,))
        t.sup = s
    return s

def ev(t, env):
    o = t.op
    if o == 'int': return t.a[0]
    if o in OPS and t not in env:
        a = t.a
        if o == 'lin':
            r = a[0]
            for x, k in a[1]: r += k * ev(x, env)
            return r
        if o == 'ge0': return int(ev(a[0], env) >= 0)
        if o == 'eq0': return int(ev(a[0], env) == 0)
        if o == 'not': return 1 - ev(a[0], env)
        x = ev(a[0], env)
        if o == 'bnot': return x ^ ((1 << a[1]) - 1)
        if o == 'trunc': return x & ((1 << a[1]) - 1)
        y = ev(a[1], env)
        if o == 'and': return x & y
        if o == 'or': return x | y
        if o == 'xor': return x ^ y
        if o == 'min': return min(x, y)
        if o == 'shl':
            ty = ATOM_TY.get(t); r = x << y
            return r & ((1 << BITS[ty]) - 1) if ty in BITS else r
        if o == 'shr': return x >> y
        if o == 'mul': return x * y
        if o == 'div': return x // y if y else 0
        if o == 'rem': return x % y if y else 0
    return env[t]

FULL8 = frozenset(range(256))
BOOL2 = frozenset((0, 1))
def base_dom(t):
    d = ATOM_DOM.get(t)
    if d is not None: return d
    ty = ATOM_TY.get(t)
    if ty == 'bool' or t.op in ('ge0', 'eq0', 'not'): return BOOL2
    if ty == 'u8': return FULL8
    r = ATOM_RNG.get(t)
    if r and r[1] - r[0] < 256: return frozenset(range(r[0], r[1] + 1))
    return None
def base_rng(t):
    r = ATOM_RNG.get(t)
    if r is not None: return r
    d = ATOM_DOM.get(t)
    if d: return (min(d), max(d))
    if t.op in ('ge0', 'eq0', 'not'): return (0, 1)
    return INT_RNG.get(ATOM_TY.get(t), (-2**200, 2**200))

class Infeasible(Exception): pass
def vclass(n):
    """bytes of the minimal variable byte integer encoding"""
    return 1 if n < 0x80 else 2 if n < 0x4000 else 3 if n < 0x200000 else 4
def VSZ(x):
    if x.op == 'int': return I(vclass(x.a[0]))
    t = mk('vsz', x)
    ATOM_TY.setdefault(t, 'usize'); ATOM_RNG.setdefault(t, (1, 4))
    return t

class Facts:
    __slots__ = ('dom', 'iv', 'ge', 'bo', '_k', 'cache')
    def __init__(self):
        self.dom = {}; self.iv = {}; self.ge = (); self.bo = {}; self._k = None; self.cache = {}
    def copy(self):
        f = Facts(); f.dom = dict(self.dom); f.iv = dict(self.iv); f.ge = self.ge; f.bo = dict(self.bo)
        return f
    def key(self):
        if self._k is None:
            self._k = (frozenset(self.dom.items()), frozenset(self.iv.items()), frozenset(self.ge), frozenset(self.bo.items()))
        return self._k
    def _touch(self): self._k = None; self.cache = {}

    # -- queries
    def dom_of(self, t):
        d = self.dom.get(t)
        if d is None: d = base_dom(t)
        if t.op == 'vsz' and d is not None:
            l, h = self.rng(t.a[0])
            d = frozenset(x for x in d if vclass(l) <= x <= vclass(h))
        return d
    def rng(self, t):
        o = t.op
        if o == 'int': return (t.a[0], t.a[0])
        c = self.cache.get(t)
        if c is not None: return c
        r = self._rng(t)
        self.cache[t] = r
        return r
    def _rng(self, t):
        o = t.op
        if o == 'lin':
            lo = hi = t.a[0]
            for x, k in t.a[1]:
                l, h = self.rng(x)
                if k > 0: lo += k * l; hi += k * h
                else: lo += k * h; hi += k * l
            return (lo, hi)
        if t in self.dom:
            d = self.dom[t]
            return (min(d), max(d))
        lo, hi = base_rng(t)
        if t in self.iv:
            l, h = self.iv[t]; lo = max(lo, l); hi = min(hi, h)
        if o in OPS:
            # finite evaluation when cheap
            s = support(t)
            if len(s) == 1:
                (x,) = s
                d = self.dom_of(x)
                if d is not None and len(d) <= 256:
                    vs = [ev(t, {x: v}) for v in d]
                    return (max(lo, min(vs)), min(hi, max(vs)))
            a = t.a
            if o in ('and', 'or', 'xor', 'shl', 'shr', 'mul', 'div', 'rem', 'min'):
                (l0, h0), (l1, h1) = self.rng(a[0]), self.rng(a[1])
                if l0 >= 0 and l1 >= 0:
                    if o == 'and': hi = min(hi, h0, h1); lo = max(lo, 0)
                    elif o in ('or', 'xor'): hi = min(hi, (1 << max(h0.bit_length(), h1.bit_length())) - 1); lo = max(lo, max(l0, l1) if o == 'or' else 0)
                    elif o == 'shr': hi = min(hi, h0 >> min(l1, 300)); lo = max(lo, l0 >> min(h1, 300))
                    elif o == 'shl' and h1 < 256:
                        m = h0 << h1
                        if m <= INT_RNG.get(ATOM_TY.get(t), (0, 2**64))[1]: hi = min(hi, m); lo = max(lo, l0 << l1)
                    elif o == 'mul': hi = min(hi, h0 * h1); lo = max(lo, l0 * l1)
                    elif o == 'div': hi = min(hi, h0 // max(l1, 1)); lo = max(lo, 0)
                    elif o == 'rem': hi = min(hi, max(h1 - 1, 0), h0); lo = max(lo, 0)
                    elif o == 'min': hi = min(hi, h0, h1); lo = max(lo, min(l0, l1))
            elif o == 'trunc': hi = min(hi, (1 << a[1]) - 1); lo = max(lo, 0)
        elif o == 'vsz':
            l, h = self.rng(t.a[0])
            lo = max(lo, vclass(l)); hi = min(hi, vclass(h))
        return (lo, hi)

    def prove_ge0(self, l, depth=3, used=()):
        if self.rng(l)[0] >= 0: return True
        if depth == 0 or l.op == 'int': return False
        c, ps = lin_parts(l)
        neg = {x: k for x, k in ps if (k > 0 and self.rng(x)[0] < 0 or k < 0)}
        for K in self.ge:
            if K in used: continue
            ck, pk = lin_parts(K)
            # K must help cancel a term of l that pulls the bound down
            hit = None
            for x, k in pk:
                kl = neg.get(x)
                if kl is not None and (kl < 0) == (k < 0): hit = True; break
            if hit is None:
                continue
            m = sub(l, K)
            if self.prove_ge0(m, depth - 1, used + (K,)): return True
        # min atoms: l containing -min(a,b) : replace by a or by b
        for x, k in ps:
            if x.op == 'min':
                for y in x.a:
                    if k < 0 and self.prove_ge0(add(l, sub(y, x), k), depth - 1, used): return True
                if k > 0 and all(self.prove_ge0(add(l, sub(y, x), k), depth - 1, used) for y in x.a): return True
        return False

    def decide(self, b):
        """True / False / None for a boolean term"""
        if b.op == 'int': return bool(b.a[0])
        v = self.bo.get(b)
        if v is not None: return v
        if b.op == 'not':
            r = self.decide(b.a[0]); return None if r is None else not r
        if b.op in ('and', 'or') and ATOM_TY.get(b) == 'bool':
            x, y = self.decide(b.a[0]), self.decide(b.a[1])
            if b.op == 'and':
                if x is False or y is False: return False
                if x and y: return True
            else:
                if x or y: return True
                if x is False and y is False: return False
        s = support(b)
        if len(s) <= 2 and s:
            r = self._fin(b, s)
            if r is not None:
                if r == {1}: return True
                if r == {0}: return False
                if not r: raise Infeasible()
                if len(s) == 1: return None
        if b.op == 'ge0':
            l = b.a[0]
            if self.prove_ge0(l): return True
            if self.prove_ge0(sub(I(-1), l)): return False
        elif b.op == 'eq0':
            l = b.a[0]
            lo, hi = self.rng(l)
            if lo > 0 or hi < 0: return False
            if lo == hi == 0: return True
            if self.prove_ge0(add(l, I(-1))) or self.prove_ge0(sub(I(-1), l)): return False
            if self.prove_ge0(l) and self.prove_ge0(scale(l, -1)): return True
        else:
            d = self.dom_of(b)
            if d is not None and len(d) == 1: return bool(next(iter(d)))
        return None
    def _fin(self, b, s):
        """set of values b takes over the finite domains of its support, or None when not finite"""
        s = tuple(s)
        ds = [self.dom_of(x) for x in s]
        if any(d is None for d in ds): return None
        n = 1
        for d in ds: n *= len(d)
        if n > 4096: return None
        if len(s) == 1:
            x = s[0]
            return {ev(b, {x: v}) for v in ds[0]}
        return {ev(b, {s[0]: v, s[1]: w}) for v in ds[0] for w in ds[1]}

    def const(self, t):
        """the integer t must equal, or None"""
        if t.op == 'int': return t.a[0]
        lo, hi = self.rng(t)
        if lo == hi: return lo
        s = support(t)
        if len(s) == 1 and t.op != 'lin' or len(s) == 1:
            r = self._fin(t, s)
            if r is not None and len(r) == 1: return next(iter(r))
        return None
    def values(self, t):
        """finite set of possible values, or None"""
        if t.op == 'int': return {t.a[0]}
        s = support(t)
        if len(s) in (1, 2): return self._fin(t, s)
        return None

    # -- updates (in place; caller owns the copy)
    def set_dom(self, x, d):
        if not d: raise Infeasible()
        self.dom[x] = frozenset(d); self._touch()
    def assume(self, b, val=True):
        """assume boolean term b has truth value val; raises Infeasible"""
        if b.op == 'int':
            if bool(b.a[0]) != val: raise Infeasible()
            return
        if b.op == 'not': return self.assume(b.a[0], not val)
        d = self.decide(b)
        if d is not None:
            if d != val: raise Infeasible()
            return
        if ATOM_TY.get(b) == 'bool':
            if b.op == 'and' and val:
                self.assume(b.a[0]); self.assume(b.a[1]); return
            if b.op == 'or' and not val:
                self.assume(b.a[0], False); self.assume(b.a[1], False); return
        s = support(b)
        if len(s) == 1:
            (x,) = s
            dm = self.dom_of(x)
            if dm is not None and len(dm) <= 256:
                if x is b: self.set_dom(x, {int(val)}); return
                self.set_dom(x, {v for v in dm if ev(b, {x: v}) == int(val)}); return
        self._touch()
        if b.op == 'ge0':
            l = b.a[0] if val else sub(I(-1), b.a[0])
            self._ge(l); return
        if b.op == 'eq0' and val:
            l = b.a[0]
            self._ge(l); self._ge(scale(l, -1)); self.bo[b] = True; self._touch(); return
        if b.op == 'eq0':
            # x != c at an interval end point
            l = b.a[0]
            lo, hi = self.rng(l)
            if lo == 0: self._ge(add(l, I(-1)))
            elif hi == 0: self._ge(add(scale(l, -1), I(-1)))
            self.bo[b] = False; self._touch(); return
        self.bo[b] = val; self._touch()
    def _ge(self, l):
        """l >= 0"""
        if self.rng(l)[1] < 0: raise Infeasible()
        c, ps = lin_parts(l)
        if not ps: return
        if len(ps) == 1:
            x, k = ps[0]
            if x.op == 'min' and k > 0:
                for y in x.a: self._ge(add(l, sub(y, x), k))
            lo, hi = self.iv.get(x, (-2**200, 2**200))
            if k > 0: lo = max(lo, -(c // k))          # k*x + c >= 0  ->  x >= ceil(-c/k)
            else: hi = min(hi, c // (-k))
            self.iv[x] = (lo, hi)
            self._touch()
            a, b = self.rng(x)
            if a > b: raise Infeasible()
            dm = self.dom_of(x)
            if dm is not None and x.op not in OPS:
                self.set_dom(x, {v for v in dm if lo <= v <= hi})
            return
        if l not in self.ge: self.ge = self.ge + (l,)
        self._touch()
        for x, k in ps:
            if k > 0 and x.op == 'min':
                for y in x.a: self._ge(add(l, sub(y, x), k))
    def prove_eq(self, a, b):
        if a is b: return True
        l = sub(a, b)
        if l is ZERO: return True
        return self.decide(eq0(l)) is True
