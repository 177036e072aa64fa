"""Path-sensitive abstract interpreter over dumped MIR (trace partitioning; values are hash-consed terms).

It never runs the program: every value is abstract, loops are summarised (bounded unrolling only when the
abstract state itself becomes finite), library calls are summarised by models, calls to followed functions
are inlined, and designated trait methods are replaced by contracts proved separately."""
from term import *
import term as TM

class Budget(Exception): pass
class Unsupported(Exception): pass

class State:
    __slots__ = ('mem', 'facts', 'trace', 'ctr')
    def __init__(self):
        self.mem = {}; self.facts = Facts(); self.trace = (); self.ctr = {}
    def copy(self):
        s = State(); s.mem = dict(self.mem); s.facts = self.facts.copy(); s.trace = self.trace; s.ctr = dict(self.ctr)
        return s
    def key(self):
        return (frozenset(self.mem.items()), self.facts.key(), self.trace, frozenset(self.ctr.items()))
    def fresh(self, ty, *key):
        n = self.ctr.get(key, 0); self.ctr[key] = n + 1
        return sym(ty, *(key + (n,)))
    def event(self, *e): self.trace = self.trace + (e,)

class Out:
    """one way a call can end"""
    __slots__ = ('st', 'kind', 'val', 'info')
    def __init__(self, st, kind, val=None, info=None):
        self.st = st; self.kind = kind; self.val = val; self.info = info

def ret(st, v): return [Out(st, 'ret', v)]

UNDEF = mk('undef')
PTR = {'core::pin::Pin'}

class Site:
    """a program point for reports: stable key without line numbers"""
    __slots__ = ('f', 'bb', 'what', 'loc', 'stack')
    def __init__(self, f, bb, what, loc, stack):
        self.f = f; self.bb = bb; self.what = what; self.loc = loc; self.stack = stack
    def key(self): return '%s|%s' % (self.f['p'], self.what)
    def text(self):
        return '%s:%s in %s: %s' % (self.f['file'], self.loc[0] if self.loc else '?', self.f['p'], self.what)
    def chain(self):
        return ['%s (%s:%s)' % (f['p'], f['file'], loc[0] if loc else '?') for f, loc in self.stack]

class Interp:
    def __init__(self, prog, hooks=(), max_steps=400000, unroll=8):
        self.prog = prog; self.prop_errs = ('InsufficientBuffer', 'BadProperty', 'BadMqttUtf8String', 'BadMqttVariableBytesInt')
        self.hooks = list(hooks)
        self.shapes = {}
        self.models = {}
        self.model_prefix = []
        self.steps = 0; self.max_steps = max_steps
        self.unroll = unroll
        self.stack = []            # [(f, loc)]
        self.unmodelled = {}
        self.analysed = set()      # functions interpreted
        self.nstates = 0
        self.field_hooks = []
        self.gen_hooks = []
        self.present_hooks = []
        self.back_hooks = []
        self.drop_hook = None; self.cond_trace = False
        self.panics = []
        self.loops_summarised = 0; self.textreads = 0
        self.adt_disc = {}
        self.tyreg = {}
        self.max_unroll_states = 48
        self.join_limit = 6000

    # ------------------------------------------------------------ types
    def reg(self, t, tyi):
        """attach type tyi to opaque term t"""
        if tyi is None: return t
        if t.op in ('int', 'adt', 'tup', 'ref', 'lin', 'str', 'clo', 'fn'): return t
        if t not in ATOM_TY:
            n = self.prog.tname(tyi)
            ATOM_TY[t] = n
            self.tyreg.setdefault(n, tyi)
            ty = self.prog.types[tyi]
            if ty['k'] == 'adt':
                ATOM_META[t] = ty['p']
        return t
    def adt_of(self, t):
        p = ATOM_META.get(t)
        if p is None and t.op == 'upd': return self.adt_of(t.a[0])
        return p
    def discs(self, path):
        r = self.adt_disc.get(path)
        if r is None:
            a = self.prog.adts.get(path)
            r = self.adt_disc[path] = [v['d'] for v in a['v']] if a else None
            if path == 'core::cmp::Ordering': r = self.adt_disc[path] = [-1, 0, 1]
        return r

    # ------------------------------------------------------------ memory
    def load(self, st, cell):
        v = st.mem.get(cell)
        if v is None:
            if cell[0] == 'M': return cell[1]
            return UNDEF
        return v
    def read(self, st, cell, proj):
        v = self.load(st, cell)
        for p in proj: v = self.project(v, p, st)
        return v
    def write(self, st, cell, proj, val):
        if not proj:
            if cell[0] == 'M' and cell[1] is val: st.mem.pop(cell, None)
            else: st.mem[cell] = val
            return
        base = self.load(st, cell)
        self.write(st, cell, (), self.update(base, proj, val, st))
    def update(self, v, proj, val, st):
        if not proj: return val
        p = proj[0]
        inner = self.update(self.project(v, p, st), proj[1:], val, st) if len(proj) > 1 else val
        if p[0] == 'f':
            i = p[1]
            if v.op == 'adt' and 2 + i < len(v.a):
                a = list(v.a); a[2 + i] = inner; return mk('adt', *a)
            if v.op == 'tup' and i < len(v.a):
                a = list(v.a); a[i] = inner; return mk('tup', *a)
            if v.op == 'clo':
                a = list(v.a); a[1 + i] = inner; return mk('clo', *a)
            if v.op == 'undef':
                return mk('upd', v, ('f', i, p[2]), inner)
            if v.op == 'ref' : return inner
        if p[0] == 'b' and v.op == 'box': return mk('box', inner)
        if p[0] == 'hm':
            from models import hm_set
            return hm_set(v, p[1], inner)
        if p[0] == 'ci' and v.op == 'arr' and not p[2]:
            a = list(v.a); a[p[1]] = inner; return mk('arr', *a)
        if p[0] == 'i' and v.op == 'arr' and p[1].op == 'int':
            a = list(v.a); a[p[1].a[0]] = inner; return mk('arr', *a)
        step = p[:3] if p[0] == 'f' else p
        # canonical chain of updates
        ups = []
        b = v
        while b.op == 'upd': ups.append((b.a[1], b.a[2])); b = b.a[0]
        ups = [(s, x) for s, x in ups if s != step] + [(step, inner)]
        ups.sort(key=lambda u: repr([y if not isinstance(y, T) else y.id for y in u[0]]))
        r = b
        for s, x in ups: r = mk('upd', r, s, x)
        m = ATOM_META.get(b)
        if m: ATOM_META[r] = m
        if b in ATOM_TY: ATOM_TY.setdefault(r, ATOM_TY[b])
        return r
    def project(self, v, p, st):
        k = p[0]
        if k == 'f':
            i, var, ty = p[1], p[2], p[3] if len(p) > 3 else None
            if v.op == 'adt':
                if var is not None and v.a[1] != var: raise Infeasible()
                if 2 + i < len(v.a): return v.a[2 + i]
                return UNDEF
            if v.op == 'tup': return v.a[i] if i < len(v.a) else UNDEF
            if v.op == 'clo': return v.a[1 + i] if 1 + i < len(v.a) else UNDEF
            if v.op == 'upd':
                b = v
                while b.op == 'upd':
                    if b.a[1] == ('f', i, var): return b.a[2]
                    b = b.a[0]
                if b.op == 'undef': return UNDEF
                return self.project(b, p, st)
            if v.op in ('ref', 'box'): return v       # Pin { pointer }
            if v.op == 'int' or v.op == 'undef': return UNDEF
            for h in self.field_hooks:
                r = h(self, st, v, p)
                if r is not None: return r
            t = mk('fld', v, var, i)
            self.reg(t, ty)
            return t
        if k == 'hm':
            from models import GET
            return GET(v, p[1])
        if k == 'b':
            if v.op == 'box': return v.a[0]
            return mk('unbox', v)
        if k == 'i' or k == 'ci':
            if v.op == 'arr' or v.op == 'bytes':
                n = len(v.a)
                idx = p[1].a[0] if k == 'i' and p[1].op == 'int' else (p[1] if k == 'ci' and not p[2] else n - p[1] if k == 'ci' else None)
                if idx is not None and 0 <= idx < n: return v.a[idx]
            idx = p[1] if k == 'i' else (I(p[1]) if not p[2] else mk('fromend', I(p[1])))
            if v.op == 'vec' and idx.op == 'int' and idx.a[0] < len(v.a):
                import models
                return models.vec_get(self, v, idx)
            for h in self.field_hooks:
                r = h(self, st, v, p)
                if r is not None: return r
            if v.op == 'utf8' or v.op == 'arcin' and ATOM_TY.get(v) == 'str': self.textreads += 1
            return mk('elem', v, idx)
        return mk('proj', v, p)

    def resolve(self, st, d, place, tyat=None):
        cell = ('L', d, place[0]); proj = (); var = None
        for e in place[1:]:
            if e == '*':
                v = self.read(st, cell, proj)
                var = None
                if v.op == 'ref': cell, proj = v.a[0], v.a[1]
                elif v.op == 'box': proj = proj + (('b',),)
                elif v.op == 'str': cell, proj = ('M', v), ()
                else:
                    t = mk('deref', v)
                    n = ATOM_TY.get(v)
                    if n and t not in ATOM_TY:
                        m = n[5:] if n.startswith('&mut ') else n[1:] if n.startswith('&') else None
                        if m:
                            ATOM_TY[t] = m
                            ti = self.tyreg.get(n)
                            if ti is not None:
                                e_ = self.prog.types[ti].get('e')
                                if e_ is not None:
                                    self.tyreg.setdefault(m, e_)
                                    if self.prog.types[e_]['k'] == 'adt': ATOM_META[t] = self.prog.types[e_]['p']
                    cell, proj = ('M', t), ()
            elif e[0] == 'd': var = e[1]
            elif e[0] == 'f':
                proj = proj + (('f', e[1], var, e[3] if len(e) > 3 else None),); var = None
            elif e[0] == 'i':
                proj = proj + (('i', st.mem.get(('L', d, e[1]), UNDEF)),)
            elif e[0] == 'ci': proj = proj + (('ci', e[1], e[2]),)
            else: proj = proj + (('ss',) + tuple(e[1:]),)
        return cell, proj

    def deref_cell(self, st, v):
        """(cell, proj) a reference value points to"""
        while True:
            if v.op == 'ref': return v.a[0], v.a[1]
            t = mk('deref', v)
            return ('M', t), ()
    def deref(self, st, v):
        """content behind (possibly nested) reference value v: one level"""
        if v.op == 'ref': return self.read(st, v.a[0], v.a[1])
        if v.op == 'str': return v
        if v.op == 'box': return v.a[0]
        t = mk('deref', v)
        n = ATOM_TY.get(v)
        if n and t not in ATOM_TY:
            m = n[5:] if n.startswith('&mut ') else n[1:] if n.startswith('&') else None
            if m:
                ATOM_TY[t] = m
                ti = self.tyreg.get(n)
                if ti is not None and self.prog.types[ti].get('e') is not None:
                    e_ = self.prog.types[ti]['e']
                    self.tyreg.setdefault(m, e_)
                    if self.prog.types[e_]['k'] == 'adt': ATOM_META[t] = self.prog.types[e_]['p']
        return self.load(st, ('M', t))
    def deref_all(self, st, v):
        """follow references until a non reference"""
        n = 0
        while v.op == 'ref' and n < 10:
            v = self.read(st, v.a[0], v.a[1]); n += 1
        return v
    def ref_to(self, val): return mk('ref', ('M', val), ())

    # ------------------------------------------------------------ constants / operands
    def const(self, st, c, d):
        k = c['k']
        if k == 'int':
            v = c['v']
            return I(v)
        if k == 'bool': return I(1 if c['v'] else 0)
        if k == 'str': return mk('str', c['v'])
        if k == 'bytes': return mk('arr', *[I(x) for x in c['v']]) if isinstance(c['v'], list) else mk('bstr', str(c['v']))
        if k == 'adt': return mk('adt', self.prog.types[c['t']]['p'], c['v'], *[self.const(st, x, d) for x in c['f']])
        if k == 'tup':
            ty = self.prog.types[c['t']] if c.get('t') is not None else {'k': 'tuple'}
            return mk('arr' if ty['k'] == 'array' else 'tup', *[self.const(st, x, d) for x in c['f']])
        if k == 'fn': return self.fnval(c['fn'])
        if k == 'zst':
            ty = self.prog.types[c['t']]
            if ty['k'] == 'closure': return mk('clo', ty['i'])
            if ty['k'] == 'fndef': return self.fnval(ty['fn'])
            if ty['k'] == 'adt': return mk('adt', ty['p'], 0)
            return UNIT
        if k == 'ref': return self.ref_to(self.const(st, c['v'], d))
        if k == 'promoted': return self.promoted(c)
        if k == 'static':
            return self.ref_to(mk('static', str(c.get('v') or c.get('name') or c.get('p'))))
        return mk('opaque', c.get('name') or ('%s@%s' % (k, self.prog.tname(c['t']) if c.get('t') is not None else '?')))
    FN = {}
    def fnval(self, fn):
        key = (fn.get('rp') or fn['p'], fn.get('r'), tuple(self.prog.tname(a) for a in fn.get('a', ()) if isinstance(a, int)))
        t = mk('fn', self.prog.crate, *key)
        Interp.FN[t] = fn
        return t
    _prom = {}
    def promoted(self, c):
        key = id(c['body'])
        r = Interp._prom.get(key)
        if r is not None: return r
        f = {'id': ('prom', key), 'p': '<promoted>', 'file': '', 'body': c['body'], 'kind': 'fn', 'line': [0, None], 'targs': []}
        D = 9000
        s = State()
        sub = self
        old = self.stack; self.stack = []
        outs = self.run(f, [], s, D, None, keep=True)
        self.stack = old
        o = [x for x in outs if x.kind == 'ret']
        if len(o) != 1: return mk('opaque', 'promoted', key)
        v = self.freeze(o[0].st, o[0].val)
        Interp._prom[key] = v
        return v
    def freeze(self, st, v, n=0):
        """turn references to (dead) frame cells into content addressed references"""
        if n > 20: return v
        if v.op == 'ref' and v.a[0][0] == 'L':
            return self.ref_to(self.freeze(st, self.read(st, v.a[0], v.a[1]), n + 1))
        if v.op in ('adt', 'tup', 'arr', 'clo', 'box', 'bytes'):
            return mk(v.op, *[self.freeze(st, x, n + 1) if isinstance(x, T) else x for x in v.a])
        return v
    def operand(self, st, o, d):
        k = o[0]
        if k == 'k': return self.const(st, o[1], d)
        if k == 'r': return mk('opaque', 'rtcheck')
        pl = o[1]
        cell, proj = self.resolve(st, d, pl)
        v = self.read(st, cell, proj)
        if k == 'm' and len(pl) == 1:
            st.mem.pop(cell, None)
        elif k == 'm' and self.drop_hook and st.ctr.get(('held',)) and self.owns(v):
            self.write(st, cell, proj, UNDEF)      # moved out: a later drop of the place releases nothing
        return v
    def owns(self, v): return False

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, r, d, f):
        k = r[0]
        if k == 'use': return self.operand(st, r[1], d)
        if k == 'ref':
            cell, proj = self.resolve(st, d, r[1])
            return mk('ref', cell, proj)
        if k == 'bin':
            a = self.operand(st, r[2], d); b = self.operand(st, r[3], d)
            return self.binop(st, r[1], a, b, self.prog.tname(r[4]) if r[4] is not None else None)
        if k == 'un':
            a = self.operand(st, r[2], d)
            op = r[1]
            tn = self.prog.tname(r[3]) if len(r) > 3 and r[3] is not None else None
            if op == 'Not':
                if is_bool(a) or tn == 'bool' or (a.op == 'int' and ATOM_TY.get(a) == 'bool'): return b_not(a)
                if a.op == 'int' and tn in BITS: return I(a.a[0] ^ ((1 << BITS[tn]) - 1))
                return typed(mk('bnot', a, BITS.get(tn, 64)), tn)
            if op == 'Neg': return scale(a, -1)
            if op == 'PtrMetadata': return self.length(st, self.deref(st, a))
            return typed(mk('un', op, a), tn)
        if k == 'cast': return self.cast(st, r, d, f)
        if k == 'disc':
            cell, proj = self.resolve(st, d, r[1])
            return self.disc(self.read(st, cell, proj), self.prog.tname(r[2]) if len(r) > 2 and r[2] is not None else None, r[2] if len(r) > 2 else None)
        if k == 'agg':
            kind = r[1]; ops = [self.operand(st, o, d) for o in r[2]]
            if kind[0] == 'adt':
                if len(kind) > 4 and kind[4] is not None:      # union field
                    return ops[0]
                return mk('adt', kind[1], kind[2], *ops)
            if kind[0] == 'tuple': return mk('tup', *ops)
            if kind[0] == 'array': return mk('arr', *ops)
            if kind[0] in ('closure', 'coroutine'):
                return mk('clo', kind[2] if len(kind) > 2 and kind[2] is not None else str(kind[1]), *ops)
            return mk('agg', str(kind), *ops)
        if k == 'rep':
            return mk('rep', self.operand(st, r[1], d), str(r[2]) if len(r) > 2 else '')
        return mk('opaque', 'rv', str(r)[:80])

    def disc(self, v, tyname=None, tyi=None):
        b = v
        while b.op == 'upd': b = b.a[0]
        if b.op == 'adt':
            ds = self.discs(b.a[0])
            return I(ds[b.a[1]]) if ds and b.a[1] < len(ds) else I(b.a[1])
        if b.op == 'int': return b        # already an integer representation
        t = mk('disc', b)
        if t not in ATOM_DOM:
            p = self.adt_of(b)
            if p is None and tyi is not None and self.prog.types[tyi]['k'] == 'adt':
                p = self.prog.types[tyi]['p']
                self.reg(b, tyi)
            ds = self.discs(p) if p else None
            if ds: ATOM_DOM[t] = frozenset(ds)
        return t
    def cast(self, st, r, d, f):
        kind = r[1]; a = self.operand(st, r[2], d)
        fr, to = self.prog.tname(r[3]), self.prog.tname(r[4])
        if kind == 'IntToInt':
            if fr in INT_RNG and to in INT_RNG:
                lo, hi = st.facts.rng(a); l2, h2 = INT_RNG[to]
                lo = max(lo, INT_RNG[fr][0]); hi = min(hi, INT_RNG[fr][1])
                if l2 <= lo and hi <= h2: return a
                if a.op == 'lin' and (l2 <= lo or st.facts.prove_ge0(sub(a, I(l2)))) and (hi <= h2 or st.facts.prove_ge0(sub(I(h2), a))): return a
                if a.op == 'int': return I(a.a[0] & ((1 << BITS[to]) - 1)) if to in BITS and to[0] == 'u' else a
                t = mk('trunc', a, BITS.get(to, 64))
                return typed(t, to)
            if fr not in INT_RNG and to in INT_RNG:       # enum as int
                return self.disc(a, fr, r[3])
            return a
        if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'Transmute', 'BoxDerefTransmute', 'Subtype'):
            return a
        return mk('cast', kind, a, to)

    CMP = {'Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'}
    def binop(self, st, op, a, b, tn):
        if op in self.CMP:
            if op in ('Eq', 'Ne'):
                r = eq0(sub(a, b)) if self.intlike(a) and self.intlike(b) else mk('eqt', a, b)
                return b_not(r) if op == 'Ne' else r
            if op == 'Lt': return ge0(add(sub(b, a), I(-1)))
            if op == 'Le': return ge0(sub(b, a))
            if op == 'Gt': return ge0(add(sub(a, b), I(-1)))
            return ge0(sub(a, b))
        if op.endswith('WithOverflow'):
            v = self.arith(op[:-12], a, b, tn)
            lo, hi = INT_RNG.get(tn, (0, 2**64 - 1))
            ovf = mk('ovf', v, tn)
            return mk('tup', v, ovf)
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            return self.arith(op.replace('Unchecked', ''), a, b, tn)
        if op == 'Div': return bit('div', a, b, tn)
        if op == 'Rem': return bit('rem', a, b, tn)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if tn == 'bool' or (is_bool(a) and is_bool(b)):
                if op == 'BitAnd': return b_and(a, b)
                if op == 'BitOr': return b_or(a, b)
                if b.op == 'int': return b_not(a) if b.a[0] else a
                if a.op == 'int': return b_not(b) if a.a[0] else b
            return bit({'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}[op], a, b, tn)
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            return bit('shl' if op.startswith('Shl') else 'shr', a, b, tn)
        if op == 'Cmp': return mk('cmp3', a, b)
        return mk('binop', op, a, b)
    def intlike(self, t):
        return t.op not in ('adt', 'tup', 'str', 'ref', 'clo', 'fn', 'arr', 'box', 'undef')
    def arith(self, op, a, b, tn):
        if op == 'Add': return add(a, b)
        if op == 'Sub': return sub(a, b)
        return bit('mul', a, b, tn)

    def length(self, st, v):
        if v.op == 'str': return I(len(v.a[0].encode()))
        if v.op in ('arr', 'bytes'): return I(len(v.a))
        if v.op == 'vec': return v.a[0]
        for h in self.field_hooks:
            r = h(self, st, v, ('len',))
            if r is not None: return r
        t = typed(mk('len', v), 'usize')
        ATOM_RNG.setdefault(t, (0, 2**48))
        return t

    def srclen(self, st, src): return self.length(st, src)

    # ------------------------------------------------------------ execution
    def site(self, f, bb, what, loc):
        return Site(f, bb, what, loc, list(self.stack))

    def run(self, f, args, st, depth, loc, keep=False):
        """abstractly execute function f; returns list of Out"""
        if len(self.stack) > 60: raise Unsupported('depth')
        self.analysed.add(f['p'])
        import loopgen; loopgen.CUR[0] = self
        body = f['body']
        st = st.copy()
        if body.get('spread') is not None:
            pass
        for i, a in enumerate(args): st.mem[('L', depth, i + 1)] = a
        self.stack.append((f, loc))
        try:
            out = []
            cfg = self.prog.cfg(f)
            backs, exits = self.region(f, cfg, None, None, [(0, st)], depth, out)
        finally:
            self.stack.pop()
        # drop the frame
        res = []; seen = set()
        for o in out:
            m = o.st.mem
            if not keep:
                for c in [c for c in m if c[0] == 'L' and c[1] == depth]: del m[c]
            if o.kind == 'ret':
                k = (o.kind, o.val, o.st.key())
                if k in seen: continue
                seen.add(k)
            res.append(o)
        return res

    def region(self, f, cfg, blocks, header, starts, depth, out, first=True):
        pend = {}
        def push(b, s):
            pend.setdefault(b, {}).setdefault(s.key(), s)
        for b, s in starts: push(b, s)
        backs = {}; exits = {}
        rpo = cfg.rpo
        while pend:
            b = min(pend, key=lambda x: rpo[x])
            sts = list(pend.pop(b).values())
            if b in cfg.loops and b != header:
                # merge is done by dedupe; summarise the loop for each entry state
                for s in sts:
                    for (eb, es) in self.loop(f, cfg, b, s, depth, out):
                        if header is not None and eb == header: backs.setdefault(es.key(), es)
                        elif blocks is not None and eb not in blocks: exits.setdefault((eb, es.key()), (eb, es))
                        else: push(eb, es)
                continue
            if len(sts) > self.join_limit:
                sts = self.join(sts)
            for s in sts:
                for (nb, ns) in self.block(f, b, s, depth, out):
                    if nb == header: backs.setdefault(ns.key(), ns)
                    elif blocks is not None and nb not in blocks: exits.setdefault((nb, ns.key()), (nb, ns))
                    else: push(nb, ns)
        return list(backs.values()), list(exits.values())

    def join(self, sts):
        """too many states at one point: join those with the same trace"""
        raise Budget('too many states')

    def block(self, f, b, st, depth, out):
        self.steps += 1
        if self.steps > self.max_steps: raise Budget('steps')
        stmts, term = f['body']['blocks'][b]
        st = st.copy()
        try:
            for s in stmts:
                k = s[0]
                if k == '=':
                    v = self.rvalue(st, s[2], depth, f)
                    pl = s[1]
                    if len(pl) == 1: st.mem[('L', depth, pl[0])] = v
                    else:
                        cell, proj = self.resolve(st, depth, pl)
                        self.write(st, cell, proj, v)
                    if v.op not in ('int', 'adt', 'tup', 'ref', 'lin', 'str', 'clo', 'fn') and v not in ATOM_TY and len(pl) == 1:
                        self.reg(v, f['body']['locals'][pl[0]][0])
                elif k in ('dead', 'live'):
                    st.mem.pop(('L', depth, s[1]), None)
                elif k == 'assume':
                    v = self.operand(st, s[1], depth)
                    if self.intlike(v): st.facts.assume(v)
            return self.term(f, b, term, st, depth, out)
        except Infeasible:
            return []

    def branch(self, st, cond):
        """[(state, bool)] for the feasible truth values of cond"""
        try: d = st.facts.decide(cond)
        except Infeasible: return []
        if d is not None: return [(st, d)]
        r = []
        for v in (True, False):
            s = st.copy()
            try: s.facts.assume(cond, v)
            except Infeasible: continue
            r.append((s, v))
        if self.cond_trace and len(r) > 1:
            for s, v in r: s.trace = s.trace + (('cond', cond, v),)
        return r

    def term(self, f, b, t, st, depth, out):
        k = t[0]
        if k == 'goto': return [(t[1], st)]
        if k == 'ret':
            v = st.mem.get(('L', depth, 0), UNIT)
            out.append(Out(st, 'ret', v)); return []
        if k == 'unreachable': return []
        if k == 'switch':
            v = self.operand(st, t[1], depth)
            return self.switch(f, b, t, st, v)
        if k == 'drop':
            if self.drop_hook:
                cell, proj = self.resolve(st, depth, t[1])
                base = st.mem.get(('L', depth, t[1][0]))
                if base is not None:
                    try: v = self.read(st, cell, proj)
                    except Infeasible: v = UNDEF
                    self.drop_hook(self, st, v, f, b, t)
            if len(t[1]) == 1: st.mem.pop(('L', depth, t[1][0]), None)
            return [(t[2], st)]
        if k == 'assert':
            c = self.operand(st, t[1], depth)
            exp = bool(t[2]) if not isinstance(t[2], bool) else t[2]
            res = []
            if c.op == 'ovf':
                v, tn = c.a
                lo, hi = INT_RNG.get(tn, (0, 2**64 - 1))
                bad = b_or(ge0(sub(I(lo - 1), v)), ge0(sub(v, I(hi + 1))))
                if st.facts.prove_ge0(sub(v, I(lo))) and st.facts.prove_ge0(sub(I(hi), v)):
                    return [(t[5], st)]
                s2 = st.copy()
                try:
                    s2.facts.assume(bad)
                    self.panic(s2, f, b, t[3], t[6] if len(t) > 6 else None, out)
                except Infeasible: pass
                try:
                    st.facts.assume(ge0(sub(v, I(lo)))); st.facts.assume(ge0(sub(I(hi), v)))
                except Infeasible: return []
                return [(t[5], st)]
            if not self.intlike(c): return [(t[5], st)]
            for s, val in self.branch(st, c):
                if val == exp: res.append((t[5], s))
                else: self.panic(s, f, b, t[3], t[6] if len(t) > 6 else None, out)
            return res
        if k == 'call': return self.call(f, b, t, st, depth, out)
        if k == 'yield':
            st.event('yield', f['p'])
            out.append(Out(st, 'yield', None)); return []
        return []

    def panic(self, st, f, b, what, loc, out, kind='panic'):
        s = self.site(f, b, what, loc)
        out.append(Out(st, 'panic', None, s))

    def switch(self, f, b, t, st, v):
        cases, other = t[2], t[3]
        if v.op == 'int':
            for n, bb in cases:
                if n == v.a[0] or v.a[0] < 0 and n - 256 == v.a[0]: return [(bb, st)]
            return [(other, st)] if other is not None else []
        if not self.intlike(v):
            v = mk('swv', v)
        res = []
        rest = st
        vals = None
        try: vals = st.facts.values(v)
        except Infeasible: return []
        alive = True
        for n, bb in cases:
            if vals is not None and n not in vals: continue
            c = eq0(sub(v, I(n)))
            try:
                d = rest.facts.decide(c)
            except Infeasible: alive = False; break
            if d is False: continue
            if d is True:
                res.append((bb, rest)); alive = False; break
            s = rest.copy()
            try:
                s.facts.assume(c); res.append((bb, s))
                if self.cond_trace: s.trace = s.trace + (('cond', c, True),)
            except Infeasible: pass
            rest = rest.copy()
            if self.cond_trace: rest.trace = rest.trace + (('cond', c, False),)
            try: rest.facts.assume(c, False)
            except Infeasible: alive = False; break
        if alive and other is not None:
            if vals is None or (vals - {n for n, _ in cases}):
                res.append((other, rest))
        return res

    # ------------------------------------------------------------ calls
    def call(self, f, b, t, st, depth, out):
        callee, args_o, dest, target, loc = t[1], t[2], t[3], t[4], t[5]
        args = [self.operand(st, o, depth) for o in args_o]
        retty = t[6] if len(t) > 6 else None
        outs = self.invoke(f, b, callee, args, st, depth, loc, retty, t[7] if len(t) > 7 else None)
        res = []
        for o in outs:
            if o.kind == 'ret':
                if target is None: self.unmodelled["return from diverging call of " + str(callee.get("p"))] = 1; continue
                s = o.st
                v = o.val
                if v.op not in ('int', 'adt', 'tup', 'ref', 'lin', 'str', 'clo', 'fn') and v not in ATOM_TY: self.reg(v, retty)
                if len(dest) == 1: s.mem[('L', depth, dest[0])] = v
                else:
                    cell, proj = self.resolve(s, depth, dest)
                    self.write(s, cell, proj, v)
                res.append((target, s))
            else:
                out.append(o)
        return res

    def invoke(self, f, b, callee, args, st, depth, loc, retty, argtys=None):
        if not isinstance(callee, dict):
            fv = self.operand(st, callee, depth)
            return self.call_value(f, b, fv, args, st, depth, loc, retty)
        if callee['p'].startswith('core::ops::function::Fn') and len(args) == 2 and args[1].op == 'tup' and callee['p'].rsplit('::', 1)[1] in ('call', 'call_mut', 'call_once'):
            return self.call_value(f, b, args[0], list(args[1].a), st, depth, loc, retty)
        ctx = Ctx(self, f, b, callee, args, st, depth, loc, retty, argtys)
        for h in self.hooks:
            r = h(ctx)
            if r is not None: return r
        for p in (callee.get('rp'), callee['p']):
            if p is None: continue
            m = self.models.get(p)
            if m is not None:
                r = m(ctx)
                if r is not None: return r
        if callee.get('r') is not None:
            g = self.prog.insts[callee['r']]
            if g is not None:
                return self.inline(g, args, st, depth, loc)
        return self.unknown(ctx)

    def inline(self, g, args, st, depth, loc):
        n = sum(1 for x, _ in self.stack if x is g)
        if n >= 2: raise Unsupported('recursion: ' + g['p'])
        n0 = st.ctr.get(('textloop',), 0)
        outs = self.run(g, args, st, depth + 1, loc)
        if any(o.st.ctr.get(('textloop',), 0) != n0 for o in outs): outs = self.same_outcome(g, args, st, outs, n0)
        return outs
    def same_outcome(self, g, args, st, outs, n0):
        """a function that scans a text and has no other input gives the same kind of result for the same text"""
        P = self.prog; body = g['body']
        for i in range(1, body['args'] + 1):
            if P.tname(body['locals'][i][0]).startswith('&mut'): return outs
        if any(o.kind != 'ret' for o in outs): return outs
        av = [self.deref_all(st, a) if a.op == 'ref' else a for a in args]
        a = mk('outcome', g['p'], *av); res = []
        ids = self.shapes.setdefault(g['p'], {})
        for o in outs:
            k = ids.setdefault(shape(o.val), len(ids))
            s = o.st.copy(); s.ctr = dict(s.ctr)
            if n0: s.ctr[('textloop',)] = n0
            else: s.ctr.pop(('textloop',), None)
            old = s.facts.dom.get(a)
            if old is not None and k not in old: continue
            s.facts.set_dom(a, {k})
            res.append(Out(s, 'ret', o.val))
        return res

    def call_value(self, f, b, fv, args, st, depth, loc, retty):
        """call a function value (closure, fn item) with already untupled args"""
        if fv.op == 'ref':
            inner = self.read(st, fv.a[0], fv.a[1])
            if inner.op in ('clo', 'fn'):
                if inner.op == 'fn': fv = inner
                else:
                    g = self.prog.insts[inner.a[0]]
                    byref = self.prog.types[g['body']['locals'][1][0]]['k'] == 'ref'
                    return self.run(g, [fv if byref else inner] + args, st, depth + 1, loc)
            elif inner.op == 'ref': return self.call_value(f, b, inner, args, st, depth, loc, retty)
        if fv.op == 'clo' and isinstance(fv.a[0], int):
            g = self.prog.insts[fv.a[0]]
            byref = self.prog.types[g['body']['locals'][1][0]]['k'] == 'ref'
            if byref:
                s = st.copy()
                cell = ('C', depth, fv.a[0])
                s.mem[cell] = fv
                outs = self.run(g, [mk('ref', cell, ())] + args, s, depth + 1, loc)
                for o in outs: o.st.mem.pop(cell, None)
                return outs
            return self.run(g, [fv] + args, st, depth + 1, loc)
        if fv.op == 'fn':
            return self.invoke(f, b, Interp.FN[fv], args, st, depth, loc, retty)
        ctx = Ctx(self, f, b, {'p': '<indirect call>', 'r': None, 'a': []}, [fv] + args, st, depth, loc, retty, None)
        return self.unknown(ctx)

    def unknown(self, ctx):
        p = ctx.path
        self.unmodelled[p] = self.unmodelled.get(p, 0) + 1
        st = ctx.st.copy()
        st.ctr[('tainted',)] = 1
        # havoc what mutable references reach
        for i, a in enumerate(ctx.args):
            mut = False
            if a.op == 'ref':
                ty = ctx.argty(i)
                if ty is None or ty.startswith('&mut '):
                    self.write(st, a.a[0], a.a[1], st.fresh(None, 'havoc', ctx.f['p'], ctx.b, i))
        if ctx.retty is not None and self.prog.tname(ctx.retty) == 'never': return []
        v = st.fresh(None, 'call', p, ctx.f['p'], ctx.b)
        return ret(st, self.reg(v, ctx.retty))

    # ------------------------------------------------------------ loops
    def loop(self, f, cfg, h, st, depth, out):
        body = cfg.loops[h]
        def step(states, o):
            return self.region(f, cfg, body, h, [(h, s) for s in states], depth, o)
        return self.gloop(f, h, st, depth, out, step)

    def gloop(self, f, h, st, depth, out, step):
        """drive one loop: step(states, outs) -> (back-edge states, exits [(target, state)])"""
        o1 = []; tr = self.textreads
        backs, exits = step([st], o1)
        if not backs:
            out.extend(o1); return exits
        if self.promising(st, backs):
            r = self.try_unroll(step, st, o1, backs, exits)
            if r is not None:
                out.extend(r[0]); return r[1]
        self.loops_summarised += 1
        st = st.copy(); lk = ('lp', f['p'], h, depth); st.ctr[lk] = st.ctr.get(lk, 0) + 1
        o1 = []
        backs, exits = step([st], o1)
        H = st; prev = None
        for it in range(8):
            nH = self.generalise(f, h, depth, st, H, backs, it)
            if prev is not None and nH.key() == prev.key():
                break
            prev = nH; H = nH
            o1 = []
            backs, exits = step([H], o1)
            if not backs: break
        else:
            H = st.copy(); H.ctr[('tainted',)] = 1
            self.unmodelled['loop in ' + f['p']] = self.unmodelled.get('loop in ' + f['p'], 0) + 1
            for _ in range(6):
                ch = {c for s in backs for c, v in H.mem.items() if s.mem.get(c) is not v and not (v.op == 'sym' and v.a[0] == 'havoc')}
                if not ch: break
                for c in ch: H.mem[c] = H.fresh(None, 'havoc', f['p'], h, str(c))
                o1 = []
                backs, exits = step([H], o1)
            else: raise Unsupported('loop does not stabilise in ' + f['p'])
        out.extend(o1)
        if self.textreads != tr or any(text_iter(v) for v in st.mem.values()):
            for _, s in exits: s.ctr = dict(s.ctr); s.ctr[('textloop',)] = 1
            for o in o1: o.st.ctr = dict(o.st.ctr); o.st.ctr[('textloop',)] = 1
        return exits

    def promising(self, st, backs):
        for s in backs:
            for c, v in st.mem.items():
                if c[0] == 'M': continue
                w = s.mem.get(c)
                if w is None or w is v: continue
                if self._prom1(st, v, s, w): return True
        return False
    def _prom1(self, st, v, s, w, n=0):
        if v is w: return False
        if v.op == 'mon' and w.op == 'mon': return True
        if v.op == 'int' and w.op == 'int': return True
        if v.op == 'iter' and w.op == 'iter': return v.a[0] is w.a[0] and (v.a[0].op == 'arr' or v.a[0].op == 'vec' and v.a[0].a[0].op == 'int') and v.a[1].op == w.a[1].op == 'int'
        if v.op in ('w', 'toks') and w.op == 'toks' and len(w.a) < len(v.a): return not any(x.op in ('pstar', 'was', 'unk') and x.a[0].op != 'vec' for x in w.a[1:])
        if v.op in ('adt', 'tup') and w.op == v.op and len(v.a) == len(w.a) and n < 4:
            return any(self._prom1(st, x, s, y, n + 1) for x, y in zip(v.a, w.a) if isinstance(x, T) and isinstance(y, T)) \
                or (v.op == 'adt' and v.a[1] != w.a[1])
        if v.op == 'adt' and w.op == 'adt' and v.a[1] != w.a[1]: return True
        if self.intlike(v) and self.intlike(w) and w.op in OPS and w.op != 'lin':
            r0, r1 = st.facts.rng(v), s.facts.rng(w)
            if r0[0] >= 0 and r1[1] < r0[1] and r1[1] < 2**33: return True
        return False
    def try_unroll(self, step, st, o1, backs, exits):
        seen = {st.key()}
        outs = list(o1); exits = {(b, s.key()): (b, s) for b, s in exits}
        cur = backs
        for it in range(self.unroll):
            cur = [s for s in cur if s.key() not in seen]
            if not cur: return outs, list(exits.values())
            if len(cur) > self.max_unroll_states: return None
            for s in cur: seen.add(s.key())
            o = []
            nb, ne = step(cur, o)
            outs += o
            for b, s in ne: exits.setdefault((b, s.key()), (b, s))
            cur = nb
        cur = [s for s in cur if s.key() not in seen]
        if not cur: return outs, list(exits.values())
        return None

    def generalise(self, f, h, depth, st0, H, backs, it):
        from loopgen import generalise
        self.loop_entry = st0
        for k in self.back_hooks: k(self, f, h, H, backs)
        n = generalise(self, f, h, depth, st0, H, backs, it)
        for k in self.gen_hooks: k(self, f, h, n)
        return n

def shape(v):
    if v.op == 'int': return v.a[0]
    if v.op == 'adt': return (v.a[0], v.a[1]) + tuple(shape(x) for x in v.a[2:] if isinstance(x, T))
    if v.op == 'tup': return tuple(shape(x) for x in v.a)
    return '*'
def text_iter(v, n=0):
    if not isinstance(v, T) or n > 4: return False
    if v.op == 'iter': return v.a[2] in ('chars', 'bytes', 'split')
    return v.op in ('itpeek', 'itmap', 'itfilter', 'itenum', 'itchain', 'itcloned', 'adt', 'tup') and any(text_iter(x, n + 1) for x in v.a)

class Ctx:
    """a call being modelled"""
    __slots__ = ('I', 'f', 'b', 'callee', 'args', 'st', 'depth', 'loc', 'retty', 'argtys')
    def __init__(self, I, f, b, callee, args, st, depth, loc, retty, argtys):
        self.I = I; self.f = f; self.b = b; self.callee = callee; self.args = args; self.st = st
        self.depth = depth; self.loc = loc; self.retty = retty; self.argtys = argtys
    @property
    def path(self): return self.callee.get('rp') or self.callee['p']
    def targ(self, i):
        a = self.callee.get('a') or []
        return self.I.prog.tname(a[i]) if i < len(a) and isinstance(a[i], int) else None
    def argty(self, i):
        if self.argtys and i < len(self.argtys) and self.argtys[i] is not None: return self.I.prog.tname(self.argtys[i])
        return None
    def rettyname(self): return self.I.prog.tname(self.retty) if self.retty is not None else None
    def fresh(self, st, tag, ty=None):
        return st.fresh(ty, tag, self.f['p'], self.b)
    def freshret(self, st, tag='call'):
        v = st.fresh(None, tag, self.f['p'], self.b)
        return self.I.reg(v, self.retty)
    def site(self, what=None): return self.I.site(self.f, self.b, what or self.path, self.loc)
    def panic(self, st, what):
        return Out(st, 'panic', None, self.site(what))
    def call(self, fv, args, st=None):
        return self.I.call_value(self.f, self.b, fv, args, st or self.st, self.depth, self.loc, None)
