"""Contracts of the length-bearing data types.  Each contract is proved from the code (prove_*), and used in
place of the code when whole packets are analysed."""
import re
from term import *
from interp import *
import models
from models import *

PK = 'apiformes_packet::'
VB = PK + 'data::MqttVariableBytesInt'
PROPS = PK + 'props::Properties'
PRS = PK + 'parsable::'
ERR = PK + 'error::DataParseError'
def deser(t): return '<%s as %sMqttDeserialize>::deserialize' % (t, PRS)
def sizef(t): return '<%s as %sMqttSize>::size' % (t, PRS)
def ser(t): return '<%s as %sMqttSerialize>::serialize' % (t, PRS)

def variant(P, adt, name):
    for i, v in enumerate(P.adts[adt]['v']):
        if v['n'] == name: return i
    raise KeyError(name)
def errname(P, v):
    """variant name of a DataParseError value, or None"""
    return P.adts[ERR]['v'][v.a[1]]['n'] if v.op == 'adt' and v.a[0] == ERR else None
def insufficient(I_, *k):
    t1 = mk('ins', 'needed', *k); t2 = mk('ins', 'available', *k)
    for t in (t1, t2): ATOM_TY.setdefault(t, 'usize')
    return mk('adt', ERR, variant(I_.prog, ERR, 'InsufficientBuffer'), t1, t2)
def err(I_, n): return mk('adt', ERR, variant(I_.prog, ERR, n))

def heads(I_, st, buf):
    """[(state, head)]: where the next byte of buf comes from: ('tok', token) | ('src', source, offset) | None"""
    o = buf.op
    if o == 'ref': return heads(I_, st, buf_loc(I_, st, buf)[1])
    if o == 'take': return heads(I_, st, buf.a[0])
    if o == 'chain':
        r = []
        for s, z in I_.branch(st, eq0(remaining(I_, st, buf.a[0]))):
            r += heads(I_, s, buf.a[1] if z else buf.a[0])
        return r
    if o == 'stream': return [(st, ('src', mk('st', buf.a[0]), buf.a[1]))]
    if o == 'bsub': return [(st, ('src', buf.a[0], buf.a[1]))]
    tv = as_toks(buf)
    if tv is not None: return [(st, ('tok', tv.a[1]) if len(tv.a) > 1 else None)]
    return [(st, ('src', buf, ZERO))]

def vival(src, off):
    x = mk('viv', src, off); ATOM_TY.setdefault(x, 'u32'); ATOM_RNG.setdefault(x, (0, 0xfffffff)); return x
def mkvb(I_, x): return mk('adt', VB, 0, x)

def take_n(I_, s, loc, buf, n):
    r = []
    for s2, w, ps in consume(I_, s, buf, n):
        s2 = s2.copy(); I_.write(s2, loc[0], loc[1], w); r.append(s2)
    return r

def c_vdes(c):
    I_ = c.I; outs = []
    loc, buf0 = buf_loc(I_, c.st, c.args[0])
    for st, h in heads(I_, c.st, buf0):
        buf = I_.read(st, *loc)
        rem = remaining(I_, st, buf)
        if h is None:
            outs.append(Out(st, 'ret', Err(insufficient(I_, 'empty')))); continue
        if h[0] == 'tok':
            t = h[1]
            if t.op == 'vi':
                n = VSZ(t.a[0])
                for s, ok in I_.branch(st, ge0(sub(rem, n))):
                    if ok:
                        for s2 in take_n(I_, s, loc, buf, n): outs.append(Out(s2, 'ret', Ok(mkvb(I_, t.a[0]))))
                    else: outs.append(Out(s, 'ret', Err(insufficient(I_, 'vtok', t))))
                continue
            if t.op == 'u' and t.a[0] == 1 and st.facts.prove_ge0(sub(I(127), t.a[1])):
                outs += [Out(s2, 'ret', Ok(mkvb(I_, t.a[1]))) for s2 in take_n(I_, st, loc, buf, ONE)]; continue
            src, off = mk('tokv', t), ZERO
            I_.unmodelled['varint read from a non-varint token'] = 1
        else: src, off = h[1], h[2]
        x = vival(src, off); n = VSZ(x)
        bad = typed(mk('vibad', src, off), 'bool')
        for s, b in I_.branch(st, bad):
            if b:
                k = mk('vbk', src, off); ATOM_TY.setdefault(k, 'usize'); ATOM_RNG.setdefault(k, (2, 4))
                s = s.copy()
                try: s.facts._ge(sub(rem, k))
                except Infeasible: continue
                for s2 in take_n(I_, s, loc, buf, k): outs.append(Out(s2, 'ret', Err(err(I_, 'BadMqttVariableBytesInt'))))
                continue
            for s2, short in I_.branch(s, typed(mk('vishort', src, off, rem), 'bool')):
                s2 = s2.copy()
                try:
                    if short:
                        s2.facts._ge(sub(I(3), rem))
                        outs += [Out(s3, 'ret', Err(insufficient(I_, 'varint', src, off))) for s3 in take_n(I_, s2, loc, buf, rem)]
                    else:
                        s2.facts._ge(sub(rem, n))
                        outs += [Out(s3, 'ret', Ok(mkvb(I_, x))) for s3 in take_n(I_, s2, loc, buf, n)]
                except Infeasible: pass
    return outs
def c_vsize(c):
    v = c.I.deref_all(c.st, c.args[0])
    v = v if v.op == 'adt' else c.I.deref(c.st, c.args[0])
    return ret(c.st, VSZ(c.I.project(v, ('f', 0, None, None), c.st)))
def c_vser(c):
    v = c.I.deref_all(c.st, c.args[0])
    v = v if v.op == 'adt' else c.I.deref(c.st, c.args[0])
    x = c.I.project(v, ('f', 0, None, None), c.st)
    return put(c, mk('vi', x), VSZ(x), 1)

VARINT = {deser(VB): c_vdes, sizef(VB): c_vsize, ser(VB): c_vser}

def interp(P, *contracts, **kw):
    I_ = Interp(P, hooks=list(ALLHOOKS), **kw)
    I_.models = dict(M)
    for c in contracts: I_.models.update(c)
    I_.field_hooks = [len_hook]
    return I_

# ------------------------------------------------------------------ property values and property tables
PV = PK + 'props::MqttPropValue'
PKEY = PK + 'props::Property'
POWN = PK + 'props::PropOwner'
def find_fn(P, path):
    fs = P.by_path.get(path) or []
    return next((f for f in fs if f.get('body')), None)
def find_impl(P, trait, m, ty):
    """method m of a trait as implemented for type ty, through a blanket implementation if there is one"""
    f = find_fn(P, '<%s as %s>::%s' % (ty, trait, m))
    if f: return f
    for p, fs in P.by_path.items():
        if p.endswith(' as %s>::%s' % (trait, m)) and re.match(r'<[A-Z] as', p):
            for f in fs:
                if f.get('body') and f.get('targs') and P.tname(f['targs'][0]) == ty: return f
    return None
def props_fields(P):
    """(size, owner, map) field indices of Properties, found by type"""
    fs = P.adts[PROPS]['v'][0]['f']
    r = [None, None, None]
    for i, fl in enumerate(fs):
        n = P.tname(fl['ti'])
        if n == 'usize': r[0] = i
        elif 'HashMap' in n: r[2] = i
        elif n == POWN: r[1] = i
    if None in r or len(fs) != 3: raise Unsupported('Properties is not {size, owners, map} any more')
    return r
def pvsz(v):
    t = mk('pvsz', v); ATOM_TY.setdefault(t, 'usize'); ATOM_RNG.setdefault(t, (1, 131074)); return t
def opaque(v):
    return v.op in ('elem', 'hmget', 'fi', 'fj', 'hmval', 'sym', 'fld', 'deref')
def c_pvsize(c):
    v = c.I.deref_all(c.st, c.args[0]) if c.args[0].op == 'ref' else c.I.deref(c.st, c.args[0])
    if opaque(v): return ret(c.st, pvsz(v))
    return None
def c_pvser(c):
    v = c.I.deref_all(c.st, c.args[0]) if c.args[0].op == 'ref' else c.I.deref(c.st, c.args[0])
    if opaque(v): return put2(c, mk('pv', v), pvsz(v))
    return None
def put2(c, tok, n): return put(c, tok, n, 1)
PVC = {sizef(PV): c_pvsize, ser(PV): c_pvser}

class TableInv:
    """class invariant of Properties: `size` is the number of bytes its entries serialise to, every entry has at
    least one value, and an entry that may not repeat has exactly one."""
    def __init__(self, P):
        self.P = P; self.fi = props_fields(P)
        self.pairs = {}
        self.fails = []; self.checked = 0
        self._ks = {}; self._multi = {}
    def install(self, I_):
        I_.present_hooks.append(self.present)
        I_.gen_hooks.append(self.gen)
        I_.back_hooks.append(self.back)
        self.I = I_
    def run1(self, path, v, pick=None):
        f = find_fn(self.P, path)
        if f is None: raise Unsupported('no ' + path)
        I2 = interp(self.P, VARINT, PVC)
        return [o for o in I2.run(f, [I2.ref_to(v)], State(), 1, None) if o.kind == 'ret']
    def ks(self, k):
        r = self._ks.get(k)
        if r is None:
            o = {x.val for x in self.run1(sizef(PKEY), k)}
            if len(o) != 1: raise Unsupported('size of a property key')
            r = self._ks[k] = o.pop()
        return r
    def vs(self, I_, st, v):
        if opaque(v): return pvsz(v)
        f = find_fn(self.P, sizef(PV))
        o = {x.val for x in I_.run(f, [I_.ref_to(v)], st, 500, None) if x.kind == 'ret'}
        return o.pop() if len(o) == 1 else None
    def base_size(self, b):
        if b.op == 'hmnew': return ZERO
        r = self.pairs.get(b)
        if r is not None: return r
        if b.op == 'fld' and b.a[2] == self.fi[2] and ATOM_META.get(b.a[0]) == PROPS:
            t = mk('fld', b.a[0], b.a[1], self.fi[0]); ATOM_TY.setdefault(t, 'usize'); return t
        return None
    def single(self, k):
        """may key k not repeat?  (from the code's own table)"""
        return None
    def present(self, I_, st, b, k):
        sz = self.base_size(b)
        if sz is None: return
        old = mk('hmget', b, k)
        n = typed(mk('len', old), 'usize'); ATOM_RNG.setdefault(n, (0, 2**48))
        st.facts._ge(add(n, I(-1)))
        e0 = mk('elem', old, ZERO)
        st.facts._ge(sub(sz, add(pvsz(e0), self.ks(k))))
    def delta(self, I_, st, m):
        """(base map, S(m) - S(base)) or (base, None)"""
        if m.op == 'hmnew' or m.op not in ('hmins', 'hmupd', 'hmrem'): return m, ZERO
        inner, k = m.a[0], m.a[1]
        b, d = self.delta(I_, st, inner)
        if d is None: return b, None
        if m.op == 'hmrem': return b, None
        v = m.a[2]
        ks = self.ks(k)
        old = GET(inner, k)
        has = st.facts.decide(HAS(inner, k))
        if m.op == 'hmupd':
            ps = v.a[1:] if v.op == 'vec' else ()
            if not ps or ps[0].op != 'pall' or ps[0].a[0] is not old: return b, None
            for p in ps[1:]:
                x = self.vs(I_, st, p.a[0]) if p.op == 'pe' else None
                if x is None: return b, None
                d = add(d, add(x, ks))
            return b, d
        ps = v.a[1:] if v.op == 'vec' else None
        if not ps or any(p.op != 'pe' for p in ps): return b, None
        for p in ps:
            x = self.vs(I_, st, p.a[0])
            if x is None: return b, None
            d = add(d, add(x, ks))
        if has is None: return b, None
        if has:
            # the replaced entry had exactly one value (keys that may not repeat)
            if old.op == 'vec':
                for p in old.a[1:]: d = sub(d, add(self.vs(I_, st, p.a[0]), ks))
            else: d = sub(d, add(pvsz(mk('elem', old, ZERO)), ks))
        return b, d
    def tables(self, v, acc, n=0):
        if n > 6 or not isinstance(v, T): return acc
        if v.op == 'adt' and v.a[0] == PROPS: acc.append(v); return acc
        if v.op in ('adt', 'tup', 'box'):
            for x in v.a: self.tables(x, acc, n + 1)
        return acc
    def holds(self, I_, st, t):
        size, m = t.a[2 + self.fi[0]], t.a[2 + self.fi[2]]
        b, d = self.delta(I_, st, m)
        bs = self.base_size(b)
        if d is None or bs is None: return False
        return st.facts.prove_eq(size, add(bs, d))
    def back(self, I_, f, h, H, backs):
        self.lastback = []
        for s in backs:
            for c, v in list(s.mem.items()):
                if c[0] == 'L':
                    for t in self.tables(v, []):
                        self.checked += 1
                        if not self.holds(I_, s, t): self.lastback.append((f['p'], h, t))
    def gen(self, I_, f, h, n):
        for c, v in n.mem.items():
            if c[0] == 'L':
                for t in self.tables(v, []):
                    m = t.a[2 + self.fi[2]]
                    if m.op not in ('hmnew', 'hmins', 'hmupd', 'hmrem'): self.pairs[m] = t.a[2 + self.fi[0]]

def pv_table(I_, P, src, off, size):
    fi = props_fields(P)
    fs = [None] * 3
    fs[fi[0]] = size
    own = mk('pown', src, off); ATOM_TY.setdefault(own, 'u16')
    fs[fi[1]] = mk('adt', POWN, 0, own) if P.adts.get(POWN) and len(P.adts[POWN]['v'][0]['f']) == 1 else own
    fs[fi[2]] = mk('pmap', src, off)
    return mk('adt', PROPS, 0, *fs)
PROP_ERRS = ('BadProperty', 'BadMqttUtf8String', 'BadMqttVariableBytesInt')
def c_pdes(c):
    I_ = c.I; outs = []
    loc, buf0 = buf_loc(I_, c.st, c.args[0])
    for st, h in heads(I_, c.st, buf0):
        buf = I_.read(st, *loc); rem = remaining(I_, st, buf)
        if h is None: outs.append(Out(st, 'ret', Err(insufficient(I_, 'empty')))); continue
        if h[0] == 'tok' and h[1].op == 'props':
            v, n = h[1].a
            for s, ok in I_.branch(st, ge0(sub(rem, n))):
                if ok: outs += [Out(s2, 'ret', Ok(v)) for s2 in take_n(I_, s, loc, buf, n)]
                else: outs.append(Out(s, 'ret', Err(insufficient(I_, 'ptok', h[1]))))
            continue
        if h[0] == 'tok':
            src, off = mk('tokp', h[1]), ZERO; I_.unmodelled['property table read from another token'] = 1
        else: src, off = h[1], h[2]
        for o in c_vdes(Ctx(I_, c.f, c.b, c.callee, c.args, st, c.depth, c.loc, None, None)):
            if o.val.a[1] == 1: outs.append(o); continue
            x = vival(src, off)
            buf2 = I_.read(o.st, *loc); rem2 = remaining(I_, o.st, buf2)
            bad = typed(mk('pbad', src, off), 'bool')
            for s, b in I_.branch(o.st, bad):
                if b:
                    used = mk('pbk', src, off); ATOM_TY.setdefault(used, 'usize'); ATOM_RNG.setdefault(used, (0, 2**30))
                    s = s.copy()
                    try: s.facts._ge(sub(rem2, used))
                    except Infeasible: continue
                    for s2 in take_n(I_, s, loc, buf2, used):
                        for e in I_.prop_errs: outs.append(Out(s2, 'ret', Err(insufficient(I_, 'prop', src, off) if e == 'InsufficientBuffer' else err(I_, e))))
                    continue
                for s2, full in I_.branch(s, ge0(sub(rem2, x))):
                    if full: outs += [Out(s3, 'ret', Ok(pv_table(I_, I_.prog, src, off, x))) for s3 in take_n(I_, s2, loc, buf2, x)]
                    else: outs.append(Out(s2, 'ret', Err(insufficient(I_, 'props', src, off))))
    return outs
def tval(c):
    v = c.I.deref_all(c.st, c.args[0])
    return v if v.op == 'adt' else c.I.deref(c.st, c.args[0])
def tsize(I_, st, v):
    s = I_.project(v, ('f', props_fields(I_.prog)[0], None, None), st)
    if s.op not in ('int', 'lin'): typed(s, 'usize'); ATOM_RNG.setdefault(s, (0, 0xfffffff))    # a table within the protocol's size limit
    return s
def c_psize(c):
    s = tsize(c.I, c.st, tval(c))
    return ret(c.st, add(VSZ(s), s))
def c_pser(c):
    v = tval(c); s = tsize(c.I, c.st, v); n = add(VSZ(s), s)
    return put(c, mk('props', v, n), n, 1)
PROPC = {deser(PROPS): c_pdes, sizef(PROPS): c_psize, ser(PROPS): c_pser}
