"""Packet interface contracts for the analysis of the server: what decoded packets can contain and what their public methods accept.
Each is decided on its own for the packet crate (P02, P04, P05, P08, P11 and P13); here they replace the bodies."""
from contracts import *
import models
from models import Some, NONE, Ok, Err
from spec import PROPS_T
import srv
from srv import PACKET, unwrap, ev, ORIGIN
PINNER = PK + 'props::MqttPropValueInner'
ALIAS = {'Will': 'Will'}
def kinds(P):
    """type path -> packet kind, by the public packet enum"""
    r = {}
    for v in P.adts[PACKET]['v']:
        if v['f']: r[P.tname(v['f'][0]['ti'])] = v['n']
    for p in P.adts:
        if p.startswith(PK) and p.endswith('::Will'): r[p] = 'Will'
    return r
def root(t):
    while t.op in ('fld', 'upd', 'deref') and t.a and isinstance(t.a[0], type(t)): t = t.a[0]
    return t
def is_packet(t, seen=()):
    """t is a packet that came out of the decoder (possibly one of several, or of another execution)"""
    n = 0
    while t in ORIGIN and n < 40: t = ORIGIN[t]; n += 1
    if t in seen: return True
    if t in srv.JOINED: return all(is_packet(x, seen + (t,)) for x in srv.JOINED[t])
    return t.op == 'sym' and bool(t.a) and t.a[0] == 'packet'
def decoded(t):
    return is_packet(root(t))
class Table:
    """property name -> type variant and member kinds, read from the code's own table by evaluating it"""
    def __init__(self, P):
        self.P = P; self.ty = {}; self.names = {}
        self.spec = {row[0].lower(): row for row in PROPS_T.values()}
        I_ = interp(P)
        f = find_fn(P, PKEY + '::auxiliary_data'); g = find_fn(P, PV + '::prop_type')
        self.inner = {}
        if PINNER in P.adts:
            for i, v in enumerate(P.adts[PINNER]['v']): self.inner[v['n']] = i
        self.key = {v['n']: i for i, v in enumerate(P.adts[PKEY]['v'])}
        for n, i in self.key.items():
            w = self.spec.get(n.lower())
            if w is None: continue
            self.names[i] = n
            t = None
            if f is not None:
                st = State(); c = ('H', 'k'); st.mem[c] = mk('adt', PKEY, i)
                try: rs = [o.val for o in I_.run(f, [mk('ref', c, ())], st, 1, None) if o.kind == 'ret']
                except Unsupported: rs = []
                if len(rs) == 1 and rs[0].op == 'tup':
                    for x in rs[0].a:
                        if x.op == 'adt' and len(x.a) == 2:
                            vs = P.adts[x.a[0]]['v']
                            if x.a[1] < len(vs) and vs[x.a[1]]['n'] in self.inner: t = vs[x.a[1]]['n']
            self.ty[i] = t or {'byte': 'Byte', 'two': 'TwoBytesInt', 'four': 'FourBytesInt', 'varint': 'VarInt', 'string': 'String', 'pair': 'StringPair', 'binary': 'Data'}[w[1]]
    def allowed(self, kind): return [i for i, n in self.names.items() if kind in self.spec[n.lower()][3]]
    def repeat(self, i): return self.spec[self.names[i].lower()][2]
def table(I_):
    w = I_.world
    if getattr(w, 'ptab', None) is None: w.ptab = Table(I_.prog); w.kinds = kinds(I_.prog)
    return w.ptab
def pvalue(c, st, x, i):
    """a value property i of the decoded packet x can have"""
    tb = table(c.I); P = c.I.prog
    if PINNER not in P.adts or tb.ty[i] not in tb.inner:
        v = st.fresh(None, 'pval', tb.names[i], c.f['p'], c.b); return v
    vi = tb.inner[tb.ty[i]]
    rep = tb.names[i] in ('UserProperty', 'SubscriptionIdentifier')
    v = st.fresh(None, 'pval', tb.names[i], x) if rep else sym(None, 'pval', tb.names[i], x)     # the others occur at most once
    c.I.reg(v, P.adts[PINNER]['v'][vi]['f'][0]['ti'])
    return mk('adt', PV, 0, mk('adt', PINNER, vi, v))
def vtype(c, st, v):
    """type variant name of a property value, or None"""
    if v.op == 'adt' and v.a[0] == PV: v = v.a[2]
    if v.op == 'adt' and v.a[0] == PINNER: return c.I.prog.adts[PINNER]['v'][v.a[1]]['n']
    return None
def it_props(c, st, it):
    """next item of an iteration over the properties of a decoded packet"""
    kind, x = it.a[0], it.a[1]; tb = table(c.I); res = []
    for i in tb.allowed(kind):
        s = st.copy()
        v = pvalue(c, s, x, i)
        srv.ev(s, 'prop', x, tb.names[i], v)
        res.append((s, it, mk('tup', c.I.ref_to(mk('adt', PKEY, i)), c.I.ref_to(v))))
    s = st.copy(); srv.ev(s, 'noprop', x, '*')
    res.append((s, mk('itempty'), None))
    return res
models.IT_NEXT['itprops'] = it_props
def props_field(P, x):
    for i, f in enumerate(P.adts[x]['v'][0]['f']):
        if P.tname(f['ti']) == PROPS: return i
    return None
import re
CTOR = re.compile(r'^[A-Za-z_:]+::(new|set_[a-z_]+|new_string|add_topic)$')
def api_hook(c):
    p = c.path
    if c.I.world is None: return None
    if 'try_into' in p or 'try_from' in p: return conv(c)
    if not p.startswith(PK): return None
    I_ = c.I; ty, _, name = p.rpartition('::')
    tb = table(I_); kind = I_.world.kinds.get(ty)
    if kind is not None:
        if name == 'props_iter':
            x = unwrap(I_, c.st, c.args[0])
            if not decoded(x): return None
            return ret(c.st, mk('itprops', kind, x))
        if name == 'get_prop':
            x = unwrap(I_, c.st, c.args[0]); k = unwrap(I_, c.st, c.args[1])
            if not decoded(x) or k.op != 'adt': return None
            s = c.st.copy(); srv.ev(s, 'noprop', x, tb.names.get(k.a[1], '?')); outs = [Out(s, 'ret', NONE)]
            if k.a[1] in tb.allowed(kind):
                s = c.st.copy(); v = pvalue(c, s, x, k.a[1]); srv.ev(s, 'prop', x, tb.names[k.a[1]], v)
                outs.append(Out(s, 'ret', Some(I_.ref_to(mk('vec', I(1), mk('pe', v))))))
            return outs
        if name == 'add_prop' and len(c.args) == 3:
            k = unwrap(I_, c.st, c.args[1]); v = unwrap(I_, c.st, c.args[2])
            fi = props_field(I_.prog, ty)
            if k.op != 'adt' or fi is None: return None
            t = vtype(c, c.st, v)
            if t is None: return None
            ok = k.a[1] in tb.names and k.a[1] in tb.allowed(kind) and t == tb.ty[k.a[1]]
            st = c.st.copy()
            if not ok:
                e = st.fresh(None, 'perr', c.f['p'], c.b)
                return ret(st, Err(e))
            loc, x = models.buf_loc(I_, st, c.args[0])
            srv.ev(st, 'addprop', kind, tb.names[k.a[1]], v)
            old = I_.read(st, loc[0], loc[1] + fieldproj(I_, ty, fi))
            I_.write(st, loc[0], loc[1] + fieldproj(I_, ty, fi), mk('pset', old, k, v))
            return ret(st, Ok(UNIT))
    if kind == 'SubAck' and name == 'add_reason_code': ev(c.st, 'reason', unwrap(I_, c.st, c.args[1]))
    if CTOR.match(p) and c.callee.get('r') is not None and (c.rettyname() or '').startswith('core::result::Result'):
        g = I_.prog.insts[c.callee['r']]
        if g is None: return None
        ts = []
        for a in c.args:
            v = unwrap(I_, c.st, a)
            if v.op == 'ref' or v.op in ('arc', 'box'): v = I_.deref_all(c.st, v)
            ts.append(v)
        def good(v):
            """accepted by the constructor: a text or data the decoder accepted for the same use, or a short constant form"""
            if v.op == 'int' or I_.intlike(v): return True
            r = root(v)
            if is_packet(r): return same_use(I_, v, ty)
            return v.op == 'sym' and v.a and v.a[0] == 'uuid'
        if not ts or not all(good(v) for v in ts if not isself(I_, c, v)): return None
        outs = I_.inline(g, c.args, c.st, c.depth, c.loc)
        keep = [o for o in outs if not (o.kind == 'ret' and o.val.op == 'adt' and o.val.a[0] == models.RES and o.val.a[1] == 1)]
        seen = {}; res = []
        for o in keep:
            if o.kind != 'ret': res.append(o); continue
            if o.val not in seen: seen[o.val] = 1; res.append(o)
        return res or None
    return None
def conv(c):
    """conversions of the flags of a decoded packet succeed: the decoder accepts no other flags (decided by P09)"""
    r = c.callee.get('r')
    if r is None or not c.args: return None
    g = c.I.prog.insts[r]
    if g is None or not ('<' + PK in g['p'] or g['p'].startswith(PK)): return None
    v = unwrap(c.I, c.st, c.args[0])
    x = v
    while x.op in ('fld', 'upd', 'deref', 'elem') and x.a and isinstance(x.a[0], type(x)): x = x.a[0]
    if not is_packet(x): return None
    outs = c.I.inline(g, c.args, c.st, c.depth, c.loc)
    return [o for o in outs if not (o.kind == 'ret' and o.val.op == 'adt' and o.val.a[0] == models.RES and o.val.a[1] == 1)] or None
def isself(I_, c, v):
    return False
def same_use(I_, v, ty):
    """v (rooted in a decoded packet) is used for a constructor of the packet kind it came from"""
    P = I_.prog; x = v; chain = []
    while x.op in ('fld', 'upd', 'deref'):
        if x.op == 'fld': chain.append(x)
        x = x.a[0]
    vs = P.adts[PACKET]['v']
    for t in chain:
        if t.a[0] is x and t.a[1] is not None and t.a[1] < len(vs):
            return P.tname(vs[t.a[1]]['f'][0]['ti']) == ty if vs[t.a[1]]['f'] else False
    return False
def fieldproj(I_, ty, fi):
    return (('f', fi, None, I_.prog.adts[ty]['v'][0]['f'][fi]['ti']),)
