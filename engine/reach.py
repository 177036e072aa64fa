"""Reachable abstract states of a type: least fixpoint over its public constructors and mutators, run abstractly on
arbitrary arguments.  Leaf classes (strings, binaries, topics, property tables, integers, field-less enums) are
replaced by canonical symbols whose class facts are re-derived from the leaf's own constructor."""
from contracts import *
import models

D = PK + 'data::'
LEAF = {D + 'MqttUtf8String', D + 'MqttBinaryData', PK + 'topic::MqttTopic', PROPS, D + 'MqttUtf8StringPair'}
ARC = 'alloc::rcs::arc::Arc<str>'
RESP = 'core::result::Result<'

OWN_LOG = set()
def c_insert(c):
    """insertion into an abstract property table: afterwards some table of the same class (decided by P13)"""
    loc, v = models.buf_loc(c.I, c.st, c.args[0])
    if len(c.args) > 3: OWN_LOG.add(c.I.deref_all(c.st, c.args[3]) if c.args[3].op == 'ref' else c.args[3])
    if v.op == 'sym' and v.a[0] == 'leaf' or v.op == 'adt' and v.a[0] == PROPS:
        st = c.st.copy(); w = sym(None, 'leaf', 'inserted', PROPS)
        ATOM_TY.setdefault(w, PROPS); ATOM_META.setdefault(w, PROPS)
        c.I.write(st, loc[0], loc[1], w)
        e = sym(None, 'inserterr'); ATOM_META.setdefault(e, ERR); ATOM_TY.setdefault(e, ERR)
        return [Out(st, 'ret', models.Ok(UNIT)), Out(c.st.copy(), 'ret', models.Err(e))]
    return None
INSC = {PK + 'props::Properties::checked_insert': c_insert}

class Reach:
    def __init__(self, P, contracts=(VARINT, PVC, PROPC, INSC), veccap=3):
        self.P = P; self.contracts = contracts; self.veccap = veccap
        self.cache = {}; self.leafc = {}; self.mut_panics = []; self.analysed = set(); self.tainted = []
        self.ops = {}
        self.errpaths = 0; self.runs = 0; self.owners = {}
        self.foreign_tables = set(); self.cur = '?'
    def interp(self, **kw):
        I_ = interp(self.P, *self.contracts, **kw); return I_
    def legit_table(self, v):
        if v.op == 'sym' and v.a[0] == 'leaf': return True
        return v.op == 'adt' and v.a[0] == PROPS and any(isinstance(x, T) and x.op == 'hmnew' for x in v.a[2:])
    # ---- public surface
    def methods(self, path):
        ctors = []; muts = []
        for f in self.P.insts:
            if not f or not f.get('body') or f['kind'] != 'fn' or not f.get('local'): continue
            if f.get('trait') or not f.get('vis') or not f.get('reach', True): continue
            s = f.get('self')
            if s is None or self.P.tname(s).split('<')[0] != path: continue
            nargs = f['body']['args']
            a0 = self.P.tname(f['body']['locals'][1][0]) if nargs else ''
            ret = self.P.tname(f['body']['locals'][0][0])
            if a0.split('<')[0] == '&mut ' + path: muts.append((f, 'ref'))
            elif a0.split('<')[0] == path:
                if ret.split('<')[0] == path: muts.append((f, 'val'))
            elif a0.startswith('&' + path): continue
            elif ret.split('<')[0] == path or ret.startswith(RESP + path + ','): ctors.append(f)
        return ctors, muts
    # ---- arguments
    def arg(self, I_, ty, key):
        """[(value, setup)] arbitrary values of type index ty"""
        P = self.P; n = P.tname(ty); t = P.types[ty]
        if n in INT_RNG:
            return [(sym(n, 'arg', key, n), None)]
        if t['k'] == 'param':
            return [(mk('stream', mk('argbuf', key), ZERO), None)]
        if t['k'] == 'adt' and t['p'] in self.statetypes and t['p'] in P.adts:
            return [(v, f) for v, f in self.states(t['p'], key)]
        a = sym(None, 'arg', key, n); I_.reg(a, ty)
        if t['k'] == 'adt' and n in self.bitfl():
            atom = mk('fld', a, None, 0); ATOM_TY.setdefault(atom, 'u8')
            return [(mk('adt', n, 0, sym('u8', 'arg', key, 'bits')), ('bits', n))]
        return [(a, None)]
    statetypes = {PK + 'connect::Will'}
    def bitfl(self):
        r = getattr(self, '_bf', None)
        if r is None:
            r = {}
            for p, a in self.P.adts.items():
                if len(a['v']) == 1 and len(a['v'][0]['f']) == 1 and a['v'][0]['f'][0]['n'] == 'bits':
                    al = next((f for f in self.P.insts if f and f['p'] == p + '::all' and f.get('body')), None)
                    if al is None: continue
                    I_ = interp(self.P)
                    o = [x for x in I_.run(al, [], State(), 1, None) if x.kind == 'ret']
                    if len(o) == 1 and o[0].val.op == 'adt' and o[0].val.a[2].op == 'int': r[p] = o[0].val.a[2].a[0]
            self._bf = r
        return r
    # ---- abstraction
    def leafsym(self, I_, ty, path):
        t = sym(None, 'leaf', path, self.P.tname(ty)); I_.reg(t, ty); return t
    def alpha(self, I_, st, v, ty, path, F, n=0):
        """canonical abstract value; finite integer facts are collected in F"""
        P = self.P; nm = P.tname(ty); t = P.types[ty]
        if nm in INT_RNG:
            if nm in ('u8', 'bool'):
                if v.op == 'int': return v
                d = st.facts.values(v)
                a = sym(nm, 'leaf', path, nm)
                if d is not None and len(d) < 256: F.dom[a] = frozenset(d)
                return a
            return sym(nm, 'leaf', path, nm)
        if t['k'] == 'adt' and t['p'] in LEAF:
            lf = self.leafsym(I_, ty, path)
            if t['p'] != PROPS: self.refine(I_, st, v, lf, F)
            elif not self.legit_table(v): self.foreign_tables.add((t['p'], self.cur))
            return lf
        if t['k'] == 'adt':
            ad = P.adts.get(t['p'])
            if nm.startswith('alloc::vec::Vec<'):
                if v.op != 'vec': raise Unsupported('vector shape')
                ety = t['a'][0]
                ps = []
                for i, p in enumerate(v.a[1:]):
                    if p.op != 'pe': raise Unsupported('vector piece')
                    ps.append(mk('pe', self.alpha(I_, st, p.a[0], ety, path + '[%d]' % i, F, n + 1)))
                return mk('vec', I(len(ps)), *ps)
            if t['p'] == 'core::option::Option':
                b = v
                if b.op == 'adt':
                    if b.a[1] == 0: return v
                    return mk('adt', b.a[0], 1, self.alpha(I_, st, b.a[2], t['a'][0], path + '?', F, n + 1))
                return self.leafsym(I_, ty, path)
            if ad and all(not x['f'] for x in ad['v']): return self.leafsym(I_, ty, path)
            if ad and v.op == 'adt':
                fs = ad['v'][v.a[1]]['f']
                return mk('adt', v.a[0], v.a[1], *[self.alpha(I_, st, v.a[2 + i], fl['ti'], path + '.' + fl['n'], F, n + 1) if self.concrete(fl['ti']) else v.a[2 + i] for i, fl in enumerate(fs)])
        if t['k'] == 'tuple' and v.op == 'tup':
            return mk('tup', *[self.alpha(I_, st, x, e, path + '.%d' % i, F, n + 1) for i, (x, e) in enumerate(zip(v.a, t['a'] if 'a' in t else t['e']))])
        return self.leafsym(I_, ty, path)
    def refine(self, I_, st, v, lf, F):
        """keep what the path knows about a leaf (predicates over its text alone)"""
        from loopgen import subst
        m = {v: lf}
        def go(x, y, n=0):
            if x.op == 'adt' and n < 4:
                for i, z in enumerate(x.a[2:]): go(z, I_.project(y, ('f', i, x.a[1], None), st), n + 1)
            elif x.op in ('sym', 'fld', 'arc'): m[x] = y
        if v.op == 'adt': go(v, lf)
        keys = set(m)
        for b, d in st.facts.dom.items():
            if b.op not in ('any', 'all', 'streq', 'isutf8', 'outcome'): continue
            if not any(occurs(b, k) for k in keys): continue
            c = subst(b, m)
            if foreign(c, lf): continue
            F.dom[c] = frozenset(d)
    def concrete(self, ti): return self.P.types[ti]['k'] != 'param'
    def tyindex(self, path):
        for f in self.P.insts:
            if f and f.get('self') is not None and self.P.tname(f['self']) == path: return f['self']
        return None
    # ---- class facts of leaves
    def leaf_alts(self, I_, t, ty):
        """[(value, facts)] for a leaf symbol: results of the leaf's own constructor"""
        P = self.P; nm = P.tname(ty)
        key = (t, nm)
        r = self.leafc.get(key)
        if r is not None: return r
        r = []
        c = find_fn(P, nm + '::new')
        if c is None: r = [(t, Facts())]
        else:
            if nm == PROPS: r = [(t, Facts())]
            else:
                st = State(); args = []
                for i in range(1, c['body']['args'] + 1):
                    ti = c['body']['locals'][i][0]
                    if P.types[ti]['k'] == 'param': args.append(mk('stream', mk('of', t), ZERO))
                    else:
                        a = sym(None, 'of', t, i); I_.reg(a, ti); args.append(a)
                for o in I_.run(c, args, st, 1, None):
                    if o.kind != 'ret': continue
                    v = o.val
                    if v.op == 'adt' and v.a[0] == models.RES:
                        if v.a[1] == 1: continue
                        v = v.a[2]
                    r.append((v, o.st.facts))
        self.leafc[key] = r
        return r
    def leaves(self, v, acc):
        if v.op == 'sym' and v.a and v.a[0] == 'leaf': 
            if v not in acc: acc.append(v)
        elif isinstance(v, T):
            for x in v.a:
                if isinstance(x, T): self.leaves(x, acc)
        return acc
    def concretise(self, I_, v, F):
        """[(value, facts)]: leaf symbols replaced by arbitrary members of their classes"""
        from loopgen import subst
        todo = [(v, F.copy())]
        for lf in self.leaves(v, []):
            ti = I_.tyreg.get(ATOM_TY.get(lf)) or self.tyof(lf)
            nm = lf.a[2]
            if nm not in LEAF: continue
            alts = self.leaf_alts(I_, lf, self.tyix(nm))
            nt = []
            for w, G in todo:
                for val, LF in alts:
                    H = substfacts(I_, G, {lf: val})
                    try: merge(H, LF)
                    except Infeasible: continue
                    nt.append((subst(w, {lf: val}), H))
            todo = nt
        return todo
    def tyix(self, name):
        for i, t in enumerate(self.P.types):
            if self.P.tname(i) == name: return i
    def tyof(self, lf): return self.tyix(lf.a[2])
    # ---- fixpoint
    def states(self, path, key=''):
        r = self.cache.get((path, key))
        if r is not None: return r
        P = self.P; I_ = self.interp()
        ti = self.tyindex(path)
        ctors, muts = self.methods(path)
        self.ops[path] = ([f['n'] for f in ctors], [f['n'] for f, _ in muts])
        seen = {}; work = []
        def addst(st, v):
            F = Facts()
            a = self.alpha(I_, st, v, ti, key + path.split('::')[-1], F)
            if self.toolong(a): return
            old = seen.get(a)
            if old is None: seen[a] = (a, F); work.append(a); return
            # join: finite facts are united, facts missing on one side are dropped
            J = Facts(); ch = False
            for x, d in old[1].dom.items():
                e = F.dom.get(x)
                if e is None: ch = True; continue
                J.dom[x] = d | e; ch |= not e <= d
            if ch: seen[a] = (a, J); work.append(a) if a not in work else None
        for f in ctors:
            for o in self.call(I_, f, [], None): 
                if o.kind != 'ret': self.mut_panics.append((f, o)); continue
                v = o.val
                if v.op == 'adt' and v.a[0] == models.RES:
                    if v.a[1] == 1: continue
                    v = v.a[2]
                addst(o.st, v)
        n = 0
        while work:
            a = work.pop(); F = seen[a][1]; n += 1
            if n > 3000: raise Budget('states of ' + path)
            for f, how in muts:
                for st0, v in [(None, a)]:
                    s = State(); s.facts = F.copy()
                    c = ('H', 'self'); s.mem[c] = v
                    OWN_LOG.clear()
                    os_ = self.call(I_, f, [mk('ref', c, ())] if how == 'ref' else [v], s)
                    if OWN_LOG: self.owners.setdefault(path, set()).update(OWN_LOG); OWN_LOG.clear()
                    for o in os_:
                        if o.kind != 'ret': self.mut_panics.append((f, o)); continue
                        if how == 'ref': addst(o.st, o.st.mem[c])
                        else:
                            w = o.val
                            if w.op == 'adt' and w.a[0] == models.RES:
                                if w.a[1] == 1: continue
                                w = w.a[2]
                            addst(o.st, w)
        self.analysed |= I_.analysed
        r = self.cache[(path, key)] = [x for x in seen.values()]
        return r
    def toolong(self, v):
        if v.op == 'vec': return len(v.a) - 1 > self.veccap
        return any(self.toolong(x) for x in v.a if isinstance(x, T))
    def call(self, I_, f, args, st):
        """run f with given leading args and arbitrary remaining ones"""
        self.cur = f["p"]
        outs = []
        opts = [(list(args), st or State())]
        for i in range(len(args) + 1, f['body']['args'] + 1):
            ti = f['body']['locals'][i][0]
            no = []
            for pre, s in opts:
                for v, F in self.arg(I_, ti, '%s#%d' % (f['n'], i)):
                    s2 = s.copy()
                    try:
                        if isinstance(F, Facts): merge(s2.facts, F)
                        elif F and F[0] == 'bits':
                            m = self.bitfl()[F[1]]
                            s2.facts.set_dom(v.a[2], {x for x in range(256) if not x & ~m})
                    except Infeasible: continue
                    no.append((pre + [v], s2))
            opts = no
        for a, s in opts:
            self.runs += 1
            outs += I_.run(f, a, s, 1, None)
        return outs

def occurs(t, k):
    stack = [t]; seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple): stack.extend(x); continue
        if not isinstance(x, T) or x in seen: continue
        if x is k: return True
        seen.add(x); stack.extend(x.a)
    return False
def foreign(t, lf):
    stack = [t]; seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple): stack.extend(x); continue
        if not isinstance(x, T) or x in seen or x is lf: continue
        if x.op in ('sym', 'stream', 'st'): return True
        seen.add(x); stack.extend(x.a)
    return False
def substfacts(I_, G, m):
    from loopgen import reeval
    H = G.copy()
    if not any(occurs(x, k) for x in list(G.dom) + list(G.iv) + list(G.bo) + list(G.ge) for k in m): return H
    memo = {}
    def re_(x):
        y = reeval(x, m, memo)
        if y is not x:
            for reg in (ATOM_TY, ATOM_RNG, ATOM_DOM, ATOM_META):
                if x in reg: reg.setdefault(y, reg[x])
        return y
    H = Facts()
    for x, d in G.dom.items(): H.dom[re_(x)] = d
    for x, (lo, hi) in G.iv.items():
        y = re_(x)
        if lo > -2**199: H._ge(sub(y, I(lo)))
        if hi < 2**199: H._ge(sub(I(hi), y))
    for l in G.ge: H._ge(re_(l))
    for b, v in G.bo.items(): H.bo[re_(b)] = v
    H._touch()
    return H
def merge(H, G):
    for x, d in G.dom.items():
        e = H.dom.get(x)
        H.set_dom(x, d if e is None else e & d)
    for x, (lo, hi) in G.iv.items():
        if lo > -2**199: H._ge(sub(x, I(lo)))
        if hi < 2**199: H._ge(sub(I(hi), x))
    for l in G.ge: H._ge(l)
    for b, v in G.bo.items(): H.bo[b] = v
    H._touch()
