"""S10 and S11: the subscription table.

The bodies of the public operations of the table are summarised as path sets over symbolic topics (level tests, map look-ups, insertions
and removals, recursion into a child block with the remaining levels). A recursive body is summarised once per shape of its arguments,
so that an operation is a finite transducer over topic levels. The two transducers that matter (where a filter's entry is put, which
entries a topic collects) are then compared with the matching relation of MQTT 5 over a set of levels in which every level text the
code tells apart has a representative; removal is compared with insertion in the same way. Atomicity is decided on the paths themselves:
a nested map may only be put in under the same lock guard that showed it to be absent."""
import itertools
import srv
from srv import *
from interp import *
from term import *
from contracts import find_fn
from p_server import fact_atoms
from load import Program

TT = SRV + 'topics::TopicsTable::'
OPS_ = ('subscribe', 'unsubscribe', 'unsubscribe_all', 'get_all_subscribed')

class Unknown(Exception): pass
class Structure(Exception): pass

def parts(t):
    """direct sub-terms, also inside tuples"""
    for x in t.a:
        if isinstance(x, T): yield x
        elif isinstance(x, tuple): yield from tparts(x)
def tparts(x):
    for y in x:
        if isinstance(y, T): yield y
        elif isinstance(y, tuple): yield from tparts(y)
def walk(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen: return
    seen.add(t); yield t
    for x in parts(t): yield from walk(x, seen)
def rewrite(x, f, memo):
    if isinstance(x, tuple): return tuple(rewrite(y, f, memo) for y in x)
    if not isinstance(x, T): return x
    r = memo.get(x)
    if r is None:
        y = f(x)
        r = memo[x] = y if y is not None else mk(x.op, *(rewrite(z, f, memo) for z in x.a)) if x.a else x
    return r

class Item:
    """one body with one shape of arguments"""
    def __init__(s, name, binds):
        s.name = name; s.binds = binds; s.trie = None; s.paths = []; s.used = set()

class Node:
    __slots__ = ('ev', 'kids', 'ends')
    def __init__(s, ev=None): s.ev = ev; s.kids = {}; s.ends = []

class Table:
    def __init__(s, R, P):
        s.R = R; s.P = P; s.W = srv.World(P); s.W.coro_hooks = [s.hook]
        s.items = {}; s.order = []; s.ops = {}; s.lits = set(); s.n = 0
        s.nested = set(); s.symref = {}
        for op in OPS_:
            f = find_fn(P, TT + op)
            if f is None: R.undecided('missing|' + op, 'the operation %s of the subscription table was not found' % op); continue
            try: s.ops[op] = s.public(op, f)
            except (Structure, Unsupported) as e: R.undecided('structure|' + op, '%s: %s' % (op, e))
        while s.order:
            k = s.order.pop()
            try: s.body(k)
            except (Structure, Unsupported) as e: R.undecided('structure|' + s.items[k].name, '%s: %s' % (s.items[k].name, e)); s.items[k].trie = None
            if len(s.items) > 24: R.undecided('structure|many', 'the recursion through the table does not come back to the same arguments'); break
        for it in set(s.items.values()) | set(s.ops.values()):
            for p in it.paths:
                for e in flat(p.trace):
                    for x in tparts(e):
                        for y in walk(x):
                            if y.op == 'str' and isinstance(y.a[0], str) and len(y.a[0]) < 8: s.lits.add(y.a[0])
    def machine(s):
        I_ = s.W.interp(); I_.topics_inline = True; I_.cond_trace = True
        put = I_.write
        def write(st, cell, path, v):
            put(st, cell, path, v)
            i = max((i for i, x in enumerate(path) if x[0] == 'hm'), default=None)
            if i is not None and v.op not in ('hmnew', 'hmins', 'hmrem', 'hmupd', 'hmclr'):
                nv = I_.read(st, cell, tuple(path[:i + 1]))
                if nv.op == 'hmget' and nv.a[0].op == 'hmupd' and nv.a[0].a[1] is nv.a[1]: nv = nv.a[0].a[2]
                st.event('mop', 'set', mk('ref', cell, tuple(path[:i])), path[i][1], nv, TRUE, UNIT)
        I_.write = write
        return I_
    # -- recursion becomes an event
    def hook(s, c, st, g, v):
        if not any(x is g for x, _ in c.I.stack): return None
        st = st.copy(); args = tuple(v.a[1:]); fresh = []
        key, binds, cargs = s.shape(c.I, st, g, v)
        if key not in s.items:
            s.items[key] = it = Item(g['p'], binds); it.g = g; it.args = cargs; it.st = st
            s.order.append(key)
        src = s.binding(c.I, st, v)
        for loc in s.locals_of(c.I, st, v):
            old = c.I.read(st, *loc); s.n += 1
            new = sym(None, 'recmap', s.n)
            if old in ATOM_TY: ATOM_TY[new] = ATOM_TY[old]
            if old in ATOM_META: ATOM_META[new] = ATOM_META[old]
            c.I.write(st, loc[0], loc[1], new); fresh.append((mk('ref', *loc), new))
        st.event('rec', key, tuple(src), tuple(fresh)); s.R.count('recursive calls')
        return ret(st, UNIT)
    def locals_of(s, I_, st, v):
        """maps of the caller's that the callee can write to"""
        for a in v.a[1:]:
            if a.op == 'ref' and a.a[0][0] == 'L':
                x = I_.read(st, *a.a)
                if x.op in ('hmnew', 'hmins', 'hmupd', 'hmrem') or x.op == 'sym' and x.a[0] in ('recmap',) or 'HashMap' in str(ATOM_TY.get(x) or '') or x in s.mapsyms(st): yield a.a
    def mapsyms(s, st):
        r = set()
        for e in flat(st.trace):
            if e[0] == 'mop': r.add(e[6])
        return r
    def binding(s, I_, st, v):
        """values of the things a shape abstracts, in the order they appear"""
        src = []
        def f(x):
            if x.op == 'iter' and isinstance(x.a[0], T): src.append(x.a[1]); g(x.a[0]); return UNIT
            if x.op == 'split': src.append(x.a[0]); return UNIT
            return None
        def g(x): rewrite(x, f, {})
        for a in v.a[1:]:
            if a.op == 'ref':
                u = unwrap(I_, st, a)
                if u.op in ('hmget', 'hmval'): src.append(u); continue
                continue
            g(a)
        return src
    def shape(s, I_, st, g, v):
        binds = []
        def f(x):
            if x.op == 'iter' and isinstance(x.a[0], T):
                b = sym('usize', 'topk', len(binds)); binds.append(b)
                ATOM_RNG.setdefault(b, (0, 2**31))
                return mk('iter', rewrite(x.a[0], f, {}), b, *x.a[2:])
            if x.op == 'split':
                b = sym(None, 'tops', len(binds)); binds.append(b); return mk('split', b, *x.a[1:])
            return None
        args = []
        for a in v.a[1:]:
            if a.op == 'ref':
                u = unwrap(I_, st, a)
                if u.op in ('hmget', 'hmval'):
                    b = sym(None, 'topb', len(binds)); binds.append(b)
                    if u in ATOM_META: ATOM_META.setdefault(b, ATOM_META[u])
                    if u in ATOM_TY: ATOM_TY.setdefault(b, ATOM_TY[u])
                    args.append(mk('ref', ('M', b), ())); continue
                args.append(a); continue
            args.append(rewrite(a, f, {}))
        cargs = tuple(args)
        return (g['id'],) + tuple(show(a) for a in cargs), binds, cargs
    # -- summaries
    def public(s, op, f):
        I_ = s.machine(); st = State(); b = f['body']
        args = []; names = {}
        for i in range(1, (b.get('argc') or b.get('args') or b.get('nargs')) + 1):
            nm = b['locals'][i][1] if len(b['locals'][i]) > 1 and b['locals'][i][1] else str(i)
            t = I_.reg(sym(None, 'arg', str(i)), b['locals'][i][0]); args.append(t)
            names[i] = (t, s.P.tname(b['locals'][i][0]), nm)
        it = Item(f['p'], []); it.args = args; it.tys = [names[i][1] for i in sorted(names)]
        for o in I_.run(f, args, st, 1, None):
            if o.kind != 'ret': continue
            if o.val.op == 'clo' and isinstance(o.val.a[0], int):
                for x in I_.run(s.P.insts[o.val.a[0]], [o.val, UNIT], o.st, 1, None): s.keep(it, x)
            else: raise Structure('not an async operation')
        s.done(it, I_); return it
    def body(s, key):
        it = s.items[key]; I_ = s.machine()
        st = it.st.copy(); st.trace = (); st.facts = Facts(); st.ctr = {}
        for c in list(st.mem):
            v = st.mem[c]
            if c[0] == 'L' and v.op == 'sym' and v.a[0] == 'recmap': pass
        for loc in s.locals_of(I_, it.st, mk('clo', 0, *it.args)):
            old = I_.read(st, *loc); new = sym(None, 'recmap', 0)
            if old in ATOM_META: ATOM_META.setdefault(new, ATOM_META[old])
            if old in ATOM_TY: ATOM_TY.setdefault(new, ATOM_TY[old])
            I_.write(st, loc[0], loc[1], new); it.fresh = (mk('ref', *loc), new)
        for o in I_.run(it.g, [mk('clo', it.g['id'], *it.args), UNIT], st, 40, None): s.keep(it, o)
        s.done(it, I_)
    def keep(s, it, o):
        if o.kind == 'ret' and o.val is not PENDING: it.paths.append(Path(o)); s.R.paths += 1
        elif o.kind == 'panic': s.panics = getattr(s, 'panics', []) + [(it.name, o)]
    def done(s, it, I_):
        s.R.used(I_)
        bad = [k for k in I_.unmodelled]
        if bad: raise Structure('goes through %s, which is neither analysed nor modelled' % bad[0])
        it.trie = trie(it.paths)
        for p in it.paths:
            for e in flat(p.trace):
                if e[0] == 'mop' and e[6].op == 'sym': s.symref.setdefault(e[6], e[2])
        s.nested |= {e[2] for p in it.paths for e in flat(p.trace) if e[0] == 'mop' and e[1] == 'ins' and nestval(e[4])}
def nestval(v): return v.op in ('hmnew', 'hmins', 'adt') and any(x.op == 'hmnew' for x in walk(v))
class Path:
    def __init__(s, o): s.trace = o.st.trace; s.val = o.val; s.st = o.st
def flat(tr):
    for e in tr:
        if e[0] == 'loop':
            for alt in e[2]: yield from flat(alt)
        else: yield e
QUIET = ('wait', 'acq', 'rel', 'get', 'ins', 'rem', 'spawn', 'log')
def trie(paths):
    root = Node()
    for p in paths:
        n = root
        for e in p.trace:
            if e[0] in QUIET: continue
            k = n.kids.get(e)
            if k is None: k = n.kids[e] = Node(e)
            n = k
        n.ends.append(p.val)
    return root

# ---------------------------------------------------------------- the summaries applied to level texts
def ismap(t):
    """the content of a map (not a text or a list of levels)"""
    while t.op in ('fld', 'hmget', 'hmupd', 'hmins', 'hmrem', 'hmval'): t = t.a[0]
    return t.op == 'sym' and t.a[0] in ('content', 'recmap', 'topb')
class S_:
    """contents of the table: address of a map -> {key: value}"""
    __slots__ = ('d', 'ghost', 'done', 'unsure')
    def __init__(s, d=None, ghost=None, done=(), unsure=None): s.d = d or {}; s.ghost = ghost or {}; s.done = done; s.unsure = unsure
    def key(s): return (frozenset((a, frozenset(m.items())) for a, m in s.d.items() if m), s.done, s.unsure)
    def put(s, a, k, v):
        d = {x: m for x, m in s.d.items() if x[:len(a) + 1] != a + (('k', k),)}
        m = dict(d.get(a, {})); m[k] = v; d[a] = m
        return S_(d, s.ghost, s.done, s.unsure)
    def drop(s, a, k):
        pre = a + (('k', k),); g = dict(s.ghost)
        for x, m in s.d.items():
            if x[:len(pre)] == pre: g[x] = m
        d = {x: m for x, m in s.d.items() if x[:len(pre)] != pre}
        m = dict(d.get(a, {})); m.pop(k, None); d[a] = m
        return S_(d, g, s.done, s.unsure)
    def map(s, a):
        m = s.d.get(a)
        return m if m is not None else {}

class Run:
    def __init__(s, tab): s.tab = tab; s.steps = 0
    # -- terms
    def addr(s, t, env):
        o = t.op
        if t in env:
            v = env[t]
            if isinstance(v, tuple) and v and v[0] == '@': return v[1:]
            raise Unknown(t)
        if o in ('deref', 'box', 'arcin', 'unbox'): return s.addr(t.a[0], env)
        if o == 'sym' and t.a[0] == 'content': return s.addr(t.a[1], env) + ('*',)
        if o == 'fld': return s.addr(t.a[0], env) + (t.a[2],)
        if o in ('hmget',): return s.addr(t.a[0], env) + (('k', s.val(t.a[1], env)),)
        if o == 'hmval': return s.addr(t.a[0], env) + (('k', s.val(mk('hmkey', *t.a), env)),)
        if o in ('hmupd', 'hmins', 'hmrem'): return s.addr(t.a[0], env)
        if o == 'ref':
            c, path = t.a
            if c[0] == 'M': a = s.addr(c[1], env)
            else: a = ('L',) + tuple(c)
            for x in path:
                if x[0] == 'f': a += (x[1],)
                elif x[0] == 'hm': a += (('k', s.val(x[1], env)),)
                elif x[0] in ('*', 'd', 'deref'): pass
                else: raise Unknown(t)
            return a
        if t in s.tab.symref: return s.addr(s.tab.symref[t], env)
        raise Unknown(t)
    def val(s, t, env):
        if t in env: return env[t]
        o = t.op
        if o == 'int': return t.a[0]
        if o == 'str': return t.a[0]
        if o == 'lin':
            c, ps = lin_parts(t)
            return c + sum(k * s.val(x, env) for x, k in ps)
        if o in ('deref', 'arcin', 'arc', 'box', 'unbox'): return s.val(t.a[0], env)
        if o == 'split':
            x, sep = s.val(t.a[0], env), s.val(t.a[1], env)
            if isinstance(sep, int): sep = chr(sep)
            if not isinstance(x, str) or not sep: raise Unknown(t)
            return tuple(x.split(sep))
        if o == 'elem':
            l, i = s.val(t.a[0], env), s.val(t.a[1], env)
            if isinstance(l, str): l = tuple(l.encode())
            if not isinstance(l, tuple) or not isinstance(i, int) or not 0 <= i < len(l): raise Unknown(t)
            return l[i]
        if o == 'len':
            x = s.val(t.a[0], env)
            return len(x.encode()) if isinstance(x, str) else len(x)
        if o == 'eq0': return int(s.val(t.a[0], env) == 0)
        if o == 'ge0': return int(s.val(t.a[0], env) >= 0)
        if o == 'not': return int(not s.val(t.a[0], env))
        if o in ('and', 'or'):
            x, y = s.val(t.a[0], env), s.val(t.a[1], env)
            return int(x and y) if o == 'and' else int(x or y)
        if o in ('streq', 'eq'): return int(s.val(t.a[0], env) == s.val(t.a[1], env))
        if o in ('starts_with', 'ends_with', 'contains'):
            x, y = s.val(t.a[0], env), s.val(t.a[1], env)
            if isinstance(y, int): y = chr(y)
            if not isinstance(x, str) or not isinstance(y, str): raise Unknown(t)
            return int({'starts_with': x.startswith, 'ends_with': x.endswith, 'contains': x.__contains__}[o](y))
        if o in ('substr',):
            return s.val(t.a[0], env)[s.val(t.a[1], env):s.val(t.a[2], env)]
        if o == 'hmempty': return int(not env['#'].map(s.addr(t.a[0], env)))
        if o == 'hmlen': return len(env['#'].map(s.addr(t.a[0], env)))
        if o == 'hmhas': return int(s.val(t.a[1], env) in env['#'].map(s.addr(t.a[0], env)))
        if o == 'hmget':
            a = s.addr(t.a[0], env); k = s.val(t.a[1], env); m = env['#'].map(a)
            if k not in m: raise Unknown(t)
            return m[k]
        if o == 'hmval': return s.val(mk('hmget', t.a[0], mk('hmkey', *t.a)), env)
        if o == 'fld':
            x = s.val(t.a[0], env)
            if isinstance(x, tuple) and len(x) > t.a[2] + 2 and x[0] == 'adt': return x[t.a[2] + 2]
            raise Unknown(t)
        if o == 'disc':
            x = s.val(t.a[0], env)
            if isinstance(x, int): return x
            if isinstance(x, tuple) and x[0] == 'adt': return x[1]
            raise Unknown(t)
        if o == 'adt':
            return ('adt', t.a[1]) + tuple(s.try_(x, env) for x in t.a[2:])
        if o == 'ref':
            try: a = s.addr(t, env)
            except Unknown: return s.val(t.a[0][1], env) if t.a[0][0] == 'M' and not t.a[1] else s.bad(t)
            for i in range(len(a) - 1, -1, -1):
                if isinstance(a[i], tuple) and a[i][0] == 'k':
                    m = env['#'].map(a[:i]); k = a[i][1]
                    if k in m:
                        v = m[k]
                        for f in a[i + 1:]:
                            if not (isinstance(v, tuple) and v[0] == 'adt' and isinstance(f, int) and len(v) > f + 2): s.bad(t)
                            v = v[f + 2]
                        return v
            s.bad(t)
        if o == 'arr': return tuple(s.try_(x, env) for x in t.a)
        if o in ('hmnew',): return ('new',)
        raise Unknown(t)
    def bad(s, t): raise Unknown(t)
    def try_(s, t, env):
        try: return s.val(t, env)
        except Unknown: return ('?', show(t)[:60])
    # -- paths
    def item(s, it, st, env):
        """[(table, value returned)] after every way through the body that fits"""
        if it.trie is None: raise Unknown(it.name)
        out = {}
        s.node(it.trie, st, dict(env), out)
        return list(out.values())
    def node(s, n, st, env, out):
        for v in n.ends:
            if v is None: continue
            env['#'] = st
            r = None
            if v.op != 'tup' or v.a:
                try: r = s.mapval(v, st, env)
                except Unknown: r = ('?', show(v)[:80])
            k = (st.key(), repr(sorted(r.items(), key=repr)) if isinstance(r, dict) else r)
            out.setdefault(k, (st, r))
        for e, k in n.kids.items():
            for st2, env2 in s.event(e, st, env): s.node(k, st2, env2, out)
    def mapval(s, v, st, env):
        if v is UNIT: return None
        if v.op == 'hmnew': return {}
        return dict(st.map(s.addr(v, env)))
    def event(s, e, st, env):
        s.steps += 1; k = e[0]
        if k in QUIET: return [(st, env)]
        env['#'] = st
        if k == 'cond':
            if any(x.op == 'hmhas' for x in walk(e[1])): return [(st, env)]      # look-ups are followed as operations
            try: return [(st, env)] if bool(s.val(e[1], env)) == e[2] else []
            except Unknown:
                if any(x.op == 'len' and ismap(x.a[0]) for x in walk(e[1])): return [(st, env)]      # a step of an iteration, followed as such
                return [(S_(st.d, st.ghost, st.done, show(e[1])[:160]), env)]
        if k == 'mop':
            op, ref, key, v, had, mp = e[1:7]
            a = s.addr(ref, env)
            if op == 'clear':
                for kk in list(st.map(a)): st = st.drop(a, kk)
                return [(st, env)]
            kk = s.val(key, env); has = kk in st.map(a)
            if bool(had.a[0]) != has: return []
            if op == 'ins': st = s.fill(st.put(a, kk, s.try_(v, env) if v is not UNIT else 1), a + (('k', kk),), v, env)
            elif op == 'set':
                if a + (('k', kk),) in st.d: raise Unknown(v)      # a whole set replaced
                d = dict(st.d); m = dict(d.get(a, {})); m[kk] = s.try_(v, env); d[a] = m; st = S_(d, st.ghost, st.done, st.unsure)
            elif op == 'rem': st = st.drop(a, kk)
            return [(st, env)]
        if k == 'item': return [(S_(st.d, st.ghost, st.done + ((e[1], i),), st.unsure), env2) for i, env2 in s.choices(e, st, env)]
        if k == 'noitem':
            n = s.elements(e[1], st, env)
            return [(st, env)] if all((e[1], x) in st.done for x in n) else []
        if k == 'rec':
            it = s.tab.items[e[1]]
            env2 = dict(env)
            for b, src in zip(it.binds, e[2]):
                try: env2[b] = ('@',) + s.addr(src, env) if b.a[0] == 'topb' else s.val(src, env)
                except Unknown: env2.pop(b, None)
            f = getattr(it, 'fresh', None)
            if f: env2[f[1]] = ('@',) + s.addr(f[0], env)
            r = []
            for st2, _ in s.item(it, S_(st.d, st.ghost, (), st.unsure), env2):
                env3 = dict(env)
                for ref, new in e[3]: env3[new] = ('@',) + s.addr(ref, env)
                r.append((S_(st2.d, st2.ghost, st.done, st2.unsure), env3))
            return r
        if k == 'loop':
            seen = {st.key(): (st, env)}; todo = [(st, env)]
            while todo:
                st1, env1 = todo.pop()
                for alt in e[2]:
                    for st2, env2 in s.seq([x for x in alt if x[0] not in QUIET], st1, dict(env1)):
                        if st2.key() not in seen:
                            if len(seen) > 400: raise Unknown(UNIT)
                            env3 = dict(env); env3.update({x: y for x, y in env2.items() if isinstance(x, T) and x.op == 'sym' and isinstance(y, tuple) and y and y[0] == '@'})
                            seen[st2.key()] = (st2, env3); todo.append((st2, env3))
            return list(seen.values())
        return [(st, env)]
    def fill(s, st, a, v, env):
        """what a map put in with contents holds"""
        if v.op == 'hmins':
            st = s.fill(st, a, v.a[0], env); k = s.val(v.a[1], env)
            return s.fill(st.put(a, k, s.try_(v.a[2], env) if v.a[2] is not UNIT else 1), a + (('k', k),), v.a[2], env)
        if v.op == 'hmnew': return st
        if v.op == 'adt':
            for i, x in enumerate(v.a[2:]):
                if any(y.op in ('hmins', 'hmupd', 'hmrem') for y in walk(x)): raise Unknown(v)
        elif v.op.startswith('hm') and v.op not in ('hmkey', 'hmval', 'hmget'): raise Unknown(v)
        return st
    def seq(s, evs, st, env):
        if not evs: yield st, env; return
        for st2, env2 in s.event(evs[0], st, env): yield from s.seq(evs[1:], st2, env2)
    def elements(s, src, st, env):
        if src.op == 'arr': return list(range(len(src.a)))
        a = s.addr(src, env)
        m = st.d.get(a)
        if m is None: m = st.ghost.get(a)
        return sorted(m, key=repr) if m else []
    def choices(s, e, st, env):
        for x in s.elements(e[1], st, env):
            if (e[1], x) in st.done: continue
            if e[1].op == 'arr':
                if e[2].op == 'int' and e[2].a[0] != x: continue
                env2 = dict(env); env2[e[2]] = x; yield x, env2; continue
            env2 = dict(env); env2[mk('hmkey', e[1], e[2])] = x
            a = s.addr(e[1], env); m = st.d.get(a) or st.ghost.get(a) or {}
            if m.get(x) is not None: env2[mk('hmval', e[1], e[2])] = m[x]
            yield x, env2

# ---------------------------------------------------------------- reference
def matches(f, t):
    F, T_ = f.split('/'), t.split('/')
    if t.startswith('$') and F[0] in ('#', '+'): return False
    for i, x in enumerate(F):
        if x == '#': return len(T_) >= i
        if i >= len(T_) or x != '+' and x != T_[i]: return False
    return len(F) == len(T_)
def words(first, more, n):
    out = []
    for k in range(1, n + 1): out += ['/'.join(w) for w in itertools.product(first, *[more] * (k - 1))]
    return [w for w in out if w]
class Ref:
    def __init__(s, e=()): s.e = dict(e)
    def sub(s, c, f, q, fl): e = dict(s.e); e[(c, f)] = (q, fl); return Ref(e)
    def unsub(s, c, f): e = dict(s.e); e.pop((c, f), None); return Ref(e)
    def clear(s, c): return Ref({k: v for k, v in s.e.items() if k[0] != c})
    def get(s, t):
        r = {}
        for (c, f), v in s.e.items():
            if matches(f, t): r.setdefault(c, []).append(v)
        return r

class Model:
    """operations of the table in terms of their summaries"""
    def __init__(s, tab):
        s.t = tab; s.run = Run(tab); s.memo = {}; s.sig = {}
        for op, it in tab.ops.items():
            strs = [i for i, ty in enumerate(it.tys) if 'str' in ty]; qos = [i for i, ty in enumerate(it.tys) if 'QoS' in ty]; fl = [i for i, ty in enumerate(it.tys) if 'SubscriptionFlags' in ty]
            s.sig[op] = (strs, qos, fl)
    def env(s, op, texts, q=None, fl=None):
        it = s.t.ops[op]; strs, qi, fi = s.sig[op]
        if len(strs) != len(texts): raise Unknown(UNIT)
        e = {it.args[0]: ('@', 'T')}
        for i, x in zip(strs, texts): e[it.args[i]] = x
        for i in qi: e[it.args[i]] = ('adt', q)
        for i in fi: e[it.args[i]] = ('flags', fl)
        return e
    def do(s, op, st, texts, q=None, fl=None):
        k = (op, st.key(), texts, q, fl)
        r = s.memo.get(k)
        if r is None:
            r = s.memo[k] = [(S_({a: m for a, m in x.d.items() if a[0] == 'T'}, None, (), x.unsure), y) for x, y in s.run.item(s.t.ops[op], S_(st.d, None, (), st.unsure), s.env(op, texts, q, fl))]
        return r
    def subscribe(s, st, c, f, q, fl): return uniq(x for x, _ in s.do('subscribe', st, (c, f), q, fl))
    def unsubscribe(s, st, c, f): return uniq(x for x, _ in s.do('unsubscribe', st, (c, f)))
    def unsubscribe_all(s, st, c): return uniq(x for x, _ in s.do('unsubscribe_all', st, (c,)))
    def get(s, st, t): return s.do('get_all_subscribed', st, (t,))
def uniq(l):
    r = {}
    for x in l: r.setdefault(x.key(), x)
    return list(r.values())
def info(v):
    """(qos, flags) of a stored value"""
    q = fl = None
    def w(x):
        nonlocal q, fl
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'adt' and isinstance(x[1], int): q = x[1]
            elif len(x) == 2 and x[0] == 'flags': fl = x[1]
            else:
                for y in x: w(y)
    w(v); return (q, fl)

def levels(tab):
    lits = sorted(x for x in tab.lits if x and '/' not in x and x not in '+#$' and not x.startswith('$'))[:3]
    dl = [x for x in tab.lits if x.startswith('$') and len(x) > 1][:1]
    fil = ['', '+', 'a', 'b', '$a'] + lits + dl
    return fil, [x for x in fil if x != '+']

def lengths(tab):
    """lengths that decide between paths"""
    r = set()
    for it in list(tab.items.values()) + list(tab.ops.values()):
        for p in it.paths:
            for e in flat(p.trace):
                if e[0] != 'cond': continue
                for x in walk(e[1]):
                    if x.op in ('ge0', 'eq0') and x.a[0].op == 'lin':
                        c, ps = lin_parts(x.a[0])
                        if any(y.op == 'len' and y.a[0].op != 'split' for y, _ in ps) and 1 < abs(c) < 70000: r |= {abs(c) - 1, abs(c), abs(c) + 1}
    return sorted(r)[:12]

def judge(R, key, what, got, want, topic, hist, exact=True):
    """compare what a topic collects with the reference; False when wrong"""
    lost = sorted(set(want) - set(got)); extra = sorted(set(got) - set(want))
    if lost: R.viol(key + '|lost', '%s: a topic does not find a subscription it matches' % what, ['after %s the topic %r does not find client %s' % (hist, topic, ', '.join(lost))]); return False
    if extra: R.viol(key + '|extra', '%s: a topic finds a subscription it does not match' % what, ['after %s the topic %r finds client %s' % (hist, topic, ', '.join(extra))]); return False
    return True

def table(R, P):
    d = getattr(P, '_topics', None)
    if d is None: d = P._topics = Table(R, P)
    return d

def S11(R, P):
    R.rule('The operations of the subscription table are summarised as transducers over topic levels (recursion into a child block is a transition); where a filter is stored and what a topic collects are compared, for every pair of level sequences over representatives of all level texts the code distinguishes, with the matching relation of MQTT 5; of several matching filters of a client the one with the highest QoS must be reported.')
    tab = table(R, P)
    if any(op not in tab.ops for op in ('subscribe', 'get_all_subscribed')): return
    M = Model(tab); fil, top = levels(tab)
    n = 3; F = words(fil, fil, n); small = ['', '+', 'a']
    F = [f for f in F]
    H = ['#'] + [f + '/#' for f in words(fil, fil, 2)]
    Tp = words(top, top, n)
    D = words(['a', '+', '$a', ''], ['a', '+'], 4); DT = words(['a', '$a', ''], ['a', 'b'], 4)
    jobs = [(f, Tp) for f in F + H] + [(f, DT) for f in D + [x + '/#' for x in words(['a', '+', '$a'], ['a', '+'], 3)] if f.count('/') == 3]
    for n in lengths(tab):
        for w in ('a' * n, '$' + 'a' * (n - 1)):
            jobs += [(f, [w, w + '/a', 'a/' + w, w + '/' + w]) for f in (w, w + '/#', 'a/' + w, w + '/a', w + '/+', '+', '#', 'a/+', '+/' + w, '+/a')]
    R.count('filters', len(jobs)); R.count('topics', len(Tp))
    bad = set()
    try:
        # one subscription at a time, and on top of a table in which every block exists
        full = [S_()]
        base = Ref()
        for f in ['a/b/a', '+/+/+', '+/a/#', 'a/+/b', '#', '$a/b/+', '$a/+', '/a', '+/b', 'a/#', '/+/a', 'b/+/+']:
            full = M.subscribe(full[0], 'd', f, 1, 'y')[:1]; base = base.sub('d', f, 1, 'y')
            if not full: R.undecided('nopath', 'no way through subscribing %r fits' % f); return
        for world, st0, ref0 in (('an empty table', S_(), Ref()), ('a filled table', full[0], base)):
            for f, ts in jobs:
                if world[2] == ' ' and False: pass
                sts = M.subscribe(st0, 'c', f, 2, 'x')
                if not sts: R.undecided('nopath|subscribe', 'no way through subscribing %r fits' % f); continue
                ref = ref0.sub('c', f, 2, 'x')
                for st in sts:
                    for t in (ts if world[3] == 'e' else ts[::3] if f.count('/') > 1 else ts):
                        rs = M.get(st, t); want = ref.get(t)
                        if not rs: R.undecided('nopath|get', 'no way through looking up %r fits' % t); continue
                        for st2, got in rs:
                            if st2.unsure: R.undecided('unsure', st2.unsure); continue
                            if not isinstance(got, dict): raise Unknown(str(got))
                            kind = 'dollar' if t.startswith('$') else 'hash' if f.endswith('#') else 'plus' if '+' in f else 'level'
                            if not judge(R, 'match|' + kind, 'matching', got, want, t, 'subscribing %r in %s' % (f, world)): bad.add(kind); continue
                            if st2.key() != st.key(): R.viol('lookup|changes', 'looking up a topic changes the table', ['topic %r' % t]); continue
                            R.ok()
        # several filters of one client: the highest QoS
        FF = ['#', '+', 'a', 'a/#', '+/#', 'a/b', 'a/+', '+/b', '+/+', '/a', '$a/+', '$a/#', '$a/b']
        for f, g in itertools.permutations(FF, 2):
            for qf, qg in ((0, 2), (2, 1)):
                ref = Ref().sub('c', f, qf, 'x').sub('c', g, qg, 'y')
                for st in [y for x in M.subscribe(S_(), 'c', f, qf, 'x') for y in M.subscribe(x, 'c', g, qg, 'y')]:
                    for t in ('a', 'a/b', '/a', '$a/b'):
                        want = ref.get(t)
                        for st2, got in M.get(st, t):
                            if st2.unsure: R.undecided('unsure', st2.unsure); continue
                            if not judge(R, 'match|two', 'matching with two filters', got, want, t, 'subscribing %r and %r' % (f, g)): continue
                            if 'c' in want:
                                q, fl = info(got['c'])
                                if q is None: R.undecided('qos', 'what is reported for a matching subscription was not recognised'); continue
                                top_ = max(want['c'])
                                R.check(q == top_[0], 'match|qos', 'of several matching filters not the one with the highest QoS is reported', ['client c subscribed %r with QoS %d and %r with QoS %d; topic %r reports QoS %d' % (f, qf, g, qg, t, q)])
                                R.check(fl is None or (q, fl) in want['c'], 'match|options', 'what is reported for a match mixes the options of different filters', ['filters %r, %r; topic %r' % (f, g, t)])
    except Unknown as e: R.undecided('unknown', 'a step of the summaries was not recognised: %s' % (show(e.args[0])[:200] if e.args and isinstance(e.args[0], T) else e))
    R.count('steps', M.run.steps); R.count('bodies', len(tab.items) + len(tab.ops))

# ---------------------------------------------------------------- S10
def base_content(t):
    """the guarded content a map term or reference lies in, and the path to it"""
    while True:
        if t.op == 'ref': t = t.a[0][1] if t.a[0][0] == 'M' else None
        elif t.op in ('hmget', 'hmval', 'hmins', 'hmupd', 'hmrem', 'fld', 'deref'): t = t.a[0]
        else: break
        if t is None: return None
    return t if t.op == 'sym' and t.a[0] == 'content' else None
def atomic(R, tab):
    """a map inside the table may only be put in under the guard that showed its place to be free, and only taken out under the guard
    that showed it to be empty"""
    seen = {}
    def go(name, tr, before):
        hist = list(before)
        for e in tr:
            if e[0] == 'loop':
                for alt in e[2]: go(name, alt, hist)
            if e[0] == 'mop' and e[1] == 'ins' and nestval(e[4]):
                seen.setdefault((name, show(e[2]), show(e[3])), []).append((e, list(hist)))
                if e[5].a[0]: R.viol('replace|' + name, 'a block or index entry that may hold subscriptions is replaced by a new one', ['%s puts a new value at %s of %s although one may be present: what showed it to be absent was a different lock guard' % (name, show(e[3])[:80], show(e[2])[:100])])
                else: R.ok('%s: put in where absent under the same guard' % name)
            if e[0] == 'mop' and e[1] == 'rem' and base_content(e[2]) is not None:
                ct = base_content(e[2])
                if any(x[0] == 'mop' and x[1] == 'ins' and nestval(x[4]) and same_map(x[2], e[2]) for x in tab.inserts): takes.append((name, e, list(hist)))
            hist.append(e)
    takes = []
    for it in list(tab.items.values()) + list(tab.ops.values()):
        for p in it.paths: go(it.name, p.trace, [])
    return takes
def same_map(a, b):
    return skeleton(a) == skeleton(b)
def skeleton(t):
    """a map reference without guard versions, keys and the block it starts from"""
    if t.op == 'ref':
        c = t.a[0]
        return (skeleton(c[1]) if c[0] == 'M' else ('L',)) + tuple(x[1] if x[0] == 'f' else 'k' for x in t.a[1] if x[0] in ('f', 'hm'))
    if t.op == 'sym' and t.a[0] == 'content': return skeleton(t.a[1]) + ('*',)
    if t.op == 'fld': return skeleton(t.a[0]) + (t.a[2],)
    if t.op in ('hmget', 'hmval'): return skeleton(t.a[0]) + ('k',)
    if t.op in ('deref', 'hmins', 'hmupd', 'hmrem', 'arcin', 'box'): return skeleton(t.a[0])
    return ()

def S10(R, P):
    R.rule('The operations of the subscription table are summarised as for S11; every history of up to four operations over a set of filters and two clients is followed through the summaries and what each topic finds afterwards compared with the same history on a plain set of subscriptions. On the paths themselves: a nested map is only put in under the guard that showed its place to be free, the index is written after the entries and removed before them.')
    tab = table(R, P)
    tab.inserts = [e for it in list(tab.items.values()) + list(tab.ops.values()) for p in it.paths for e in flat(p.trace) if e[0] == 'mop' and e[1] == 'ins' and nestval(e[4])]
    takes = atomic(R, tab)
    order(R, tab, takes)
    if any(op not in tab.ops for op in OPS_): return
    M = Model(tab)
    FF = ['a', 'a/#', '#', '+', 'a/+', '/a', 'a/b', '+/#', '$a/+', 'a//b', '/', '$a/b/#', 'a/b/a']
    TS = ['a', 'b', 'a/b', '/a', 'a/b/a', '$a/b', 'a//b', '/', '$a', 'a/a']
    def check(st, ref, hist):
        for t in TS:
            want = ref.get(t)
            rs = M.get(st, t)
            for st2, got in rs:
                if st2.unsure: R.undecided('unsure', st2.unsure); continue
                if not isinstance(got, dict): raise Unknown(str(got))
                if not judge(R, 'history|' + hist[-1].split(' ')[0], 'histories', got, want, t, ', '.join(hist)): return
                for c in want:
                    q, fl = info(got[c])
                    R.check(q is None or fl is None or (q, fl) in want[c], 'history|options', 'the options found are not those of the last subscription', ['after %s the topic %r finds %r' % (', '.join(hist), t, got[c])])
            if rs: R.ok()
    def step(sts, ref, hist, op, *a):
        what = '%s %s' % (op, ' '.join(str(x) for x in a)); r = []
        for st in sts:
            n = getattr(M, op)(st, *a)
            if not n: R.undecided('nopath|' + op, 'no way through %s fits after %s' % (what, ', '.join(hist)))
            r += n
        r = uniq(r)
        ref = ref.sub(*a) if op == 'subscribe' else ref.unsub(*a) if op == 'unsubscribe' else ref.clear(*a)
        hist = hist + [what]
        for st in r: check(st, ref, hist)
        return r, ref, hist
    try:
        e = ([S_()], Ref(), [])
        step(*e, 'unsubscribe', 'c', 'a'); step(*e, 'unsubscribe_all', 'c')
        for f in FF:
            s1 = step(*e, 'subscribe', 'c', f, 1, 'x')
            step(*s1, 'subscribe', 'c', f, 2, 'y'); step(*step(*s1, 'subscribe', 'c', f, 0, 'y'), 'unsubscribe_all', 'c')
            step(*s1, 'unsubscribe', 'd', f); step(*s1, 'unsubscribe_all', 'd')
            u = step(*s1, 'unsubscribe', 'c', f); step(*u, 'subscribe', 'c', f, 1, 'z'); step(*u, 'unsubscribe_all', 'c'); step(*u, 'unsubscribe', 'c', f)
            s2 = step(*s1, 'subscribe', 'd', f, 2, 'y')
            step(*s2, 'unsubscribe_all', 'c'); step(*step(*s2, 'unsubscribe', 'c', f), 'unsubscribe_all', 'd')
            for g in FF:
                if g == f: continue
                s3 = step(*s1, 'subscribe', 'c', g, 0, 'y')
                step(*step(*s3, 'unsubscribe', 'c', f), 'unsubscribe_all', 'c'); step(*s3, 'unsubscribe_all', 'c')
                s4 = step(*s1, 'subscribe', 'd', g, 0, 'y')
                step(*s4, 'unsubscribe', 'c', g); step(*s4, 'unsubscribe', 'c', f); step(*s4, 'unsubscribe_all', 'c')
    except Unknown as e: R.undecided('unknown', 'a step of the summaries was not recognised: %s' % (show(e.args[0])[:200] if e.args and isinstance(e.args[0], T) else e))
    R.count('steps', M.run.steps); R.count('bodies', len(tab.items) + len(tab.ops))

def order(R, tab, takes):
    """the index is written after and removed before the entries it lists"""
    sub = tab.ops.get('subscribe')
    if sub is None: return
    # the index is the map of the table itself into which a nested map is put under the client
    idx = {skeleton(e[2]) for p in sub.paths for e in flat(p.trace) if e[0] == 'mop' and e[1] == 'ins' and nestval(e[4]) and e[3] is keyterm(sub, 0)}
    if not idx:
        R.undecided('index', 'which map is the per-client index was not recognised'); return
    def isidx(e): return e[0] == 'mop' and any(skeleton(e[2])[:len(i)] == i for i in idx)
    def isent(e): return e[0] == 'rec' or e[0] == 'mop' and e[1] in ('ins', 'rem') and not isidx(e) and e[2].a[0][0] == 'M'
    for op in ('subscribe', 'unsubscribe', 'unsubscribe_all'):
        it = tab.ops.get(op)
        if it is None: continue
        for p in it.paths:
            evs = list(flat(p.trace))
            if op == 'subscribe':
                i = next((i for i, e in enumerate(evs) if isidx(e) and e[1] == 'ins'), None)
                if i is None: continue
                if any(isent(e) for e in evs[i + 1:]): R.viol('order|subscribe', 'the index lists a subscription before it is entered', ['%s: the index is written before the table' % it.name]); break
            else:
                i = next((i for i, e in enumerate(evs) if isent(e)), None)
                if i is None: continue
                if any(isidx(e) and e[1] == 'rem' for e in evs[i + 1:]): R.viol('order|' + op, 'a subscription is taken out of the table while the index still lists it', ['%s: the table is changed before the index' % it.name]); break
                if not any(isidx(e) and e[1] in ('rem', 'get') for e in evs[:i]): R.undecided('order|' + op, 'no removal from the index was recognised'); break
            R.ok('%s: order of index and table' % op)
    # a client's index entry may only go when it was seen to be empty under the same guard
    for name, e, hist in takes:
        if not any(skeleton(e[2]) == i for i in idx):
            R.undecided('prune|' + name, 'blocks are taken out of the table'); continue
        if name.startswith(tab.ops['unsubscribe'].name if 'unsubscribe' in tab.ops else '?') and not name.startswith(TT + 'unsubscribe_all'):
            ct = base_content(e[2])
            ok = any(x[0] == 'cond' and any(y.op in ('hmempty', 'hmlen') and base_content(y.a[0]) is ct for y in walk(x[1])) for x in hist)
            R.check(ok or not e[5].a[0], 'emptied|' + name, 'the index entry of a client is dropped without having been seen empty under the same lock', ['%s' % name])
def keyterm(it, n):
    strs = [i for i, ty in enumerate(it.tys) if 'str' in ty]
    return it.args[strs[n]] if len(strs) > n else None
