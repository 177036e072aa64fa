"""Loop summarisation: structural generalisation of loop-header states with relational counters,
prefix sums over collections, and Kleene-star generalisation of sequences and traces."""
from term import *
import term as TM
from math import gcd

BOUND = mk('bound')

def subst(t, m, memo=None):
    """replace terms by terms (simultaneously), rebuilding through smart constructors"""
    if memo is None: memo = {}
    r = memo.get(t)
    if r is not None: return r
    if t in m: r = m[t]
    elif t.op == 'int' or not t.a: r = t
    elif t.op == 'lin':
        r = I(t.a[0])
        for x, k in t.a[1]: r = add(r, subst(x, m, memo), k)
    else:
        ch = False; args = []
        for x in t.a:
            if isinstance(x, T):
                y = subst(x, m, memo); ch |= y is not x; args.append(y)
            elif isinstance(x, tuple):
                y = subst_tuple(x, m, memo); ch |= y != x; args.append(y)
            else: args.append(x)
        r = rebuild(t, args) if ch else t
    memo[t] = r
    return r
def subst_tuple(x, m, memo):
    return tuple(subst(y, m, memo) if isinstance(y, T) else subst_tuple(y, m, memo) if isinstance(y, tuple) else y for y in x)
def rebuild(t, args):
    o = t.op
    if o == 'ge0': return ge0(args[0])
    if o == 'eq0': return eq0(args[0])
    if o == 'not': return b_not(args[0])
    if o in ('and', 'or') and ATOM_TY.get(t) == 'bool': return (b_and if o == 'and' else b_or)(*args)
    if o in ('and', 'or', 'xor', 'shl', 'shr', 'mul', 'div', 'rem'): return bit(o, args[0], args[1], ATOM_TY.get(t))
    if o == 'psum': return psum(*args)
    r = mk(o, *args)
    for reg in (ATOM_TY, ATOM_RNG, ATOM_DOM, ATOM_META):
        if t in reg and r not in reg: reg[r] = reg[t]
    return r

def LEN(src):
    t = typed(mk('itlen', src), 'usize')
    ATOM_RNG.setdefault(t, (0, 2**48))
    return t
CUR = [None]
REL = {}         # piece list appended in one loop iteration -> {loop symbol: {increments in that iteration}}
def reeval(t, m, memo):
    """substitute and re-project"""
    r = memo.get(t)
    if r is not None: return r
    I_ = CUR[0]
    if t in m: r = m[t]
    elif t.op == 'int' or not t.a: r = t
    elif t.op == 'lin':
        r = I(t.a[0])
        for x, k in t.a[1]: r = add(r, reeval(x, m, memo), k)
    else:
        args = [reeval(x, m, memo) if isinstance(x, T) else x for x in t.a]
        if all(x is y for x, y in zip(args, t.a)): r = t
        elif t.op == 'fld':
            try: r = I_.project(args[0], ('f', args[2], args[1], None), None)
            except Exception: r = mk('fld', *args)
        elif t.op == 'arcin' and args[0].op == 'arc': r = args[0].a[0]
        elif t.op == 'len': r = I_.length(None, args[0])
        elif t.op == 'deref' and args[0].op == 'ref' and args[0].a[0][0] == 'M' and not args[0].a[1]: r = args[0].a[0][1]
        else: r = rebuild(t, args)
    memo[t] = r
    return r
def star_sum(src, n, f):
    """a sum over a sequence built by one loop equals another counter of that loop when both grow alike in every iteration"""
    if src.op != 'vec' or n is not src.a[0] or len(src.a) != 2 or src.a[1].op != 'pstar' or CUR[0] is None: return None
    alts = src.a[1].a[2:]
    if not alts: return None
    cand = None
    for a in alts:
        r = REL.get(a)
        if r is None or any(p.op != 'pe' for p in a.a): return None
        tot = ZERO
        for p in a.a: tot = add(tot, reeval(f, {mk('elem', src, BOUND): p.a[0]}, {}))
        ds = {d for d, s in r.items() if s == {tot}}
        cand = ds if cand is None else cand & ds
        if not cand: return None
    return min(cand, key=lambda t: t.id)
def psum(src, n, f):
    """sum of f[elem := element i of src] for i < n"""
    if n is ZERO or f is ZERO: return ZERO
    if f.op == 'int' and n.op == 'int': return I(f.a[0] * n.a[0])
    if src.op == 'vec' and n is src.a[0] and n.op == 'int' and len(src.a) - 1 == n.a[0] and all(p.op == 'pe' for p in src.a[1:]) and CUR[0] is not None:
        tot = ZERO
        for p in src.a[1:]: tot = add(tot, reeval(f, {mk('elem', src, BOUND): p.a[0]}, {}))
        return tot
    r = star_sum(src, n, f)
    if r is not None: return r
    if f.op == 'int': return scale(n, f.a[0])
    t = typed(mk('psum', src, n, f), 'usize')
    ATOM_RNG.setdefault(t, (0, 2**60))
    return t

def subst_state(st, m):
    if not m: return
    memo = {}
    st.mem = {(subst_tuple(c, m, memo) if c[0] in 'MH' else c): subst(v, m, memo) for c, v in st.mem.items()}
    st.trace = subst_tuple(st.trace, m, memo)
    f = st.facts; g = Facts()
    for x, d in f.dom.items(): g.dom[subst(x, m, memo)] = d
    st.facts = g
    for x, (lo, hi) in f.iv.items():
        y = subst(x, m, memo)
        if y is x: g.iv[x] = (lo, hi)
        else:
            if lo > -2**199: g.assume(ge0(sub(y, I(lo))))
            if hi < 2**199: g.assume(ge0(sub(I(hi), y)))
    for l in f.ge:
        y = subst(l, m, memo)
        if y.op == 'int':
            if y.a[0] < 0: raise Infeasible()
        else: g._ge(y)
    for b, v in f.bo.items():
        y = subst(b, m, memo)
        if y.op == 'int':
            if bool(y.a[0]) != v: raise Infeasible()
        else: g.bo[y] = v
    g._touch()

NUMERIC = {'int', 'lin'}
def numlike(I_, t):
    if t.op in NUMERIC: return True
    ty = ATOM_TY.get(t)
    return (ty in INT_RNG and ty not in ('bool', 'char')) or t.op in ('psum', 'itlen', 'len', 'min')

def parts_of(v): return v.a[1:]

def generalise(I_, f, h, depth, st0, H, backs, it):
    site = (f['p'], h, depth, st0.ctr.get(('lp', f['p'], h, depth), 0)); CUR[0] = I_
    new = st0.copy()
    leaves = []          # (path, v0, vH, vBs, setter)
    order = []
    cells = list(st0.mem.keys())
    extra = []
    for b in backs:
        for c in b.mem:
            if c not in st0.mem and c not in extra:
                if c[0] == 'M' or c[0] == 'H': extra.append(c)
    plan = {}
    starred = []
    ltypes = {}
    for c in cells + extra:
        if c[0] == 'M': v0 = st0.mem.get(c, c[1]); vH = H.mem.get(c, c[1]); vB = [b.mem.get(c, c[1]) for b in backs]
        else:
            v0 = st0.mem.get(c); vH = H.mem.get(c); vB = [b.mem.get(c) for b in backs]
            if v0 is None or vH is None or any(x is None for x in vB):
                new.mem.pop(c, None); continue
        if c[0] == 'L' and c[1] == depth:
            ltypes[c] = I_.prog.tname(f['body']['locals'][c[2]][0])
        plan[c] = skeleton(I_, (c,), v0, vH, vB, leaves, ltypes.get(c))
    # -- iteration indices
    idx = None
    for lf in leaves:
        if lf['kind'] == 'pos':
            ds = [sub(b, lf['vH']) for b in lf['vB']]
            if all(d is ONE for d in ds) and lf['v0'].op == 'int':
                lf['pos'] = True
                if idx is None: idx = lf
    env_elem = {}
    if idx is not None:
        n = sym('usize', 'lv', site, 'n', idx['src'])
        ATOM_RNG[n] = (0, 2**48)
        for lf in leaves:
            if lf.get('pos'):
                lf['new'] = add(lf['v0'], n)
                # upper bound: positions never exceed the collection
                L = I_.srclen(st0, lf['src'])
                new.facts._ge(sub(L, lf['new']))
        # element terms at the current position
        def bind(t):
            return subst(t, {el: mk(el.op, idx['src'], BOUND) for el in elems_of(t, idx['src'], idx['vH'])})
    groups = {}
    for lf in leaves:
        if 'new' in lf: continue
        v0, vH, vB = lf['v0'], lf['vH'], lf['vB']
        if vH is v0 and all(b is vH for b in vB):
            lf['new'] = v0; continue
        if lf['kind'] in ('num', 'pos'):
            ds = [simp(b.facts, sub(x, vH)) for b, x in zip(backs, vB)]
            if all(d is ZERO for d in ds) and it == 0:
                lf['new'] = v0; continue
            if idx is not None and len(set(ds)) == 1 and ds[0] is not ZERO:
                fd = bind(ds[0])
                if fd is not ds[0] or fd.op == 'int':
                    if mentions(fd, idx['vH']) is False or idx['vH'].op == 'int':
                        lf['new'] = add(v0, psum(idx['src'], n, fd)); continue
            key, c = normvec(ds)
            if key is None:
                lf['new'] = v0 if vH is v0 else None
                if lf['new'] is None:
                    # changed earlier, not any more: keep previous general value
                    lf['new'] = vH
                continue
            groups.setdefault(key, []).append((lf, c)); continue
        if lf['kind'] == 'seq': continue
        lf['new'] = opaque_lv(I_, site, lf, backs)
    rels = []
    for key, mem in groups.items():
        # is the primitive delta provably non negative (or non positive) in every back state?
        pos = all(b.facts.prove_ge0(d) for b, d in zip(backs, key))
        neg = (not pos) and all(b.facts.prove_ge0(scale(d, -1)) for b, d in zip(backs, key))
        d = sym('i128', 'lv', site, 'd', pathkey(mem[0][0]['path']), 'p' if pos else 'm' if neg else 'u')
        ATOM_RNG[d] = (0, 2**64) if pos or neg else (-2**64, 2**64)
        for lf, c in mem:
            lf['new'] = add(lf['v0'], d, -c if neg else c)
        rels.append((d, [scale(x, -1) for x in key] if neg else list(key)))
    # sequences
    for lf in leaves:
        if lf['kind'] != 'seq': continue
        v0, vH, vB = lf['v0'], lf['vH'], lf['vB']
        p0, pH = parts_of(v0), parts_of(vH)
        sufs = []; allsuf = []
        ok = True
        for b in vB:
            pB = parts_of(b)
            if pB[:len(pH)] != pH: ok = False; break
            s = pB[len(pH):]
            s = mk('pl', *s)
            if idx is not None: s = bind(s)
            j = len(allsuf); allsuf.append(s)
            for d, key in rels:
                REL.setdefault(s, {}).setdefault(d, set()).add(key[j])
            if s not in sufs: sufs.append(s)
        if not ok:
            lf['newparts'] = (mk('pany', str(site)),); continue
        if all(not s.a for s in sufs) and vH is v0: lf['newparts'] = p0; continue
        prev = []
        if it > 0 and len(pH) == len(p0) + 1 and pH[-1].op == 'pstar': prev = list(pH[-1].a[2:])
        alts = sorted(set(sufs) | set(prev), key=lambda t: t.id)
        lf['newparts'] = p0 + (mk('pstar', idx['src'] if idx is not None else UNIT, n if idx is not None else UNIT, *alts),)
    for c, sk in plan.items():
        v = sk()
        if c[0] == 'M' and v is c[1]: new.mem.pop(c, None)
        else: new.mem[c] = v
    # inductive non negativity of unsigned leaves
    for lf in leaves:
        if lf['kind'] in ('num', 'pos') and lf['new'] is not lf['v0'] and lf['new'].op == 'lin':
            if st0.facts.prove_ge0(lf['v0']) and all(b.facts.prove_ge0(x) for b, x in zip(backs, lf['vB'])):
                try: new.facts.assume(ge0(lf['new']))
                except Infeasible: pass
    if getattr(I_, 'bound_hints', False): upper_bounds(I_, st0, new, leaves, backs)
    # trace
    k = len(H.trace); sufs = set()
    for b in backs:
        s = b.trace[k:]
        if s: sufs.add(s)
    if it > 0 and len(H.trace) == len(st0.trace) + 1 and H.trace[-1][0] == 'loop':
        sufs |= set(H.trace[-1][2])
    if sufs: new.trace = st0.trace + (('loop', site[:2], frozenset(sufs)),)
    return new

def atoms_in(v, acc, seen):
    if v in seen: return
    seen.add(v)
    if v.op in ('sym', 'fld'): acc.add(v)
    for x in v.a:
        if isinstance(x, T): atoms_in(x, acc, seen)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T): atoms_in(y, acc, seen)
def upper_bounds(I_, st0, new, leaves, backs):
    """inductive bounds: a changing number that every iteration leaves at most an unchanged one"""
    inv = None
    for lf in leaves:
        if lf['kind'] not in ('num', 'pos') or lf['new'] is lf['v0']: continue
        cand = None
        for b, x in zip(backs, lf['vB']):
            xs = set(lin_parts(x)[1] and [y for y, _ in lin_parts(x)[1]] or [])
            cs = set()
            for l in b.facts.ge:
                ps = lin_parts(l)[1]
                if len(ps) <= 4:
                    for y, k in ps:
                        if k == 1 and y not in xs: cs.add(y)
            cand = cs if cand is None else cand | cs
            if len(cand) > 60: break
        if not cand: continue
        if inv is None:
            inv = set(); seen = set()
            for v in st0.mem.values():
                if isinstance(v, T): atoms_in(v, inv, seen)
        for t in sorted(cand & inv, key=lambda t: t.id)[:12]:
            if ATOM_TY.get(t) not in INT_RNG: continue
            if st0.facts.prove_ge0(sub(t, lf['v0'])) and all(b.facts.prove_ge0(sub(t, x)) for b, x in zip(backs, lf['vB'])):
                try: new.facts._ge(sub(t, lf['new']))
                except Infeasible: pass

BITOPS = {'and', 'or', 'xor', 'shl', 'shr', 'bnot', 'trunc', 'div', 'rem'}
def simp(f, t):
    """replace atoms of a linear term that the facts determine"""
    c, ps = lin_parts(t)
    if not ps: return t
    r = I(c)
    for x, k in ps:
        v = f.const(x)
        r = add(r, I(v) if v is not None else x, k)
    return r
def pathkey(p): return str(p[0][:1]) + ''.join('/%s' % (x,) for x in p[1:]) + (str(p[0][1:3]) if p[0][0] == 'L' else str([x.id if isinstance(x, T) else x for x in p[0][1:]]))

def opaque_lv(I_, site, lf, backs):
    v0, vH, vB = lf['v0'], lf['vH'], lf['vB']
    ty = lf.get('ty') or ATOM_TY.get(v0) or next((ATOM_TY[b] for b in vB if b in ATOM_TY), None)
    # finite sets
    vals = set(); fin = True
    for s, v in [(None, v0)] + list(zip(backs, vB)):
        if v.op == 'int': vals.add(v.a[0])
        else:
            d = (s.facts if s is not None else Facts()).values(v) if I_.intlike(v) else None
            if d is None or len(d) > 16: fin = False; break
            vals |= d
    t = mk('sym', 'lv', site, 'o', pathkey(lf['path']), tuple(sorted(vals)) if fin else None)
    if fin: ATOM_DOM[t] = frozenset(vals)
    if ty: ATOM_TY.setdefault(t, ty)
    for x in [v0] + vB:
        if x.op == 'adt': ATOM_META.setdefault(t, x.a[0])
        elif x in ATOM_META: ATOM_META.setdefault(t, ATOM_META[x])
    return t

SEQ = {'vec', 'w'}
POSOPS = {'iter'}
def skeleton(I_, path, v0, vH, vB, leaves, ty=None):
    """build a reconstruction closure for a value; collects generalisable leaves"""
    allv = [v0, vH] + vB
    if all(x is v0 for x in allv): return lambda: v0
    o = v0.op
    if o == 'ref' and all(x.op == 'ref' for x in allv):
        lf = {'path': path, 'v0': v0, 'vH': vH, 'vB': vB, 'kind': 'op', 'ty': ty}
        leaves.append(lf); return lambda: lf['new']
    if o in SEQ and all(x.op == o for x in allv):
        ln = skeleton(I_, path + ('len',), v0.a[0], vH.a[0], [b.a[0] for b in vB], leaves, 'usize')
        lf = {'path': path, 'v0': v0, 'vH': vH, 'vB': vB, 'kind': 'seq'}
        leaves.append(lf)
        return lambda: mk(o, ln(), *lf['newparts'])
    if o == 'iter' and all(x.op == 'iter' and x.a[0] is v0.a[0] and x.a[2:] == v0.a[2:] for x in allv):
        lf = {'path': path, 'v0': v0.a[1], 'vH': vH.a[1], 'vB': [b.a[1] for b in vB], 'kind': 'pos', 'src': v0.a[0]}
        leaves.append(lf)
        return lambda: mk('iter', v0.a[0], lf['new'], *v0.a[2:])
    numok = all(numlike(I_, x) and x.op not in BITOPS for x in allv)
    if numok and ty != 'bool':
        lf = {'path': path, 'v0': v0, 'vH': vH, 'vB': vB, 'kind': 'num', 'ty': ty}
        leaves.append(lf); return lambda: lf['new']
    if o not in ('int', 'sym', 'lin', 'str', 'fld', 'elem', 'psum', 'len', 'disc') and o not in OPS and all(x.op == o and len(x.a) == len(v0.a) for x in allv) and \
       all(all((isinstance(y, T) and isinstance(z, T)) or y == z for y, z in zip(x.a, v0.a)) for x in allv):
        subs = []
        for i, y in enumerate(v0.a):
            if isinstance(y, T):
                subs.append(skeleton(I_, path + (i,), y, vH.a[i], [b.a[i] for b in vB], leaves))
            else: subs.append(None)
        return lambda: mk(o, *[s() if s is not None else v0.a[i] for i, s in enumerate(subs)])
    lf = {'path': path, 'v0': v0, 'vH': vH, 'vB': vB, 'kind': 'op', 'ty': ty}
    leaves.append(lf); return lambda: lf['new']

ELEMOPS = {'elem', 'hmkey', 'hmval', 'fi', 'fj'}
def elems_of(t, src, pos, acc=None, seen=None):
    if acc is None: acc = []; seen = set()
    if t in seen: return acc
    seen.add(t)
    if t.op in ELEMOPS and t.a[0] is src and t.a[1] is pos: acc.append(t); return acc
    for x in t.a:
        if isinstance(x, T): elems_of(x, src, pos, acc, seen)
        elif isinstance(x, tuple): _et(x, src, pos, acc, seen)
    return acc
def _et(x, src, pos, acc, seen):
    for y in x:
        if isinstance(y, T): elems_of(y, src, pos, acc, seen)
        elif isinstance(y, tuple): _et(y, src, pos, acc, seen)
def mentions(t, x, seen=None):
    if t is x: return True
    if seen is None: seen = set()
    if t in seen: return False
    seen.add(t)
    def go(a):
        for y in a:
            if isinstance(y, T):
                if mentions(y, x, seen): return True
            elif isinstance(y, tuple) and go(y): return True
        return False
    return go(t.a)

def normvec(ds):
    """(normalised delta vector, factor) or (None, _) when all zero"""
    g = 0; first = None
    for d in ds:
        c, ps = lin_parts(d)
        for k in [c] + [k for _, k in ps]:
            if k:
                g = gcd(g, abs(k))
                if first is None: first = None
    # sign: first non zero coefficient positive
    sign = 0
    for d in ds:
        c, ps = lin_parts(d)
        if ps: sign = 1 if ps[0][1] > 0 else -1; break
        if c: sign = 1 if c > 0 else -1; break
    if g == 0: return None, 0
    f = g * sign
    def dv(d):
        c, ps = lin_parts(d)
        return mklin(c // f, {x: k // f for x, k in ps})
    return tuple(dv(d) for d in ds), f
