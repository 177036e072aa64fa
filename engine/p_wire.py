"""P02 (lengths) and P03 (round trip): writer side of every packet kind."""
from reach import *
from p_decode import bitvec, same_bit, short, tainted, facts_lines, run_packet, kind_name, norm_eq, panic_key, FLEN, FROM, consumed
from loopgen import subst
import models

TOB = PK + 'packet::Packet::to_bytes'
PACKET = PK + 'packet::Packet'
MAXV = 0xfffffff

def c_vnew(c):
    """a frame within the protocol's size limit: the length given to a variable byte integer fits"""
    x = c.args[0]
    if x.op == 'trunc' and x.a[1] == 32: x = x.a[0]
    st = c.st.copy()
    try: st.facts.assume(ge0(sub(I(MAXV), x)))
    except Infeasible: return []
    return [Out(st, 'ret', models.Ok(mkvb(c.I, x)))]
VNEW = {VB + '::new': c_vnew}

def writer_state(st, v):
    s = st.copy(); c = ('H', 'pkt'); s.mem[c] = v
    w = ('H', 'out'); s.mem[w] = mk('vec', ZERO)
    return s, mk('ref', c, ()), w
def tokens(v):
    """(length, [tokens]) of a written buffer"""
    if v.op == 'w':
        ps = list(v.a[1:])
        if ps and ps[0].op == 'was' and ps[0].a[0].op == 'vec': ps = ps[1:]
        return v.a[0], ps
    if v.op == 'vec' and v.a[0] is ZERO: return ZERO, []
    return None, None

def packet_states(R, P, RE):
    """[(kind, value, facts)]: every reachable abstract state of every packet kind, leaves still symbolic"""
    res = []
    ad = P.adts[PACKET]['v']
    for vi, v in enumerate(ad):
        fti = v['f'][0]['ti']
        path = P.types[fti].get('p')
        try: sts = RE.states(path, v['n'] + ':')
        except (Unsupported, Budget) as e: R.undecided('states|' + v['n'], str(e)); continue
        if not sts and P.adts.get(path): R.undecided('states|' + v['n'], 'no constructor found')
        for a, F in sts: res.append((v['n'], mk('adt', PACKET, vi, a), F))
        if path not in RE.surface:
            RE.surface[path] = 1
            R.count('mutators', len(RE.ops.get(path, ((), ()))[1])); R.count('constructors', len(RE.ops.get(path, ((), ()))[0]))
    return res

def lin_eq(F, a, b): return norm_eq(F, a, b)

def check_tokens(R, F, kn, toks, total, key, det):
    """length prefixes agree with what follows them"""
    # first byte, then remaining length
    pass

def toklen2(I_, st, t):
    n = models.toklen(I_, st, t)
    if n is None and t.op == 'pv': n = pvsz(t.a[0])
    return n

def prefix_checks(R, I_, st, toks, where):
    F = st.facts
    for i, t in enumerate(toks):
        if t.op == 'raw' and i and toks[i - 1].op == 'u' and toks[i - 1].a[0] == 2 and where[1]:
            n = I_.length(st, t.a[0]); u = toks[i - 1].a[1]
            while u.op == 'trunc' and F.prove_ge0(sub(I((1 << u.a[1]) - 1), u.a[0])): u = u.a[0]
            R.check(F.prove_eq(u, n), '%s|prefix' % where[0], 'a length prefix written by %s differs from the number of bytes that follow it' % where[0], ['prefix ' + short(show(u))[:200], 'bytes  ' + short(show(n))[:200]], '%s: length prefix' % where[0])

LEAVES = [D + 'MqttOneBytesInt', D + 'MqttTwoBytesInt', D + 'MqttFourBytesInt', D + 'MqttUtf8String', D + 'MqttBinaryData', D + 'MqttUtf8StringPair', PK + 'topic::MqttTopic', PV, PKEY]

def members(P, RE, I_, path):
    """[(value, facts)] arbitrary members of a data class"""
    ti = RE.tyix(path)
    if path in LEAF:
        t = RE.leafsym(I_, ti, 'm')
        return RE.leaf_alts(I_, t, ti)
    ad = P.adts[path]
    r = []
    for i, v in enumerate(ad['v']):
        alts = [((), Facts())]
        for j, fl in enumerate(v['f']):
            nm = P.tname(fl['ti'])
            na = []
            for pre, F in alts:
                if nm in LEAF: subs = RE.leaf_alts(I_, RE.leafsym(I_, fl['ti'], 'm%d.%d' % (i, j)), fl['ti'])
                elif nm == VB: subs = [(mkvb(I_, vival(mk('any', i, j), ZERO)), Facts())]
                elif P.types[fl['ti']]['k'] == 'adt' and nm in P.adts and nm.startswith(PK) and any(x['f'] for x in P.adts[nm]['v']): subs = members(P, RE, I_, nm)
                else:
                    subs = [(RE.leafsym(I_, fl['ti'], 'm%d.%d' % (i, j)), Facts())]
                for v2, F2 in subs:
                    G = F.copy()
                    try: merge(G, F2)
                    except Infeasible: continue
                    na.append((pre + (v2,), G))
            alts = na
        r += [(mk('adt', path, i, *pre), F) for pre, F in alts]
    return r

def leaf_lengths(R, P, RE):
    for path in LEAVES:
        fs, fz = find_impl(P, PRS + 'MqttSerialize', 'serialize', path), find_impl(P, PRS + 'MqttSize', 'size', path)
        nm = short(path)
        fixed = fz is None and find_fn(P, '<%s as %sMqttUncheckedDeserialize>::fixed_size' % (path, PRS))
        if fixed: fz = fixed
        if fs is None or fz is None or path not in P.adts: R.undecided('leaf|' + nm, 'serialize/size not found'); continue
        I_ = interp(P, VARINT)
        for v, F in members(P, RE, I_, path):
            var = nm + ('#' + P.adts[path]['v'][v.a[1]]['n'] if len(P.adts[path]['v']) > 1 else '')
            s, pr, w = writer_state(State(), v); s.facts = F.copy()
            zo = I_.run(fz, [] if fixed else [pr], s, 1, None)
            for z in zo:
                if z.kind != 'ret': R.viol('%s|size|%s' % (var, panic_key(z)), 'size() of %s panics' % var, facts_lines(z.st)); continue
                for o in I_.run(fs, [pr, mk('ref', w, ())], z.st, 1, None):
                    if o.kind != 'ret': R.viol('%s|ser|%s' % (var, panic_key(o)), 'writing %s panics' % var, facts_lines(o.st)); continue
                    if tainted(o.st): R.undecided(var, 'unmodelled'); continue
                    L, toks = tokens(o.st.mem[w])
                    if L is None: R.undecided(var, 'output not understood'); continue
                    R.check(lin_eq(o.st.facts, L, z.val), '%s|size' % var, 'size() of %s differs from the bytes it writes' % var, ['size    ' + short(show(z.val))[:300], 'written ' + short(show(L))[:300]] + facts_lines(o.st), '%s: size == bytes written (%s)' % (var, short(show(L))[:60]))
                    prefix_checks(R, I_, o.st, toks, (var, True))
        R.used(I_)

def flat_tokens(t):
    """token lists of one iteration of (possibly nested) repetition"""
    if t.op != 'pstar': return None
    return [list(a.a) for a in t.a[2:]]

def table_writer(R, P):
    """Properties::serialize writes its length field and then exactly one key and value per entry"""
    I_ = interp(P, VARINT, PVC, VNEW)
    f = find_fn(P, ser(PROPS)); fk = 'props::Properties::serialize'
    if f is None: R.undecided(fk, 'not found'); return
    inv = TableInv(P); fi = inv.fi
    t = sym(None, 'tbl'); ATOM_TY[t] = PROPS; ATOM_META[t] = PROPS
    st = State(); c = ('H', 'w'); st.mem[c] = mk('vec', ZERO)
    size = mk('fld', t, None, fi[0]); mp = mk('fld', t, None, fi[2])
    typed(size, 'usize')
    for o in I_.run(f, [I_.ref_to(t), mk('ref', c, ())], st, 1, None):
        if o.kind != 'ret': R.viol(fk + '|' + panic_key(o), 'writing a property table panics', facts_lines(o.st)); continue
        L, toks = tokens(o.st.mem[c])
        if L is None or tainted(o.st): R.undecided(fk, 'output not understood'); continue
        ok = toks and toks[0].op == 'vi' and o.st.facts.prove_eq(toks[0].a[0], mk_like(I_, o.st, t, fi[0]))
        R.check(ok, fk + '|length', 'the property length written is not the length of the table', [short(show(toks[:1]))[:200] if toks else 'nothing written'], 'property length == table.size')
        rest = toks[1:] if ok else toks
        its = []
        def rec(ts, n=0):
            for x in ts:
                if x.op == 'pstar':
                    for a in x.a[2:]: rec(list(a.a), n + 1) if any(y.op == 'pstar' for y in a.a) else its.append((n, list(a.a)))
                else: its.append((-1, [x]))
        rec(rest)
        if not its: R.viol(fk + '|entries', 'the entries of a property table are not written'); continue
        for n, ts in its:
            good = n >= 0 and len(ts) == 2 and ts[1].op == 'pv' and iskey(ts[0], mp) and isval(ts[1].a[0], mp)
            R.check(good, fk + '|entry', 'an entry of a property table is not written as its identifier followed by its value', [short(show(mk('pl', *ts)))[:300]], 'entry written as key, value')
            if good:
                n0 = toklen2(I_, o.st, ts[0])
                kk = mk('hmkey', mp, BOUND_); ATOM_META.setdefault(kk, PKEY); ATOM_TY.setdefault(kk, PKEY)
                R.check(n0 is not None and o.st.facts.prove_eq(n0, inv.ks(kk)), fk + '|keylen', 'a property identifier is written with a length other than its size()')
    R.used(I_)
BOUND_ = mk('bound')
def mk_like(I_, st, t, i): return I_.project(t, ('f', i, None, None), st)
def has_sub(t, op, base):
    stack = [t]; seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple): stack.extend(x); continue
        if not isinstance(x, T) or x in seen: continue
        seen.add(x)
        if x.op == op and x.a[0] is base: return x
        stack.extend(x.a)
    return None
def iskey(t, mp): return t.op in ('vi', 'u') and has_sub(t.a[-1], 'hmkey', mp) is not None
def isval(v, mp): return has_sub(v, 'hmval', mp) is not None

def table_mutators(R, P, want, inv=None):
    """every public mutator of a property table keeps size == sum of entries, whatever it returns"""
    for n in ('checked_insert', 'insert'):
        f = find_fn(P, PROPS + '::' + n)
        if f is None: continue
        inv = TableInv(P); I_ = interp(P, VARINT, PVC); inv.install(I_)
        t = sym(None, 'tbl'); ATOM_TY[t] = PROPS; ATOM_META[t] = PROPS
        size = mk('fld', t, None, inv.fi[0]); ATOM_TY[size] = 'usize'; ATOM_RNG[size] = (0, 2**60)
        key = sym(None, 'key'); ATOM_META[key] = PKEY; ATOM_TY[key] = PKEY
        st = State(); c = ('H', 'tbl'); st.mem[c] = t
        # arbitrary existing key, arbitrary value
        args = [mk('ref', c, ())]
        for i in range(2, f['body']['args'] + 1):
            ti = f['body']['locals'][i][0]; nm = P.tname(ti)
            a = key if nm == PKEY else sym(None, 'targ', i); I_.reg(a, ti); args.append(a)
        yield n, f, inv, I_, t, I_.run(f, args, st, 1, None), c
        R.used(I_)

def P02(R, P):
    R.rule('Rule: for every reachable abstract state of every packet kind (fixpoint over public constructors and mutators, leaves arbitrary members of their classes; vectors up to 3 elements) and every packet the decoder returns, Packet::frame_len equals the symbolic number of bytes Packet::to_bytes writes, the remaining-length token equals what follows, and every string/binary/property length token equals what follows it. Frames are assumed within the MQTT size limit.')
    RE = Reach(P); RE.surface = {}
    varint_writer(R, P, 'P02')
    leaf_lengths(R, P, RE)
    table_writer(R, P)
    for n, f, inv, I_, t, outs, c in table_mutators(R, P, 'P02'):
        fk = 'props::Properties::' + n
        for o in outs:
            if o.kind != 'ret': continue
            if o.val.op == 'adt' and o.val.a[1] == 1 and n == 'insert': continue      # the table is dropped by the decoder
            w = o.st.mem[c]
            if w.op == 'upd' or w is t:
                m = I_.project(w, ('f', inv.fi[2], None, None), o.st); s = I_.project(w, ('f', inv.fi[0], None, None), o.st)
                w = rebuilt(inv, I_, o.st, w)
            ok = inv.holds(I_, o.st, w)
            if tainted(o.st): R.undecided(fk, 'unmodelled'); continue
            R.check(ok, fk + '|size', 'after %s the recorded size of the property table is not the size of its entries' % fk, [short(show(w))[:400]] + facts_lines(o.st), '%s keeps size == sum of entries' % fk)
    I_ = interp(P, VARINT, PVC, PROPC, VNEW, max_steps=4000000)
    ft, fl = find_fn(P, TOB), find_fn(P, FLEN)
    if ft is None or fl is None: R.undecided('to_bytes', 'not found'); return
    pk = packet_states(R, P, RE)
    R.funcs |= RE.analysed
    def one(kn, v, st, origin):
        s, pr, w = writer_state(st, v)
        for z in I_.run(fl, [pr], s, 1, None):
            if z.kind != 'ret': R.viol('frame_len|%s|%s' % (kn, panic_key(z)), 'frame_len of a %s panics' % kn, facts_lines(z.st)); continue
            for o in I_.run(ft, [pr, mk('ref', w, ())], z.st, 1, None):
                R.paths += 1
                if o.kind != 'ret': R.viol('to_bytes|%s|%s' % (kn, panic_key(o)), 'writing a %s panics' % kn, facts_lines(o.st)); continue
                if tainted(o.st): R.undecided('to_bytes|' + kn, 'unmodelled'); continue
                L, toks = tokens(o.st.mem[w]); F = o.st.facts
                if L is None: R.undecided('to_bytes|' + kn, 'output not understood'); continue
                R.check(lin_eq(F, L, z.val), 'frame_len|' + kn, 'the frame length of a %s differs from the bytes written' % kn, ['frame_len ' + short(show(z.val))[:400], 'written   ' + short(show(L))[:400], origin] + facts_lines(F_st(o)), '%s (%s): frame_len == bytes written' % (kn, origin))
                if len(toks) < 2 or toks[0].op != 'u' or toks[0].a[0] != 1: R.undecided('to_bytes|%s|header' % kn, short(show(mk('pl', *toks[:2])))[:100]); continue
                if toks[1].op == 'vi': rl = toks[1].a[0]; n = VSZ(rl)
                elif toks[1].op == 'u' and toks[1].a[0] == 1 and F.prove_ge0(sub(I(127), toks[1].a[1])): rl = toks[1].a[1]; n = ONE
                else: R.undecided('to_bytes|%s|length' % kn, short(show(toks[1]))[:100]); continue
                R.check(lin_eq(F, L, add(add(ONE, n), rl)), 'remaining length|' + kn, 'the remaining length written for a %s is not the number of bytes that follow' % kn, ['remaining length ' + short(show(rl))[:300], 'frame            ' + short(show(L))[:300], origin], '%s (%s): remaining length token' % (kn, origin))
                prefix_checks(R, I_, o.st, toks, (kn, kn not in ()))
    for kn, v, F in pk:
        for w, G in RE.concretise(I_, v, F):
            st = State(); st.facts = G.copy()
            one(kn, w, st, 'built')
    I2, outs, c = run_packet(R, P)
    if I2:
        for o in outs:
            if o.kind == 'ret' and o.val.a[1] == 0 and not tainted(o.st):
                one(kind_name(P, o.val.a[2]), o.val.a[2], o.st, 'decoded')
    R.used(I_)
    R.counts['packet states'] = len(pk); R.counts['packet kinds'] = len({k for k, _, _ in pk})
def F_st(o): return o.st
def rebuilt(inv, I_, st, w):
    return mk('adt', PROPS, 0, *[I_.project(w, ('f', i, None, None), st) for i in range(3)])

# ---------------------------------------------------------------- values
def unwrap_num(F, t):
    d = None
    try: d = F.const(t)
    except Exception: pass
    return I(d) if d is not None else t
def same_value(P, F, a, b, n=0):
    """do two abstract values denote the same value under facts F?  True, or a short path to the first difference"""
    if a is b: return True
    if n > 12: return '?'
    if a.op == 'ref' or b.op == 'ref': return '?'
    for x, y in ((a, b), (b, a)):     # a type with a single possible value
        ad = P.adts.get(ATOM_META.get(x))
        if x.op in ('sym', 'fld') and ad and len(ad['v']) == 1 and not ad['v'][0]['f'] and y.op == 'adt' and y.a[0] == ATOM_META[x]: return True
    ea, eb = enumdisc(P, a), enumdisc(P, b)
    if ea is not None and eb is not None:
        return True if F.prove_eq(ea, eb) else 'variant'
    if a.op == 'adt' and b.op == 'adt':
        if a.a[0] != b.a[0]: return 'type'
        if a.a[1] != b.a[1]: return 'variant'
        for i, (x, y) in enumerate(zip(a.a[2:], b.a[2:])):
            r = same_value(P, F, x, y, n + 1)
            if r is not True: return '.%s%s' % (P.adts[a.a[0]]['v'][a.a[1]]['f'][i]['n'] if a.a[0] in P.adts else i, r if r.startswith('.') else ' (%s)' % r)
        return True
    if a.op == 'tup' and b.op == 'tup' and len(a.a) == len(b.a) or a.op == 'pe' and b.op == 'pe':
        for i, (x, y) in enumerate(zip(a.a, b.a)):
            r = same_value(P, F, x, y, n + 1)
            if r is not True: return '.%d %s' % (i, r)
        return True
    if a.op == 'vec' and b.op == 'vec':
        if len(a.a) != len(b.a): return 'number of elements'
        for i, (x, y) in enumerate(zip(a.a[1:], b.a[1:])):
            if x.op != 'pe' or y.op != 'pe': return '?'
            r = same_value(P, F, x.a[0], y.a[0], n + 1)
            if r is not True: return '[%d]%s' % (i, r)
        return True
    try:
        if F.prove_eq(a, b): return True
    except Exception: pass
    if a.op == 'arcin' and a.a[0] is b or b.op == 'arcin' and b.a[0] is a: return True
    return 'value'
def enumdisc(P, v):
    if v.op == 'adt' and v.a[0] in P.adts and all(not x['f'] for x in P.adts[v.a[0]]['v']):
        d = P.adts[v.a[0]]['v'][v.a[1]].get('d')
        return I(d if d is not None else v.a[1])
    if v.op in ('sym', 'fld', 'elem') and ATOM_META.get(v) in P.adts and all(not x['f'] for x in P.adts[ATOM_META[v]]['v']):
        t = mk('disc', v); return t
    return None

def varint_writer(R, P, want):
    fs, fz = find_fn(P, ser(VB)), find_fn(P, sizef(VB))
    fk = 'data::MqttVariableBytesInt::serialize'
    if fs is None or fz is None: R.undecided(fk, 'not found'); return
    I_ = interp(P)
    for n, (lo, hi) in enumerate(((0, 127), (128, 16383), (16384, 2097151), (2097152, MAXV)), 1):
        v = sym('u32', 'i')
        st = State(); st.facts._ge(sub(v, I(lo))); st.facts._ge(sub(I(hi), v))
        s, pr, w = writer_state(st, mk('adt', VB, 0, v))
        rng = '%d..%d' % (lo, hi)
        for o in I_.run(fs, [pr, mk('ref', w, ())], s, 1, None):
            if o.kind != 'ret': R.viol('%s|%s' % (fk, panic_key(o)), 'writing a variable byte integer panics', facts_lines(o.st)); continue
            L, toks = tokens(o.st.mem[w])
            if L is None or tainted(o.st) or L.op != 'int' or any(t.op != 'u' or t.a[0] != 1 for t in toks): R.undecided(fk, 'output not understood for ' + rng); continue
            if want == 'P02': R.check(L is I(n), fk + '|count', 'integers in %s are written in %s bytes instead of %d' % (rng, show(L), n), [], 'integers %s: %d bytes' % (rng, n))
            else:
                R.check(len(toks) == n, fk + '|count', 'integers in %s are written in %d bytes instead of %d' % (rng, len(toks), n))
                bad = None
                for j, t in enumerate(toks[:n]):
                    got = bitvec(t.a[1], o.st.facts, 8)
                    if got is None: R.undecided(fk, short(show(t))[:100]); continue
                    for i in range(8):
                        e = (v, 7 * j + i) if i < 7 else int(j < n - 1)
                        if got[i] != e and not (i < 7 and 7 * j + i >= 28 and got[i] == 0) and not same_bit(o.st.facts, got[i], e): bad = (j, i)
                R.check(bad is None, fk + '|bits', 'bit %s of the encoding of an integer in %s is wrong' % (bad, rng), [short(show(t))[:200] for t in toks], 'integers %s: bits of the encoding' % rng)
        for o in I_.run(fz, [pr], s, 1, None):
            if o.kind == 'ret' and want == 'P02': R.check(o.val is I(n) or o.st.facts.prove_eq(o.val, I(n)), 'data::MqttVariableBytesInt::size', 'size() of integers in %s is %s, not %d' % (rng, show(o.val)[:40], n), [], 'size of integers %s' % rng)
            elif o.kind != 'ret' and want == 'P02': R.viol('data::MqttVariableBytesInt::size|' + panic_key(o), 'size() of a variable byte integer panics')
    R.used(I_)

def legal_on_wire(P, I_, st, v):
    """values the protocol forbids on the wire: QoS>0 without identifier, SUBSCRIBE & co. without entries"""
    p = v.a[2]
    if p.op != 'adt': return True
    if any(x.op == 'vec' and x.a[0] is ZERO for x in p.a[2:]): return False
    fq, fi = find_fn(P, p.a[0] + '::qos'), find_fn(P, p.a[0] + '::packet_identifier')
    if fq and fi and P.tname(fi['body']['locals'][0][0]).startswith('core::option::Option'):
        s = st.copy(); c = ('H', 'pk'); s.mem[c] = p; r = mk('ref', c, ())
        qs = [o.val for o in I_.run(fq, [r], s, 1, None) if o.kind == 'ret']
        ids = [o.val for o in I_.run(fi, [r], s, 1, None) if o.kind == 'ret']
        if all(i.op == 'adt' and i.a[1] == 0 for i in ids) and not any(q.op == 'adt' and P.adts[q.a[0]]['v'][q.a[1]]['n'] == 'QoS0' for q in qs): return False
    return True

def own_mask(RE, path):
    ms = {o.a[2].a[0] if o.op == 'adt' and o.a[2].op == 'int' else None for o in RE.owners.get(path, ())}
    if len(ms) > 1 or None in ms: return None
    return ms.pop() if ms else 0xffff
def open_tables(P, RE, I_, v, fi):
    """give every abstract property table the owner bits its insertions guarantee (decided by P13)"""
    if not isinstance(v, T): return v
    if v.op == 'adt' and v.a[0] in P.adts and v.a[0] != PROPS:
        out = []; m = own_mask(RE, v.a[0])
        for x in v.a[2:]:
            if isinstance(x, T) and x.op == 'sym' and x.a[0] == 'leaf' and x.a[-1] == PROPS and m is not None:
                fs = [None] * 3
                for i in range(3): fs[i] = I_.project(x, ('f', i, None, None), None)
                b = typed(mk('fld', fs[fi[1]], None, 0), 'u16')
                fs[fi[1]] = mk('adt', POWN, 0, I(0xffff) if m == 0xffff else bit('or', b, I(m), 'u16'))
                typed(fs[fi[0]], 'usize'); ATOM_RNG.setdefault(fs[fi[0]], (0, MAXV))
                out.append(mk('adt', PROPS, 0, *fs))
            else: out.append(open_tables(P, RE, I_, x, fi))
        return mk('adt', v.a[0], v.a[1], *out)
    if v.op in ('adt', 'tup', 'vec', 'pe'):
        k = 2 if v.op == 'adt' else 0
        return mk(v.op, *v.a[:k], *[open_tables(P, RE, I_, x, fi) if isinstance(x, T) else x for x in v.a[k:]])
    return v

def P03(R, P):
    R.rule('Rule: for every reachable abstract state of every packet kind (entry lists up to 2 elements, leaves arbitrary), decoding the token sequence Packet::to_bytes writes has exactly one outcome, Ok with a packet whose every field denotes the same value; every property identifier/value pair and repeated properties likewise through Properties; variable byte integers bit by bit.')
    from p_decode import varint_contract
    varint_contract(R, P, 'P03'); varint_writer(R, P, 'P03')
    RE = Reach(P, veccap=2); RE.surface = {}
    prop_roundtrip(R, P, RE)
    table_writer(R, P)
    fi = props_fields(P)
    I_ = interp(P, VARINT, PVC, PROPC, VNEW, max_steps=16000000); I_.max_unroll_states = 400
    ft, fr = find_fn(P, TOB), find_fn(P, FROM)
    if ft is None or fr is None: R.undecided('to_bytes', 'not found'); return
    n = 0; best = {}
    def work():
        for kn, v, F in packet_states(R, P, RE):
            for w, G in RE.concretise(I_, v, F):
                w = open_tables(P, RE, I_, w, fi)
                if vec_len(w) > 1: best.setdefault(kn, (w, G))
                yield kn, w, G
        for kn, (w, G) in best.items():
            cs = list_cutoffs(P, kn, vec_len(w))
            I_.unroll = 700; I_.max_unroll_states = 2000
            for c in cs[:5] + cs[5:][-5:]:
                x = longer(w, c)
                if x is not None: R.count('longer lists tried because the code mentions their length', 1); yield kn, x, G
    if 1:
        for kn, w, G in work():
            st = State(); st.facts = G.copy()
            if not legal_on_wire(P, I_, st, w): R.count('states the protocol forbids on the wire', 1); continue
            n += 1
            s, pr, wc = writer_state(st, w)
            for o in I_.run(ft, [pr, mk('ref', wc, ())], s, 1, None):
                if o.kind != 'ret': continue          # P02
                if tainted(o.st) or tokens(o.st.mem[wc])[0] is None: R.undecided('roundtrip|' + kn, 'output not understood'); continue
                for d in I_.run(fr, [mk('ref', wc, ())], o.st, 1, None):
                    R.paths += 1
                    if tainted(d.st) or mentions_unread(d): R.undecided('roundtrip|' + kn, 'unmodelled'); continue
                    det = ['built   ' + short(show(w))[:500]] + facts_lines(d.st)
                    if d.kind != 'ret': R.viol('roundtrip|%s|%s' % (kn, panic_key(d)), 'decoding an encoded %s panics' % kn, det); continue
                    if d.val.a[1] == 1:
                        if d.st.ctr.get(('textloop',)): R.undecided('roundtrip|' + kn, 'the decoder scans a text in a way that is not tied to the constructor (P12)'); continue
                        e = d.val.a[2]; e = P.adts[ERR]['v'][e.a[1]]['n'] if e.op == 'adt' else '?'
                        R.viol('roundtrip|%s|%s' % (kn, e), 'an encoded %s is refused by the decoder (%s)' % (kn, e), det); continue
                    r = same_value(P, d.st.facts, w, d.val.a[2])
                    R.check(r is True, 'roundtrip|%s|%s' % (kn, str(r)[:60]), 'an encoded %s decodes to a different packet: %s' % (kn, r), ['decoded ' + short(show(d.val.a[2]))[:500]] + det, '%s: decode(encode) is the same packet' % kn)
    R.used(I_); R.funcs |= RE.analysed
    R.counts['packet states'] = n

def int_consts(x, acc):
    if isinstance(x, dict):
        if x.get('k') == 'int' and isinstance(x.get('v'), int): acc.add(x['v'])
        for y in x.values(): int_consts(y, acc)
    elif isinstance(x, (list, tuple)):
        for y in x: int_consts(y, acc)
    return acc

def list_cutoffs(P, kn, have, cap=130):
    """lengths at which code of this packet kind could start to treat its entry list differently: one past every integer constant it mentions"""
    acc = set()
    for f in P.insts:
        if f and f['p'].startswith('apiformes_packet::') or f and f['p'].startswith('<apiformes_packet::'):
            if '::%s::' % kn.lower() in f['p'] and not any(a in f['p'] for a in P.adts if '::%s::' % kn.lower() in a and not a.endswith('::' + kn)): int_consts(f['body'], acc)
    return sorted({c + d for c in acc for d in (0, 1) if have < c + d <= cap})

def longer(v, n):
    """the packet value v with its entry list repeated up to n entries"""
    p = v.a[2]
    for i, x in enumerate(p.a[2:]):
        if isinstance(x, T) and x.op == 'vec' and len(x.a) > 1 and all(q.op == 'pe' for q in x.a[1:]):
            ps = x.a[1:]
            y = mk('vec', I(n), *[ps[k % len(ps)] for k in range(n)])
            return mk('adt', v.a[0], v.a[1], mk('adt', p.a[0], p.a[1], *p.a[2:2 + i], y, *p.a[3 + i:]))
    return None

def vec_len(v): return max([len(x.a) - 1 for x in v.a[2].a[2:] if isinstance(x, T) and x.op == 'vec'] or [0])

def mentions_unread(d):
    """the outcome depends on input the abstraction invented (a loop over the token stream was summarised)"""
    from p_decode import mentions
    F = d.st.facts
    return d.val is not None and mentions(d.val, 'unk') or any(mentions(k, 'unk') for k in list(F.dom) + list(F.iv) + list(F.bo)) or any(mentions(x, 'unk') for x in F.ge)

def prop_roundtrip(R, P, RE):
    """identifier and value of every property through Properties: one entry, repeated entries, two different entries"""
    I_ = interp(P, VARINT, VNEW)
    fa = find_fn(P, PKEY + '::auxiliary_data'); fty = find_fn(P, PV + '::prop_type')
    fk, fv, fd = find_fn(P, ser(PKEY)), find_fn(P, ser(PV)), find_fn(P, deser(PROPS))
    if None in (fa, fty, fk, fv, fd): R.undecided('property', 'functions not found'); return
    fi = props_fields(P)
    vals = []
    for v, F in members(P, RE, I_, PV):
        st = State(); st.facts = F.copy(); c = ('H', 'v'); st.mem[c] = v
        for o in I_.run(fty, [mk('ref', c, ())], st, 1, None):
            if o.kind == 'ret': vals.append((v, F, o.val))
    def write(f, v, F):
        st = State(); st.facts = F.copy(); s, pr, w = writer_state(st, v)
        outs = [o for o in I_.run(f, [pr, mk('ref', w, ())], s, 1, None) if o.kind == 'ret']
        if len(outs) != 1: return None
        L, t = tokens(outs[0].st.mem[w])
        return None if L is None else (L, t, outs[0].st.facts)
    first = None
    for i, var in enumerate(P.adts[PKEY]['v']):
        k = mk('adt', PKEY, i); kn = var['n']
        st = State(); c = ('H', 'k'); st.mem[c] = k
        aux = [o.val for o in I_.run(fa, [mk('ref', c, ())], st, 1, None) if o.kind == 'ret']
        if len(aux) != 1 or aux[0].op != 'tup': R.undecided('property|' + kn, 'table entry not understood'); continue
        own, ty, multi = aux[0].a
        kt = write(fk, k, Facts())
        if kt is None: R.undecided('property|' + kn, 'identifier'); continue
        mine = [(v, F) for v, F, t in vals if t is ty]
        if not mine: R.undecided('property|' + kn, 'no value of its type'); continue
        for v, F in mine:
            cases = [('one', [(kt, v, F)])]
            if multi is TRUE or multi is I(1):
                m = {lf: sym(None, *(('leaf2',) + lf.a[1:])) for lf in allsyms(v)}
                for x, y in m.items():
                    for reg in (ATOM_TY, ATOM_RNG, ATOM_DOM, ATOM_META):
                        if x in reg: reg.setdefault(y, reg[x])
                v2 = subst(v, m); F2 = substfacts(I_, F, m)
                cases.append(('repeated', [(kt, v, F), (kt, v2, F2)]))
            if first and first[0] is not kt: cases.append(('after another', [first[:3], (kt, v, F)]))
            for cn, es in cases:
                F0 = Facts(); toks = []; tot = ZERO; ok = True
                for (kl, kts, kF), x, xF in es:
                    r = write(fv, x, xF)
                    if r is None: ok = False; break
                    try: merge(F0, r[2])
                    except Infeasible: ok = False; break
                    toks += list(kts) + list(r[1]); tot = add(tot, add(kl, r[0]))
                if not ok: R.undecided('property|%s|%s' % (kn, cn), 'value not written'); continue
                s = State(); s.facts = F0.copy(); w = ('H', 'in')
                s.mem[w] = mk('toks', add(VSZ(tot), tot), mk('vi', tot), *toks)
                try: s.facts.assume(ge0(sub(I(MAXV), tot)))
                except Infeasible: continue
                for o in I_.run(fd, [mk('ref', w, ())], s, 1, None):
                    R.paths += 1
                    key = 'property|%s' % kn
                    if tainted(o.st) or o.kind == 'ret' and mentions_unread(o): R.undecided(key, 'unmodelled'); continue
                    det = ['value ' + short(show(v))[:200]] + facts_lines(o.st)
                    if o.kind != 'ret': R.viol('%s|%s' % (key, panic_key(o)), 'decoding the encoded property %s panics' % kn, det); continue
                    if o.val.a[1] == 1: R.viol(key + '|refused', 'the encoded property %s (%s) is refused by the decoder' % (kn, cn), det); continue
                    t = o.val.a[2]; mp = t.a[2 + fi[2]] if t.op == 'adt' else None
                    got = entries(mp)
                    want = {}
                    for x in ([first[1]] if cn == 'after another' else []): want.setdefault(first[3], []).append(x)
                    want.setdefault(k, []).extend([v] if cn == 'after another' else [e[1] for e in es])
                    if got is None: R.undecided(key, 'table not understood'); continue
                    r = set(got) == set(want)
                    if r:
                        for q in want:
                            r &= len(got[q]) == len(want[q]) and all(same_value(P, o.st.facts, x, y) is True for x, y in zip(got[q], want[q]))
                    R.check(r, key + '|' + cn, 'the property %s decodes to different contents (%s)' % (kn, cn), ['got ' + short(show(mp))[:300]] + det, 'property %s (%s): same entries after decoding' % (kn, cn))
            if first is None: first = (kt, v, F, k)
    R.used(I_)
def allsyms(v, acc=None):
    acc = [] if acc is None else acc
    if v.op == 'sym':
        if v not in acc: acc.append(v)
    else:
        for x in v.a:
            if isinstance(x, T): allsyms(x, acc)
    return acc
def entries(m):
    """{key: [values]} of a concretely built map"""
    if m is None: return None
    if m.op == 'hmnew': return {}
    if m.op in ('hmins', 'hmupd'):
        r = entries(m.a[0])
        if r is None or m.a[2].op != 'vec': return None
        xs = []
        for p in m.a[2].a[1:]:
            if p.op == 'pe': xs.append(p.a[0])
            elif p.op == 'pall':
                q = p.a[0]
                if q.op == 'vec': xs += [z.a[0] for z in q.a[1:] if z.op == 'pe']
                elif q.op == 'hmget': xs += r.get(q.a[1], [])
                else: return None
            else: return None
        r = dict(r); r[m.a[1]] = xs
        return r
    return None
