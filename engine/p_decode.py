"""P01 P04 P05 P15: decoding, as path-sensitive abstract interpretation of Packet::from_bytes and of the contracts it
relies on (variable byte integers, property tables)."""
from term import *
from interp import *
from contracts import *

FROM = PK + 'packet::Packet::from_bytes'
FLEN = PK + 'packet::Packet::frame_len'

def short(p): return p.replace('apiformes_packet::', '')
from report import UNMODELLED
def tainted(st): return ('tainted',) in st.ctr

def panic_key(o):
    return '%s|%s' % (short(o.info.f['p']), o.info.what if isinstance(o.info.what, str) else str(o.info.what))

def report_panics(R, outs, what, allow=()):
    n = 0
    for o in outs:
        if o.kind != 'panic': continue
        n += 1
        k = panic_key(o)
        if tainted(o.st): R.undecided('panic:' + k, 'path goes through an unmodelled call'); continue
        R.viol(k, 'can panic while %s: %s' % (what, short(o.info.text())), ['via ' + short(x) for x in o.info.chain()] + facts_lines(o.st))
    return n
def facts_lines(st):
    r = []
    for k, v in list(st.facts.dom.items())[:12]:
        r.append('with %s in %s' % (short(show(k))[:160], sorted(v) if len(v) < 8 else '%d..%d (%d values)' % (min(v), max(v), len(v))))
    for l in st.facts.ge[:8]: r.append('with %s >= 0' % short(show(l))[:200])
    if tainted(st) or any(opaque(x) for x in st.facts.ge) or any(opaque(k) for d in (st.facts.dom, st.facts.iv, st.facts.bo) for k in d): r.append(UNMODELLED)
    return r
def opaque(t, memo={}):
    """does the term depend on the result of a call that has no body and no model"""
    r = memo.get(t)
    if r is None: r = memo[t] = t.op == 'sym' and t.a[0] in ('call', 'havoc') or any(opaque_(x) for x in t.a)
    return r
def opaque_(x): return opaque(x) if isinstance(x, T) else any(opaque_(y) for y in x) if isinstance(x, tuple) else False

def stream_state():
    st = State(); c = ('H', 'buf'); st.mem[c] = mk('stream', 'S', ZERO)
    return st, c, mk('ref', c, ())
def consumed(st, c):
    v = st.mem.get(c)
    return v.a[1] if v is not None and v.op == 'stream' else None
def total():
    return None

# ---------------------------------------------------------------- bits
def bitvec(t, facts, w):
    """symbolic bits of t (list of 0/1/(atom,i)/None), least significant first; None when not expressible"""
    def known(x, i):
        d = facts.dom_of(x)
        if d:
            b = {(v >> i) & 1 for v in d}
            if len(b) == 1: return b.pop()
        return (x, i)
    def go(t):
        if t.op == 'int':
            if t.a[0] < 0: return None
            return [(t.a[0] >> i) & 1 for i in range(w)]
        if t.op == 'lin':
            acc = [0] * w; c = t.a[0]
            for x, k in t.a[1]:
                if k <= 0 or k & (k - 1): return None
                b = go(x)
                if b is None: return None
                b = ([0] * (k.bit_length() - 1) + b)[:w]
                acc = disj(acc, b)
                if acc is None: return None
            if c >= 0: return disj(acc, go(I(c)))
            for i in range(w):
                if (-c >> i) & 1:
                    if acc[i] != 1: return None
                    acc[i] = 0
            return acc
        if t.op in ('and', 'or', 'xor', 'shl', 'shr', 'mul', 'trunc', 'bnot'):
            x = go(t.a[0])
            if x is None: return None
            if t.op == 'trunc': return x[:t.a[1]] + [0] * (w - t.a[1])
            if t.op == 'bnot': return None
            y = t.a[1]
            if t.op in ('shl', 'shr'):
                n = facts.const(y)
                if n is None: return None
                return ([0] * n + x)[:w] if t.op == 'shl' else (x[n:] + [0] * n)[:w]
            if t.op == 'mul':
                n = facts.const(y)
                if n is None or n <= 0 or n & (n - 1): return None
                return ([0] * (n.bit_length() - 1) + x)[:w]
            y = go(y)
            if y is None: return None
            if t.op == 'and': return [0 if 0 in (p, q) else q if p == 1 else p if q == 1 else p if p == q else None for p, q in zip(x, y)]
            if t.op == 'or': return [1 if 1 in (p, q) else q if p == 0 else p if q == 0 else p if p == q else None for p, q in zip(x, y)]
            return [q if p == 0 else p if q == 0 else 0 if p == q else None for p, q in zip(x, y)]
        ty = ATOM_TY.get(t)
        n = BITS.get(ty) if ty != 'bool' else 1
        if n is None: return None
        return [known(t, i) if i < n else 0 for i in range(w)]
    def disj(x, y):
        if x is None or y is None: return None
        r = []
        for p, q in zip(x, y):
            if p == 0: r.append(q)
            elif q == 0: r.append(p)
            else: return None
        return r
    r = go(t)
    if r is None or None in r: return None
    return r

# ---------------------------------------------------------------- C1 variable byte integers
def run_varint(P):
    I_ = interp(P)
    f = find_fn(P, deser(VB))
    if f is None: return None, None, None
    st, c, r = stream_state()
    return I_, I_.run(f, [r], st, 1, None), c

def byte_atom(P, st, i):
    return None

def varint_contract(R, P, want):
    """checks the C1 obligations whose failure breaks property `want`"""
    I_, outs, c = run_varint(P)
    if I_ is None: R.undecided('varint', 'no decoder for variable byte integers'); return
    R.used(I_); R.paths += len(outs)
    fk = 'data::MqttVariableBytesInt::deserialize'
    CONT = frozenset(range(128, 256))
    for o in outs:
        if o.kind == 'panic': continue
        if tainted(o.st): R.undecided(fk, 'unmodelled call'); continue
        F = o.st.facts
        k = consumed(o.st, c)
        atoms = {}
        for i in range(5): atoms[i] = typed(mk('rd', mk('st', 'S'), I(i), 1), 'u8')
        doms = [F.dom_of(atoms[i]) or FULL8 for i in range(5)]
        first = next((i for i in range(5) if not doms[i] <= CONT), 5)
        ln = typed(mk('tot', 'S'), 'usize')
        desc = 'bytes ' + ' '.join('%02x..%02x' % (min(d), max(d)) for d in doms[:min(first + 1, 4)])
        if o.val.op != 'adt': R.undecided(fk, 'result not understood'); continue
        if o.val.a[1] == 0:
            n = F.const(k) if k is not None else None
            v = I_.project(o.val.a[2], ('f', 0, None, None), o.st)
            if want in ('P04',):
                R.check(n is not None and 1 <= n <= 4 and first == n - 1 and max(doms[n - 1]) < 128, fk + '|extent',
                        'a variable byte integer is accepted although it does not end where its continuation bits say (%s, %s bytes consumed)' % (desc, n), facts_lines(o.st), 'Ok after %s: %s bytes consumed' % (desc, n))
                if n and n > 1: R.check(0 not in doms[n - 1], fk + '|minimal', 'an over-long variable byte integer (last byte 00) is accepted, so the reported frame length differs from the bytes consumed (%s)' % desc, facts_lines(o.st))
            if want in ('P03', 'P04') and n:
                w = 28
                exp = [(atoms[j], i) for j in range(n) for i in range(7)] + [0] * (28 - 7 * n)
                got = bitvec(v, F, 32)
                if got is None: R.undecided(fk + '|value', show(v)[:200])
                else:
                    exp = exp + [0] * 4
                    bad = [i for i in range(32) if got[i] != exp[i] and not same_bit(F, got[i], exp[i])]
                    R.check(not bad, fk + '|value', 'a %d byte variable byte integer is decoded to a wrong value (bit %s)' % (n, bad[:1]), [show(v)[:300]], 'value of a %d byte integer' % n)
        else:
            e = errname(P, o.val.a[2])
            if e == 'InsufficientBuffer':
                if want == 'P05':
                    # all available bytes are continuation bytes, fewer than four of them
                    tot = total_of(o.st, c)
                    okc = tot is not None and F.prove_ge0(sub(I(first), tot)) and F.prove_ge0(sub(I(3), tot))
                    R.check(okc, fk + '|more', 'more data is requested although the variable byte integer is complete or malformed (%s)' % desc, facts_lines(o.st), 'Insufficient only after %s' % desc)
            elif want in ('P05', 'P03'):
                legit = (first >= 4) or (first >= 1 and first < 4 and doms[first] == frozenset((0,)))
                R.check(legit, fk + '|reject', 'a legal variable byte integer is rejected (%s)' % desc, facts_lines(o.st), 'rejected only when %s' % desc)
def same_bit(F, a, b):
    def val(x):
        if x in (0, 1): return x
        d = F.dom_of(x[0]) or FULL8
        s = {(v >> x[1]) & 1 for v in d}
        return s.pop() if len(s) == 1 else None
    x, y = val(a), val(b)
    return x is not None and x == y
def total_of(st, c):
    return models.REM('S')

# ---------------------------------------------------------------- C5 property tables
def props_contract(R, P, want):
    inv = TableInv(P); I_ = interp(P, VARINT, PVC); inv.install(I_)
    f = find_fn(P, deser(PROPS))
    if f is None: R.undecided('props', 'no decoder for property tables'); return
    st, c, r = stream_state()
    outs = I_.run(f, [r], st, 1, None)
    R.used(I_); R.paths += len(outs)
    fk = 'props::Properties::deserialize'
    if want == 'P01': report_panics(R, outs, 'decoding a property table'); 
    if want == 'P15': chunk_free(R, P, outs, fk)
    if want in ('P04', 'P05'):
        for x in inv.lastback:
            R.undecided(fk + '|inv', 'table size not proved at a loop back edge'); 
    for o in outs:
        if o.kind != 'ret' or tainted(o.st): continue
        F = o.st.facts
        x = vival(mk('st', 'S'), ZERO)
        k = consumed(o.st, c)
        if o.val.a[1] == 0:
            if want == 'P04':
                t = o.val.a[2]
                size = t.a[2 + props_fields(P)[0]] if t.op == 'adt' else I_.project(t, ('f', props_fields(P)[0], None, None), o.st)
                R.check(F.prove_eq(size, x), fk + '|len', 'the length a decoded property table reports is not the announced property length', [show(size)[:200]], 'table.size == announced length')
                R.check(k is not None and F.prove_eq(k, add(VSZ(x), x)), fk + '|extent', 'decoding a property table consumes a number of bytes different from its announced length', [show(k)[:200] if k else ''], 'consumed == vsz(len)+len')
                if not inv.lastback: R.check(inv.holds(I_, o.st, t), fk + '|sum', 'the length of a decoded property table is not the sum of its entries', [show(t)[:300]])
        elif errname(P, o.val.a[2]) == 'InsufficientBuffer' and want == 'P05':
            R.ok('property table asks for more data (mapped by the packet level)')
    return outs

# ---------------------------------------------------------------- whole packets
def run_packet(R, P, contracts=True):
    I_ = interp(P, VARINT, PVC, PROPC, max_steps=4000000)
    f = find_fn(P, FROM)
    if f is None: return None, None, None
    st, c, r = stream_state()
    outs = I_.run(f, [r], st, 1, None)
    R.used(I_); R.paths += len(outs)
    return I_, outs, c

def kind_name(P, v):
    a = P.adts.get(v.a[0])
    return a['v'][v.a[1]]['n'] if a else '?'

def mentions(t, op, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple): stack.extend(x); continue
        if not isinstance(x, T) or x in seen: continue
        seen.add(x)
        if x.op == op: return True
        stack.extend(x.a)
    return False
def chunk_free(R, P, outs, fk):
    for o in outs:
        F = o.st.facts
        dep = [t for t in list(F.dom) + list(F.iv) + list(F.bo) + list(F.ge) if mentions(t, 'chunklen')]
        if o.val is not None and mentions(o.val, 'chunklen'): dep.append(o.val)
        dep += [v for v in o.st.mem.values() if mentions(v, 'chunklen')]
        if dep and tainted(o.st): R.undecided('%s|chunk' % short(fk), 'unmodelled call'); continue
        if dep:
            site = next((e[1] for e in o.st.trace if e and e[0] == 'chunk'), fk)
            R.viol('%s|chunk' % short(str(site)), 'the outcome of decoding depends on how the bytes are split into chunks', [short(show(d))[:200] for d in dep[:3]] + facts_lines(o.st))
        else: R.ok('%s: %s' % (short(fk), o.kind))

def P01(R, P):
    R.rule('Rule: no path of the decoder (Packet::from_bytes over an arbitrary byte source split arbitrarily) reaches a panic, a failed arithmetic/bounds assertion or a loop iteration that leaves the state unchanged; path facts are kept per path, loops are summarised by affine generalisation.')
    I1, o1, c1 = run_varint(P)
    noprog = []
    n = 0
    if I1 is not None:
        R.used(I1); R.paths += len(o1); n += report_panics(R, o1, 'decoding a variable byte integer')
        R.ok(n=len([o for o in o1 if o.kind == 'ret']))
    o5 = props_contract(R, P, 'P01')
    if o5: R.ok(n=len([o for o in o5 if o.kind == 'ret']))
    I_, outs, c = run_packet(R, P)
    if I_ is None: R.undecided('from_bytes', 'entry point not found'); return
    report_panics(R, outs, 'decoding a packet')
    kinds = {}
    for o in outs:
        if o.kind == 'ret':
            k = 'Err ' + str(errname(P, o.val.a[2])) if o.val.a[1] == 1 else 'Ok ' + kind_name(P, o.val.a[2])
            kinds[k] = kinds.get(k, 0) + 1
            R.ok('path ending in ' + k)
    R.counts['outcomes'] = kinds
    nas = 0
    for f in P.insts:
        if f and f['p'] in R.funcs and f.get('body'):
            for b in f['body']['blocks']:
                if b and b[1][0] == 'assert': nas += 1
    R.counts['assertions_in_analysed_functions'] = nas

def norm_eq(F, a, b):
    """prove a == b, treating vsz(x) and vsz(y) as equal when x == y is provable"""
    if F.prove_eq(a, b): return True
    d = sub(a, b); c, ps = lin_parts(d)
    vs = [(x, k) for x, k in ps if x.op == 'vsz']
    for i, (x, k) in enumerate(vs):
        for y, l in vs[i + 1:]:
            if k == -l and F.prove_eq(x.a[0], y.a[0]):
                r = add(add(d, x, -k), y, -l)
                if norm_eq(F, r, ZERO): return True
    return False

def run_frame_len(P, I_, o, v):
    f = find_fn(P, FLEN)
    if f is None: return None
    s = o.st.copy()
    cell = ('H', 'pkt'); s.mem[cell] = v
    return I_.run(f, [mk('ref', cell, ())], s, 1, None)

def P04(R, P):
    R.rule('Rule: on every path of Packet::from_bytes that returns Ok, the symbolic number of bytes consumed equals 1 + bytes(remaining length) + remaining length, and Packet::frame_len of the symbolic packet returned equals it; the two length-bearing contracts (variable byte integer, property table) are proved separately from their code.')
    varint_contract(R, P, 'P04')
    props_contract(R, P, 'P04')
    I_, outs, c = run_packet(R, P)
    if I_ is None: R.undecided('from_bytes', 'entry point not found'); return
    x = vival(mk('st', 'S'), ONE)
    need = add(add(ONE, VSZ(x)), x)
    seen = set()
    for o in outs:
        if o.kind != 'ret' or o.val.a[1] != 0: continue
        v = o.val.a[2]; kn = kind_name(P, v); seen.add(kn)
        if tainted(o.st): R.undecided('%s|taint' % kn, 'unmodelled call'); continue
        F = o.st.facts
        k = consumed(o.st, c)
        if k is None: R.undecided(kn + '|consumed', 'byte source not understood'); continue
        R.check(F.prove_eq(k, need), 'packet::Packet::from_bytes|extent|' + kn, 'decoding a %s consumes a number of bytes other than its frame' % kn, ['consumed ' + short(show(k))[:300]] + facts_lines(o.st), '%s: consumed == 1+vsz(x)+x' % kn)
        fl = run_frame_len(P, I_, o, v)
        if fl is None: R.undecided('frame_len', 'not found'); continue
        for q in fl:
            if q.kind != 'ret': R.viol('frame_len|%s|%s' % (kn, panic_key(q)), 'frame_len of a decoded %s panics' % kn, facts_lines(q.st)); continue
            if tainted(q.st): R.undecided('%s|taint' % kn, 'unmodelled call'); continue
            R.check(norm_eq(q.st.facts, q.val, k), 'packet::Packet::frame_len|%s' % kn, 'the frame length of a decoded %s differs from the bytes consumed' % kn,
                    ['frame_len  ' + short(show(q.val))[:400], 'consumed   ' + short(show(k))[:400]] + facts_lines(q.st), '%s: frame_len == consumed' % kn)
    R.used(I_)
    R.counts['packet kinds decoded'] = sorted(seen)

def P05(R, P):
    R.rule('Rule: on every path of Packet::from_bytes that asks for more data, the path facts prove that fewer bytes are available than the fixed header announces (or the header itself is incomplete); on every Ok path the available bytes cover the frame.')
    varint_contract(R, P, 'P05')
    I_, outs, c = run_packet(R, P)
    if I_ is None: R.undecided('from_bytes', 'entry point not found'); return
    x = vival(mk('st', 'S'), ONE)
    need = add(add(ONE, VSZ(x)), x)
    for o in outs:
        if o.kind != 'ret' or tainted(o.st): continue
        F = o.st.facts
        tot = total_of(o.st, c)
        if tot is None: R.undecided('total', ''); continue
        if o.val.a[1] == 0:
            R.check(F.prove_ge0(sub(tot, need)), 'packet::Packet::from_bytes|prefix|' + kind_name(P, o.val.a[2]), 'a %s is decoded from a proper prefix of its frame' % kind_name(P, o.val.a[2]), facts_lines(o.st), 'Ok %s: frame complete' % kind_name(P, o.val.a[2]))
        elif errname(P, o.val.a[2]) == 'InsufficientBuffer':
            e = o.val.a[2]
            mark = e.a[2] if len(e.a) > 2 else None
            hdr = mark is not None and mark.op == 'ins' and mark.a[1:] == ('varint', mk('st', 'S'), ONE)
            good = hdr or F.prove_ge0(sub(ONE, tot)) or F.prove_ge0(sub(add(need, I(-1)), tot))
            R.check(good, 'packet::Packet::from_bytes|more|%s' % (short(show(mark))[:80] if mark is not None else ''), 'more data is requested for a frame that is already complete', facts_lines(o.st), 'InsufficientBuffer only while the frame is incomplete')
    R.used(I_)

def P15(R, P):
    R.rule('Rule: no path condition or result of the decoder mentions where a contiguous chunk of the buffer ends (Buf::chunk results are abstracted as an arbitrary non-empty prefix; only code that is insensitive to its length passes).')
    I1, o1, c1 = run_varint(P)
    if I1 is not None: R.used(I1); R.paths += len(o1); chunk_free(R, P, o1, 'data::MqttVariableBytesInt::deserialize')
    props_contract(R, P, 'P15')
    I_, outs, c = run_packet(R, P)
    if I_ is None: R.undecided('from_bytes', 'entry point not found'); return
    chunk_free(R, P, outs, 'packet::Packet::from_bytes')
