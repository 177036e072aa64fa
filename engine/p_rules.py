"""P06-P11, P13, P14: conformance of codes, flags, tables and value classes, decided on the abstract paths of the
encoders, decoders, constructors and accessors."""
from reach import *
from p_decode import *
from p_wire import *
import spec, models

def ok_outcomes(R, outs):
    return [o for o in outs if o.kind == 'ret' and o.val.op == 'adt' and o.val.a[1] == 0]
HDR = lambda: add(VSZ(vival(mk('st', 'S'), ONE)), ONE)
def byte_at(off): return typed(mk('rd', mk('st', 'S'), off, 1), 'u8')
def nm(s): return s.lower().replace('_', '')
def hexs(s): return ' '.join('%02x' % x for x in sorted(s)[:24])
def kind_path(P, kn):
    for v in P.adts[PACKET]['v']:
        if v['n'] == kn: return P.types[v['f'][0]['ti']].get('p')
def written(P, I_, v, F, f=None):
    """[(tokens, state)] of Packet::to_bytes (or f) for an abstract value"""
    f = f or find_fn(P, TOB); r = []
    st = State(); st.facts = F.copy(); s, pr, w = writer_state(st, v)
    for o in I_.run(f, [pr, mk('ref', w, ())], s, 1, None):
        if o.kind != 'ret': continue
        L, t = tokens(o.st.mem[w])
        r.append((None if tainted(o.st) or L is None else t, o.st))
    return r

# ---------------------------------------------------------------- P06
def P06(R, P):
    R.rule('Rule: on every Ok path of Packet::from_bytes the finite set of values the path allows for the first byte is within the MQTT 5 code (and fixed flags) of the packet kind returned, and the union over all paths is the whole set; the first token Packet::to_bytes writes for every reachable state of each kind is that code.')
    I_, outs, c = run_packet(R, P)
    if I_ is None: R.undecided('from_bytes', 'entry point not found'); return
    legal = {k: ({v} if k != 'Publish' else set(spec.PUBLISH_FIRST)) for k, v in spec.KINDS.items()}
    got = {}; taint = set()
    b0 = byte_at(ZERO)
    for o in ok_outcomes(R, outs):
        kn = kind_name(P, o.val.a[2])
        if kn not in legal: R.undecided('kind|' + kn, 'unknown packet kind'); continue
        if tainted(o.st): taint.add(kn); continue
        d = o.st.facts.dom_of(b0) or FULL8
        got[kn] = got.get(kn, set()) | set(d)
        R.check(set(d) <= legal[kn], 'packet::Packet::from_bytes|%s' % kn, 'a frame whose first byte is %s is decoded as %s' % (hexs(set(d) - legal[kn]), kn), facts_lines(o.st), '%s decoded only from first byte %s' % (kn, hexs(legal[kn])))
    for kn in legal:
        if kn in taint: R.undecided('from_bytes|' + kn, 'unmodelled'); continue
        miss = legal[kn] - got.get(kn, set())
        R.check(not miss, 'packet::Packet::from_bytes|missing|%s' % kn, 'no path decodes first byte %s as %s' % (hexs(miss), kn), [], '%s recognised' % kn)
    # writer
    RE = Reach(P, veccap=1); RE.surface = {}
    I2 = interp(P, VARINT, PVC, PROPC, VNEW, max_steps=4000000)
    seen = set()
    for kn, v, F in packet_states(R, P, RE):
        for w, G in RE.concretise(I2, v, F):
            for t, st in written(P, I2, w, G):
                R.paths += 1
                if t is None or not t or t[0].op != 'u' or t[0].a[0] != 1: R.undecided('to_bytes|' + kn, 'output not understood'); continue
                vs = st.facts.values(t[0].a[1])
                if vs is None: R.undecided('to_bytes|' + kn, short(show(t[0]))[:100]); continue
                seen.add(kn)
                R.check(set(vs) <= legal[kn], 'packet::Packet::to_bytes|%s' % kn, 'a %s is written with first byte %s' % (kn, hexs(set(vs) - legal[kn])), facts_lines(st), '%s written with first byte %s' % (kn, hexs(legal[kn])))
    R.used(I2); R.funcs |= RE.analysed
    R.counts['kinds written'] = sorted(seen)

# ---------------------------------------------------------------- P07
def reason_type(P, kn):
    p = kind_path(P, kn); a = P.adts.get(p)
    if not a: return None
    for fl in a['v'][0]['f']:
        t = P.types[fl['ti']]
        if P.tname(fl['ti']).startswith('alloc::vec::Vec<'): t = P.types[t['a'][0]]
        ad = P.adts.get(t.get('p'))
        if ad and len(ad['v']) > 1 and all(not v['f'] for v in ad['v']) and any(nm(v['n']) in spec.REASON_NAME for v in ad['v']): return t['p']
def reader_of(P, path):
    return find_fn(P, '<%s as %sMqttUncheckedDeserialize>::unchecked_deserialize' % (path, PRS)) or find_fn(P, deser(path))
def P07(R, P):
    R.rule('Rule: for each packet kind with reason codes, every path of Packet::from_bytes (of the reason-code decoder for list payloads) that returns a reason code confines the reason byte to exactly the MQTT 5 value of the variant returned; the union is exactly the MQTT 5 set of that packet; every other byte leads only to errors; each variant is written as the byte it is read from.')
    Ip, outs, c = run_packet(R, P)
    if Ip is None: R.undecided('from_bytes', 'entry point not found'); return
    oks = ok_outcomes(R, outs)
    for kn, legal in spec.REASONS.items():
        path = reason_type(P, kn)
        if path is None: R.undecided('reason|' + kn, 'reason code type not found'); continue
        ad = P.adts[path]; legal = set(legal); tn = short(path)
        def name(v): return ad['v'][v.a[1]]['n']
        got = {}
        bad = False
        off = spec.REASON_OFF[kn]
        res = []
        if off is not None:
            at = byte_at(add(HDR(), I(off)))
            for o in oks:
                if kind_name(P, o.val.a[2]) != kn: continue
                p = o.val.a[2].a[2]
                rv = [x for x in p.a[2:] if x.op == 'adt' and x.a[0] == path] if p.op == 'adt' else []
                if tainted(o.st) or not rv: bad = True; continue
                res.append((o, rv[0], at))
            where = 'Packet::from_bytes'
        else:
            f = reader_of(P, path); where = tn
            if f is None: R.undecided('reason|' + kn, 'reader not found'); continue
            I_ = interp(P, VARINT)
            st, c2, r = stream_state()
            st.facts._ge(sub(models.REM('S'), ONE))
            at = byte_at(ZERO)
            for o in I_.run(f, [r], st, 1, None):
                if o.kind != 'ret' or o.val.op != 'adt' or o.val.a[1] != 0: continue
                if tainted(o.st) or o.val.a[2].op != 'adt': bad = True; continue
                res.append((o, o.val.a[2], at))
            R.used(I_)
            # the list decoder must use that reader: entries of decoded packets are results of it
        if bad: R.undecided('reason|' + kn, 'a decoded reason code was not understood'); continue
        for o, rv, at in res:
            d = set(o.st.facts.dom_of(at) or FULL8); n = name(rv); b = spec.REASON_NAME.get(nm(n))
            if b is None: R.undecided('reason|%s|%s' % (kn, n), 'unknown reason code name'); continue
            if d == set(FULL8) and at not in o.st.facts.dom and off is not None and b == 0 and o.st.facts.prove_ge0(sub(I(off), vival(mk('st', 'S'), ONE))):
                R.ok('%s: omitted reason code means %s' % (kn, n)); continue
            got.setdefault(b, set()).update(d)
            R.check(d == {b}, '%s|%s|%s' % (where, kn, n), 'the reason byte(s) %s of a %s are given the meaning %s (MQTT 5: %02x)' % (hexs(d - {b} or d), kn, n, b), facts_lines(o.st), '%s: %02x is %s' % (kn, b, n))
        acc = set().union(*got.values()) if got else set()
        R.check(acc <= legal, '%s|%s|extra' % (where, kn), 'a %s with illegal reason byte %s is accepted' % (kn, hexs(acc - legal)), [], '%s: only legal reason bytes accepted' % kn)
        R.check(legal <= acc, '%s|%s|missing' % (where, kn), 'a %s with legal reason byte %s is refused' % (kn, hexs(legal - acc)), [], '%s: all %d reason bytes accepted' % (kn, len(legal)))
        fs = find_impl(P, PRS + 'MqttSerialize', 'serialize', path)
        if fs is None: R.undecided('reason|%s|write' % kn, 'writer not found'); continue
        I3 = interp(P, VARINT)
        for i, v in enumerate(ad['v']):
            b = spec.REASON_NAME.get(nm(v['n']))
            if b is None: continue
            for t, st in written(P, I3, mk('adt', path, i), Facts(), fs):
                if t is None or len(t) != 1 or t[0].op != 'u' or t[0].a[0] != 1: R.undecided('reason|%s|write|%s' % (kn, v['n']), 'output not understood'); continue
                vs = st.facts.values(t[0].a[1])
                R.check(vs == {b}, '%s|write|%s' % (tn, v['n']), 'the reason code %s is written as %s (MQTT 5: %02x)' % (v['n'], hexs(vs) if vs else '?', b), [], '%s written as %02x' % (v['n'], b))
        R.used(I3)
    # reason codes of packets are written through these writers and nothing else: the reason byte of a written packet
    I2 = interp(P, VARINT, PVC, PROPC, VNEW, max_steps=4000000)
    RE = Reach(P, veccap=2); RE.surface = {}
    for kn, v, F in packet_states(R, P, RE):
        if kn not in spec.REASONS: continue
        path = reason_type(P, kn)
        if path is None: continue
        for w, G in RE.concretise(I2, v, F):
            for t, st in written(P, I2, w, G):
                R.paths += 1
                if t is None: R.undecided('write|' + kn, 'output not understood'); continue
                rs = codes_in(P, w, path)
                if rs is None: R.undecided('write|' + kn, 'reason field not found'); continue
                want = [enumdisc(P, x) for x in rs]
                off = spec.REASON_OFF[kn]
                if off is None: gots = [x.a[1] for x in t if x.op == 'u' and x.a[0] == 1][1:][-len(want):] if want else []
                else: gots = [reason_token(t, off)] if reason_token(t, off) is not None else []
                if not gots and off is not None: R.ok('%s: reason omitted' % kn); continue      # round trip decides (P03)
                same = len(gots) == len(want) and all(x is not None and y is not None and st.facts.prove_eq(strip(x), y) for x, y in zip(gots, want))
                if not same and any(x is None for x in want): R.undecided('write|' + kn, 'reason value'); continue
                R.check(same, 'packet::Packet::to_bytes|%s|reason' % kn, 'the reason code of a %s is not the byte written at its place' % kn, ['reason ' + short(show(mk('pl', *rs)))[:150], 'bytes  ' + short(show(mk('pl', *[g for g in gots if g is not None])))[:150]], '%s: reason byte at its place' % kn)
    R.used(I2); R.funcs |= RE.analysed
def strip(t):
    while t.op == 'trunc': t = t.a[0]
    return t
def codes_in(P, w, path):
    p = w.a[2] if w.op == 'adt' and w.a[0] == PACKET else w
    if p.op != 'adt': return None
    for fl, x in zip(P.adts[p.a[0]]['v'][p.a[1]]['f'], p.a[2:]):
        if P.types[fl['ti']].get('p') == path: return [x]
        if P.tname(fl['ti']).startswith(('alloc::vec::Vec<%s>' % path, 'alloc::vec::Vec<%s,' % path)):
            return [q.a[0] for q in x.a[1:]] if x.op == 'vec' and all(q.op == 'pe' for q in x.a[1:]) else None
def reason_token(t, off):
    """value of the byte at payload offset off, when tokens are that fine"""
    i = 2; n = 0
    while i < len(t):
        if n == off and t[i].op == 'u' and t[i].a[0] == 1: return t[i].a[1]
        if t[i].op != 'u' or n > off: return None
        n += t[i].a[0]; i += 1
    return None

# ---------------------------------------------------------------- P08 / P13
SHAPE_T = {D + 'MqttOneBytesInt': 'byte', D + 'MqttTwoBytesInt': 'two', D + 'MqttFourBytesInt': 'four', D + 'MqttUtf8String': 'string',
           D + 'MqttBinaryData': 'binary', D + 'MqttUtf8StringPair': 'pair', VB: 'varint'}
class PropTab:
    """behaviour of every property key: what insertions and decoding accept"""
    def __init__(self, R, P):
        self.R = R; self.P = P
        self.I = interp(P, VARINT, VNEW, max_steps=64000000)
        self.RE = Reach(P)
        self.fk, self.fv, self.fd = find_fn(P, ser(PKEY)), find_fn(P, ser(PV)), find_fn(P, deser(PROPS))
        self.fi = props_fields(P)
        self.vals = {}                     # shape -> [(value, facts)]
        for v, F in members(P, self.RE, self.I, PV):
            s = self.shape(v)
            if s is None: R.undecided('value', short(show(v))[:100]); continue
            self.vals.setdefault(s, []).append((v, F))
        self.var1 = {}                     # one value per (shape, variant)
        for sh, vs in self.vals.items():
            for v, F in vs: self.var1.setdefault((sh, v.a[2].a[1] if len(v.a) == 3 and v.a[2].op == 'adt' else v.a[1]), (v, F))
        self.keys = [(i, x['n']) for i, x in enumerate(P.adts[PKEY]['v'])]
        self.byname = {nm(n): i for i, (n, _, _, _) in spec.PROPS_T.items()}
        self.wr = {}
    def shape(self, v):
        for _ in range(6):
            if v.op != 'adt': return None
            if v.a[0] in SHAPE_T: return SHAPE_T[v.a[0]]
            if len(v.a) != 3: return None
            v = v.a[2]
        return None
    def key(self, i): return mk('adt', PKEY, i)
    def write(self, f, v, F):
        k = (f['p'], v, F.key())
        if k not in self.wr:
            r = written(self.P, self.I, v, F, f)
            self.wr[k] = (r[0][0], r[0][1].facts) if len(r) == 1 and r[0][0] is not None else None
        return self.wr[k]
    def rename(self, v, F, tag):
        m = {lf: sym(None, *(('leaf' + tag,) + lf.a[1:])) for lf in allsyms(v)}
        for x, y in m.items():
            for reg in (ATOM_TY, ATOM_RNG, ATOM_DOM, ATOM_META):
                if x in reg: reg.setdefault(y, reg[x])
        return subst(v, m), substfacts(self.I, F, m)
    def decode(self, es):
        """outcomes of Properties::deserialize over the encoding of [(key index, value, facts)]; None when not expressible"""
        F0 = Facts(); toks = []; tot = ZERO
        for i, v, F in es:
            a, b = self.write(self.fk, self.key(i), Facts()), self.write(self.fv, v, F)
            if a is None or b is None: return None
            try: merge(F0, b[1])
            except Infeasible: return None
            for t in list(a[0]) + list(b[0]):
                n = toklen2(self.I, State(), t)
                if n is None: return None
                tot = add(tot, n)
            toks += list(a[0]) + list(b[0])
        s = State(); s.facts = F0.copy(); w = ('H', 'in')
        s.mem[w] = mk('toks', add(VSZ(tot), tot), mk('vi', tot), *toks)
        try: s.facts.assume(ge0(sub(I(MAXV), tot)))
        except Infeasible: return None
        outs = self.I.run(self.fd, [mk('ref', w, ())], s, 1, None)
        self.R.paths += len(outs)
        if any(tainted(o.st) or o.kind == 'ret' and mentions_unread(o) for o in outs): return None
        return outs
    def valid(self, o):
        """owner bits of a decoded table (int) or None"""
        t = o.val.a[2]
        if t.op != 'adt': return None
        x = t.a[2 + self.fi[1]]
        while x.op == 'adt' and len(x.a) == 3: x = x.a[2]
        return x.a[0] if x.op == 'int' else None
    def adders(self):
        """[(kind, add_prop function, a freshly built value, facts)]"""
        r = []
        for kn in list(spec.KINDS) + ['Will']:
            p = PK + 'connect::Will' if kn == 'Will' else kind_path(self.P, kn)
            f = find_fn(self.P, (p or '') + '::add_prop')
            if f is None: continue
            ctors, _ = self.RE.methods(p)
            got = None
            for c in ctors:
                for o in self.RE.call(self.I, c, [], None):
                    if o.kind != 'ret' or tainted(o.st): continue
                    v = o.val
                    if v.op == 'adt' and v.a[0] == models.RES:
                        if v.a[1] == 1: continue
                        v = v.a[2]
                    if v.op == 'adt' and v.a[0] == p: got = (v, o.st.facts); break
                if got: break
            if got is None: self.R.undecided('add_prop|' + kn, 'no constructor result'); continue
            r.append((kn, f, got[0], got[1]))
        return r
    def insert(self, f, v, F, i, x, xF, keep=False):
        """'ok' / 'err' / None (mixed, unknown)"""
        s = State(); s.facts = F.copy()
        try: merge(s.facts, xF)
        except Infeasible: return None
        c = ('H', 'self'); s.mem[c] = v
        outs = self.I.run(f, [mk('ref', c, ()), self.key(i), x], s, 1, None)
        self.R.paths += len(outs)
        if any(tainted(o.st) for o in outs): return None
        rs = {'panic' if o.kind != 'ret' else 'ok' if o.val.a[1] == 0 else 'err' for o in outs}
        return (rs.pop() if len(rs) == 1 else None) if not keep else (outs, c)

def owners_in_outcomes(P, outs, R):
    """{kind: [(facts, pown term)]} of every property table in an Ok outcome of the packet decoder ('Will' separately)"""
    fi = props_fields(P); r = {}
    def go(v, kn, F):
        if v.op == 'adt' and v.a[0] == PROPS:
            x = v.a[2 + fi[1]]
            while x.op == 'adt' and len(x.a) == 3: x = x.a[2]
            r.setdefault(kn, []).append((F, x)); return
        if v.op == 'adt' and v.a[0] == PK + 'connect::Will': kn = 'Will'
        if v.op in ('adt', 'tup', 'box'):
            for y in v.a:
                if isinstance(y, T): go(y, kn, F)
    for o in ok_outcomes(R, outs):
        kn = kind_name(P, o.val.a[2])
        if tainted(o.st): r.setdefault(kn, []).append((None, None)); continue
        go(o.val.a[2], kn, o.st.facts)
    return r
def accepts_mask(I_, tabs, bits):
    """may a decoded table whose entries leave owner bits `bits` end in a packet?  True/False/None"""
    res = False
    for F, x in tabs:
        if F is None: return None
        if x.op == 'int': return None
        try:
            G = F.copy(); ok = True
            G.assume(eq0(sub(x, I(bits))))
            H = substfacts(I_, F, {x: I(bits)})
            for l in list(H.ge):
                if l.op == 'int' and l.a[0] < 0: ok = False
            for b, v in H.bo.items():
                d = H.decide(b) if b.op != 'int' else bool(b.a[0])
                if b.op == 'int' and bool(b.a[0]) != v: ok = False
            for t, dm in H.dom.items():
                if t.op == 'int' and t.a[0] not in dm: ok = False
        except Infeasible: ok = False
        if ok: res = True
    return res

def P08(R, P):
    R.rule('Rule: for every property the encoder emits exactly its MQTT 5 identifier and the decoder maps exactly that identifier back to it; every packet kind\'s add_prop and decoder accept it if and only if MQTT 5 lists it for that packet, with a value of exactly the MQTT 5 wire type; two occurrences are accepted by the decoder only where MQTT 5 allows repetition. Decided on all abstract paths of those functions against the MQTT 5 table.')
    T_ = PropTab(R, P)
    if None in (T_.fk, T_.fv, T_.fd): R.undecided('property', 'functions not found'); return
    # identifiers
    ids = {}
    for i, n in T_.keys:
        sid = T_.byname.get(nm(n))
        if sid is None: R.undecided('property|' + n, 'unknown property name'); continue
        ids[i] = sid
        w = T_.write(T_.fk, T_.key(i), Facts())
        if w is None or len(w[0]) != 1 or w[0][0].op not in ('vi', 'u'): R.undecided('property|%s|id' % n, 'output not understood'); continue
        c = w[1].const(strip(w[0][0].a[-1]))
        R.check(c == sid, 'props::Property::serialize|%s' % n, 'the property %s is written under identifier %s instead of 0x%02x' % (n, '0x%02x' % c if c is not None else '?', sid), [], '%s written as 0x%02x' % (n, sid))
    for sid, (n, _, _, _) in spec.PROPS_T.items():
        if sid not in ids.values(): R.viol('props::Property|missing|' + n, 'MQTT 5 property %s does not exist' % n)
    fd = find_fn(P, deser(PKEY))
    if fd:
        st, c, r = stream_state()
        x = vival(mk('st', 'S'), ZERO); seen = {}
        for o in T_.I.run(fd, [r], st, 1, None):
            if o.kind != 'ret' or o.val.a[1] == 1: continue
            if tainted(o.st) or o.val.a[2].op != 'adt': R.undecided('props::Property::deserialize', 'unmodelled'); continue
            i = o.val.a[2].a[1]; n = dict(T_.keys)[i]
            vs = o.st.facts.const(x)
            if vs is None:
                d = o.st.facts.dom_of(byte_at(ZERO)) or FULL8
                vs = next(iter(d)) if len(d) == 1 else None
            if vs is None:
                lo, hi = o.st.facts.rng(x)
                R.viol('props::Property::deserialize|%s' % n, 'identifiers other than 0x%02x (%d..%d) are read as property %s' % (ids.get(i, 0), lo, hi, n), facts_lines(o.st)); continue
            seen[i] = vs
            R.check(vs == ids.get(i), 'props::Property::deserialize|%s' % n, 'identifier 0x%02x is read as property %s' % (vs, n), [], '0x%02x read as %s' % (vs, n))
        for i, n in T_.keys:
            if i in ids and ids[i] not in seen.values(): R.viol('props::Property::deserialize|missing|' + n, 'identifier 0x%02x (%s) is not recognised' % (ids[i], n))
    else: R.undecided('props::Property::deserialize', 'not found')
    # insertion matrix
    ads = T_.adders(); shapes = {}
    for kn, f, v, F in ads:
        fk = short(f['p'])
        for i, n in T_.keys:
            if i not in ids: continue
            _, wire, multi, kinds = spec.PROPS_T[ids[i]]
            acc = set(); und = False
            for (sh, _), (x, xF) in T_.var1.items():
                r = T_.insert(f, v, F, i, x, xF)
                if r is None: und = True
                elif r == 'ok': acc.add(sh); shapes.setdefault(i, set()).add(sh)
            if und: R.undecided('%s|%s' % (fk, n), 'mixed or unknown outcome'); continue
            allowed = kn in kinds
            if not allowed: R.check(not acc, '%s|%s|owner' % (fk, n), 'a %s accepts the property %s, which MQTT 5 does not allow there' % (kn, n), ['accepted with value types %s' % sorted(acc)], '%s refuses %s' % (kn, n))
            else:
                R.check(acc, '%s|%s|owner' % (fk, n), 'a %s refuses the property %s, which MQTT 5 allows there' % (kn, n), [], '%s accepts %s' % (kn, n))
                if acc: R.check(acc == {wire}, 'property|%s|type|%s' % (n, '/'.join(sorted(acc))), 'the property %s takes values of type %s instead of %s' % (n, '/'.join(sorted(acc)), wire), [], '%s takes %s' % (n, wire))
    R.counts['add_prop functions'] = [short(f['p']) for _, f, _, _ in ads]
    # decoding
    Ip, outs, c = run_packet(R, P)
    tabs = owners_in_outcomes(P, outs, R) if Ip else {}
    for i, n in T_.keys:
        if i not in ids: continue
        _, wire, multi, kinds = spec.PROPS_T[ids[i]]
        good = {}; und = False
        for (sh, _), (x, xF) in T_.var1.items():
            if sh in (shapes.get(i) or {wire}):
                os_ = T_.decode([(i, x, xF)])
                if os_ is None: und = True; continue
                for o in os_:
                    if o.kind == 'ret' and o.val.a[1] == 0:
                        m = entries(o.val.a[2].a[2 + T_.fi[2]]) if o.val.a[2].op == 'adt' else None
                        xs = (m or {}).get(T_.key(i))
                        if not xs: und = True; continue
                        good.setdefault(T_.shape(xs[0]), []).append((sh, x, xF, o, len(os_)))
        if und: R.undecided('props::Properties::deserialize|' + n, 'decoding not understood')
        if not good: R.viol('props::Properties::deserialize|%s|type' % n, 'no value of the property %s is accepted by the decoder' % n); continue
        if not und: R.check(set(good) == {wire}, 'property|%s|type|%s' % (n, '/'.join(sorted(str(g) for g in good))), 'the property %s is decoded as a value of type %s instead of %s' % (n, '/'.join(sorted(str(g) for g in good)), wire), [], '%s decoded as %s' % (n, wire))
        sh, x, xF, o, _ = next(iter(good.values()))[0]
        bits = T_.valid(o)
        if bits is None: R.undecided('props::Properties::deserialize|%s|owner' % n, 'owner bits not constant')
        else:
            for kn, ts in tabs.items():
                a = accepts_mask(Ip, ts, bits)
                if a is None: R.undecided('decode|%s|%s' % (kn, n), 'owner test not understood'); continue
                R.check(a == (kn in kinds), 'packet::Packet::from_bytes|%s|%s' % (kn, n), 'decoding a %s %s the property %s' % (kn, 'accepts' if a else 'refuses', n), ['owner bits %x' % bits], 'decoder: %s %s %s' % (kn, 'accepts' if a else 'refuses', n))
        y, yF = T_.rename(x, xF, '2')
        os_ = T_.decode([(i, x, xF), (i, y, yF)])
        if os_ is None: R.undecided('props::Properties::deserialize|%s|repeat' % n, 'not understood'); continue
        two = any(o.kind == 'ret' and o.val.a[1] == 0 for o in os_)
        if not multi: R.check(not two, 'props::Properties::deserialize|%s|repeat' % n, 'two occurrences of the property %s are accepted' % n, [], '%s may not repeat' % n)
        else: R.ok('%s may repeat' % n)
    R.counts['kinds with decoded tables'] = sorted(tabs)
    R.used(T_.I); R.funcs |= T_.RE.analysed

def map_term(T_, st, w):
    return T_.I.project(w, ('f', T_.fi[2], None, None), st)
def P13(R, P):
    R.rule('Rule: checked_insert on an arbitrary property table either fails leaving the entries unchanged or changes only the entry of its key, which then holds exactly one value if the key is unique; every add_prop accepts a key only with one value type and only where the MQTT 5 table lists the packet; every path of Properties::insert (used by the decoder) narrows the owner mask, fails on a second unique value, and packets whose table holds a foreign property end in no Ok path of the decoder.')
    T_ = PropTab(R, P)
    if None in (T_.fk, T_.fv, T_.fd): R.undecided('property', 'functions not found'); return
    # arbitrary table, arbitrary key and value
    for n, f, inv, I_, t, outs, c in table_mutators(R, P, 'P13'):
        if n != 'checked_insert': continue
        fk = 'props::Properties::' + n; key = sym(None, 'key'); m0 = I_.project(t, ('f', inv.fi[2], None, None), None)
        for o in outs:
            if o.kind != 'ret': continue            # P01/P02
            if tainted(o.st): R.undecided(fk, 'unmodelled'); continue
            w = o.st.mem[c]; m = I_.project(w, ('f', inv.fi[2], None, None), o.st)
            if o.val.a[1] == 1:
                R.check(m is m0, fk + '|failed', 'a failing insertion changes the entries of a property table', [short(show(m))[:200]], 'failure leaves the entries unchanged'); continue
            while m.op in ('hmupd', 'hmins'):
                R.check(m.a[1] is key or o.st.facts.prove_eq(m.a[1], key) , fk + '|other', 'an insertion changes the entry of another property', [short(show(m))[:200]], 'only the entry of the key changes')
                m = m.a[0]
            R.check(m is m0, fk + '|other', 'an insertion changes other entries of the table', [short(show(m))[:200]])
    # per packet kind and key
    RE = T_.RE; shapes = {}; pick = {}
    ads = T_.adders()
    for kn, f, v, F in ads:
        fk = short(f['p'])
        for i, n in T_.keys:
            sid = T_.byname.get(nm(n))
            if sid is None: R.undecided('property|' + n, 'unknown name'); continue
            _, wire, multi, kinds = spec.PROPS_T[sid]
            acc = {}
            for (sh, vv), (x, xF) in T_.var1.items():
                r = T_.insert(f, v, F, i, x, xF)
                if r is None: R.undecided('%s|%s' % (fk, n), 'mixed or unknown outcome'); acc = None; break
                if r == 'ok': acc[(sh, vv)] = (x, xF)
            if acc is None: continue
            if kn not in kinds: R.check(not acc, '%s|%s|owner' % (fk, n), 'a %s accepts the property %s, which is not allowed in it' % (kn, n), [], '%s refuses %s' % (kn, n)); continue
            if not acc: continue                    # P08
            R.check(len(acc) == 1, '%s|%s|type' % (fk, n), 'a %s accepts values of several types for the property %s' % (kn, n), [str(sorted(acc))], '%s: one value type for %s' % (kn, n))
            for k in acc: shapes.setdefault(i, set()).add(k); pick[i] = acc[k]
            x, xF = next(iter(acc.values()))
            # a second value of the same property
            y, yF = T_.rename(x, xF, '2')
            s = State(); s.facts = F.copy()
            try: merge(s.facts, xF); merge(s.facts, yF)
            except Infeasible: continue
            c = ('H', 'self'); s.mem[c] = v
            for o in T_.I.run(f, [mk('ref', c, ()), T_.key(i), x], s, 1, None):
                if o.kind != 'ret' or o.val.a[1] == 1: continue
                for q in T_.I.run(f, [mk('ref', c, ()), T_.key(i), y], o.st, 1, None):
                    R.paths += 1
                    if q.kind != 'ret': continue
                    if tainted(q.st): R.undecided('%s|%s' % (fk, n), 'unmodelled'); continue
                    es = table_entries(q.st.mem[c], T_)
                    if es is None: R.undecided('%s|%s|unique' % (fk, n), 'table not understood'); continue
                    cnt = len(es.get(T_.key(i), ()))
                    if not multi: R.check(cnt <= 1, '%s|%s|unique' % (fk, n), 'a %s can hold %d values of the property %s, which must be unique' % (kn, cnt, n), [], '%s: %s stays unique' % (kn, n))
                    else: R.check(set(es) == {T_.key(i)}, '%s|%s|entries' % (fk, n), 'inserting %s twice leaves other entries' % n)
    for i, ks in shapes.items():
        n = dict(T_.keys)[i]
        R.check(len(ks) == 1, 'property|%s|type' % n, 'the property %s takes values of different types in different packets' % n, [str(sorted(ks))])
    # tables of packets are only changed by checked_insert
    RE2 = Reach(P, veccap=1); RE2.surface = {}
    packet_states(R, P, RE2)
    for path, f in sorted(RE2.foreign_tables):
        R.undecided('table|%s' % short(f), 'changes a property table without checked_insert')
    # decoding
    Ip, outs, c = run_packet(R, P)
    tabs = owners_in_outcomes(P, outs, R) if Ip else {}
    up = next((i for i, n in T_.keys if n == 'UserProperty'), None)
    full = {}
    for i, n in T_.keys:
        if i not in pick: continue
        _, wire, multi, kinds = spec.PROPS_T[T_.byname[nm(n)]]
        x, xF = pick[i]
        cases = [('alone', [(i, x, xF)])]
        if up in pick and i != up: cases += [('before UserProperty', [(i, x, xF), (up,) + pick[up]]), ('after UserProperty', [(up,) + pick[up], (i, x, xF)])]
        for cn, es in cases:
            os_ = T_.decode(es)
            if os_ is None: R.undecided('props::Properties::deserialize|' + n, 'not understood'); continue
            for o in os_:
                if o.kind != 'ret' or o.val.a[1] == 1: continue
                bits = T_.valid(o)
                if bits is None: R.undecided('props::Properties::deserialize|%s|owner' % n, 'owner bits not constant'); continue
                for kn, ts in tabs.items():
                    if kn in kinds: continue
                    a = accepts_mask(Ip, ts, bits)
                    if a is None: R.undecided('decode|%s|%s' % (kn, n), 'owner test not understood'); continue
                    R.check(not a, 'packet::Packet::from_bytes|%s|%s' % (kn, n), 'a %s carrying the property %s (%s) is decoded although it is not allowed there' % (kn, n, cn), ['owner bits %x' % bits], 'decoder: %s with %s refused' % (kn, n))
        if not multi:
            y, yF = T_.rename(x, xF, '2')
            for cn, es in [('twice in a row', [(i, x, xF), (i, y, yF)])] + ([('twice with another between', [(i, x, xF), (up,) + pick[up], (i, y, yF)])] if up in pick and i != up else []):
                os_ = T_.decode(es)
                if os_ is None: R.undecided('props::Properties::deserialize|%s|repeat' % n, 'not understood'); continue
                R.check(not any(o.kind == 'ret' and o.val.a[1] == 0 for o in os_), 'props::Properties::deserialize|%s|repeat' % n, 'two values of the property %s (%s) are accepted by the decoder' % (n, cn), [], '%s %s refused' % (n, cn))
    R.counts['kinds with decoded tables'] = sorted(tabs)
    R.used(T_.I); R.funcs |= RE2.analysed
def table_entries(v, T_, n=0):
    """entries of the (single) property table inside v"""
    if v.op == 'adt' and v.a[0] == PROPS: return entries(v.a[2 + T_.fi[2]])
    if v.op in ('adt', 'tup', 'box') and n < 5:
        for x in v.a:
            if isinstance(x, T):
                r = table_entries(x, T_, n + 1)
                if r is not None: return r
    return None

# ---------------------------------------------------------------- P09 / P10
def byte_tok(I_, st, toks, off):
    """the one-byte token at offset off after the fixed header (off -1: the first byte)"""
    if off < 0: return toks[0].a[1] if toks and toks[0].op == 'u' and toks[0].a[0] == 1 else None
    n = 0
    for t in toks[2:]:
        if n == off: return t.a[1] if t.op == 'u' and t.a[0] == 1 else None
        k = toklen2(I_, st, t)
        if k is None or k.op != 'int': return None
        n += k.a[0]
        if n > off: return None
def flag_token(P, I_, kn, v, F):
    """[(flag byte expression, state)] written for a packet value (None when not understood)"""
    key = (id(I_), kn, v, F.key())
    if key in _ftc: return _ftc[key]
    w = mk('adt', PACKET, next(i for i, x in enumerate(P.adts[PACKET]['v']) if x['n'] == kn), v) if v.a[0] != PACKET else v
    r = []
    for t, st in written(P, I_, w, F):
        b = byte_tok(I_, st, t, spec.FLAG_AT[kn]) if t is not None else None
        if b is not None:
            b = strip(b)
            if kn == 'Publish': b = bit('and', b, I(15), 'u8')
        r.append((b, st))
    _ftc[key] = r
    return r
_ftc = {}
def flag_atom(kn, F):
    """the input byte that carries the flags of a decoded packet"""
    if kn == 'Publish': return byte_at(ZERO)
    at = byte_at(add(HDR(), I(spec.FLAG_AT[kn])))
    if kn == 'Connect' and at not in F.dom:      # after the protocol name, whose length is read from the wire
        at = byte_at(add(add(HDR(), I(3)), typed(mk('rd', mk('st', 'S'), HDR(), 2), 'u16')))
    return at
def same_num(F, a, b):
    """a == b for every value of the finite atoms they depend on"""
    if a is b or F.prove_eq(a, b): return True
    vs = F.values(bit('xor', a, b, 'u8'))
    return None if vs is None else vs == {0}
def accessor(P, I_, f, v, st0):
    """[(value, state)] of f(&v)"""
    s = st0.copy(); c = ('H', 'acc'); s.mem[c] = v; r = []
    for o in I_.run(f, [mk('ref', c, ())], s, 1, None):
        r.append((o.val if o.kind == 'ret' and not tainted(o.st) else None, o.st))
    return r
def bits_of(v):
    while v is not None and v.op == 'adt' and len(v.a) == 3: v = v.a[2]
    return v
def is_some(v):
    if v is None or v.op != 'adt': return None
    return v.a[1] == 1
def qos_digit(P, v):
    if v is None or v.op != 'adt' or v.a[0] not in P.adts: return None
    return spec.QOS_N.get(nm(P.adts[v.a[0]]['v'][v.a[1]]['n']), spec.RH_N.get(nm(P.adts[v.a[0]]['v'][v.a[1]]['n'])))
QOSP = PK + 'qos::QoS'
def P09(R, P):
    R.rule('Rule: the set of flag bytes with which the decoder can return CONNECT, CONNACK, PUBLISH and subscription options equals the set MQTT 5 allows; on every path each public setter changes exactly its MQTT 5 bit of the flag byte that is written, each flag constant has its bit, QoS / retain-handling conversions read and write their two bits, and flags()/qos() return what is on the wire.')
    # constants
    for p, names in spec.FLAGS.items():
        for n, b in names.items():
            c = P.consts.get(PK + p + '::' + n)
            while c and c.get('k') == 'adt' and len(c['f']) == 1: c = c['f'][0]
            if not c or c.get('k') != 'int': R.undecided('const|%s::%s' % (p, n), 'constant not found'); continue
            R.check(c['v'] == b, '%s::%s' % (p, n), 'the flag %s::%s is bit 0x%02x (MQTT 5: 0x%02x)' % (p, n, c['v'], b), [], '%s::%s = 0x%02x' % (p, n, b))
    # decoding
    Ip, outs, c = run_packet(R, P)
    legal = {'Connect': spec.CONNECT_OK, 'ConnAck': {0, 1}, 'Publish': {x & 15 for x in spec.PUBLISH_FIRST}}
    got = {}; taint = set()
    for o in (ok_outcomes(R, outs) if Ip else ()):
        kn = kind_name(P, o.val.a[2])
        if kn not in legal: continue
        if tainted(o.st): taint.add(kn); continue
        at = flag_atom(kn, o.st.facts)
        d = set(o.st.facts.dom_of(at) or FULL8)
        if kn == 'Publish': d = {x & 15 for x in d}
        got.setdefault(kn, set()).update(d)
        R.check(d <= legal[kn], 'packet::Packet::from_bytes|flags|' + kn, 'a %s with illegal flags %s is accepted' % (kn, hexs(d - legal[kn])), facts_lines(o.st), '%s: only legal flags on this path' % kn)
        v = o.val.a[2].a[2]
        fl = find_fn(P, kind_path(P, kn) + '::flags')
        wire = bit('and', at, I(15), 'u8') if kn == 'Publish' else at
        if fl is not None:
            for x, st in accessor(P, Ip, fl, v, o.st):
                b = bits_of(x)
                if b is None: R.undecided('flags|' + kn, 'accessor not understood'); continue
                s = same_num(st.facts, b, wire)
                if s is None: R.undecided('flags|' + kn, short(show(b))[:100]); continue
                R.check(s, '%s::flags' % short(kind_path(P, kn)), 'flags() of a decoded %s is not its flag byte' % kn, [short(show(b))[:200]], '%s: flags() == flag byte' % kn)
        fq = find_fn(P, kind_path(P, kn) + '::qos')
        if fq is not None:
            for x, st in accessor(P, Ip, fq, v, o.st):
                q = qos_digit(P, x)
                vs = st.facts.values(bit('and', bit('shr', at, I(1), 'u8'), I(3), 'u8'))
                if q is None or vs is None: R.undecided('qos|' + kn, 'accessor not understood'); continue
                R.check(vs == {q}, '%s::qos' % short(kind_path(P, kn)), 'qos() of a decoded %s is %d for QoS bits %s' % (kn, q, sorted(vs)), [], '%s: qos() %d' % (kn, q))
    for kn, lg in legal.items():
        if kn in taint: R.undecided('flags|' + kn, 'unmodelled'); continue
        miss = lg - got.get(kn, set())
        R.check(not miss, 'packet::Packet::from_bytes|flags|%s|missing' % kn, 'a %s with the legal flags %s is refused' % (kn, hexs(miss)), [], '%s: all %d legal flag bytes accepted' % (kn, len(lg)))
    so = PK + 'subscribe::SubscriptionOptions'
    f = reader_of(P, so)
    if f is None: R.undecided('subscribe::SubscriptionOptions', 'reader not found')
    else:
        I_ = interp(P, VARINT); st, c, r = stream_state(); st.facts._ge(sub(models.REM('S'), ONE)); acc = set(); und = False
        for o in I_.run(f, [r], st, 1, None):
            if o.kind != 'ret' or o.val.a[1] != 0: continue
            if tainted(o.st): und = True; continue
            acc |= set(o.st.facts.dom_of(byte_at(ZERO)) or FULL8)
        R.used(I_)
        if und: R.undecided('subscribe::SubscriptionOptions', 'unmodelled')
        else:
            R.check(acc <= spec.SUBOPT_OK, 'subscribe::SubscriptionOptions|accept', 'illegal subscription options %s are accepted' % hexs(acc - spec.SUBOPT_OK), [], 'no illegal subscription options accepted')
            R.check(spec.SUBOPT_OK <= acc, 'subscribe::SubscriptionOptions|missing', 'legal subscription options %s are refused' % hexs(spec.SUBOPT_OK - acc), [], 'all %d legal options accepted' % len(spec.SUBOPT_OK))
    # conversions
    I_ = interp(P, VARINT)
    for p, sh in spec.QOS_SHIFT.items():
        lg = {'connect::ConnectFlags': spec.CONNECT_OK, 'publish::PublishFlags': legal['Publish'], 'subscribe::SubscriptionOptions': spec.SUBOPT_OK}[p]
        for target, shift in ((QOSP, sh),) + (((PK + 'subscribe::RetainHandling', 4),) if p.startswith('subscribe') else ()):
            tn = short(target)
            f = find_fn(P, '<%s as core::convert::TryInto<%s>>::try_into' % (PK + p, target)) or find_fn(P, '<%s as core::convert::TryFrom<%s>>::try_from' % (target, PK + p)) or find_fn(P, '<%s as core::convert::From<%s>>::from' % (target, PK + p))
            if f is None: R.undecided('%s -> %s' % (p, tn), 'conversion not found')
            else:
                st = State(); a = sym('u8', 'flagbits'); st.facts.set_dom(a, lg)
                for o in I_.run(f, [mk('adt', PK + p, 0, a)], st, 1, None):
                    d = o.st.facts.dom_of(a)
                    key = '%s -> %s' % (p, tn)
                    if tainted(o.st): R.undecided(key, 'unmodelled'); continue
                    if o.kind != 'ret': R.viol(key + '|panic', 'converting legal flags %s to %s panics' % (hexs(d), tn), facts_lines(o.st)); continue
                    v = o.val
                    if v.op == 'adt' and v.a[0] == models.RES:
                        if v.a[1] == 1: R.viol(key + '|refused', 'legal flags %s do not convert to %s' % (hexs(d), tn), facts_lines(o.st)); continue
                        v = v.a[2]
                    q = qos_digit(P, v)
                    if q is None: R.undecided(key, 'result not understood'); continue
                    R.check({(x >> shift) & 3 for x in d} == {q}, key, 'flags %s are read as %s %d' % (hexs(d), tn, q), [], '%s: value %d' % (key, q))
            f = find_fn(P, '<%s as core::convert::From<%s>>::from' % (PK + p, target)) or find_fn(P, '<%s as core::convert::Into<%s>>::into' % (target, PK + p))
            if f is None: R.undecided('%s -> %s' % (tn, p), 'conversion not found'); continue
            for i, x in enumerate(P.adts[target]['v']):
                q = qos_digit(P, mk('adt', target, i))
                for o in I_.run(f, [mk('adt', target, i)], State(), 1, None):
                    b = bits_of(o.val) if o.kind == 'ret' else None
                    if q is None or b is None or b.op != 'int': R.undecided('%s -> %s' % (tn, p), 'result not understood'); continue
                    R.check(b.a[0] == q << shift, '%s -> %s|%s' % (tn, p, x['n']), '%s is turned into bits 0x%02x (MQTT 5: 0x%02x)' % (x['n'], b.a[0], q << shift), [], '%s -> 0x%02x' % (x['n'], q << shift))
    R.used(I_)
    # setters
    I2 = interp(P, VARINT, PVC, PROPC, VNEW, max_steps=8000000)
    RE = Reach(P, veccap=1)
    for kn in ('Connect', 'ConnAck', 'Publish'):
        path = kind_path(P, kn)
        sts = []; done = set()
        for a, F in RE.states(path, kn + ':'):
            sts.append((a, F))
        _, muts = RE.methods(path)
        for f, how in muts:
            eff = spec.SETTERS.get((kn, f['n']))
            fk = short(f['p'])
            for v, F in sts:
                for b0, st0 in flag_token(P, I2, kn, v, F):
                    if b0 is None: R.undecided('flags|' + kn, 'flag byte not found in the output'); continue
                    args = [None]
                    if isinstance(eff, tuple): args = [mk('adt', QOSP, i) for i in range(len(P.adts[QOSP]['v']))]
                    for arg in args:
                        s = st0.copy(); c = ('H', 'self'); s.mem[c] = v
                        first = [mk('ref', c, ())] if how == 'ref' else [v]
                        os_ = RE.call(I2, f, first + ([arg] if arg is not None else []), s)
                        for o in os_:
                            R.paths += 1
                            if o.kind != 'ret': continue
                            if tainted(o.st): R.undecided(fk, 'unmodelled'); continue
                            failed = o.val.op == 'adt' and o.val.a[0] == models.RES and o.val.a[1] == 1
                            w = o.st.mem[c] if how == 'ref' else (o.val.a[2] if o.val.a[0] == models.RES else o.val) if not failed else None
                            if w is None: continue
                            dk = (f['p'], arg, failed, b0, w, o.st.facts.key())
                            if dk in done: continue
                            done.add(dk)
                            if eff is None or failed: want = b0
                            elif isinstance(eff, tuple): want = bit('or', bit('and', b0, I(0xff & ~(3 << eff[1])), 'u8'), I(qos_digit(P, arg) << eff[1]), 'u8')
                            else: want = bit('or', b0, I(eff), 'u8')
                            for b1, st1 in flag_token(P, I2, kn, w, o.st.facts):
                                if b1 is None: R.undecided('flags|' + kn, 'flag byte not found in the output'); continue
                                sm = same_num(st1.facts, b1, want)
                                if sm is None: R.undecided(fk, short(show(b1))[:120]); continue
                                R.check(sm, '%s|flags' % fk, '%s %s changes the flag byte of a %s from %s to %s' % (fk, '(failing)' if failed else '', kn, short(show(b0))[:80], short(show(b1))[:80]), facts_lines(st1), '%s: flag byte effect' % fk)
    R.used(I2); R.funcs |= RE.analysed

def P10(R, P):
    R.rule('Rule: in every reachable abstract state of Connect and Publish (fixpoint over all public constructors and mutators, including their failing paths) and on every Ok path of the decoder, the flag byte that is written and the public accessors agree: user name / password / will bits are set exactly when the accessor returns a value, will QoS and retain bits are zero without a will, a packet identifier is returned only with QoS above 0.')
    RE = Reach(P, veccap=1)
    I_ = interp(P, VARINT, PVC, PROPC, VNEW, max_steps=8000000)
    def state(kn, v, F, origin):
        path = kind_path(P, kn)
        fns = {n: find_fn(P, path + '::' + n) for n in (('username', 'password', 'will') if kn == 'Connect' else ('packet_identifier', 'qos'))}
        for n, f in fns.items():
            if f is None: R.undecided('%s::%s' % (kn, n), 'accessor not found')
        for b, st in flag_token(P, I_, kn, v, F):
            R.paths += 1
            if b is None: R.undecided('flags|' + kn, 'flag byte not found in the output'); continue
            some = {}
            for n, f in fns.items():
                if f is None or n == 'qos': continue
                r = {is_some(x) for x, _ in accessor(P, I_, f, v, st)}
                some[n] = r.pop() if len(r) == 1 else None
                if some[n] is None: R.undecided('%s::%s' % (kn, n), 'accessor not understood')
            det = ['%s: %s' % (origin, short(show(v))[:300])] + facts_lines(st)
            vals = st.facts.values(b)
            if vals is None: R.undecided('flags|' + kn, short(show(b))[:100]); continue
            if kn == 'Connect':
                for n, m in (('username', 0x80), ('password', 0x40), ('will', 4)):
                    if some.get(n) is None: continue
                    bad = [x for x in vals if bool(x & m) != some[n]]
                    R.check(not bad, 'connect::Connect|%s|%s' % (n, origin), 'a CONNECT (%s) %s a %s but its flag byte can be %s' % (origin, 'has' if some[n] else 'lacks', n, hexs(bad)), det, '%s %s: %s flag agrees' % (kn, origin, n))
                if some.get('will') is False:
                    bad = [x for x in vals if x & 0x38]
                    R.check(not bad, 'connect::Connect|will bits|%s' % origin, 'a CONNECT (%s) without a will has will QoS or retain bits %s' % (origin, hexs(bad)), det, '%s %s: no will bits without will' % (kn, origin))
            elif some.get('packet_identifier'):
                bad = [x for x in vals if not x & 6]
                R.check(not bad, 'publish::Publish|identifier|%s' % origin, 'a PUBLISH (%s) with QoS 0 holds a packet identifier' % origin, det, 'Publish %s: identifier only with QoS > 0' % origin)
            elif some.get('packet_identifier') is False: R.ok('Publish %s: no identifier' % origin)
    n = 0
    for kn in ('Connect', 'Publish'):
        for a, F in RE.states(kind_path(P, kn), kn + ':'):
            for v, G in RE.concretise(I_, a, F): state(kn, v, G, 'built'); n += 1
        R.counts['mutators of ' + kn] = RE.ops[kind_path(P, kn)][1]
    for path, f in RE.tainted: R.undecided('mutator|' + short(f), 'unmodelled call')
    Ip, outs, c = run_packet(R, P)
    for o in (ok_outcomes(R, outs) if Ip else ()):
        kn = kind_name(P, o.val.a[2])
        if kn not in ('Connect', 'Publish'): continue
        if tainted(o.st): R.undecided('decoded|' + kn, 'unmodelled'); continue
        state(kn, o.val.a[2].a[2], o.st.facts, 'decoded'); n += 1
    R.counts['states'] = n
    R.used(I_); R.funcs |= RE.analysed
