"""P16: what is put into a packet is what its accessors report."""
from p_rules import *
from p_rules import PropTab
from interp import Ctx
from models import subterms
OPT = models.OPT

# public surface: constructor arguments and setters -> accessor that reports them; '*' = the accessor may change (decided elsewhere)
NEW = {'Connect': ('clientid',), 'Publish': ('topic_name', 'payload'), 'Will': ('topic', 'payload'), 'PubAck': ('identifier',), 'PubRec': ('identifier',),
       'PubRel': ('identifier',), 'PubComp': ('identifier',), 'Subscribe': ('packet_identifier',), 'SubAck': ('identifier',), 'UnsubAck': ('identifier',),
       'ConnAck': (), 'Unsubscribe': (None,), 'Auth': ('reason_code',), 'Disconnect': ('reason_code',)}
EMPTY = {'Connect': ('username', 'password', 'will'), 'Publish': ('packet_identifier',)}
SET = {'Connect': {'set_clean_start': ((), ('flags',)), 'set_username': (('username',), ('flags',)), 'set_password': (('password',), ('flags',)), 'set_keep_alive': (('keep_alive',), ()),
                   'set_will': (('will',), ('flags',)), 'set_will_qos': ((), ('flags',)), 'set_will_retain': ((), ('flags',))},
       'Will': {'set_topic': (('topic',), ()), 'set_payload': (('payload',), ())},
       'Publish': {'set_retain': ((), ('flags',)), 'set_dup': ((), ('flags',)), 'set_packet_identifier': (('packet_identifier',), ()), 'set_qos': (('qos',), ('flags', 'packet_identifier')),
                   'set_payload': (('payload',), ()), 'set_payload_bytes': (('payload',), ())},
       'ConnAck': {'set_session_present': ((), ('flags',)), 'set_reason_code': (('reason_code',), ())}}
for k_ in ('PubAck', 'PubRec', 'PubRel', 'PubComp'): SET[k_] = {'set_reason_code': (('reason_code',), ())}
LISTS = {'SubAck': ('add_reason_code', 'reason_codes'), 'UnsubAck': ('add_reason_code', 'reason_codes'), 'Subscribe': ('add_topic', 'topics_iter'), 'Unsubscribe': ('add_topic', 'topics_iter')}
TEXTS = (D + 'MqttUtf8String', PK + 'topic::MqttTopic', D + 'MqttBinaryData')

class Acc:
    def __init__(s, R, P):
        s.R = R; s.P = P; s.RE = Reach(P, veccap=2); s.I = interp(P, VARINT, PVC, PROPC, INSC, VNEW, max_steps=16000000)
    def methods(s, path):
        r = {}
        for f in s.P.insts:
            if not f or not f.get('body') or f['kind'] != 'fn' or not f.get('local') or f.get('trait') or not f.get('vis'): continue
            t = f.get('self')
            if t is not None and s.P.tname(t).split('<')[0] == path: r.setdefault(f['n'], f)
        return r
    def plain(s, st, v, n=0):
        """a value without references and wrappers around texts"""
        if v is None or n > 8: return v
        if v.op == 'ref': v = s.I.deref_all(st, v)
        if v.op == 'adt' and v.a[0] in s.P.adts and v.a[0].startswith(PK) and len(s.P.adts[v.a[0]]['v']) == 1 and len(v.a) == 3 and not v.a[0].endswith('Flags'): return s.plain(st, v.a[2], n + 1)
        if v.op == 'arc' and len(v.a) == 1: return v
        if v.op == 'adt': return mk('adt', v.a[0], v.a[1], *[s.plain(st, x, n + 1) for x in v.a[2:]])
        if v.op in ('tup', 'vec'): return mk(v.op, *[s.plain(st, x, n + 1) if isinstance(x, T) else x for x in v.a])
        return v
    def get(s, f, v, st, args=()):
        """[(value or None, state)]: what an accessor says about a packet"""
        c = ('H', 'acc'); q = st.copy(); q.mem[c] = v; r = []
        for o in s.I.run(f, [mk('ref', c, ())] + list(args), q, 1, None):
            if o.kind != 'ret': continue                     # P01
            r.append((None if tainted(o.st) else s.plain(o.st, o.val), o.st))
        return r
    def same(s, st, a, b):
        if a is b: return True
        if a is None or b is None: return None
        if isinstance(b, Several):
            if isinstance(a, Several) and set(a.d) == set(b.d): return True
            return None
        if isinstance(a, Several):
            rs = [s.same(q, x, b) for x, q in a.d.items()]
            return False if False in rs else None if None in rs else True
        return s.eq(st, a, b)
    def eq(s, st, a, b, n=0):
        if a is b: return True
        if a.op == 'vec' and b.op == 'vec' and a.a[0].op == 'int' and b.a[0].op == 'int' and a.a[0] is not b.a[0]: return False
        if a.op == 'hmnew' or b.op == 'hmnew': return False      # one table is empty, the other is arbitrary
        if n < 6 and a.op == b.op and a.op in ('adt', 'tup', 'vec', 'pe') and len(a.a) == len(b.a):
            if a.op == 'adt' and a.a[:2] != b.a[:2]: return False
            rs = [s.eq(st, x, y, n + 1) for x, y in zip(a.a, b.a) if isinstance(x, T) and isinstance(y, T)]
            return False if False in rs else None if None in rs else True
        if a.op == 'adt' and b.op == 'adt' and a.a[1] != b.a[1]: return False
        if b.op == 'adt' and a.op != 'adt': a, b = b, a
        if a.op == 'adt' and len(a.a) == 2 and b.op in ('sym', 'fld') and a.a[0] in s.P.adts:
            d = st.facts.values(s.I.disc(b, a.a[0]))
            if d is not None:
                w = s.P.adts[a.a[0]]['v'][a.a[1]]['d']
                return w in d and len(d) == 1
        try:
            if st.facts.prove_eq(a, b): return True
        except Exception: pass
        if a.op == 'int' and b.op == 'int': return False
        # two values nothing on the path relates can differ
        if a.op == 'sym' and b.op in ('sym', 'arc', 'blob', 'int') or b.op == 'sym' and a.op in ('sym', 'arc', 'blob', 'int'):
            f = st.facts; x, y = (a, b) if a.op == 'sym' else (b, a)
            ys = [z for z in subterms(y) if z.op in ('sym', 'argbuf')]
            if y.op == 'int':
                d = f.values(x)
                if d is not None: return d == {y.a[0]}
                return False if not any(occurs(z, x) for z in list(f.ge) + list(f.bo)) else None
            for z in list(f.dom) + list(f.bo) + list(f.ge) + list(f.iv):
                if occurs(z, x) and any(occurs(z, q) for q in ys): return None
            return False
        return None
    def outcomes(s, f, args, st):
        """[(arguments, outcome)] of f with the given leading arguments and arbitrary others"""
        r = []; run = s.I.run
        def spy(g, a, *rest):
            o = run(g, a, *rest)
            if g is f and len(a) == f['body']['args']: r.extend((a, x) for x in o)
            return o
        class J: pass
        j = type('Spy', (), {'run': staticmethod(spy), '__getattr__': lambda _, n: getattr(s.I, n)})()
        s.RE.call(j, f, args, st)
        return r
    def items(s, v, st, n=0):
        """[(list of items or None, state)] of an iterator or a list of known length"""
        if v is None or n > 12: return [(None, st)]
        if v.op == 'vec':
            return [([s.plain(st, p.a[0]) for p in v.a[1:]] if all(isinstance(p, T) and p.op == 'pe' for p in v.a[1:]) else None, st)]
        if v.op == 'iter' and v.a[2] == 'flat' and v.a[1] is ZERO and v.a[0].op == 'flatsrc' and v.a[0].a[0].op == 'itmap' and v.a[0].a[0].a[0].op == 'iter':
            # every value of every entry of a table
            m, clo = v.a[0].a[0].a[0].a[0], v.a[0].a[0].a[1]
            if m.op == 'ref': m = s.I.deref_all(st, m)
            es = entries(m)
            if es is None: return [(None, st)]
            r = [([], st)]; c = Ctx(s.I, s.any, 0, {'p': 'next'}, [], st, 1, None, None, None)
            for k, vs in es.items():
                r2 = []
                for l, q in r:
                    vec = mk('vec', I(len(vs)), *[mk('pe', x) for x in vs])
                    for o in c.call(clo, [mk('tup', s.I.ref_to(k), s.I.ref_to(vec))], q):
                        if o.kind != 'ret' or tainted(o.st): r2.append((None, o.st)); continue
                        for l2, q2 in s.items(o.val, o.st, n + 1): r2.append((None if l is None or l2 is None else l + l2, q2))
                r = r2
            return r
        c = Ctx(s.I, s.any, 0, {'p': 'next'}, [], st, 1, None, None, None)
        if v.op not in ('iter', 'itmap') and models.as_iter(c, st, v) is not v: return [(None, st)]
        r = []
        for q, nit, x in models.it_next(c, st, v):
            if tainted(q): r.append((None, q)); continue
            if x is None: r.append(([], q)); continue
            for l, q2 in s.items(nit, q, n + 1): r.append((None if l is None else [s.plain(q2, x)] + l, q2))
        return r
    def listing(s, f, v, st, args=()):
        return [(l, q2) for x, q in s.get(f, v, st, args) for l, q2 in s.items(x, q)] if f else []
    def want(s, st, v, o):
        """what an accessor of type o's variant should say about a value handed in"""
        return s.plain(st, v)
def stream_all(v):
    """all bytes of a buffer handed in"""
    return v.a[0] if v.op == 'stream' else None
class Several:
    """an accessor whose answer depends on what it finds: value -> path state"""
    op = None
    def __init__(s, d): s.d = d
    def __repr__(s): return ' or '.join(show(x) for x in s.d)
def first(x): return next(iter(x.d)) if isinstance(x, Several) else x
def tell(x): return short(repr(x) if isinstance(x, Several) else show(x) if x is not None else 'nothing known')
def accname(P, f): return P.tname(f['body']['locals'][0][0])
def P16(R, P):
    R.rule('Rule: every public constructor, setter, list and property mutator of every packet (and of a will) is run abstractly on every reachable abstract state; on each accepting path the accessor of what was handed in returns exactly that value, list accessors return the earlier items followed by the new one, all other accessors return what they returned before; on each refusing path no accessor returns anything new; build() hands on exactly the packet it was called on.')
    A = Acc(R, P)
    A.any = next(f for f in P.insts if f and f.get('body'))
    for kn in list(spec.KINDS) + ['Will']:
        path = PK + 'connect::Will' if kn == 'Will' else kind_path(P, kn)
        if path not in P.adts: continue
        ms = A.methods(path); ctors, muts = A.RE.methods(path)
        accs = {}
        for n, f in ms.items():
            if f['body']['args'] != 1 or n in ('frame_len', 'build') or not P.tname(f['body']['locals'][1][0]).startswith('&'): continue
            t = accname(P, f)
            if t == '()' or t.startswith(RESP): continue
            accs[n] = f
        lists = [n for n in accs if n in ('topics_iter', 'reason_codes')]
        simple = [n for n in accs if n not in lists and n != 'props_iter']
        R.count('accessors', len(accs)); R.count('constructors', len(ctors)); R.count('mutators', len(muts))
        def view(v, st):
            """accessor -> what it says (None: not understood)"""
            r = {}
            for n in simple:
                x = {}
                for y, q in A.get(accs[n], v, st): x.setdefault(y, q)
                r[n] = None if None in x else next(iter(x)) if len(x) == 1 else Several(x) if x else None
            for n in lists:
                x = [y for y, _ in A.listing(accs[n], v, st)]
                r[n] = mk('vec', I(len(x[0])), *[mk('pe', z) for z in x[0]]) if len(x) == 1 and x[0] is not None else None
            if 'props_iter' in accs:
                x = {y for y, _ in A.get(accs['props_iter'], v, st)}
                x = x.pop() if len(x) == 1 else None
                while x is not None and x.op in ('iter', 'itmap', 'flatsrc'): x = x.a[0]
                if x is not None and x.op == 'ref': x = A.I.deref_all(st, x)
                r['props_iter'] = x
            return r
        def reports(key, st, n, got, val, what, det):
            r = A.same(st, got, val)
            if r is None: R.undecided(key, 'what %s() returns was not recognised: %s' % (n, tell(got)[:120])); return
            R.check(r, key, what, det + ['%s() returns %s instead of %s' % (n, tell(got)[:160], tell(val)[:160])], '%s: %s' % (kn, n))
        def handed(st, x, like):
            """the value handed in, as the accessor would report it"""
            b = stream_all(x)
            if b is not None:
                w = mk('blob', mk('st', b.a[0]) if b.op == 'st' else b, ZERO, ZERO)
                w = None
                y = like.a[2] if like is not None and like.op == 'adt' and like.a[0] == OPT and len(like.a) == 3 else like
                if y is not None and y.op == 'blob':
                    src = y.a[0].a[0] if y.a[0].op == 'st' else y.a[0]
                    tot = mk('total', b)
                    v = y if src is b and A.same(st, y.a[1], ZERO) and (A.same(st, y.a[2], tot)) else mk('blob', mk('st', b), ZERO, tot)
                    x = v
                else: return None
            else: x = A.plain(st, x)
            if like is not None and like.op == 'adt' and like.a[0] == OPT: return models.Some(x)
            return x
        def frame(key, st, before, after, but, what, det):
            for n in before:
                if n in but: continue
                r = A.same(st, after[n], before[n])
                if r is None and not (after[n] is None and before[n] is None): R.undecided(key + '|' + n, 'what %s() returns was not recognised' % n); continue
                if r is None: R.undecided(key + '|' + n, 'what %s() returns was not recognised' % n); continue
                R.check(r, key + '|' + n, what % n, det + ['%s() returned %s and now %s' % (n, tell(before[n])[:140], tell(after[n])[:140])])
        # -- constructors
        for f in ctors:
            fk = short(f['p'])
            opts = A.outcomes(f, [], None)
            for args, o in opts:
                if o.kind != 'ret': continue
                R.paths += 1
                if tainted(o.st): R.undecided(fk, 'unmodelled call'); continue
                v = o.val
                if v.op == 'adt' and v.a[0] == models.RES:
                    if v.a[1] == 1: continue
                    v = v.a[2]
                w = view(v, o.st)
                names = NEW.get(kn, ()) if f['n'] == 'new' else ()
                for i, n in enumerate(names):
                    if n is None or i >= len(args): continue
                    if n not in accs: R.undecided(fk, 'no accessor %s' % n); continue
                    h = handed(o.st, args[i], first(w[n]))
                    reports('%s|%s' % (fk, n), o.st, n, w[n], h, 'a new %s does not report what it was built with (%s)' % (kn, n), [])
                for n in EMPTY.get(kn, ()):
                    if n in accs: R.check(is_some(first(w[n])) is not True, '%s|%s' % (fk, n), 'a new %s already has a %s' % (kn, n), [], '%s: no %s yet' % (kn, n))
                for n in lists:
                    if w[n] is not None: R.check(len(w[n].a) == 1, '%s|%s' % (fk, n), 'a new %s already has entries' % kn, [], '%s: no entries yet' % kn)
        # -- setters
        try: sts = A.RE.states(path, kn + ':')
        except (Unsupported, Budget) as e: R.undecided('states|' + kn, str(e)); continue
        R.count('states', len(sts))
        table = SET.get(kn, {}); la = LISTS.get(kn)
        for a, F in sts:
            st0 = State(); st0.facts = F.copy()
            before = view(a, st0)
            for f, how in muts:
                if f['n'] in accs: continue
                fk = short(f['p'])
                st = st0.copy(); c = ('H', 'self'); st.mem[c] = a
                for args, o in A.outcomes(f, [mk('ref', c, ())] if how == 'ref' else [a], st):
                    if o.kind != 'ret': continue
                    R.paths += 1
                    if tainted(o.st): R.undecided(fk, 'unmodelled call'); continue
                    v = o.st.mem[c] if how == 'ref' else o.val
                    no = o.val.op == 'adt' and o.val.a[0] == models.RES and o.val.a[1] == 1
                    if how != 'ref':
                        if no: continue
                        if v.op == 'adt' and v.a[0] == models.RES: v = v.a[2]
                    after = view(v, o.st); det = ['on %s' % short(show(a))[:200]] + facts_lines(o.st)[:4]
                    if no:
                        frame(fk + '|refused', o.st, before, after, (), 'a refused %s changes what %%s() returns' % short(f['p']), det); continue
                    hit, may = ((), ())
                    if f['n'] in table: hit, may = table[f['n']]
                    elif la and f['n'] == la[0]:
                        ln = la[1]; may = (ln,)
                        b, g = before.get(ln), after.get(ln)
                        if b is None or g is None: R.undecided('%s|%s' % (fk, ln), 'the list was not recognised')
                        else:
                            new = args[1:]; new = [A.plain(o.st, x) for x in new]
                            item = new[0] if len(new) == 1 else mk('tup', *new)
                            exp = mk('vec', I(len(b.a)), *(b.a[1:] + (mk('pe', item),)))
                            reports('%s|%s' % (fk, ln), o.st, ln, g, exp, 'an entry added to a %s is not listed at the end' % kn, det)
                    elif f['n'] != 'add_prop': R.undecided(fk, 'unknown mutator'); continue
                    for n in hit:
                        if n not in accs: R.undecided(fk, 'no accessor %s' % n); continue
                        reports('%s|%s' % (fk, n), o.st, n, after[n], handed(o.st, args[1], first(after[n])), '%s() is not what %s() reports' % (f['n'], n), det)
                    frame(fk, o.st, before, after, hit + may + (('props_iter',) if f['n'] == 'add_prop' else ()), '%s changes what %%s() returns' % short(f['p']), det)
                    if f['n'] == 'set_qos' and 'packet_identifier' in after:
                        x, y = before['packet_identifier'], after['packet_identifier']; q = qos_digit(P, first(after.get('qos')))
                        if q: frame(fk, o.st, {'packet_identifier': x}, {'packet_identifier': y}, (), 'set_qos changes what %s() returns', det)
            # -- build
            b = ms.get('build')
            if b is not None and P.tname(b['body']['locals'][0][0]) == PACKET:
                byref = P.tname(b['body']['locals'][1][0]).startswith('&'); st = st0.copy(); c = ('H', 'self'); st.mem[c] = a
                for o in A.I.run(b, [mk('ref', c, ()) if byref else a], st, 1, None):
                    if o.kind != 'ret': continue
                    fk = short(b['p']); R.paths += 1
                    if tainted(o.st): R.undecided(fk, 'unmodelled call'); continue
                    v = o.val
                    R.check(v.op == 'adt' and P.adts[PACKET]['v'][v.a[1]]['n'] == kn, fk + '|kind', 'build() of a %s makes another packet' % kn, [short(show(v))[:160]], '%s: build keeps the kind' % kn)
                    if v.op == 'adt' and P.adts[PACKET]['v'][v.a[1]]['n'] == kn:
                        frame(fk, o.st, before, view(v.a[2], o.st), (), 'build() of a ' + kn + ' changes what %s() returns', [])
    R.used(A.I); R.funcs |= A.RE.analysed
    props(R, P, A); R.used(A.I)
def props(R, P, A):
    """property tables: what was added is what get_prop and props_iter return"""
    T_ = PropTab(R, P); A.I = T_.I
    if None in (T_.fk, T_.fv, T_.fd): R.undecided('property', 'functions not found'); return
    for kn, f, v, F in T_.adders():
        fk = short(f['p']); path = PK + 'connect::Will' if kn == 'Will' else kind_path(P, kn)
        ms = A.methods(path); gp, pi = ms.get('get_prop'), ms.get('props_iter')
        if gp is None: R.undecided(fk, 'no get_prop')
        if gp is None: continue
        # any table at all: what is found under a key is returned as a whole
        tab = sym(None, 'leaf', 'anytable', PROPS); ATOM_TY.setdefault(tab, PROPS); ATOM_META.setdefault(tab, PROPS)
        w = put_table(v, tab)
        for i, name in (T_.keys if w is not None else ()):
            st = State(); st.facts = F.copy()
            for g, s in A.get(gp, w, st, [T_.key(i)]):
                if g is None or g.op != 'adt' or g.a[0] != OPT: R.undecided('%s|any' % fk, 'what get_prop returns was not recognised'); continue
                if g.a[1] == 0: continue
                x = g.a[2]; part = None
                if x.op in ('slice', 'sub', 'subslice', 'substr') or x.op == 'vec': part = True
                elif x.op in ('hmget', 'hmval', 'fld', 'elem') or x.op == 'sym': part = False
                if part is None: R.undecided('%s|any' % fk, 'what get_prop returns was not recognised: %s' % show(x)[:100]); continue
                R.check(not part, '%s|whole' % fk, 'get_prop of a %s returns only part of the values of a property' % kn, [short(show(x))[:200]], '%s: all values of a property are returned' % kn)
        n = 0
        for i, name in T_.keys:
            k = T_.key(i); other = T_.key(T_.keys[(i + 1) % len(T_.keys)][0])
            for (sh, vv), (x, xF) in T_.var1.items():
                s = State(); s.facts = F.copy()
                try: merge(s.facts, xF)
                except Infeasible: continue
                c = ('H', 'self'); s.mem[c] = v
                for o in T_.I.run(f, [mk('ref', c, ()), k, x], s, 1, None):
                    if o.kind != 'ret' or o.val.op != 'adt' or o.val.a[1] == 1: continue
                    if tainted(o.st): R.undecided(fk, 'unmodelled call'); continue
                    R.paths += 1; n += 1
                    check_prop(R, A, fk, kn, name, gp, pi, o.st.mem[c], o.st, k, other, ([x],))
                    y, yF = T_.rename(x, xF, '2'); s2 = o.st.copy()
                    try: merge(s2.facts, yF)
                    except Infeasible: continue
                    for q in T_.I.run(f, [mk('ref', c, ()), k, y], s2, 1, None):
                        if q.kind != 'ret' or q.val.op != 'adt' or tainted(q.st): continue
                        R.paths += 1
                        ok = q.val.a[1] == 0
                        check_prop(R, A, fk, kn, name, gp, pi, q.st.mem[c], q.st, k, other, ([x, y], [y])[:1 if nm(name) == 'userproperty' else 2] if ok else ([x],), ' last' if ok else ' before one that was refused')
                        # more of them, where they are all kept
                        if not ok or nm(name) != 'userproperty': continue
                        sts = [(q.st, [x, y])]
                        for j in range(3, 7):
                            nx = []
                            for s3, have in sts:
                                z, zF = T_.rename(x, xF, str(j)); s4 = s3.copy()
                                try: merge(s4.facts, zF)
                                except Infeasible: continue
                                for q2 in T_.I.run(f, [mk('ref', c, ()), k, z], s4, 1, None):
                                    if q2.kind != 'ret' or q2.val.op != 'adt' or tainted(q2.st): continue
                                    R.paths += 1; want = have + [z] if q2.val.a[1] == 0 else have
                                    check_prop(R, A, fk, kn, name, gp, pi, q2.st.mem[c], q2.st, k, other, (want,), ' after others')
                                    if q2.val.a[1] == 0: nx.append((q2.st, want))
                            sts = nx[:2]
        R.count('properties added', n)
def put_table(v, t):
    if v.op == 'adt':
        if v.a[0] == PROPS: return t
        a = [put_table(x, t) if isinstance(x, T) else None for x in v.a]
        if any(x is not None for x in a): return mk('adt', *[x if y is None else y for x, y in zip(v.a, a)])
    return None
def among(A, st, l, want):
    rs = []
    for w in want:
        if len(w) != len(l): rs.append(False); continue
        q = [A.same(st, x, y) for x, y in zip(l, w)]
        rs.append(False if False in q else None if None in q else True)
    return True if True in rs else None if None in rs else False
def check_prop(R, A, fk, kn, name, gp, pi, v, st, k, other, want, note=''):
    for g, s in A.get(gp, v, st, [k]):
        l = None
        if g is not None and g.op == 'adt' and g.a[0] == OPT: l = [] if g.a[1] == 0 else next(iter(A.items(g.a[2], s)))[0]
        if l is None: R.undecided('%s|%s' % (fk, name), 'what get_prop returns was not recognised'); continue
        r = among(A, s, l, [[A.plain(s, y) for y in w] for w in want])
        if r is None: R.undecided('%s|%s' % (fk, name), 'what get_prop returns was not recognised'); continue
        R.check(r, '%s|%s|get_prop' % (fk, name), 'get_prop does not return the %s added to a %s%s' % (name, kn, note), ['returned %s' % [short(show(x))[:100] for x in l]], '%s: %s is returned%s' % (kn, name, note))
    for g, s in A.get(gp, v, st, [other]):
        if g is None or g.op != 'adt': R.undecided('%s|%s' % (fk, name), 'what get_prop returns was not recognised'); continue
        R.check(g.a[1] == 0, '%s|%s|other' % (fk, name), 'adding %s to a %s makes get_prop return another property' % (name, kn), [], '%s: nothing else' % kn)
    if pi is None: return
    for l, s in A.listing(pi, v, st):
        if l is None: R.undecided('%s|%s|iter' % (fk, name), 'what props_iter yields was not recognised'); continue
        r = among(A, s, l, [[mk('tup', k, A.plain(s, y)) for y in w] for w in want])
        if r is None: R.undecided('%s|%s|iter' % (fk, name), 'what props_iter yields was not recognised'); continue
        R.check(r, '%s|%s|props_iter' % (fk, name), 'props_iter does not list the %s added to a %s%s' % (name, kn, note), ['listed %s' % [short(show(x))[:100] for x in l]], '%s: %s is listed' % (kn, name))
