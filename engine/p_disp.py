"""S04-S07 and N03: what the dispatcher does with each packet it takes from its queue."""
from p_server import *
from term import support

FORWARD = ('PayloadFormatIndicator', 'ResponseTopic', 'CorrelationData', 'UserProperty', 'ContentType')
REFUSE = ('MessageExpiryInterval', 'TopicAlias', 'SubscriptionIdentifier')
GRANT = {'GrantedQoS0': 'QoS0', 'GrantedQoS1': 'QoS1', 'GrantedQoS2': 'QoS2'}

def feasible(facts, assume):
    """can all the boolean terms be as assumed at the same time?"""
    s = facts.copy()
    try:
        for b, v in assume: s.assume(b, v)
        for b, v in list(s.bo.items()):
            sp = support(b)
            if 1 <= len(sp) <= 2:
                d = s._fin(b, sp)
                if d is not None and int(v) not in d: return False
    except Infeasible: return False
    return True
def peel(x):
    while isinstance(x, T) and (x.op in ('arc', 'arcin', 'deref', 'box') and isinstance(x.a[0], T) or x.op == 'adt' and len(x.a) == 3 and isinstance(x.a[2], T)): x = x.a[2] if x.op == 'adt' else x.a[0]
    return x
def from_field(v, base, i):
    """v is field i of base, possibly taken out of or put into wrappers with a single field"""
    x = peel(v)
    while x.op in ('fld', 'arc', 'arcin', 'deref', 'unbox') and isinstance(x.a[0], T):
        if x.op == 'fld' and x.a[0] is base: return x.a[2] == i
        x = x.a[0]
    return False
class Turn:
    """what is known on a path about the packet the dispatcher is busy with"""
    def __init__(s, M, p):
        s.M = M; s.p = p; s.rx = None; s.at = -1; P = M.P
        for i, e in enumerate(p.trace):
            if e[0] == 'recv' and orig(e[1]) in M.incoming: s.rx = e[2] if e[2] is not NONE else None; s.at = i
        s.sid = s.pk = s.enc = None
        if s.rx is not None and s.rx.op == 'adt' and s.rx.a[0] in P.adts:
            for f, x in zip(P.adts[s.rx.a[0]]['v'][s.rx.a[1]]['f'], s.rx.a[2:]):
                t = P.tname(f['ti'])
                if t == PACKET: s.pk = x
                elif t == 'bool': s.enc = x
                elif 'Arc<str' in t or x.op == 'arc': s.sid = bare(x)
        s.kinds = packet_kind(M, p, s.pk) if s.pk is not None else set()
        if s.pk is not None and s.pk.op == 'adt' and s.pk.a[0] == PACKET: s.kinds = {P.adts[PACKET]['v'][s.pk.a[1]]['n']}
    def inner(s, kind):
        """the packet inside, as a value of its own type"""
        P = s.M.P
        if s.pk.op == 'adt': return s.pk.a[2]
        for i, v in enumerate(P.adts[PACKET]['v']):
            if v['n'] == kind: return mk('fld', s.pk, i, 0)
    def suffix(s): return s.p.trace[max(s.p.pre if s.p.kind == 'iter' else 0, s.at):]
    def whole(s): return s.at >= (s.p.pre if s.p.kind == 'iter' else 0)
def turns(M):
    for k in sorted(M.tasks_of('dispatcher'), key=str):
        for p in M.of(k):
            t = Turn(M, p)
            if t.rx is not None and t.pk is not None and t.sid is not None: yield t
            elif t.rx is not None: M.R.undecided('rx', 'the value received by the dispatcher was not recognised')
def entry(ch):
    """(content of a table, key) of the entry a channel was found in"""
    for x in walk_terms(ch):
        if x.op == 'hmget': return x.a[0], bare(x.a[1])
    return None, None
def subject(k):
    """(result of a table look-up, position) a key was taken from"""
    if k is not None and k.op == 'hmkey' and k.a[0].op == 'sym' and k.a[0].a[0] == 'topics': return k.a[0], k.a[1]
def pkind(M, v):
    """kind of the packet sent to a client"""
    if v.op == 'adt' and v.a[0] == PACKET: return M.P.adts[PACKET]['v'][v.a[1]]['n']
    return None
def packet_sends(t, evs):
    """(event, kind, key, content) of packets sent to clients in the shared table"""
    for e in evs:
        if e[0] != 'send': continue
        c, k = entry(e[2])
        if c is None: continue
        kd = pkind(t.M, e[3])
        if kd is None and t.pk is not None and any(x is t.pk for x in walk_terms(e[3])) and len(t.kinds) == 1: kd = next(iter(t.kinds))
        if kd is not None: yield e, kd, k, c
def client_enc(M, content, k, ch):
    P = M.P; ci = 'apiformes_server_lib::clients::client::Client'
    i = field(P, ci, 'encrypted') if ci in P.adts else None
    if i is None: return None
    for x in walk_terms(ch):
        if x.op == 'hmget': return mk('fld', x, None, i)
def own_id(t, k, F):
    """the entry is the sender's own"""
    if k is t.sid: return True
    for x in all_atoms(t.p.st):
        if x.op == 'streq' and {bare(x.a[0]), bare(x.a[1])} == {k, t.sid}: return proved(F, x, True)
    return False
def no_local(t, r, pos, F):
    """the subscription asked for no own messages"""
    for x in fact_atoms(t.p.st):
        y = x
        while y.op == 'fld' and isinstance(y.a[0], T): y = y.a[0]
        if y.op == 'hmval' and y.a[0] is r and y.a[1] is pos and x.op == 'fld':
            d = F.values(x)
            if d is not None and all(v & 1 for v in d): return True
    return False
def all_atoms(st):
    """atoms the facts of a path speak of, inside boolean combinations too"""
    return {y for x in fact_atoms(st) for y in walk_terms(x)}
def strictness(M, t):
    """(terms for the permeability setting, value of the strict one)"""
    i = cfg_field(M, 'channel_permeability'); s = None
    for a in M.P.adts:
        if a.endswith('::Permeability'): s = variant(M.P, a, 'Strict')
    return [x for x in all_atoms(t.p.st) if x.op == 'disc' and is_cfg(x.a[0], i)], s
def proved(F, b, val): return not feasible(F, [(b, not val)])
def withheld(M, t, F, cenc):
    """the facts prove: strict setting, message from an encrypted connection, client not encrypted"""
    r, s = strictness(M, t)
    return (any(proved(F, mk('eq0', sub(x, I(s))), True) for x in r) and t.enc is not None
            and proved(F, mk('eq0', sub(t.enc, I(1))), True) and cenc is not None and proved(F, mk('eq0', cenc), True))
def sender_gone(t, evs):
    return any(e[0] == 'get' and bare(e[3]) is t.sid and e[4] is srv.FALSE for e in evs)
def told(t, evs):
    """reasons of the DISCONNECTs sent to the sender"""
    r = []
    for e, kd, k, c in packet_sends(t, evs):
        if kd == 'Disconnect' and k is t.sid:
            rs = [x for x in walk_terms(e[3]) if x.op == 'adt' and x.a[0].endswith('DisconnectReasonCode')]
            r.append(t.M.P.adts[rs[0].a[0]]['v'][rs[0].a[1]]['n'] if rs else '?')
    return r
def lookups(t, evs): return [e for e in evs if e[0] == 'topics' and e[1] == 'get_all_subscribed']
def subs(t, evs): return [e for e in evs if e[0] == 'topics' and e[1] == 'subscribe']

# ------------------------------------------------------------------ S04
def transport(M, k):
    """None, or whether the connection a task serves is encrypted"""
    enc = has_op(task_arg(M, k), 'framed') or any(e[0] in ('frame', 'noise') for p in M.of(k) for e, _, _ in events(p.trace))
    plain = any(e[0] == 'readbuf' for p in M.of(k) for e, _, _ in events(p.trace))
    return enc if enc != plain else None
def S04(R, P):
    R.rule(NOTE)
    R.rule('Rule: (a) on every path on which the dispatcher sends a PUBLISH to a client, the facts are incompatible with "strict permeability, message received over an encrypted connection, client not encrypted"; (b) a subscriber is skipped on account of encryption only if the facts prove all three; (c) every packet a connection passes to the dispatcher and every client record it hands over carry the encryption status of the transport that task reads and writes.')
    M = Model(R, P); n = m = 0
    i = cfg_field(M, 'channel_permeability')
    if i is None: R.undecided('cfg', 'no field channel_permeability'); return
    for t in turns(M):
        F = t.p.st.facts; evs = t.suffix()
        for e, kd, k, c in packet_sends(t, evs):
            if kd != 'Publish': continue
            n += 1; cenc = client_enc(M, c, k, e[2])
            if t.enc is None or cenc is None: R.undecided('enc', 'encryption status of message or client not recognised'); continue
            r, s = strictness(M, t)
            asm = [(mk('eq0', sub(x, I(s))), True) for x in r]
            if feasible(F, [(mk('eq0', sub(t.enc, I(1))), True), (mk('eq0', cenc), True)] + asm):
                M.bad(t.p, 'leak', 'the dispatcher can send a message from an encrypted connection to an unencrypted client although permeability is strict')
            else: R.ok('dispatcher: PUBLISH to a permitted client')
        for e in evs:
            if e[0] == 'item' and e[1].op == 'sym' and e[1].a[0] == 'topics' and t.p.kind == 'iter' and not t.whole():
                r, pos = e[1], e[2]
                gets = [g for g in evs if g[0] == 'get' and subject(bare(g[3])) == (r, pos)]
                if any(kd == 'Publish' and subject(k) == (r, pos) for _, kd, k, _ in packet_sends(t, evs)): continue
                if any(g[4] is srv.FALSE for g in gets): continue
                cenc = [mk('fld', mk('hmget', g[2], g[3]), None, field(P, 'apiformes_server_lib::clients::client::Client', 'encrypted')) for g in gets]
                cenc = [x for x in cenc if x in all_atoms(t.p.st)] + [x for x in all_atoms(t.p.st) if x.op == 'fld' and x.a[2] == field(P, 'apiformes_server_lib::clients::client::Client', 'encrypted') and x.a[0].op == 'hmget']
                if not cenc and not any(is_cfg(x.a[0], i) for x in all_atoms(t.p.st) if x.op == 'disc'): continue
                k = bare(gets[0][3]) if gets else None
                if k is not None and own_id(t, k, F) and no_local(t, r, pos, F): continue
                m += 1
                if cenc and any(withheld(M, t, F, x) for x in cenc): R.ok('dispatcher: withheld only under strict permeability')
                elif cenc and any(F.values(x) is not None and len(F.values(x)) == 1 for x in cenc): M.bad(t.p, 'withheld', 'the dispatcher withholds a message on account of encryption although strict permeability does not ask for it')
    nc = 0
    for k in sorted(set(M.tasks_of('connect')) | set(M.tasks_of('client')), key=str):
        tr = transport(M, k); lab = M.label(k); seen = set()
        if tr is None: R.undecided('transport|' + lab, 'transport not recognised'); continue
        for p in M.of(k):
            for e, _, _ in events(p.trace, expand=True):
                if e[0] != 'send': continue
                if orig(e[2]) in M.incoming:
                    v = e[3]; nc += 1
                    bs = [x for f, x in zip(P.adts[v.a[0]]['v'][v.a[1]]['f'], v.a[2:]) if P.tname(f['ti']) == 'bool'] if v.op == 'adt' and v.a[0] in P.adts else []
                    if len(bs) != 1: R.undecided('status|' + lab, 'encryption status of a packet passed on not recognised'); continue
                    d = p.st.facts.values(bs[0])
                    if d is None and bs[0].op != 'int': R.undecided('status|' + lab, 'encryption status of a packet passed on is not a constant'); continue
                    if d != {int(tr)}: M.bad(p, 'status|' + lab, '%s passes on packets of an %s connection as %s' % (lab, 'encrypted' if tr else 'unencrypted', 'unencrypted' if tr else 'encrypted'))
                    else: R.ok('%s: status of packets' % lab)
                elif orig(e[2]) in M.handover:
                    for x in fields_named(P, e[3], '::Client', 'encrypted'):
                        nc += 1; d = p.st.facts.values(x)
                        if d is None: R.undecided('client|' + lab, 'encryption status of a client is not a constant')
                        elif d != {int(tr)}: M.bad(p, 'client|' + lab, '%s registers a client of an %s connection as %s' % (lab, 'encrypted' if tr else 'unencrypted', 'unencrypted' if tr else 'encrypted'))
                        else: R.ok('%s: status of the client' % lab)
    R.count('publish_sends', n); R.count('withholdings', m); R.count('status_values', nc)
    if not n or not nc: R.undecided('sends', 'no PUBLISH sent by the dispatcher, or no status passed on, was found')

# ------------------------------------------------------------------ S05
def S05(R, P):
    R.rule(NOTE)
    R.rule('Rule: a PUBLISH that proves free of unsupported features is looked up in the subscription table by its own topic; the loop over the subscribers runs to its end; in each round exactly one PUBLISH is sent, to the channel of the client entered under that subscriber\'s identifier, unless the facts prove that the client is gone, that it is the publisher and asked not to receive its own messages, or that strict permeability withholds it. What is sent has the topic and the payload of the packet received, and for each property of the packet received that is not refused exactly that property is added. No PUBLISH is sent elsewhere.')
    M = Model(R, P); n = rounds = nprop = 0
    pt = next((P.tname(v['f'][0]['ti']) for v in P.adts[PACKET]['v'] if v['n'] == 'Publish'), None)
    ti, pi, ppi = (field(P, pt, x) for x in ('topic_name', 'payload', 'props'))
    if ti is None or pi is None: R.undecided('Publish', 'fields of Publish not recognised'); return
    for t in turns(M):
        F = t.p.st.facts; evs = t.suffix(); pub = t.inner('Publish')
        sends = [(e, k, c) for e, kd, k, c in packet_sends(t, evs) if kd == 'Publish']
        if 'Publish' not in t.kinds:
            for e, k, c in sends: M.bad(t.p, 'other', 'the dispatcher sends a PUBLISH while it handles another kind of packet')
            continue
        if len(t.kinds) > 1: continue
        # what is sent
        for e, k, c in sends:
            n += 1; v = e[3]
            if v.op == 'adt' and v.a[2].op == 'adt' and v.a[2].a[0] == pt:
                b = v.a[2].a[2:]
                for w, i in (('topic', ti), ('payload', pi)):
                    if from_field(b[i], pub, i): R.ok('dispatcher: %s unchanged' % w)
                    else: M.bad(t.p, 'content|' + w, 'the dispatcher forwards a message with another %s' % w, ['value: ' + show(b[i])[:160]])
            elif any(x is pub or x is t.pk for x in (v, v.a[2] if v.op == 'adt' and len(v.a) == 3 else v)): R.ok('dispatcher: packet forwarded as it is')
            else: R.undecided('content', 'the packet forwarded was not recognised')
            s = subject(k)
            if s is None:
                if k is t.sid: M.bad(t.p, 'target', 'the dispatcher sends a message to its own publisher whether it subscribed or not')
                else: R.undecided('target', 'the receiver of a message was not recognised')
            elif not any(x[0] == 'item' and (x[1], x[2]) == s for x in evs): M.bad(t.p, 'target', 'the dispatcher sends a message to a client other than the subscriber it is dealing with')
        # rounds over the subscribers
        for j, e in enumerate(evs):
            if e[0] != 'item' or not (e[1].op == 'sym' and e[1].a[0] == 'topics'): continue
            r, pos = e[1], e[2]; rounds += 1
            mine = [x for x in sends if subject(x[1]) == (r, pos)]
            gets = [g for g in evs if g[0] == 'get' and subject(bare(g[3])) == (r, pos)]
            key = mk('hmkey', r, pos)
            if t.p.kind != 'iter' or t.whole():
                if any(x[0] == 'noitem' and x[1] is r for x in evs[j:]): continue
                M.bad(t.p, 'stop', 'the dispatcher stops before every subscriber has been served'); continue
            if len(mine) > 1: M.bad(t.p, 'twice', 'the dispatcher sends a message twice to the same subscriber'); continue
            if len(mine) == 1: R.ok('dispatcher: one copy per subscriber'); continue
            if any(g[4] is srv.FALSE for g in gets): R.ok('dispatcher: subscriber gone'); continue
            if own_id(t, key, F) and no_local(t, r, pos, F): R.ok('dispatcher: own message not wanted'); continue
            ce = [x for x in all_atoms(t.p.st) if x.op == 'fld' and x.a[0].op == 'hmget' and subject(bare(x.a[0].a[1])) == (r, pos)]
            if any(withheld(M, t, F, x) for x in ce): R.ok('dispatcher: strict permeability'); continue
            if any(y[0] not in ('item', 'get') for y in evs): R.undecided('skip', 'a round over the subscribers does something that was not recognised'); continue
            if state_kept(t.p): R.undecided('skip', 'a round over the subscribers only prepares what happens later'); continue
            M.bad(t.p, 'skip', 'the dispatcher passes over a matching subscriber')
        # the loop over the properties, and look-ups one by one
        allp = all(e[3].op == 'adt' and e[3].a[2].op == 'adt' for e, _, _ in sends)
        names = {}
        for e in evs:
            if e[0] == 'prop' and e[1] is pub: names.setdefault(e[2], []).append(e[3])
        adds = [e for e in evs if e[0] == 'addprop' and e[1] == 'Publish']
        if t.p.kind == 'iter' and not t.whole() or lookups(t, evs):
            for nm, vs in names.items():
                nprop += 1
                if nm in REFUSE: continue
                a = [x for x in adds if x[2] == nm]
                if len(a) == 1 and same(a[0][3], vs[0]): R.ok('dispatcher: property %s forwarded' % nm)
                elif not a:
                    if state_kept(t.p): R.undecided('prop|' + nm, 'property %s may be forwarded later' % nm)
                    else: M.bad(t.p, 'prop|' + nm, 'the dispatcher drops the property %s from the messages it forwards' % nm)
                else: M.bad(t.p, 'prop|' + nm, 'the dispatcher changes or repeats the property %s' % nm, ['value: ' + show(a[0][3])[:160]])
            for a in adds:
                if a[2] not in names: M.bad(t.p, 'extra|' + str(a[2]), 'the dispatcher adds a property %s the message did not have' % a[2])
        # accepted at all
        if t.whole() and t.p.kind != 'panic':
            lk = lookups(t, evs)
            if lk:
                for e in lk:
                    if any(from_field(x, pub, ti) for x in e[2]): R.ok('dispatcher: look-up by the topic')
                    else: M.bad(t.p, 'lookup', 'the dispatcher looks subscribers up by something else than the topic of the message')
                if not any(x[0] in ('item', 'noitem') and x[1] is lk[0][3] for x in evs): R.undecided('loop', 'how the subscribers found are used was not recognised')
                if len(lk) > 1: R.undecided('lookup', 'several look-ups for one message')
                ns = {x[2] for x in evs if x[0] == 'noprop' and x[1] is pub}
                if '*' not in ns and allp:
                    for nm in FORWARD:
                        if nm not in ns and nm not in names: M.bad(t.p, 'prop|' + nm, 'the dispatcher does not forward the property %s' % nm)
            else:
                fl = pflags(P, pt, t, pub)
                bad = [nm for nm in names if nm in REFUSE]
                clean = fl is not None and all(not x & 15 for x in fl)
                if any(x[0] == 'prop' and x[1] is pub and x[2] in REFUSE and l for x, _, l in events(evs, expand=True)): R.ok(); continue       # found and remembered: S06
                looped = any(x[0] == 'loop' for x in evs)
                exited = [x for x in evs if x[0] == 'prop' and x[1] is pub]
                if clean and not bad and (exited or '*' in {x[2] for x in evs if x[0] == 'noprop' and x[1] is pub} or not looped):
                    M.bad(t.p, 'plain', 'the dispatcher does not forward a message that uses no unsupported feature')
                else: R.ok()
    R.count('publish_sends', n); R.count('subscriber_rounds', rounds); R.count('properties', nprop)
    if not n or not rounds: R.undecided('sends', 'no PUBLISH sent by the dispatcher was found')
def same(a, b):
    """a is b, possibly rebuilt field by field"""
    def eq(x, y, path=()):
        x = bare(x)
        if not path and x is bare(y): return True
        if x.op == 'adt':
            if y.op == 'adt' and not path: return x.a[:2] == y.a[:2] and len(x.a) == len(y.a) and all(eq(p, q) for p, q in zip(x.a[2:], y.a[2:]))
            return all(eq(p, y, path + (i,)) for i, p in enumerate(x.a[2:]))
        got = []
        while x.op in ('fld', 'arc', 'arcin', 'deref', 'unbox') and isinstance(x.a[0], T) and x is not y:
            if x.op == 'fld': got.append(x.a[2])
            x = bare(x.a[0])
        return x is y and (tuple(reversed(got)) == path or all(i == 0 for i in path + tuple(got)))
    return eq(a, b)
def pflags(P, pt, t, pub):
    fi = next((i for i, f in enumerate(P.adts[pt]['v'][0]['f']) if P.tname(f['ti']).endswith('PublishFlags')), None)
    return None if fi is None else flag_values(t.p.st, pub, fi)
def state_kept(p):
    """the iteration leaves something behind for the code after the loop: a constant in a variable that had none before it"""
    if p.H is None: return False
    for k, v in p.st.mem.items():
        o = p.H.mem.get(k)
        if o is None or o is v: continue
        if o.op in ('sym', 'join') and v.op in ('int', 'adt') and o in ATOM_TY: return True
        if v.op in ('vec', 'hmput', 'hmins') or o.op == 'vec': return True
    return False

# ------------------------------------------------------------------ S06
def S06(R, P):
    R.rule(NOTE)
    R.rule('Rule: wherever subscribers are looked up or a PUBLISH is sent, the facts prove QoS 0, DUP and RETAIN clear in the packet received, its properties have been examined for topic alias, subscription identifier and message expiry interval without finding one, and what is sent has none of these, no packet identifier and no flags. Every packet the dispatcher takes and neither forwards (PUBLISH) nor answers (SUBSCRIBE) is answered to its sender with a DISCONNECT, reason implementation specific error, unless the sender is found to be gone; a SUBSCRIBE with a subscription identifier enters nothing.')
    M = Model(R, P); n = ref = 0
    pt = next((P.tname(v['f'][0]['ti']) for v in P.adts[PACKET]['v'] if v['n'] == 'Publish'), None)
    ti = field(P, pt, 'topic_name')
    for t in turns(M):
        F = t.p.st.facts; evs = t.suffix(); tr = t.p.trace[t.at:]
        pub = t.inner('Publish'); sbx = t.inner('Subscribe')
        sends = [(e, k, c) for e, kd, k, c in packet_sends(t, evs) if kd == 'Publish']
        props = {e[2] for e in tr if e[0] == 'prop' and e[1] in (pub, sbx)}
        none = {e[2] for e in tr if e[0] == 'noprop' and e[1] in (pub, sbx)}
        if t.kinds == {'Publish'} and (sends or lookups(t, evs)):
            n += 1; fl = pflags(P, pt, t, pub); bad = []
            if fl is None or any(x & 0x6 for x in fl): bad.append('with QoS above 0')
            if fl is None or any(x & 0x8 for x in fl): bad.append('with DUP set')
            if fl is None or any(x & 0x1 for x in fl): bad.append('with RETAIN set')
            for nm in REFUSE:
                if nm in props: bad.append('with the property ' + nm)
                elif nm not in none and '*' not in none: bad.append('without having looked for the property ' + nm)
            for e, k, c in sends:
                v = e[3].a[2] if e[3].op == 'adt' else e[3]
                if v.op == 'adt' and v.a[0] == pt:
                    for f, x in zip(P.adts[pt]['v'][0]['f'], v.a[2:]):
                        nm = P.tname(f['ti'])
                        if nm.endswith('PublishFlags'):
                            y = peel(x); d = F.values(y) if y.op != 'int' else {y.a[0]}
                            if d is None or any(z & 15 for z in d): bad.append('and sends it with QoS above 0, DUP or RETAIN')
                        elif 'Option<' in nm and x is not NONE and not from_field(x, pub, 0): bad.append('and sends it with a packet identifier')
            for b in bad: M.bad(t.p, 'forward|' + b, 'the dispatcher forwards a message %s' % b)
            if not bad: R.ok('dispatcher: forwarded message uses only supported features')
        for e in evs:
            if e[0] == 'addprop' and e[1] == 'Publish' and e[2] in REFUSE: M.bad(t.p, 'adds|' + e[2], 'the dispatcher forwards the property ' + e[2])
        # a round of a loop over the properties that finds an unsupported one and goes on
        if t.p.kind == 'iter' and not t.whole():
            suf = t.p.trace[t.p.pre:]
            for e in suf:
                if e[0] == 'prop' and (e[1] is pub and 'Publish' in t.kinds and e[2] in REFUSE or e[1] is sbx and 'Subscribe' in t.kinds and e[2] == 'SubscriptionIdentifier'):
                    if state_kept(t.p): R.undecided('flagged|' + e[2], 'the property %s may be refused after the loop' % e[2])
                    else: M.bad(t.p, 'accepts|%s' % e[2], 'the dispatcher goes on with a %s that has the property %s' % ('PUBLISH' if e[1] is pub else 'SUBSCRIBE', e[2]))
        if subs(t, evs):
            n += 1
            if 'SubscriptionIdentifier' in props: M.bad(t.p, 'subid', 'the dispatcher enters a subscription although the SUBSCRIBE has a subscription identifier')
            elif 'SubscriptionIdentifier' not in none and '*' not in none: M.bad(t.p, 'subid', 'the dispatcher enters a subscription without having looked for a subscription identifier')
            else: R.ok('dispatcher: subscription without identifier')
        if t.whole() and t.p.kind != 'panic':
            te = told(t, evs); answered = any(kd == 'SubAck' and k is t.sid for _, kd, k, _ in packet_sends(t, evs))
            fwd = bool(lookups(t, evs)) or bool(sends)
            if te:
                ref += 1
                if fwd: M.bad(t.p, 'both', 'the dispatcher refuses a message it has forwarded')
                elif set(te) != {'ImplementationSpecificError'}: M.bad(t.p, 'reason', 'the dispatcher refuses with another reason than implementation specific error', [str(te)])
                else: R.ok('dispatcher: refusal told to the sender')
            elif fwd or answered: R.ok()
            elif sender_gone(t, evs): R.ok('dispatcher: sender gone')
            elif any(kd == 'Disconnect' for _, kd, _, _ in packet_sends(t, evs)): M.bad(t.p, 'whom', 'the dispatcher tells somebody else than the sender that a packet is refused')
            else: M.bad(t.p, 'silent|' + '/'.join(sorted(t.kinds)) if len(t.kinds) < 3 else 'silent', 'the dispatcher neither handles nor refuses a packet')
    R.count('accepted', n); R.count('refused', ref)
    if not n or not ref: R.undecided('paths', 'no accepted or no refused packet found')

# ------------------------------------------------------------------ S07
def S07(R, P):
    R.rule(NOTE)
    R.rule('Rule: each round of the loop over the filters of a SUBSCRIBE adds exactly one reason code to the answer; it enters a subscription exactly if that code is a granted one, under the identifier of the sender, with the filter of this round, with the QoS that was asked for and granted, and with the flags no-local and retain-as-published exactly as asked for; where it is granted the facts prove QoS 0 and retain handling 2 asked for. The loop runs to its end, and one SUBACK with the packet identifier of the SUBSCRIBE and one reason code per round is sent to the sender, unless it is gone.')
    M = Model(R, P); n = acks = 0
    st = next((P.tname(v['f'][0]['ti']) for v in P.adts[PACKET]['v'] if v['n'] == 'Subscribe'), None)
    at = next((P.tname(v['f'][0]['ti']) for v in P.adts[PACKET]['v'] if v['n'] == 'SubAck'), None)
    ii, ai = field(P, st, 'packet_identifier'), field(P, at, 'packet_identifier')
    li = next((i for i, f in enumerate(P.adts[st]['v'][0]['f']) if 'Vec<' in P.tname(f['ti'])), None)
    if None in (ii, ai, li): R.undecided('Subscribe', 'fields of Subscribe or SubAck not recognised'); return
    def code(e):
        v = e[1]
        return P.adts[v.a[0]]['v'][v.a[1]]['n'] if v.op == 'adt' and v.a[0] in P.adts else None
    for t in turns(M):
        F = t.p.st.facts; evs = t.suffix(); sb = t.inner('Subscribe')
        if t.kinds != {'Subscribe'}:
            if subs(t, evs) and len(t.kinds) == 1: M.bad(t.p, 'other', 'the dispatcher enters a subscription for a packet that is no SUBSCRIBE')
            continue
        filters = mk('fld', sb, None, li)
        items = [e for e in evs if e[0] == 'item' and e[1] is filters]
        if not t.whole() and items:
            n += 1; pos = items[-1][2]; codes = [code(e) for e in evs if e[0] == 'reason']; ent = subs(t, evs)
            if None in codes: R.undecided('code', 'reason code unknown'); continue
            if len(codes) != 1:
                if state_kept(t.p) and not codes: R.undecided('codes', 'reason codes may be added later')
                else: M.bad(t.p, 'codes|%d' % len(codes), 'the dispatcher answers one filter with %d reason codes' % len(codes))
                continue
            g = codes[0] in GRANT
            if g != (len(ent) == 1):
                if len(ent) > 1: M.bad(t.p, 'twice', 'the dispatcher enters one filter several times')
                elif g: M.bad(t.p, 'granted', 'the dispatcher grants a subscription it does not enter')
                else: M.bad(t.p, 'refused', 'the dispatcher enters a subscription it refuses', [codes[0]])
                continue
            opt = None
            for x, d in F.dom.items():
                y = x
                while y.op == 'fld' and isinstance(y.a[0], T): y = y.a[0]
                if x.op == 'fld' and y.op == 'elem' and y.a[0] is filters and y.a[1] is pos: opt = set(d)
            if g:
                e = ent[0]; args = e[2]; bad = []
                el = mk('elem', filters, pos)
                if not any(bare(a) is t.sid for a in args): bad.append('for another client than the sender')
                if not any(x is el for a in args for x in walk_terms(a) if not has_bits(a)): bad.append('for another filter than the one answered')
                qs = [P.adts[a.a[0]]['v'][a.a[1]]['n'] if a.op == 'adt' else '?' for a in args if a.op == 'adt' and a.a[0].endswith('::QoS')]
                if not qs: R.undecided('qos', 'QoS of a subscription unknown')
                elif qs[0] != GRANT[codes[0]]: bad.append('with another QoS (%s) than granted (%s)' % (qs[0], codes[0]))
                if opt is None or any(x & 3 for x in opt): bad.append('that asks for QoS above 0')
                if opt is None or any((x >> 4) & 3 != 2 for x in opt): bad.append('that asks for retained messages')
                fl = [a for a in args if a.op == 'adt' and a.a[0].endswith('::SubscriptionFlags')]
                v = peel(fl[0]) if fl else None
                if v is None: R.undecided('flags', 'flags of a subscription unknown')
                elif opt is not None:
                    for b, ob, what in ((1, 4, 'no-local'), (2, 8, 'retain-as-published')):
                        if v.op == 'int':
                            if any(bool(v.a[0] & b) != bool(x & ob) for x in opt): bad.append('with a %s flag that differs from what was asked for' % what)
                        else: R.undecided('flags', 'flags of a subscription not a constant on the path')
                for b in bad: M.bad(t.p, 'enter|' + b, 'the dispatcher enters a subscription %s' % b)
                if not bad: R.ok('dispatcher: granted as asked for')
            else: R.ok('dispatcher: refused filter not entered')
        elif t.whole() and t.p.kind != 'panic':
            sn = [(e, k) for e, kd, k, _ in packet_sends(t, evs) if kd == 'SubAck']
            if items and not any(x[0] == 'noitem' and x[1] is filters for x in evs):
                if t.p.kind == 'ret': R.ok(); continue
                M.bad(t.p, 'stop', 'the dispatcher stops before every filter has been answered'); continue
            if any(e[0] == 'reason' and code(e) is not None for e in evs): M.bad(t.p, 'surplus', 'the dispatcher adds a reason code that belongs to no filter'); continue
            done = any(x[0] == 'noitem' and x[1] is filters for x in evs)
            if not sn:
                if not done: R.ok(); continue                          # refused as a whole: S06
                if sender_gone(t, evs): R.ok('dispatcher: subscriber gone')
                else: M.bad(t.p, 'unanswered', 'the dispatcher does not answer a SUBSCRIBE')
                continue
            acks += 1
            if len(sn) > 1: M.bad(t.p, 'acks', 'the dispatcher answers one SUBSCRIBE several times'); continue
            e, k = sn[0]; v = e[3].a[2]
            if k is not t.sid: M.bad(t.p, 'whom', 'the dispatcher sends a SUBACK to another client than the one that subscribed'); continue
            if v.op != 'adt' or v.a[0] != at: R.undecided('suback', 'SUBACK not recognised'); continue
            if not from_field(v.a[2 + ai], sb, ii): M.bad(t.p, 'ident', 'the SUBACK has another packet identifier than the SUBSCRIBE', [show(v.a[2 + ai])[:160]]); continue
            vs = [x for x in v.a[2:] if x.op == 'vec']
            ln = mk('len', filters)
            if not done: M.bad(t.p, 'early', 'the dispatcher answers a SUBSCRIBE before its filters have been dealt with')
            elif not vs: R.undecided('reasons', 'reason codes of the SUBACK not recognised')
            elif F.prove_ge0(sub(vs[0].a[0], ln)) and F.prove_ge0(sub(ln, vs[0].a[0])): R.ok('dispatcher: one reason code per filter')
            else: R.undecided('number', 'number of reason codes unknown')
    R.count('filter_rounds', n); R.count('subacks', acks)
    if not n or not acks: R.undecided('paths', 'no filter round or SUBACK found')
def has_bits(a): return a.op == 'adt' and a.a[0].endswith(('::SubscriptionFlags', '::QoS'))

# ------------------------------------------------------------------ N03
def N03(R, P):
    R.rule(NOTE)
    R.rule('Rule: every step between receiving a PUBLISH and writing it to a subscriber keeps order: the task that decodes a packet passes it on itself, in the round in which it decoded it, waiting for a place in the queue; one task, started once, takes packets from that queue; it sends what it forwards itself, in the round in which it took the packet, starts no task and keeps no packet for a later round; the channel to a subscriber is read only by the task of that connection, which writes in each round exactly the packet it took. Trusts that tokio\'s mpsc channels and the transport are first in, first out.')
    M = Model(R, P); W = M.W; n = 0
    disp = M.tasks_of('dispatcher'); insts = {k[0] for k in disp if k != 'main'}
    # one dispatcher
    most = 0
    for k in M.tasks:
        for p in M.of(k):
            c = 0
            for e, _, lp in events(p.trace, expand=True):
                if e[0] == 'spawn' and e[1].op == 'clo' and e[1].a[0] in insts:
                    c += 2 if lp or k != 'main' else 1
            most = max(most, c)
    if most > 1: M.bad(None, 'dispatchers', 'several dispatcher tasks take packets from the same queue')
    elif most == 1: R.ok('MqttServer::new: one dispatcher')
    else: R.undecided('dispatchers', 'start of the dispatcher not found')
    if len(insts) > 1: M.bad(None, 'receivers', 'tasks of different kinds take packets from the same queue', sorted({M.label(k) for k in disp}))
    # into the queue
    for k in M.tasks:
        lab = M.label(k)
        for p in M.of(k):
            dec = None
            for e, _, lp in events(p.trace):
                if e[0] == 'decode' and e[2] is not NONE: dec = e[2]
                if e[0] != 'send' or orig(e[2]) not in M.incoming: continue
                n += 1
                pks = [x for x in walk_terms(e[3]) if x.op == 'sym' and x.a and x.a[0] == 'packet']
                if dec is None or not pks or dec not in pks and not any(y in pks for y in walk_terms(dec)): M.bad(p, 'pass|' + lab, '%s passes a packet on that it did not decode in the same round' % lab)
                elif e[1] == 'u': R.ok()
                elif e[1] == 'try': R.ok()
                else: R.ok('%s: packet passed on in the round in which it was decoded' % lab)
    # through the dispatcher
    for t in turns(M):
        evs = t.suffix(); lab = M.label(t.p.task)
        for e in evs:
            if e[0] == 'spawn': M.bad(t.p, 'spawn', 'the dispatcher leaves a packet to another task')
        for e, kd, k, c in packet_sends(t, evs):
            if kd != 'Publish': continue
            n += 1; src = {x for x in walk_terms(e[3]) if x.op in ('sym',) and x.a[0] == 'inst' and orig(x) is not x}
            if t.pk is not None and t.pk.op != 'adt' and not any(x is t.pk for x in walk_terms(e[3])): M.bad(t.p, 'kept', 'the dispatcher sends a message of an earlier round')
            else: R.ok('dispatcher: message sent in the round in which it was taken')
    # PUBLISHes come from the dispatcher only, and each queue has one reader
    outq = {}
    for k in M.tasks:
        for p in M.of(k):
            for e, _, _ in events(p.trace):
                if e[0] == 'recv' and orig(e[1]) not in M.incoming and orig(e[1]) not in M.handover:
                    for q in members(e[1]): outq.setdefault(q, set()).add(k[0] if k != 'main' else k)
    for k in M.tasks:
        if k in disp: continue
        for p in M.of(k):
            for e, _, _ in events(p.trace):
                if e[0] == 'send' and pkind(M, e[3]) == 'Publish': M.bad(p, 'other|' + M.label(k), '%s sends a PUBLISH to a client besides the dispatcher' % M.label(k))
    for k in M.tasks_of('client'):
        lab = M.label(k)
        for p in M.of(k):
            last = None
            for e in p.trace[p.pre:] if p.kind == 'iter' else p.trace:
                if e[0] == 'recv' and orig(e[1]) not in M.incoming and orig(e[1]) not in M.handover and e[2] is not NONE:
                    if last is not None: M.bad(p, 'take|' + lab, '%s takes a packet from its queue before it has written the one before' % lab)
                    last = e[2]
                elif e[0] == 'write' and last is not None:
                    ps = carried(M, e[2])
                    if ps and any(x is last for x in ps): n += 1; R.ok('%s: packets written in the order of the queue' % lab); last = None
                    elif ps and p.kind == 'iter': M.bad(p, 'write|' + lab, '%s writes another packet than the one it took from its queue' % lab)
                elif e[0] == 'spawn': M.bad(p, 'spawn|' + lab, '%s leaves packets to another task' % lab)
    R.count('order_steps', n)
    if n < 3: R.undecided('steps', 'the steps between receiving and writing a message were not recognised')
