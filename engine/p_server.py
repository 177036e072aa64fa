"""S01-S19: the server. All rules read the abstract executions of every task of the server (srv.World): for every task the events on
every path to its end and on every path around each of its loops, with the facts that hold on the path."""
from reach import *
import srv
from srv import SRV, PACKET, origin, NONE, syms_of

NOTE = ('Every task of the server (listeners, connection set-up, client tasks, client manager, dispatcher) is analysed as a whole: '
        'tasks are found through spawn, channel contents and shared tables by a fixpoint over what is sent and inserted; loops are closed by summarising one iteration.')

# ------------------------------------------------------------------ terms
def walk_terms(v, seen=None):
    if seen is None: seen = set()
    if not isinstance(v, T):
        if isinstance(v, tuple):
            for x in v: yield from walk_terms(x, seen)
        return
    if v in seen: return
    seen.add(v); yield v
    for x in v.a: yield from walk_terms(x, seen)
def has_op(v, *ops): return any(x.op in ops for x in walk_terms(v))
def has_sock(v): return any(x.op in ('framed', 'rtake', 'sockr', 'sockw') or x.op == 'sym' and x.a and x.a[0] == 'sock' for x in walk_terms(v))
def bare(t):
    while t.op in ('arc', 'arcin', 'deref') and isinstance(t.a[0], T): t = t.a[0]
    return t
def orig(t):
    n = 0; t = bare(t)
    while t in srv.ORIGIN and n < 60: t = srv.ORIGIN[t]; n += 1
    return t
def members(t, seen=None):
    """values a joined symbol stands for"""
    seen = set() if seen is None else seen
    t = orig(t)
    if t in seen: return set()
    seen.add(t)
    if t in srv.JOINED:
        r = set()
        for x in srv.JOINED[t]: r |= members(x, seen)
        return r
    return {t}
def variant(P, path, name):
    for i, v in enumerate(P.adts[path]['v']):
        if v['n'] == name: return i
def field(P, path, name, vi=0):
    for i, f in enumerate(P.adts[path]['v'][vi]['f']):
        if f['n'] == name: return i
def fields_named(P, v, adt_suffix, name):
    """values of the named field in every struct of that name inside v"""
    r = []
    for x in walk_terms(v):
        if x.op == 'adt' and x.a[0].endswith(adt_suffix):
            i = field(P, x.a[0], name, x.a[1])
            if i is not None: r.append(x.a[2 + i])
    return r

# ------------------------------------------------------------------ executions
class Path:
    """events of a task up to its end (kind ret / panic) or once around a loop (kind iter; pre = events before the iteration)"""
    def __init__(s, W, task, kind, trace, st, pre=0, loop=None, val=None, info=None, H=None):
        s.W = W; s.task = task; s.kind = kind; s.trace = trace; s.st = st; s.pre = pre; s.loop = loop; s.val = val; s.info = info; s.H = H
        s.tainted = bool(st.ctr.get(('tainted',)))
    def where(s): return s.W.label(s.task) + ((', around the loop of %s' % s.loop[0]) if s.loop else '')
class Model:
    """the explored server with its paths and the roles of its tasks"""
    def __init__(self, R, P, tracing=False):
        self.R = R; self.P = P
        W = self.W = srv.World(P, tracing)
        W.label = self.label
        W.explore(rounds=8)
        R.funcs |= W.fns
        self.paths = []
        for k, outs in W.results.items():
            for o in outs: self.paths.append(Path(W, k, 'ret' if o.kind == 'ret' else o.kind, o.st.trace, o.st, val=o.val, info=o.info))
        for (k, f, h, stk, _), its in W.iters.items():
            for H, b, suf in its: self.paths.append(Path(W, k, 'iter', H.trace + suf, b, len(H.trace), (f, h), H=H))
        R.paths += len(self.paths)
        R.count('tasks', len(W.results))
        for k, n in W.unmodelled.items(): R.unmodelled[k] = n
        self.sound = not W.dirty
        if W.dirty: R.undecided('fixpoint', 'the exploration of the tasks did not converge')
        if W.unmodelled: R.undecided('unmodelled', '; '.join(list(W.unmodelled)[:4]))
        self.tasks = list(W.results)
        self.roles()
    def label(self, k): return 'MqttServer::new' if k == 'main' else self.P.insts[k[0]]['p'].replace('apiformes_server_lib::', '')
    def of(self, *tasks): return [p for p in self.paths if p.task in tasks]
    def roles(self):
        W = self.W; r = {k: set() for k in self.tasks}
        self.handover = set(); self.incoming = set()
        for k in self.tasks:
            for p in self.of(k):
                for e, _, _ in events(p.trace):
                    if e[0] == 'send' and has_sock(e[3]): self.handover.add(orig(e[2]))
        for k in self.tasks:
            for p in self.of(k):
                for e, _, _ in events(p.trace):
                    if e[0] == 'send' and not has_sock(e[3]) and any(x.op == 'sym' and x.a and x.a[0] == 'packet' for x in walk_terms(e[3])) and any(g[0] == 'decode' for g, _, _ in events(p.trace)): self.incoming.add(orig(e[2]))
        for k in self.tasks:
            for p in self.of(k):
                for e, _, _ in events(p.trace):
                    if e[0] == 'accepted': r[k].add('listener')
                    if e[0] == 'send' and orig(e[2]) in self.handover: r[k].add('connect')
                    if e[0] == 'recv' and orig(e[1]) in self.handover: r[k].add('manager')
                    if e[0] == 'send' and orig(e[2]) in self.incoming: r[k].add('client')
                    if e[0] == 'recv' and orig(e[1]) in self.incoming: r[k].add('dispatcher')
        self.role = r
    def tasks_of(self, role):
        ts = [k for k in self.tasks if role in self.role[k]]
        if not ts: self.R.undecided('role|' + role, 'no task with the role %s was found' % role)
        return ts
    def bad(self, p, key, text, details=()):
        """a violation found on path p, unless what leads to it is not fully understood"""
        if p is not None and p.tainted or self.W.dirty: self.R.undecided(key, 'the path goes through a step that is not modelled')
        else: self.R.viol(key, text, list(details) + ([] if p is None else ['task: ' + p.where(), 'events: ' + brief(p.trace)]))

class Frame:
    __slots__ = ('clo', 'depth')
    def __init__(s, clo, depth): s.clo = clo; s.depth = depth
def events(trace, frames=(), inloop=False, expand=False):
    """(event, enclosing selects, inside the summary of a loop) in order; with expand, each iteration in the summary of a loop is listed once
    (without, the events of iterations are those of the paths of kind iter)"""
    fr = list(frames)
    for e in trace:
        k = e[0]
        if k == 'loop':
            if expand:
                for suf in sorted(e[2], key=lambda s: (len(s), [x[0] for x in s])): yield from events(suf, tuple(fr), True, True)
            continue
        if k == 'select': fr.append(Frame(e[1], e[2].a[0] if isinstance(e[2], T) else e[2]))
        yield e, tuple(fr), inloop
        if k == 'done':
            while fr and fr[-1].clo != e[1]: fr.pop()
            if fr: fr.pop()
def brief(trace, n=14):
    out = []
    for e in trace:
        k = e[0]
        if k == 'wait': out.append('wait for %s in %s' % (e[1], e[4].replace('apiformes_server_lib::', '').replace('::{closure#0}', '')))
        elif k in ('readbuf', 'frame', 'decode'): out.append(k if e[-1] is not NONE else k + ' (none)')
        elif k in ('select', 'won', 'pend', 'done', 'loop', 'channel', 'get', 'item', 'noitem', 'noprop', 'addprop'): continue
        elif k == 'send': out.append('send on ' + show(e[2])[:60])
        elif k == 'prop': out.append('property ' + e[2])
        else: out.append(k)
    return ' > '.join(out[-n:])
def short(f): return f.replace('apiformes_server_lib::', '').replace('::{closure#0}', '')

def arms(M, want, paths=None):
    """selects with an arm in which `want` accepts a completed wait"""
    r = set()
    for p in M.paths if paths is None else paths:
        for e, fr, _ in events(p.trace):
            if e[0] == 'wait' and fr and want(e): r.add(fr[-1].clo)
    return {c for c in r if always(M, c, want)}
def always(M, clo, want):
    """whether the select waits for the wanted thing whenever it waits at all, and not only under a condition"""
    ws = [any(v.op == 'fut' and want(('wait',) + v.a + ((), '')) for v in w) for w in M.W.waits.get(clo, ())]
    return all(ws) or not any(ws)
def shutdown_syms(M):
    """the notification MqttServer::shutdown raises: (symbols, kinds, joins?)"""
    P = M.P; W = M.W
    f = find_fn(P, SRV + 'MqttServer::shutdown')
    if f is None: M.R.undecided('shutdown', 'MqttServer::shutdown not found'); return set(), []
    ns = set(); evs = []
    for o in W.results['main']:
        if o.kind != 'ret' or o.val.op != 'adt' or o.val.a[1] != 0: continue
        srvv = o.val.a[2]
        I_ = W.interp()
        try:
            for c in I_.run(f, [srvv], State(), 1, None):
                if c.kind != 'ret' or c.val.op != 'clo': continue
                g = P.insts[c.val.a[0]]
                for x in I_.run(g, [c.val, UNIT], c.st, 1, None):
                    evs.append(x)
                    for e, _, _ in events(x.st.trace):
                        if e[0] == 'notify': ns |= members(e[1])
        except Unsupported as e: M.R.undecided('shutdown', 'MqttServer::shutdown: %s' % e)
        M.R.funcs |= I_.analysed
        if len(evs) > 40: break
    return ns, evs
def is_n(N, t): return bool(members(t) & N)

# ------------------------------------------------------------------ S01
def S01(R, P):
    R.rule(NOTE)
    R.rule('Rule: no path of any task ends in a panic (unwrap or expect on an absent value, failed assertion, overflow, index out of range, unimplemented!, explicit panic), whatever is received; where the operations of the subscription table call themselves once per level (cycle in the call graph), the facts bound the number of levels of every filter entered.')
    M = Model(R, P, tracing=True)
    for p in M.paths:
        if p.kind != 'panic': R.ok(); continue
        ch = [str(c) for c in p.info.chain()]
        if any('apiformes_packet::' in c for c in ch[-1:]) and 'bytes::' in p.info.text(): R.ok(); continue
        M.bad(p, 'panic|' + p.info.key(), '%s can panic: %s' % (M.label(p.task), p.info.text()), ['call chain: ' + ' > '.join(ch[-6:])])
    depth(R, M)
    R.ok('%d tasks, %d paths' % (len(M.tasks), len(M.paths)))

def mentions(P, p):
    """local functions the body of p calls, or closures and coroutines it makes"""
    r = set()
    def go(x):
        if isinstance(x, str):
            if x.startswith(SRV) and x in P.by_path: r.add(x)
        elif isinstance(x, dict):
            for v in x.values(): go(v)
        elif isinstance(x, list):
            for v in x: go(v)
    for f in P.by_path.get(p, []):
        if f.get('body'): go(f['body'].get('blocks'))
    return r
def recursive(P, p):
    """functions on a cycle of the call graph reachable from p"""
    out = {}; todo = [p]
    while todo:
        x = todo.pop()
        if x in out: continue
        out[x] = mentions(P, x); todo += out[x]
    def reach(a):
        seen = set(); todo = list(out[a])
        while todo:
            x = todo.pop()
            if x not in seen: seen.add(x); todo += out[x]
        return seen
    return {x for x in out if x in reach(x)}
LEVELS = 4096
def depth(R, M):
    """recursion over the levels of a filter is bounded by a constant"""
    from p_disp import feasible
    P = M.P
    rec = recursive(P, SRV + 'topics::TopicsTable::subscribe')
    if not rec: R.ok('the subscription table is not recursive'); return
    counted = any(P.types[t].get('k') in ('uint', 'int') for x in rec for f in P.by_path.get(x, []) if f.get('body') for t, n in f['body']['locals'][1:f['body'].get('args', 0) + 1])
    for p in M.paths:
        if p.kind != 'iter': continue
        for e, fr, lp in events(p.trace[p.pre:]):
            if e[0] != 'topics' or e[1] != 'subscribe' or len(e[2]) < 3: continue
            text = bare(e[2][2]); known = {x for x in walk_terms(text)}
            at = fact_atoms(p.st); mine = [a for a in at if any(bare(x) is text for x in walk_terms(a))]
            ok = any(a.op == 'len' and not feasible(p.st.facts, [(ge0(sub(a, I(LEVELS))), True)]) for a in mine)
            if ok: R.ok(); continue
            other = mine or [a for a in at if a.op == 'sym' and a not in known and not any(isinstance(x, T) and x is a for x in walk_terms(text))]
            if counted or other: R.undecided('levels', 'whether the recursion over the levels of a filter is bounded was not recognised'); continue
            M.bad(p, 'recursion|levels', '%s enters filters with any number of levels in the subscription table, whose operations call themselves once per level (%s): a filter of 65535 levels overflows the stack' % (M.label(p.task), ', '.join(sorted(x.replace(SRV, '').replace('::{closure#0}', '') for x in rec))), [])

# ------------------------------------------------------------------ S02
def packet_kind(M, p, k):
    d = p.st.facts.values(mk('disc', k))
    ks = [v['n'] for v in M.P.adts[PACKET]['v']]
    return {ks[i] for i in d if i < len(ks)} if d is not None else set(ks)
def connack(M, v):
    """(reason variant names or None if unknown) of a packet term that is a CONNACK"""
    P = M.P
    if v.op != 'adt' or v.a[0] != PACKET: return None
    vv = P.adts[PACKET]['v'][v.a[1]]
    if vv['n'] != 'ConnAck' or len(v.a) < 3 or v.a[2].op != 'adt': return None
    c = v.a[2]
    for x in c.a[2:]:
        if isinstance(x, T) and x.op == 'adt' and x.a[0].endswith('ConnAckReasonCode'): return P.adts[x.a[0]]['v'][x.a[1]]['n']
    return '?'
def carried(M, v):
    """packets a written value carries, innermost first"""
    return [x.a[1] for x in walk_terms(v) if x.op == 'enc']
def S02(R, P):
    R.rule(NOTE)
    R.rule('Rule: wherever a value holding a socket is sent to the client manager, the path before it has, in this order, (encrypted transport: all messages of the handshake), a first successfully decoded packet that is a CONNECT, and a successfully written CONNACK with reason Success; no time-out or shutdown notification has fired on the path. A client entry is made only from what arrives on that channel.')
    M = Model(R, P); N, _ = shutdown_syms(M)
    n = 0
    for k in M.tasks_of('connect'):
        for p in M.of(k):
            tr = list(events(p.trace, expand=True))
            for i, (e, fr, lp) in enumerate(tr):
                if e[0] != 'send' or orig(e[2]) not in M.handover: continue
                n += 1
                where = '%s' % M.label(k); bad = []
                pre = [x for x in tr[:i]]
                dec = [(j, x, l) for j, (x, _, l) in enumerate(pre) if x[0] == 'decode' and x[2] is not NONE]
                if not dec: bad.append('no packet has been received')
                else:
                    if dec[0][2]: bad.append('packets received before the CONNECT may have been skipped')
                    if packet_kind(M, p, dec[0][1][2]) != {'Connect'}: bad.append('the first packet received need not be a CONNECT')
                    ok = [j for j, (x, _, l) in enumerate(pre) if x[0] == 'write' and x[3] is srv.TRUE and any(connack(M, q) == 'Success' for q in carried(M, x[2]))]
                    if not ok: bad.append('no successful CONNACK has been sent')
                    elif ok[0] < dec[0][0]: bad.append('the CONNACK is sent before the CONNECT arrives')
                    if any(connack(M, q) not in (None, 'Success') for x, _, _ in pre if x[0] in ('write',) for q in carried(M, x[2])): bad.append('the CONNECT has been refused')
                for x, _, _ in pre:
                    if x[0] == 'wait' and x[1] == 'sleep': bad.append('the time-out has fired')
                    if x[0] == 'wait' and x[1] == 'notified' and is_n(N, x[2]): bad.append('shutdown has been requested')
                    if x[0] in ('readerr', 'noiseerr') or x[0] == 'write' and x[3] is srv.FALSE or x[0] == 'decode' and x[2] is NONE and not lp and not any(y[0] == 'decode' and y[2] is not NONE for y, _, _ in pre): 
                        if x[0] != 'decode': bad.append('an error occurred during set-up (%s)' % x[0])
                if has_op(e[3], 'framed'):
                    if not any(x[0] == 'noise' and x[2] == 'tr' and x[1] == 'read' for x, _, _ in pre): bad.append('the CONNECT has not been decrypted')
                    if not has_op(e[3], 'tr'): bad.append('the encryption handshake is not complete')
                    if has_op(e[3], 'hs'): bad.append('the encryption handshake is not complete')
                for b in dict.fromkeys(bad): M.bad(p, 'handover|%s|%s' % (where, b), '%s hands a connection over as a client although %s' % (where, b))
                if not bad: R.ok('%s: handover after CONNECT, CONNACK' % where)
    for k in M.tasks:
        for p in M.of(k):
            for e, fr, lp in events(p.trace):
                if e[0] == 'ins' and any(x.op == 'adt' and x.a[0].endswith('::Client') for x in walk_terms(e[4])):
                    if 'manager' in M.role[k]: R.ok()
                    else: M.bad(p, 'register|' + M.label(k), '%s registers a client without going through the client manager' % M.label(k))
    R.count('handovers', n)
    if not n: R.undecided('handover', 'no handover of a connection found')

# ------------------------------------------------------------------ S08
BOUNDED = ('lock', 'topics', 'join', 'nextjoin', 'bind')
def S08(R, P):
    R.rule(NOTE)
    R.rule('Rule: N is the notification MqttServer::shutdown raises. Every wait of a task for a peer, a queue, a timer or a notification happens inside a select that also waits for N; once N has been received the task passes it on (notify_one on N, so that it also reaches tasks not waiting yet) before it ends, waits for nothing but its own finished tasks, and does not go around a loop again.')
    M = Model(R, P); N, ends = shutdown_syms(M)
    if not N: R.undecided('shutdown', 'no notification found in MqttServer::shutdown'); return
    sel = arms(M, lambda e: e[1] == 'notified' and is_n(N, e[2]))
    R.count('selects_with_shutdown_arm', len(sel))
    for o in ends:
        if o.kind != 'ret': continue
        ks = [e for e, _, l in events(o.st.trace) if e[0] == 'notify' and is_n(N, e[1])]
        R.check(any(e[2] == 'one' for e in ks), 'shutdown|notify', 'MqttServer::shutdown does not leave a stored shutdown notification (notify_one)', ['events: ' + brief(o.st.trace)])
    seen = set(); waits = 0
    for p in M.paths:
        if p.task == 'main' or p.kind == 'panic': continue
        t = M.label(p.task); shut = None; passed = False
        for i, (e, fr, lp) in enumerate(events(p.trace)):
            if e[0] == 'wait':
                got = e[1] == 'notified' and is_n(N, e[2])
                if shut is not None and e[1] not in BOUNDED and not lp:
                    M.bad(p, 'after|%s|%s|%s' % (t, e[1], short(e[4])), '%s waits for %s after shutdown has been requested' % (t, e[1]), ['in ' + short(e[4])])
                if got and not lp: shut = i; passed = False
                if e[1] in BOUNDED or got and False: continue
                key = (t, e[1], e[4], tuple(f.clo for f in fr))
                if key in seen: continue
                seen.add(key); waits += 1
                if any(f.clo in sel for f in fr) or shut is not None: R.ok('%s: wait for %s in %s under a shutdown arm' % (t, e[1], short(e[4])))
                elif got: R.ok()
                else: M.bad(p, 'wait|%s|%s|%s' % (t, e[1], short(e[4])), '%s waits for %s in %s without also waiting for the shutdown notification' % (t, e[1], short(e[4])))
            if e[0] == 'notify' and shut is not None and is_n(N, e[1]) and not lp and e[2] == 'one': passed = True
        if shut is None: continue
        if p.kind == 'ret':
            if passed: R.ok('%s passes the shutdown notification on' % t)
            else: M.bad(p, 'pass|%s' % t, '%s ends after receiving the shutdown notification without passing it on to the other tasks' % t)
        elif p.kind == 'iter':
            if any(e[0] == 'wait' and e[1] == 'notified' and is_n(N, e[2]) for e, _, l in events(p.trace[p.pre:])):
                M.bad(p, 'goeson|%s|%s' % (t, short(p.loop[0])), '%s goes on with its loop after receiving the shutdown notification' % t)
    R.count('waits', waits)

# ------------------------------------------------------------------ S09
def S09(R, P):
    R.rule(NOTE)
    R.rule('Rule: at every wait for a socket, queue, timer, notification or task no guard of a shared table is held; no task locks a table it already holds; the relation "locked while holding" between the tables (the subscription table counting as one) has no cycle.')
    M = Model(R, P)
    seen = set(); edges = {}
    for p in M.paths:
        t = M.label(p.task)
        for e, fr, lp in events(p.trace):
            if e[0] != 'wait': continue
            key = (t, e[1], e[4], e[2] if e[1] == 'lock' else None, e[3])
            if key in seen: continue
            seen.add(key)
            hl = {orig(g.a[1]) for g in e[3]}
            if e[1] in ('lock', 'topics'):
                L = orig(e[2]) if e[1] == 'lock' else UNIT
                if L in hl: M.bad(p, 'relock|%s|%s' % (t, short(e[4])), '%s locks a table it already holds, in %s' % (t, short(e[4])), ['table: ' + show(L)[:200]])
                else: R.ok('%s: lock in %s, %d held' % (t, short(e[4]), len(hl)))
                for h in hl:
                    if h is not L: edges.setdefault(h, {}).setdefault(L, (p, t, e[4]))
            elif hl: M.bad(p, 'held|%s|%s|%s' % (t, e[1], short(e[4])), '%s waits for %s in %s while it holds a table locked' % (t, e[1], short(e[4])), ['held: ' + show(h)[:160] for h in hl])
            else: R.ok()
    def reach(a, b, vis):
        if a is b: return True
        vis.add(a)
        return any(x not in vis and reach(x, b, vis) for x in edges.get(a, ()))
    for a in edges:
        for b, (p, t, f) in edges[a].items():
            if reach(b, a, set()): M.bad(p, 'order|%s|%s' % (t, short(f)), '%s takes two tables in %s in the opposite order of another path' % (t, short(f)), [show(a)[:120], show(b)[:120]])
            else: R.ok('order')
    R.count('lock_order_edges', sum(len(x) for x in edges.values())); R.count('waits', len(seen))

# ------------------------------------------------------------------ S03
def connect_fields(P):
    for v in P.adts[PACKET]['v']:
        if v['n'] == 'Connect':
            path = P.types[v['f'][0]['ti']].get('p')
            return path, {f['n']: i for i, f in enumerate(P.adts[path]['v'][0]['f'])}
    return None, {}
def connect_of(M, p, k):
    """term of the CONNECT inside decoded packet k"""
    return mk('fld', k, variant(M.P, PACKET, 'Connect'), 0)
def flag_bit(P, path, name): return None
def excluded(st, c, fi, bit, flags):
    """the optional field fi of the CONNECT c is known to be absent"""
    f = mk('fld', c, None, fi)
    for d in (mk('disc', f), mk('disc', mk('fld', c, 0, fi))):
        v = st.facts.values(d)
        if v is not None and set(v) == {0}: return True
    return flags is not None and all(not x & bit for x in flags)
def flag_values(st, c, fi):
    """values the flag byte of the CONNECT can have on this path"""
    want = mk('fld', c, None, fi); r = None
    for t, d in st.facts.dom.items():
        x = t
        while x.op == 'fld' and x is not want and isinstance(x.a[0], T): x = x.a[0]
        if x is want and t.op == 'fld': r = set(d) if r is None else r & set(d)
    return r
def S03(R, P):
    R.rule(NOTE)
    R.rule('Rule: on every path that sends a CONNACK with reason Success, the facts of the path exclude a user name, a password, a will and a cleared clean-start flag in the CONNECT, its properties have been examined to the end without meeting an authentication property, and no CONNACK has been sent before; every path that receives a CONNECT and ends without sending any CONNACK does so because of a time-out, shutdown, a failed read or write or a CONNACK too large for the client.')
    M = Model(R, P)
    path, F = connect_fields(P)
    need = {'user name': ('username', 0x80), 'password': ('password', 0x40), 'will': ('will_info', 0x04)}
    if path is None or any(n not in F for n, _ in need.values()) or 'flags' not in F: R.undecided('Connect', 'fields of Connect not recognised'); return
    nacc = nref = 0
    for k in M.tasks_of('connect'):
        t = M.label(k)
        for p in M.of(k):
            if p.kind == 'iter': continue
            tr = list(events(p.trace, expand=True))
            dec = [(i, e) for i, (e, _, l) in enumerate(tr) if e[0] == 'decode' and e[2] is not NONE and not l]
            if not dec: continue
            pk = dec[0][1][2]
            if packet_kind(M, p, pk) != {'Connect'}:
                for e, _, _ in tr:
                    if e[0] == 'encode' and connack(M, e[1]) == 'Success': M.bad(p, 'kind|' + t, '%s accepts a connection whose first packet need not be a CONNECT' % t)
                continue
            c = connect_of(M, p, pk)
            acks = [(i, connack(M, e[1])) for i, (e, _, l) in enumerate(tr) if e[0] == 'encode' and connack(M, e[1])]
            if any(l and connack(M, e[1]) for e, _, l in tr if e[0] == 'encode'): M.bad(p, 'loop|' + t, '%s can send several CONNACKs' % t)
            if len(acks) > 1: M.bad(p, 'twice|' + t, '%s answers one CONNECT with several CONNACKs' % t, [str([a for _, a in acks])])
            succ = [i for i, a in acks if a == 'Success']
            if any(a == '?' for _, a in acks): R.undecided('reason|' + t, 'reason code of a CONNACK unknown')
            if succ:
                nacc += 1; bad = []
                fl = flag_values(p.st, c, F['flags'])
                for what, (n, bit) in need.items():
                    if not excluded(p.st, c, F[n], bit, fl): bad.append('it may carry a ' + what)
                if fl is None or not all(x & 2 for x in fl): bad.append('its clean-start flag may be clear')
                pre = [e for e, _, _ in tr[:succ[0]]]
                for a in ('AuthenticationMethod', 'AuthenticationData'):
                    if any(e[0] == 'prop' and e[2] == a for e in pre): bad.append('it carries the property ' + a)
                    elif not any(e[0] == 'noprop' and e[2] in ('*', a) for e in pre): bad.append('the property %s is not looked for' % a)
                for b in bad: M.bad(p, 'accept|%s|%s' % (t, b), '%s accepts a CONNECT although %s' % (t, b))
                if not bad: R.ok('%s: success CONNACK only for a plain CONNECT' % t)
            elif acks: nref += 1; R.ok('%s: refusal' % t)
            else:
                post = [(e, l) for e, _, l in tr[dec[0][0] + 1:]]
                why = any(e[0] == 'wait' and e[1] in ('sleep', 'notified') for e, _ in post)
                big = any(x.op == 'framelen' and any(y.op == 'adt' and y.a[0].endswith('::ConnAck') for y in walk_terms(x.a[0])) for x in fact_atoms(p.st))
                R.count('unanswered')
                if why or big: R.ok()
                else: M.bad(p, 'silent|' + t, '%s ends a connection without answering its CONNECT' % t)
    R.count('accepting_paths', nacc); R.count('refusing_paths', nref)
    if not nacc: R.undecided('accept', 'no accepting path found')
def fact_atoms(st):
    s = set()
    for l in st.facts.ge:
        for x, _ in lin_parts(l)[1]: s.add(x)
    for d in (st.facts.dom, st.facts.iv, st.facts.bo): s |= {x for x in d if isinstance(x, T)}
    return s

# ------------------------------------------------------------------ S13
def gain(e):
    """the event takes something from a stream or queue for good"""
    if e[0] == 'recv': return e[2] is not NONE
    if e[0] == 'frame': return e[2] is not NONE and e[2] is not srv.FALSE
    return e[0] in ('advance', 'noise')
def S13(R, P):
    R.rule(NOTE)
    R.rule('Rule: in a select a task comes back to around a loop, an arm waits for nothing after it has taken bytes or a packet from a stream, buffer or queue, and writes nothing; each iteration of a client task that takes a packet from its queue writes exactly that packet, whole and once (or drops it because it is larger than the client accepts), and each that decodes a packet passes exactly that packet on once and takes exactly its frame out of the buffer.')
    M = Model(R, P)
    again = set()
    for p in M.paths:
        if p.kind == 'iter' and not p.tainted:
            for e, _, _ in events(p.trace[p.pre:]):
                if e[0] == 'select': again.add(e[1])
    R.count('selects_in_loops', len(again))
    ch_in = set()
    for p in M.paths:
        if p.task == 'main': continue
        t = M.label(p.task); taken = {}
        won = {}
        for e, fr, lp in events(p.trace, expand=p.kind != 'iter' or True):
            if e[0] == 'won' and fr: taken.pop(id(fr[-1]), None)
            for f in fr:
                if f.clo not in again: continue
                if e[0] == 'wait':
                    w = taken.get(id(f))
                    if w: M.bad(p, 'cancel|%s|%s|%s' % (t, short(f.clo), e[1]), '%s can be interrupted while waiting for %s in an arm of the select in %s that has already taken something (%s)' % (t, e[1], short(f.clo), w), ['in ' + short(e[4])])
                    if e[1] == 'write': M.bad(p, 'cut|%s|%s' % (t, short(f.clo)), '%s can be interrupted in the middle of writing, in an arm of the select in %s' % (t, short(f.clo)), ['in ' + short(e[4])])
                    R.ok()
                if gain(e): taken[id(f)] = e[0]
                if e[0] == 'readbuf' and e[-1].a[0] > f.depth: taken[id(f)] = 'bytes read into a buffer of the arm'
    n = 0
    for k in M.tasks_of('client'):
        t = M.label(k)
        for p in M.of(k):
            if p.kind != 'iter': continue
            tr = [(e, l) for e, _, l in events(p.trace[p.pre:], expand=True)]
            got = [e for e, l in tr if e[0] == 'recv' and e[2] is not NONE]
            dec = [(e, l) for e, l in tr if e[0] == 'decode' and e[2] is not NONE]
            wr = [(e, l) for e, l in tr if e[0] == 'write' and e[3] is srv.TRUE]
            snd = [(e, l) for e, l in tr if e[0] == 'send' and orig(e[2]) in M.incoming]
            n += 1; bad = []
            if any(e[0] == 'write' and has_op(e[2], 'part') for e, _ in tr): bad.append('writes a buffer in part')
            for g in got:
                ws = [e for e, l in wr if carried(M, e[2]) == [g[2]] and whole(M, e[2])]
                if len(ws) == 1: continue
                if len(ws) > 1: bad.append('writes a queued packet more than once')
                elif not any(x.op == 'framelen' and x.a[0] is g[2] for x in fact_atoms(p.st)) or not too_large(M, p, g[2]): bad.append('goes on without writing, whole and alone, a packet it took from its queue')
            for e, l in wr:
                if not got: bad.append('writes a packet it did not take from its queue')
            for d, l in dec:
                ss = [e for e, _ in snd if any(x is d[2] for x in walk_terms(e[3]))]
                if len(ss) != 1: bad.append('passes a received packet on %s' % ('more than once' if ss else 'not at all'))
                ad = [e for e, _ in tr if e[0] == 'advance' and e[1] is d[1]]
                if d[1].op == 'bbuf' and d[1].a[0].op != 'plain':
                    fl = mk('framelen', d[2])
                    if len(ad) != 1 or not p.st.facts.prove_eq(ad[0][2], fl): bad.append('does not take exactly the frame of a received packet out of its buffer')
            if len(snd) > len(dec): bad.append('passes on a packet it did not receive')
            for b in dict.fromkeys(bad): M.bad(p, 'iter|%s|%s' % (t, b), '%s %s' % (t, b))
            if not bad: R.ok('%s: iteration %s' % (t, brief(p.trace[p.pre:], 6)))
    R.count('client_iterations', n)
def too_large(M, p, pk):
    """the path knows that the frame of pk is larger than some other quantity"""
    fl = mk('framelen', pk)
    return any(dict(lin_parts(l)[1]).get(fl, 0) > 0 for l in p.st.facts.ge)
def whole(M, v):
    """the written value is a complete encoding (or a complete ciphertext of one)"""
    if has_op(v, 'part'): return False
    if v.op == 'bslice':
        b, lo, n = v.a[0], v.a[1], v.a[2]
        if b.op == 'blob' and b.a[0].op == 'cipher': return lo is ZERO and n is b.a[0].a[2] and whole(M, b.a[0].a[1])
        return False
    if v.op == 'bbuf': return v.a[0].op == 'enc' and v.a[0].a[0].op == 'bempty'
    return False

# ------------------------------------------------------------------ S15
def S15(R, P):
    R.rule(NOTE)
    R.rule('Rule: no path of a connecting or connected client goes around a loop after the end of the stream (a read of 0 bytes, no further frame), a read or decryption error, or a packet that is malformed rather than incomplete.')
    M = Model(R, P)
    goes_on(R, M, P, [p for k in set(M.tasks_of('connect')) | set(M.tasks_of('client')) for p in M.of(k) if p.kind == 'iter'])
def goes_on(R, M, P, paths):
    n = 0
    for p in paths:
        t = M.label(p.task); where = '%s (loop of %s)' % (t, short(p.loop[0]))
        for e, fr, lp in events(p.trace[p.pre:]):
            b = None
            if e[0] == 'readbuf':
                if not p.st.facts.prove_ge0(sub(e[3], ONE)): b = 'reading 0 bytes, the end of the stream'
            elif e[0] == 'frame' and e[2] is NONE: b = 'the end of the stream'
            elif e[0] == 'frame' and e[2] is srv.FALSE or e[0] == 'readerr': b = 'a read error'
            elif e[0] == 'noiseerr': b = 'a frame that fails authentication'
            elif e[0] == 'write' and e[3] is srv.FALSE: b = 'a write error'
            elif e[0] == 'decode' and e[2] is NONE:
                ty = ATOM_META.get(e[3]) or ATOM_TY.get(e[3]); vs = p.st.facts.values(mk('disc', e[3]))
                names = [v['n'] for v in P.adts[srv.PK + 'error::DataParseError']['v']] if srv.PK + 'error::DataParseError' in P.adts else []
                if vs is None or not names or {names[i] for i in vs} != {'InsufficientBuffer'}: b = 'a malformed packet'
            else: continue
            n += 1
            if b: M.bad(p, 'goeson|%s|%s' % (t, b), '%s goes on after %s' % (where, b))
            else: R.ok('%s: goes on only with data or an incomplete packet' % where)
    R.count('events_on_back_edges', n)

# ------------------------------------------------------------------ S16
def S16(R, P):
    R.rule(NOTE)
    R.rule('Rule: on an encrypted connection every value written after the handshake is exactly the ciphertext one call of write_message of that session produced, and the bytes packets are decoded from are exactly the plaintext one successful call of read_message produced; a frame that fails authentication is not read again and no packet is decoded from it.')
    M = Model(R, P); nw = nd = 0
    for k in set(M.tasks_of('connect')) | set(M.tasks_of('client')):
        t = M.label(k)
        for p in M.of(k):
            tr = [e for e, _, _ in events(p.trace)]
            enc = any(e[0] in ('frame', 'noise') or e[0] == 'write' and e[1].op == 'framed' for e in tr) or has_op(task_arg(M, k), 'framed')
            if not enc: continue
            session = any(e[0] == 'noise' and e[2] == 'tr' for e in tr) or 'client' in M.role[k]
            failed = False
            for e in tr:
                if e[0] == 'write':
                    v = e[2]; nw += 1
                    good = v.op == 'bslice' and v.a[0].op == 'blob' and v.a[0].a[0].op == 'cipher' and v.a[1] is ZERO and v.a[2] is v.a[0].a[0].a[2]
                    side = v.a[0].a[0].a[0].op if good else None
                    if not good: M.bad(p, 'write|%s' % t, '%s writes something else than one complete ciphertext to an encrypted connection' % t, ['value: ' + show(v)[:200]])
                    elif carried(M, v) and side != 'tr' and side != 'sym' and not is_tr(M, v.a[0].a[0].a[0]): M.bad(p, 'early|%s' % t, '%s sends a packet before the encryption handshake is complete' % t)
                    else: R.ok('%s: write of one ciphertext' % t)
                elif e[0] == 'decode':
                    v = e[1]; nd += 1
                    good = v.op == 'bslice' and v.a[0].op == 'blob' and v.a[0].a[0].op == 'plain' and v.a[1] is ZERO and v.a[2] is v.a[0].a[0].a[3 - 1]
                    if not good: M.bad(p, 'decode|%s' % t, '%s decodes a packet of an encrypted connection from something else than one decrypted message' % t, ['source: ' + show(v)[:200]])
                    elif failed: M.bad(p, 'unauth|%s' % t, '%s decodes a packet after a frame failed authentication' % t)
                    else: R.ok('%s: decode from one plaintext' % t)
                elif e[0] == 'noiseerr' and e[1] == 'read': failed = True
                elif e[0] == 'readbuf': M.bad(p, 'raw|%s' % t, '%s reads raw bytes from an encrypted connection' % t)
    R.count('writes', nw); R.count('decodes', nd)
    if not nw or not nd: R.undecided('encrypted', 'no traffic of an encrypted connection found')
def task_arg(M, k):
    return M.W.tasks[k[0]][k[1]] if k != 'main' else UNIT
def is_tr(M, h): return h.op == 'tr' or all(x.op == 'tr' for x in members(h))

# ------------------------------------------------------------------ S17
def S17(R, P):
    R.rule(NOTE)
    R.rule('Rule: in a task that sets a connection up, every wait for the peer happens inside a select that also waits for a timer whose duration is computed from the configured keep-alive, and for the shutdown notification; a listener waits for nothing but new connections (and short table locks).')
    M = Model(R, P); N, _ = shutdown_syms(M)
    tl = arms(M, lambda e: e[1] == 'sleep' and keepalive(M, e[2])); sh = arms(M, lambda e: e[1] == 'notified' and is_n(N, e[2]))
    anyt = arms(M, lambda e: e[1] == 'sleep')
    seen = set()
    for k in M.tasks_of('connect'):
        t = M.label(k)
        for p in M.of(k):
            for e, fr, lp in events(p.trace):
                if e[0] != 'wait' or e[1] not in ('read', 'write', 'recv', 'bsend', 'accept'): continue
                key = (t, e[1], e[4], tuple(f.clo for f in fr))
                if key in seen: continue
                seen.add(key); cl = {f.clo for f in fr}; w = '%s waits for %s in %s' % (t, e[1], short(e[4]))
                if not cl & tl: M.bad(p, 'timeout|%s|%s|%s' % (t, e[1], short(e[4])), w + (' with a time-out that does not depend on the keep-alive' if cl & anyt else ' without a time-out'))
                elif not cl & sh: M.bad(p, 'shutdown|%s|%s|%s' % (t, e[1], short(e[4])), w + ' without also waiting for shutdown')
                else: R.ok(w + ' under a keep-alive timer and a shutdown arm')
    for k in M.tasks_of('listener'):
        t = M.label(k)
        for p in M.of(k):
            for e, fr, lp in events(p.trace):
                if e[0] != 'wait' or (t, e[1], e[4]) in seen: continue
                seen.add((t, e[1], e[4]))
                if e[1] in ('accept', 'lock', 'notified'): R.ok('%s waits for %s' % (t, e[1]))
                else: M.bad(p, 'listener|%s|%s|%s' % (t, e[1], short(e[4])), '%s waits for %s in %s, which delays accepting other connections' % (t, e[1], short(e[4])))
    R.count('waits', len(seen))
def cfg_field(M, name):
    for pth in M.P.adts:
        if pth.endswith('::MqttServerConfig'): return field(M.P, pth, name)
def is_cfg(t, i):
    """t is field i of the server configuration"""
    return t.op == 'fld' and t.a[2] == i and isinstance(t.a[0], T) and any(x.op == 'sym' and 'cfg' in x.a for x in [orig(t.a[0])])
def keepalive(M, d):
    i = cfg_field(M, 'keep_alive')
    return i is None or any(is_cfg(x, i) for x in walk_terms(d))

# ------------------------------------------------------------------ S12
def tighten(st):
    """a minimum is not larger than its arguments"""
    for x in list(fact_atoms(st)):
        for y in walk_terms(x):
            if y.op == 'min':
                for a in y.a:
                    try: st.facts._ge(sub(a, y))
                    except Infeasible: pass
def pnum(v):
    """number a property value holds"""
    while v.op == 'adt' and len(v.a) >= 3: v = v.a[2]
    return v
def pnums(v):
    x = pnum(v)
    return [x] + [mk('fld', x, i, 0) for i in (None, 0)]
def client_max(v):
    r = []
    for x in fields_named(P_, v, '::Client', 'max_packet_size'):
        if x not in r: r.append(x)
    return r
P_ = None
def S12(R, P):
    R.rule(NOTE)
    R.rule('Rule (in): every read into a packet buffer is limited so that buffered plus new bytes cannot exceed the configured maximum packet size; every frame of an encrypted connection is read with a frame limit of at most the configured maximum plus the 16 byte tag once packets are exchanged, and with a constant limit during the handshake. Rule (out): on every path that writes a packet, the facts prove its frame not larger than the maximum kept for the client; during set-up not larger than the configured maximum and, where the CONNECT announces a maximum, not larger than the announced one, and the maximum handed over is not larger than either.')
    global P_; P_ = P
    M = Model(R, P)
    mi = cfg_field(M, 'max_packet_size')
    if mi is None: R.undecided('cfg', 'no field max_packet_size in the configuration'); return
    def cfgmax(p):
        for t in walk_terms(tuple(e for e in p.trace) + (task_arg(M, p.task),)):
            if is_cfg(t, mi): return t
        for t in fact_atoms(p.st):
            for x in walk_terms(t):
                if is_cfg(x, mi): return x
    nr = nf = nw = 0
    for k in sorted(set(M.tasks_of('connect')) | set(M.tasks_of('client')), key=str):
        t = M.label(k); arg = task_arg(M, k)
        for p in M.of(k):
            tighten(p.st); cm = cfgmax(p); F = p.st.facts
            for e, fr, lp in events(p.trace):
                if e[0] == 'readbuf':
                    nr += 1
                    if e[5] is UNIT: M.bad(p, 'unlimited|%s' % t, '%s reads from the socket without a limit' % t)
                    elif cm is None or not F.prove_ge0(sub(cm, add(e[4], e[5]))): M.bad(p, 'limit|%s' % t, '%s can buffer more than the configured maximum packet size' % t, ['buffered: %s, limit of the read: %s' % (show(e[4])[:120], show(e[5])[:120])])
                    else: R.ok('%s: buffered + limit <= max_packet_size' % t)
                elif e[0] == 'frame' and e[2] not in (NONE, srv.FALSE):
                    nf += 1
                    lim = e[1].a[1].a[0] if e[1].op == 'framed' and e[1].a[1].op == 'ldcodec' else None
                    hs = not ('client' in M.role[k] or any(x[0] == 'noise' and x[1] == 'read' and x[2] == 'tr' and x[4] is e[2] for x in p.trace))
                    if lim is None: R.undecided('codec|' + t, 'frame limit unknown'); continue
                    if lim.op == 'dflt': M.bad(p, 'frame|%s' % t, '%s receives frames of an encrypted connection with the default limit of the codec' % t)
                    elif lim.op == 'int' and lim.a[0] <= 65535 and hs: R.ok('%s: handshake frames <= %d bytes' % (t, lim.a[0]))
                    elif cm is not None and F.prove_ge0(sub(add(cm, I(16)), lim)): R.ok('%s: frames <= max_packet_size + 16' % t)
                    else: M.bad(p, 'frame|%s' % t, '%s can receive frames larger than the configured maximum packet size' % t, ['limit: ' + show(lim)[:160]])
            # outgoing
            ann = None; seen = False
            def own(e):
                for m in client_max(e[3]):
                    if cm is None or not F.prove_ge0(sub(cm, m)):
                        M.bad(p, 'ownmax|%s' % t, '%s hands a client over with a maximum packet size above the configured one' % t, [show(m)[:160]]); return False
                return True
            for e, fr, lp in events(p.trace, expand=True):
                if e[0] == 'prop' and e[2] == 'MaximumPacketSize':
                    if lp and seen and ann is None: continue          # looked for before: the packet has none
                    seen = True
                    if not (lp and ann and not ann[0][1]): ann = (ann or []) + [(e[3], lp)]
                elif e[0] == 'noprop' and e[2] in ('*', 'MaximumPacketSize'): seen = True
                elif e[0] == 'write' and not lp:          # those in loops are on the paths of kind iter
                    for q in carried(M, e[2]):
                        nw += 1; fl = mk('framelen', q)
                        if 'client' in M.role[k]:
                            ms = client_max(arg)
                            if not ms: R.undecided('max|' + t, 'no field max_packet_size in Client')
                            elif any(F.prove_ge0(sub(m, fl)) for m in ms): R.ok('%s: write only when frame_len <= maximum of the client' % t)
                            else: M.bad(p, 'out|%s' % t, '%s writes a packet without checking it against the maximum packet size of the client' % t)
                        elif cm is None or not F.prove_ge0(sub(cm, fl)): M.bad(p, 'own|%s' % t, '%s can send a packet larger than the configured maximum packet size' % t)
                        elif not seen: M.bad(p, 'out|%s|unseen' % t, '%s sends a packet before it has looked for the maximum packet size of the client' % t)
                        elif ann is None: R.ok()
                        elif any(l for _, l in ann): R.undecided('announced|' + t, 'the maximum is taken over inside a loop')
                        elif all(any(F.prove_ge0(sub(x, fl)) for x in pnums(v)) for v, _ in ann): R.ok('%s: CONNACK not larger than the announced maximum' % t)
                        else: M.bad(p, 'out|%s' % t, '%s can send a CONNACK larger than the maximum packet size the CONNECT announces' % t)
                elif e[0] == 'send' and orig(e[2]) in M.handover and not own(e): pass
                elif e[0] == 'send' and orig(e[2]) in M.handover and ann is not None and not any(l for _, l in ann):
                    ms = client_max(e[3])
                    if not ms: R.undecided('max|' + t, 'no field max_packet_size in Client')
                    elif all(any(F.prove_ge0(sub(x, m)) for x in pnums(v)) for v, _ in ann for m in ms): R.ok('%s: handed over maximum <= announced' % t)
                    else: M.bad(p, 'handover|%s' % t, '%s hands a client over with a maximum packet size above the announced one' % t, [show(ms[0])[:160]])
    R.count('reads', nr); R.count('frames', nf); R.count('packet_writes', nw)
    if not nr or not nf or not nw: R.undecided('traffic', 'reads, frames or writes of packets not found')

# ------------------------------------------------------------------ S14
def client_in(v):
    for x in walk_terms(v):
        if x.op == 'adt' and x.a[0].endswith('::clients::client::Client'): return x
def S14(R, P):
    R.rule(NOTE)
    R.rule('Rule: for each connection the manager takes over it enters the client, as handed over, under its own identifier, starts exactly one task for it and watches that task; if an entry was there before, its own kill notification is raised and its subscriptions are removed before the new task starts. When a watched task ends, the entry under its identifier is removed exactly if it is found to belong to that very connection, and then the subscriptions are removed; a path that removes without that comparison, or leaves a matching entry, is a violation (draining after shutdown excepted). A client task gives back its own client record and every wait of it also waits for its kill notification.')
    M = Model(R, P); N, _ = shutdown_syms(M)
    ci = field(P, 'apiformes_server_lib::clients::client::Client', 'clientid') if 'apiformes_server_lib::clients::client::Client' in P.adts else None
    ki = field(P, 'apiformes_server_lib::clients::client::Client', 'killme') if ci is not None else None
    if ci is None or ki is None: R.undecided('Client', 'fields of Client not recognised'); return
    def same_id(a, b): return bare(a) is bare(b)
    nin = nout = 0
    for k in M.tasks_of('manager'):
        t = M.label(k)
        for p in M.of(k):
            tr = [(e, i) for i, (e, _, l) in enumerate(events(p.trace)) if p.kind != 'iter' or True]
            lo = p.pre if p.kind == 'iter' else 0
            over = any(e[0] == 'wait' and e[1] == 'notified' and is_n(N, e[2]) or e[0] == 'recv' and orig(e[1]) in M.handover and e[2] is NONE for e in p.trace)
            evs = list(p.trace)
            for i, e in enumerate(evs):
                if i < lo: continue
                rest = evs[i + 1:]
                nxt = next((j for j, x in enumerate(rest) if x[0] in ('recv', 'joined') or x[0] == 'wait' and x[1] in ('recv', 'nextjoin')), len(rest))
                rest = rest[:nxt]
                if e[0] == 'recv' and orig(e[1]) in M.handover and e[2] is not NONE:
                    if over and p.kind != 'iter' and not rest: continue
                    nin += 1; bad = []; c = client_in(e[2])
                    if c is None: R.undecided('worker', 'no Client in the value handed over'); continue
                    cid = c.a[2 + ci]
                    ins = [(j, x) for j, x in enumerate(rest) if x[0] == 'ins' and client_in(x[4]) is not None]
                    sp = [(j, x) for j, x in enumerate(rest) if x[0] == 'spawn' and has_sock(x[1])]
                    if len(ins) != 1: bad.append('does not enter a new client into the client list%s' % (' exactly once' if ins else ''))
                    else:
                        j, x = ins[0]; v = client_in(x[4])
                        if not same_id(x[3], cid): bad.append('enters a new client under an identifier other than its own')
                        if not same_id(v.a[2 + ki], c.a[2 + ki]): bad.append('enters a new client with a kill notification that is not its own')
                        ut = [q for q in v.a if isinstance(q, T) and q.op == 'utx']
                        if ut and ut != [q for q in c.a if isinstance(q, T) and q.op == 'utx']: bad.append('enters a new client with a queue that is not its own')
                        if x[5] is srv.TRUE:
                            kn = [y for y in rest if y[0] == 'notify' and any(z.op == 'hmget' for z in walk_terms(y[1]))]
                            good = [y for y in kn if bare(y[1]).op == 'fld' and bare(y[1]).a[2] == ki and bare(y[1]).a[0].op == 'hmget' and same_id(bare(y[1]).a[0].a[1], x[3])]
                            if not good: bad.append('does not terminate the older connection a new client replaces')
                            elif any(y[2] != 'one' for y in good): bad.append('raises the kill notification of the older connection so that it can be missed')
                            us = [y for y, z in enumerate(rest) if z[0] == 'topics' and 'unsubscribe' in z[1] and 'all' in z[1]]
                            if not us: bad.append('leaves the subscriptions of the older connection a new client replaces')
                            elif sp and us[0] > sp[0][0]: bad.append('removes the subscriptions of the older connection when the new one may have subscribed already')
                    if len(sp) != 1: bad.append('does not start one task for a new client')
                    elif not any(x[0] == 'fupush' and any(z is sp[0][1][1] for z in walk_terms(x[2])) for x in rest): bad.append('does not watch the task of a new client')
                    elif ins and ins[0][0] > sp[0][0]: bad.append('starts the task of a new client before the client is entered')
                    for b in dict.fromkeys(bad): M.bad(p, 'new|%s|%s' % (t, b), '%s %s' % (t, b))
                    if not bad: R.ok('%s: new client entered, older one %s' % (t, 'terminated' if ins[0][1][5] is srv.TRUE else 'absent'))
                elif e[0] == 'joined':
                    if e[1] is NONE or over: continue
                    c = client_in(e[1])
                    if c is None: R.ok(); continue
                    nout += 1; bad = []; cid = c.a[2 + ci]; own = {bare(x) for x in c.a[2:] if isinstance(x, T)} - {bare(cid)}
                    own = {x for x in own if x.op != 'int'}
                    rems = [(j, x) for j, x in enumerate(rest) if x[0] == 'rem']
                    gets = [x for x in rest if x[0] == 'get' and same_id(x[3], cid)]
                    us = [j for j, z in enumerate(rest) if z[0] == 'topics' and 'unsubscribe' in z[1] and 'all' in z[1] and any(isinstance(a, T) and same_id(a, cid) for a in z[2])]
                    mine = set()                    # what the path knows about the entry being that of this connection
                    for a in fact_atoms(p.st):
                        ts = list(walk_terms(a))
                        if any(x.op == 'hmget' and same_id(x.a[1], cid) for x in ts) and any(x in own for x in ts):
                            mine.add(frozenset(p.st.facts.values(a) or ()) if a.op == 'ptreq' else '?')
                    if rems:
                        if not all(same_id(x[3], cid) for _, x in rems): bad.append('removes an entry other than that of the ended connection')
                        if not mine and any(x[5] is srv.TRUE for _, x in rems): bad.append('removes the entry of an identifier without checking that it belongs to the ended connection')
                        elif frozenset({1}) not in mine and '?' not in mine and any(x[5] is srv.TRUE for _, x in rems): bad.append('removes the entry of another connection')
                        if any(x[5] is srv.TRUE for _, x in rems) and not us: bad.append('leaves the subscriptions of an ended connection')
                    else:
                        if any(x[4] is srv.FALSE for x in gets): pass
                        elif mine and frozenset({1}) not in mine: pass
                        else: bad.append('leaves the entry of an ended connection in the client list')
                        if us: bad.append('removes the subscriptions of a newer connection') if not gets or any(x[4] is srv.TRUE for x in gets) else None
                    for b in dict.fromkeys(bad): M.bad(p, 'end|%s|%s' % (t, b), '%s %s' % (t, b))
                    if not bad: R.ok('%s: end of a connection, entry %s' % (t, 'removed' if rems else 'kept, not its own'))
    R.count('takeovers', nin); R.count('ends', nout)
    if not nin or not nout: R.undecided('manager', 'taking over or ending of connections not found')
    for k in M.tasks_of('client'):
        t = M.label(k); c = client_in(task_arg(M, k))
        if c is None: R.undecided('client|' + t, 'no Client in the task'); continue
        K = {client_in(task_arg(M, q)).a[2 + ki] for q in M.tasks_of('client') if client_in(task_arg(M, q)) is not None}
        km = lambda e: e[1] == 'notified' and (e[2] in K or members(e[2]) <= members(c.a[2 + ki]) and members(e[2]))
        seen = set(); sel = arms(M, km, M.of(k))
        for p in M.of(k):
            for e, fr, lp in events(p.trace):
                if e[0] != 'wait' or e[1] in BOUNDED or (e[1], e[4]) in seen: continue
                seen.add((e[1], e[4]))
                if any(f.clo in sel for f in fr): R.ok('%s: wait for %s under the kill notification' % (t, e[1]))
                else: M.bad(p, 'kill|%s|%s|%s' % (t, e[1], short(e[4])), '%s waits for %s in %s without also waiting for its kill notification' % (t, e[1], short(e[4])))
            if p.kind == 'iter' and any(e[0] == 'wait' and km(e) for e, _, _ in events(p.trace[p.pre:])): M.bad(p, 'killed|%s' % t, '%s goes on after its kill notification' % t)
            if p.kind == 'ret':
                r = client_in(p.val)
                if r is None: R.undecided('ret|' + t, 'the task does not give back a Client')
                elif same_id(r.a[2 + ki], c.a[2 + ki]) and same_id(r.a[2 + ci], c.a[2 + ci]): R.ok()
                else: M.bad(p, 'ret|' + t, '%s gives back a client record that is not its own' % t)

# ------------------------------------------------------------------ S18
def S18(R, P):
    R.rule(NOTE)
    R.rule('Rule: on every path of MqttServer::new the bounded channel of the dispatcher is created with max(1, dispatcher_queue_size / size of one element) elements: the facts of the path prove the size at least 1, and equal to the quotient or to 1 with the quotient 0; MqttServer::new does not panic.')
    M = Model(R, P); i = cfg_field(M, 'dispatcher_queue_size'); n = 0
    for p in M.of('main'):
        if p.kind == 'panic': M.bad(p, 'panic|' + p.info.key(), 'MqttServer::new can panic: ' + p.info.text()); continue
        for e, fr, lp in events(p.trace):
            if e[0] != 'channel' or orig(e[1]) not in M.incoming: continue
            n += 1; L = e[2]; tighten(p.st); F = p.st.facts
            cells = [x for x in walk_terms(L) if i is not None and is_cfg(x, i)] or [x for a in fact_atoms(p.st) for x in walk_terms(a) if i is not None and is_cfg(x, i)]
            if not F.prove_ge0(sub(L, ONE)): M.bad(p, 'zero', 'the dispatcher queue can be created with no element at all', ['size: ' + show(L)[:200]]); continue
            if not cells: M.bad(p, 'cfg', 'the size of the dispatcher queue does not come from the configured size', ['size: ' + show(L)[:200]]); continue
            q = cells[0]; sizes = sized(M, e[3])
            ok = None
            divs = [x for a in [L] + list(fact_atoms(p.st)) for x in walk_terms(a) if x.op == 'div' and any(y is q for y in walk_terms(x.a[0]))]
            for d in divs:
                if d.a[0] is not q: continue
                if sizes and d.a[1].op == 'int' and d.a[1].a[0] not in sizes: ok = False; continue
                if L is d or F.prove_eq(L, d): ok = True; break
                if L.op == 'max' and d in L.a: ok = True; break
                if F.prove_ge0(sub(ONE, L)) and F.prove_ge0(sub(ZERO, d)): ok = True; break
                if ok is None: ok = False
            if ok: R.ok('size %s' % show(L)[:120])
            elif ok is False: M.bad(p, 'size', 'the dispatcher queue does not have the configured size in whole elements', ['size: ' + show(L)[:200]])
            elif F.prove_ge0(sub(ONE, L)) and not divs: M.bad(p, 'size', 'the dispatcher queue does not have the configured size in whole elements', ['size: ' + show(L)[:200]])
            else: R.undecided('size', show(L)[:200])
    R.count('channels', n)
    if not n: R.undecided('channel', 'no bounded channel to the dispatcher found')
def sized(M, elem):
    return set()

# ------------------------------------------------------------------ S19
def props_of(v):
    """property name -> value in a packet built on this path, None for what cannot be told"""
    r = {}; n = 0
    while v.op == 'pset' and n < 60: r.setdefault(v.a[1], v.a[2]); v = v.a[0]; n += 1
    return r
def S19(R, P):
    R.rule(NOTE)
    R.rule('Rule: on every path that sends a CONNACK with reason Success, its properties state maximum QoS 0 (the only QoS the dispatcher grants, see S07), the configured keep-alive, a topic alias maximum of 0 (or none), subscription identifiers and shared subscriptions unavailable, wildcard subscriptions available; an assigned client identifier is present exactly on the paths where the identifier of the CONNECT is empty, and is the identifier of the client handed over; otherwise that is the one in the CONNECT.')
    M = Model(R, P); n = 0
    ki = cfg_field(M, 'keep_alive'); path, CF = connect_fields(P)
    ci = field(P, 'apiformes_server_lib::clients::client::Client', 'clientid') if 'apiformes_server_lib::clients::client::Client' in P.adts else None
    keys = {v['n']: i for i, v in enumerate(P.adts[srv.PK + 'props::Property']['v'])}
    for k in M.tasks_of('connect'):
        t = M.label(k)
        for p in M.of(k):
            if p.kind == 'iter': continue
            tr = [e for e, _, _ in events(p.trace)]
            for e in tr:
                if e[0] != 'encode' or connack(M, e[1]) != 'Success': continue
                n += 1; bad = []
                pr = {}
                for x in e[1].a[2].a[2:]:
                    if isinstance(x, T) and x.op == 'pset':
                        v = x
                        while v.op == 'pset':
                            kk = v.a[1].a[1] if v.a[1].op == 'adt' else None
                            pr.setdefault(kk, v.a[2]); v = v.a[0]
                g = lambda name: pr.get(keys.get(name))
                def isv(name, want, absent=False):
                    v = g(name)
                    if v is None: return absent
                    v = pnum(v)
                    return p.st.facts.prove_eq(v, I(want))
                if not isv('MaximumQoS', 0): bad.append('does not announce maximum QoS 0')
                if not isv('TopicAliasMaximum', 0, True): bad.append('announces topic aliases')
                if not isv('SubscriptionIdentifierAvailable', 0): bad.append('does not announce subscription identifiers as unavailable')
                if not isv('SharedSubscriptionAvailable', 0): bad.append('does not announce shared subscriptions as unavailable')
                if not isv('WildcardSubscriptionAvailable', 1, True): bad.append('announces wildcard subscriptions as unavailable')
                v = g('ServerKeepAlive')
                if ki is not None and (v is None or not is_cfg(pnum(v), ki)): bad.append('does not announce the configured keep-alive')
                a = g('AssignedClientIdentifier')
                h = [x for x in tr if x[0] == 'send' and orig(x[2]) in M.handover]
                cl = client_in(h[0][3]) if h else None
                if cl is not None and ci is not None:
                    cid = cl.a[2 + ci]; st_ = bare
                    av = pnum(a) if a is not None else None
                    if av is not None and st_(av) is not st_(cid): bad.append('assigns an identifier other than the one the client is registered under')
                    fromc = any(x.op == 'fld' and x.a[0] in (mk('fld', d[2], variant(P, PACKET, 'Connect'), 0) for d in tr if d[0] == 'decode' and d[2] is not NONE) for x in walk_terms(cid))
                    if a is None and not fromc: bad.append('registers a client under an identifier the CONNECT does not have without announcing it')
                    if a is not None and fromc: bad.append('announces the identifier of the CONNECT as assigned')
                    emp = empty_id(M, p, tr, CF)
                    if emp is None: R.undecided('empty|' + t, 'no test for an empty identifier recognised')
                    elif emp != (a is not None): bad.append('assigns an identifier to a client that sent one' if a is not None else 'accepts an empty identifier without assigning one')
                for b in bad: M.bad(p, 'connack|%s|%s' % (t, b), '%s %s' % (t, b))
                if not bad: R.ok('%s: CONNACK with %d properties' % (t, len(pr)))
    R.count('connacks', n)
    if not n: R.undecided('connack', 'no successful CONNACK found')
def empty_id(M, p, tr, CF):
    """True/False: the CONNECT is known to have an empty / a nonempty identifier"""
    i = CF.get('clientid')
    for d in tr:
        if d[0] != 'decode' or d[2] is NONE: continue
        c = mk('fld', d[2], variant(M.P, PACKET, 'Connect'), 0)
        for a in fact_atoms(p.st):
            if a.op in ('len', 'vlen', 'slen') or 'len' in a.op:
                if any(x.op == 'fld' and x.a[0] is c and x.a[2] == i for x in walk_terms(a)):
                    lo, hi = p.st.facts.rng(a)
                    if hi == 0: return True
                    if lo > 0: return False
    return None
