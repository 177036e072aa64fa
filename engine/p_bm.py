"""The client of the benchmark (bm crate): S20, and its share of S15. Its connection, receive and send operations are run abstractly from
every state they can leave the client in; stream, buffer and packet contracts are those of the server analysis (srv.py)."""
from p_server import *
from contracts import find_fn
import models

BM = 'apiformes_bm::client::Client::'
def join(a, b, path=()):
    """a value standing for both, what differs named by where it is"""
    if a is b: return a
    if a.op == b.op and len(a.a) == len(b.a) and a.op in ('adt', 'tup', 'box', 'arc', 'bbuf', 'rtake', 'framed') and all(isinstance(x, T) == isinstance(y, T) and (isinstance(x, T) or x == y) for x, y in zip(a.a, b.a)):
        return mk(a.op, *[join(x, y, path + (i,)) if isinstance(x, T) else x for i, (x, y) in enumerate(zip(a.a, b.a))])
    t = sym(None, 'bmstate', path)
    num = path and (srv.ATOM_TY.get(a) in srv.INT_RNG or a.op in ('int', 'lin'))
    for x in (a, b):
        for reg in (srv.ATOM_TY, srv.ATOM_META):
            if x in reg: reg.setdefault(t, reg[x])
    if num: srv.ATOM_TY.setdefault(t, 'usize'); srv.ATOM_RNG.setdefault(t, (0, 2**40))
    return t
class BWorld(srv.World):
    """also keeps with which client each loop was entered"""
    def on_back(s, I_, f, h, H, backs):
        s.loops = getattr(s, 'loops', {}); s.loops.setdefault(s.cur, []).append((I_.loop_entry.mem.get(('H', 'self')), H.mem.get(('H', 'self')), (f['p'], h)))
        srv.World.on_back(s, I_, f, h, H, backs)
class Bench:
    def __init__(s, R, P):
        s.R = R; s.P = P; s.paths = []; s.ok = False
        W = s.W = BWorld(P); W.loops = {}; W.label = s.label
        fs = {n: find_fn(P, BM + n) for n in ('new', 'recv', 'send')}
        for n, f in fs.items():
            if f is None: R.undecided('bm|' + n, 'the operation %s of the benchmark client was not found' % n)
        if None in fs.values(): return
        seen = {}; todo = []
        def state(v, F):
            k = srv.skel(v); old = seen.get(k)
            new = v if old is None else join(old, v)
            if new is not old: seen[k] = new; todo.append(new)
        for o in s.call('new', fs['new'], None):
            if o.kind == 'ret' and o.val.op == 'adt' and o.val.a[0] == models.RES and o.val.a[1] == 0: state(o.val.a[2], o.st.facts)
        n = 0
        while todo:
            v = todo.pop(); n += 1
            if n > 40: R.undecided('bm|fixpoint', 'the states of the benchmark client do not converge'); return
            for op in ('recv', 'send'):
                for o in s.call(op, fs[op], v):
                    if o.kind == 'ret' and o.val.op == 'adt' and o.val.a[1] == 0: state(o.st.mem[('H', 'self')], o.st.facts)
        s.states = list(seen.values())
        R.count('states of the benchmark client', len(seen))
        if not seen: R.undecided('bm|new', 'how a benchmark client is made was not recognised'); return
        for k, c in W.unmodelled.items(): R.unmodelled[k] = c
        if W.unmodelled: R.undecided('bm|unmodelled', '; '.join(list(W.unmodelled)[:4]))
        R.funcs |= W.fns; R.paths += len(s.paths)
        s.ok = True
    def label(s, k): return 'bm client::Client::%s' % k[0]
    def call(s, op, f, v):
        W = s.W; I_ = W.interp(); st = State(); args = []; W.loops.pop((op, v), None)
        for i in range(1, f['body']['args'] + 1):
            t = f['body']['locals'][i][0]
            if i == 1 and v is not None: st.mem[('H', 'self')] = v; args.append(mk('ref', ('H', 'self'), ()))
            else: args.append(I_.reg(sym(None, 'bmarg', op, i), t))
        r = []; k = (op, v)
        for o in I_.run(f, args, st, 1, None):
            if o.kind != 'ret' or o.val.op != 'clo': s.R.undecided('bm|' + op, '%s of the benchmark client is not an async function' % op); continue
            outs = W.run_task(k, o.val, o.st)
            s.paths += [Path(W, k, 'ret' if x.kind == 'ret' else x.kind, x.st.trace, x.st, val=x.val, info=x.info) for x in outs]
            r += outs
        for (kk, g, h, stk, _), its in list(W.iters.items()):
            if kk == k: s.paths += [Path(W, k, 'iter', H.trace + suf, b, len(H.trace), (g, h), H=H) for H, b, suf in its]
        return r
    def bad(s, p, key, text, details=()):
        if p.tainted: s.R.undecided(key, 'the path goes through a step that is not modelled')
        else: s.R.viol(key, text, list(details) + ['events: ' + brief(p.trace)])

def bufs(v):
    """path -> byte buffer held in a value"""
    r = {}
    def g(v, p):
        if v.op == 'bbuf': r[p] = v
        elif v.op in ('adt', 'tup', 'box') and len(p) < 6:
            for i, x in enumerate(v.a):
                if isinstance(x, T): g(x, p + (i,))
    if v is not None: g(v, ())
    return r
def self_of(st): return st.mem.get(('H', 'self'))
def S20(R, P):
    R.rule('Rule: on every path of the receive operation of the benchmark client that returns a packet, the packet is one decoded from the front of the bytes received and not yet taken, exactly its frame is taken from them, and no other path takes any; bytes are read only behind those already there. On every path of the send operation that succeeds, exactly one value is written, the whole encoding of the packet given and nothing else.')
    B = Bench(R, P)
    if not B.ok: return
    rb = {q for p in B.paths if p.task[0] == 'recv' and p.kind in ('ret', 'iter') for q, x in bufs(self_of(p.st)).items() if bufs(p.task[1]).get(q) is not x}
    if not rb: R.undecided('bm|recv', 'where the benchmark client keeps the bytes received was not recognised'); return
    for p in B.paths:
        op = p.task[0]
        if op == 'new' or p.kind == 'panic': continue
        ent = bufs(p.task[1]); end = bufs(self_of(p.st))
        tr = [e for e, _, _ in events(p.trace if p.kind != 'iter' else p.trace[p.pre:], expand=True)]
        adv = [e for e in tr if e[0] == 'advance']; dec = [e for e in tr if e[0] == 'decode' and e[2] is not NONE]
        wr = [e for e in tr if e[0] == 'write']
        won = p.kind == 'ret' and p.val.op == 'adt' and p.val.a[1] == 0
        bad = []
        if op == 'recv':
            if wr: bad.append('writes to the stream')
            lp = B.W.loops.get(p.task, [])
            starts = {q: {bufs(h).get(q) for _, h, _ in lp} | {ent.get(q)} for q in rb}
            if any(bufs(e).get(q) is not ent.get(q) for q in rb for e, _, x in lp if len({x for _, _, x in lp}) == 1): bad.append('replaces the bytes received before it looks at them')
            for q in rb:
                cur = bufs(self_of(p.H)).get(q) if p.kind == 'iter' else None
                raw = p.trace if p.kind != 'iter' else p.trace[p.pre:]
                k = max([i + 1 for i, e in enumerate(raw) if e[0] == 'loop'], default=0)
                for e in raw[k:]:
                    if e[0] not in ('advance', 'readbuf', 'decode'): continue
                    x = e[2] if e[0] == 'readbuf' else e[1]
                    if cur is None and x in starts[q]: cur = x
                    if x is not cur: bad.append('reads or decodes behind or from something else than the bytes received so far'); break
                    if e[0] != 'decode': cur = e[-1]
                else:
                    if (won or p.kind == 'iter') and end.get(q) is not cur and (cur is not None or end.get(q) not in starts[q]): bad.append('replaces the bytes received')
            for e in tr:
                if e[0] == 'decode' and e[1].op != 'bbuf' and e[1].op not in ('sym', 'fld'): bad.append('?')
            if won:
                k = p.val.a[2]
                d = [e for e in dec if e[2] is k]
                if not d: bad.append('returns something other than the packet decoded' if dec else '?')
                else:
                    if len(dec) > 1: bad.append('decodes a packet it does not return')
                    a = [e for e in adv if e[1] is d[-1][1]]
                    if len(adv) != 1 or len(a) != 1 or not p.st.facts.prove_eq(a[0][2], mk('framelen', k)): bad.append('does not take exactly the frame of the packet it returns out of its buffer')
            else:
                if adv: bad.append('takes bytes out of its buffer without returning a packet')
                if dec and p.kind == 'iter': bad.append('goes on after decoding a packet, which is lost')
        else:
            if won:
                pk = [x for x in (carried(B, e[2]) for e in wr)]
                if len(wr) != 1 or any(has_op(e[2], 'part') for e in wr): bad.append('does not write the packet in one piece')
                elif not whole(B, wr[0][2]) or len(pk[0]) != 1: bad.append('writes more or less than the encoding of the packet given')
                elif not any(x.op == 'sym' and x.a and x.a[0] == 'bmarg' for x in walk_terms(pk[0][0])): bad.append('writes another packet than the one given')
            if any(end.get(q) is not ent.get(q) for q in rb) or dec: bad.append('changes the bytes received')
        for b in dict.fromkeys(bad):
            if b == '?': R.undecided('bm|' + op, 'what the receive operation decodes from was not recognised')
            else: B.bad(p, 'bm|%s|%s' % (op, b), 'the benchmark client, %s: %s' % (op, b))
        if not bad: R.ok('%s: %s' % (B.label(p.task), brief(p.trace, 6)))

def S15(R, P):
    """the receive loop of the benchmark client ends with its stream"""
    B = Bench(R, P)
    if not B.ok: return
    goes_on(R, B, P, [p for p in B.paths if p.kind == 'iter'])
