"""Whole-server abstract exploration: the public entry point MqttServer::new is interpreted abstractly, every spawned task is
interpreted in turn (with what it captured), and channels / shared tables pass on the joined values put into them.

Awaiting is inlined: polling a coroutine defined in the code under analysis interprets its body; polling a library future records an
event and returns each way it can complete.  Inside the closure of a `poll_fn` (the shape of select!) every directly polled branch may
also be pending; a poll of the whole that ends pending is the same state again and is cut."""
from contracts import *
import models, loopgen
from models import Some, NONE, Ok, Err, buf_loc

SRV = 'apiformes_server_lib::'
POLL = 'core::task::poll::Poll'
def Ready(v): return mk('adt', POLL, 0, v)
PENDING = mk('adt', POLL, 1)
PACKET = PK + 'packet::Packet'
SERR = SRV + 'error::ServerError'
FUT = 'core::future::future::Future'

S = {}
def m(*paths):
    def d(fn):
        for p in paths: S[p] = fn
        return fn
    return d
def val(c, i):
    a = c.args[i]
    return c.I.deref_all(c.st, a) if a.op == 'ref' else (c.I.deref(c.st, a) if (c.argty(i) or '').startswith('&') else a)
def unwrap(I_, st, v):
    n = 0
    while n < 12:
        n += 1
        if v.op == 'ref': v = I_.read(st, v.a[0], v.a[1])
        elif v.op == 'box': v = v.a[0]
        elif v.op == 'arc': v = v.a[0]
        else: return v
    return v
def fut(kind, *a): return mk('fut', kind, *a)
def held(st): return st.ctr.get(('held',), ())
def ev(st, *e): st.trace = st.trace + (e,)
def inner_ty(I_, tyi, *path):
    """type index reached by following type arguments"""
    P = I_.prog
    for i in path:
        if tyi is None: return None
        t = P.types[tyi]
        a = t.get('a') or []
        if i >= len(a) or not isinstance(a[i], int): return None
        tyi = a[i]
    return tyi

# ------------------------------------------------------------------ futures
@m('<F as core::future::into_future::IntoFuture>::into_future', 'core::future::get_context', '<T as tracing::instrument::Instrument>::instrument',
   'tracing::instrument::Instrument::instrument', 'tracing::instrument::Instrument::in_current_span', 'core::pin::Pin::<Ptr>::as_mut', 'core::hint::must_use',
   'core::pin::Pin::<alloc::boxed::Box<T, A>>::into_inner', 'alloc::boxed::Box::<T, A>::into_pin')
def _ident(c): return ret(c.st, c.args[0])
@m('tokio::future::poll_fn::poll_fn', 'core::future::poll_fn::poll_fn', 'futures_util::future::poll_fn::poll_fn')
def _pollfn(c): return ret(c.st, mk('pollfn', c.args[0]))
@m('tokio::util::rand::thread_rng_n')
def _rng(c): return ret(c.st, ZERO)
@m('core::future::ready::ready', 'futures_util::future::ready::ready')
def _ready(c): return ret(c.st, fut('ready', c.args[0]))

def poll_hook(c):
    p = c.callee['p']
    if not (p == FUT + '::poll' or p.endswith('Future>::poll') or c.callee.get('tr') == FUT and p.endswith('::poll')): return None
    I_ = c.I
    v = unwrap(I_, c.st, c.args[0])
    outs = []
    sel = c.f.get('id') in I_.pollers
    if sel:
        s = c.st.copy(); ev(s, 'pend', c.f['p'], v); outs.append(Out(s, 'ret', PENDING))
        st = c.st.copy(); ev(st, 'won', c.f['p'], v)
    else: st = c.st
    for o in await_(c, st, v):
        if o.kind == 'ret': outs.append(Out(o.st, 'ret', Ready(o.val)))
        elif o.kind != 'yield': outs.append(o)
    return outs
def await_(c, st, v):
    """ways awaiting future v can complete"""
    I_ = c.I
    if v.op == 'clo' and isinstance(v.a[0], int):
        g = I_.prog.insts[v.a[0]]
        if sum(1 for x, _ in I_.stack if x is g) >= 2: raise Unsupported('recursion: ' + g['p'])
        for h in I_.coro_hooks:
            r = h(c, st, g, v)
            if r is not None: return r
        return I_.run(g, [v, UNIT], st, c.depth + 1, c.loc)
    if v.op == 'pollfn':
        st = st.copy(); cell = ('PF', c.depth, c.b)
        clo = v.a[0]; g = I_.prog.insts[clo.a[0]] if clo.op == 'clo' and isinstance(clo.a[0], int) else None
        if g is None: return havoc_fut(c, st, v)
        ev(st, 'select', g['p'], I(c.depth))
        st.mem[cell] = clo
        I_.pollers.append(g['id'])
        try: outs = I_.call_value(c.f, c.b, mk('ref', cell, ()), [UNIT], st, c.depth, c.loc, None)
        finally: I_.pollers.pop()
        res = []
        for o in outs:
            if o.kind != 'ret': res.append(o); continue
            o.st.mem.pop(cell, None)
            if o.val is PENDING and not o.st.ctr.get(('tainted',)):
                # what the select waits for when nothing is ready
                w = []
                for e in reversed(list(o.st.trace)):
                    if e[0] == 'select' and e[1] == g['p']: break
                    if e[0] == 'won' and e[1] == g['p']: w = None; break
                    if e[0] == 'pend' and e[1] == g['p']: w.append(e[2])
                if w is not None: I_.world.waits.setdefault(g['p'], set()).add(tuple(w))
            o.st = o.st.copy(); ev(o.st, 'done', g['p'])
            if o.val.op == 'adt' and o.val.a[1] == 0: res.append(Out(o.st, 'ret', o.val.a[2]))
            elif o.val.op != 'adt': o.st.ctr[('tainted',)] = 1; res.append(Out(o.st, 'ret', o.val))
        return res
    if v.op == 'fut':
        k = AW.get(v.a[0])
        if k is not None: return k(c, st.copy(), v)
    return havoc_fut(c, st, v)
def topics_hook(c, st, g, v):
    """operations of the subscription table are steps of their own (their bodies are decided by S10 and S11)"""
    p = g['p']
    if not p.startswith(SRV + 'topics::TopicsTable::') or not p.endswith('::{closure#0}') or c.I.topics_inline: return None
    name = p[len(SRV + 'topics::TopicsTable::'):-len('::{closure#0}')]
    st = st.copy(); r = UNIT
    wait(c, st, 'topics', UNIT)
    rt = g['body']['locals'][0][0]
    args = [unwrap(c.I, st, x) for x in v.a[1:]]
    c.I.world.subscribed(c.I, st, args)
    if c.I.prog.tname(rt) != '()':
        r = st.fresh(None, 'topics', name, c.f['p'], c.b); c.I.reg(r, rt)
    ev(st, 'topics', name, tuple(args), r)
    return ret(st, r)
def havoc_fut(c, st, v):
    st = st.copy(); st.ctr[('tainted',)] = 1
    c.I.unmodelled['await %s in %s' % (v.a[0] if v.op == 'fut' else show(v)[:80], c.f['p'])] = 1
    return ret(st, st.fresh(None, 'call', 'await', c.f['p'], c.b))
AW = {}
def aw(kind):
    def d(fn): AW[kind] = fn; return fn
    return d
def wait(c, st, kind, obj):
    ev(st, 'wait', kind, obj, held(st), c.f['p'])
@aw('ready')
def _aready(c, st, v): return ret(st, v.a[1])
def simple(kind, ctor):
    """library future without a body: records what it waits for"""
    AW[kind] = ctor

# ------------------------------------------------------------------ notify, sleep, join
def ident_sym(c, tag):
    st = c.st.copy(); return st, st.fresh(None, tag, c.f['p'], c.b)
@m('tokio::sync::notify::Notify::new')
def _nnew(c): st, s = ident_sym(c, 'notify'); return ret(st, s)
@m('tokio::sync::notify::Notify::notified')
def _notified(c): return ret(c.st, fut('notified', unwrap(c.I, c.st, c.args[0])))
@m('tokio::sync::notify::Notify::notify_one', 'tokio::sync::notify::Notify::notify_waiters')
def _notify(c):
    st = c.st.copy(); ev(st, 'notify', unwrap(c.I, st, c.args[0]), 'one' if c.path.endswith('one') else 'all'); return ret(st, UNIT)
@aw('notified')
def _anotified(c, st, v): wait(c, st, 'notified', v.a[1]); return ret(st, UNIT)
@m('tokio::time::driver::sleep::sleep', 'tokio::time::sleep::sleep')
def _sleep(c): return ret(c.st, fut('sleep', c.args[0]))
@aw('sleep')
def _asleep(c, st, v): wait(c, st, 'sleep', v.a[1]); return ret(st, UNIT)
@m('core::time::Duration::new')
def _dur(c): return ret(c.st, mk('dur', c.args[0]))
@m('core::time::Duration::from_secs')
def _durs(c): return ret(c.st, mk('dur', c.args[0]))
@m('core::time::Duration::from_millis')
def _durm(c): return ret(c.st, mk('durms', c.args[0]))
@m('tokio::time::timeout::timeout')
def _timeout(c): return ret(c.st, fut('timeout', c.args[0], c.args[1]))
@aw('timeout')
def _atimeout(c, st, v):
    s = st.copy(); ev(st, 'select', c.f['p'], I(c.depth)); ev(s, 'select', c.f['p'], I(c.depth))
    ev(s, 'won', c.f['p'], fut('sleep', v.a[1])); wait(c, s, 'sleep', v.a[1])
    ev(st, 'won', c.f['p'], unwrap(c.I, st, v.a[2]))
    ev(s, 'done', c.f['p'])
    outs = [Out(s, 'ret', Err(mk('adt', 'tokio::time::error::Elapsed', 0)))]
    for o in await_(c, st, unwrap(c.I, st, v.a[2])):
        if o.kind == 'ret': o.st = o.st.copy(); ev(o.st, 'done', c.f['p'])
        outs.append(Out(o.st, 'ret', Ok(o.val)) if o.kind == 'ret' else o)
    return outs
@m('tokio::task::spawn::spawn')
def _spawn(c):
    st = c.st.copy(); v = unwrap(c.I, st, c.args[0])
    ev(st, 'spawn', v); c.I.world.spawned(c, st, v)
    return ret(st, fut('join', v))
@aw('join')
def _ajoin(c, st, v):
    wait(c, st, 'join', v.a[1]); s2 = st.copy()
    r = st.fresh(None, 'joined', c.f['p'], c.b)
    return [Out(st, 'ret', Ok(r)), Out(s2, 'ret', Err(s2.fresh(None, 'joinerr')))]
def opaque_join(c, st, v):
    wait(c, st, 'join', v); s2 = st.copy()
    return [Out(st, 'ret', Ok(UNIT)), Out(s2, 'ret', Err(s2.fresh(None, 'joinerr')))]

# ------------------------------------------------------------------ channels
@m('tokio::sync::mpsc::unbounded::unbounded_channel')
def _uchan(c): st, s = ident_sym(c, 'chan'); return ret(st, mk('tup', mk('utx', s), mk('urx', s)))
@m('tokio::sync::mpsc::bounded::channel')
def _bchan(c):
    st, s = ident_sym(c, 'bchan'); outs = []
    ev(st, 'channel', s, c.args[0], c.targ(0) or '')
    for x, nz in c.I.branch(st, ge0(add(c.args[0], I(-1)))):
        outs.append(Out(x, 'ret', mk('tup', mk('btx', s), mk('brx', s))) if nz else c.panic(x, 'panic: mpsc::channel with capacity 0'))
    return outs
def send_outs(c, st, ch, v, kind, errv):
    s2 = st.copy()
    ev(st, 'send', kind, ch, v, TRUE); c.I.world.sent(ch, v, st)
    ev(s2, 'send', kind, ch, v, FALSE)
    return [Out(st, 'ret', Ok(UNIT)), Out(s2, 'ret', Err(errv))]
@m('tokio::sync::mpsc::unbounded::UnboundedSender::<T>::send')
def _usend(c):
    ch = unwrap(c.I, c.st, c.args[0]); v = c.args[1]
    return send_outs(c, c.st.copy(), chan(ch), v, 'u', mk('adt', 'tokio::sync::mpsc::error::SendError', 0, v))
def chan(ch): return ch.a[0] if ch.op in ('utx', 'urx', 'btx', 'brx') else ch
ENDS = ('utx', 'urx', 'btx', 'brx')
@m('tokio::sync::mpsc::bounded::Sender::<T>::send')
def _bsend(c): return ret(c.st, fut('bsend', unwrap(c.I, c.st, c.args[0]), c.args[1]))
@m('tokio::sync::mpsc::bounded::Sender::<T>::try_send')
def _btsend(c):
    ch = unwrap(c.I, c.st, c.args[0]); v = c.args[1]
    return send_outs(c, c.st.copy(), chan(ch), v, 'try', c.st.fresh(None, 'trysenderr'))
@aw('bsend')
def _absend(c, st, v):
    wait(c, st, 'bsend', chan(v.a[1]))
    return send_outs(c, st, chan(v.a[1]), v.a[2], 'b', mk('adt', 'tokio::sync::mpsc::error::SendError', 0, v.a[2]))
def elemty(c, i):
    """type argument T of the channel end behind argument i"""
    P = c.I.prog; ty = c.argtys[i] if c.argtys and i < len(c.argtys) else None
    while ty is not None and P.types[ty]['k'] == 'ref': ty = P.types[ty]['e']
    return inner_ty(c.I, ty, 0)
@m('tokio::sync::mpsc::unbounded::UnboundedReceiver::<T>::recv', 'tokio::sync::mpsc::bounded::Receiver::<T>::recv')
def _recv(c): return ret(c.st, fut('recv', unwrap(c.I, c.st, c.args[0]), I(elemty(c, 0) if elemty(c, 0) is not None else -1)))
@m('tokio::sync::mpsc::unbounded::UnboundedReceiver::<T>::try_recv', 'tokio::sync::mpsc::bounded::Receiver::<T>::try_recv')
def _tryrecv(c):
    ch = chan(unwrap(c.I, c.st, c.args[0])); st = c.st.copy()
    outs = [Out(c.st.copy(), 'ret', Err(c.st.fresh(None, 'tryrecverr')))]
    for k, x in c.I.world.received(c, st, ch, None):
        s = st.copy(); c.I.world.related(k, x, s); ev(s, 'recv', ch, x); outs.append(Out(s, 'ret', Ok(x)))
    return outs
@aw('recv')
def _arecv(c, st, v):
    ch = chan(v.a[1]); wait(c, st, 'recv', ch)
    s2 = st.copy(); ev(s2, 'recv', ch, NONE)
    outs = [Out(s2, 'ret', NONE)]
    for k, x in c.I.world.received(c, st, ch, v.a[2].a[0]):
        s = st.copy(); c.I.world.related(k, x, s); ev(s, 'recv', ch, x); outs.append(Out(s, 'ret', Some(x)))
    return outs

# ------------------------------------------------------------------ locks
@m('tokio::sync::rwlock::RwLock::<T>::new', 'tokio::sync::mutex::Mutex::<T>::new')
def _lnew(c): st, s = ident_sym(c, 'lock'); return ret(st, mk('rwlock', s, c.args[0]))
def lockfut(mode):
    def g(c):
        P = c.I.prog; ty = c.argtys[0] if c.argtys else None
        while ty is not None and P.types[ty]['k'] == 'ref': ty = P.types[ty]['e']
        t = inner_ty(c.I, ty, 0)
        return ret(c.st, fut('lock', I(mode), unwrap(c.I, c.st, c.args[0]), I(t if t is not None else -1)))
    return g
S['tokio::sync::rwlock::RwLock::<T>::read'] = lockfut(0)
S['tokio::sync::rwlock::RwLock::<T>::write'] = lockfut(1)
S['tokio::sync::mutex::Mutex::<T>::lock'] = lockfut(1)
def lock_id(L): return L.a[0] if L.op == 'rwlock' else L
@aw('lock')
def _alock(c, st, v):
    mode = v.a[1].a[0]; L = lock_id(v.a[2])
    wait(c, st, 'lock', L)
    ct = st.fresh(None, 'content', L)
    ct = c.I.reg(ct, v.a[3].a[0] if v.a[3].a[0] >= 0 else None)
    g = mk('guard', I(mode), L, ct)
    st.ctr[('held',)] = held(st) + (g,)
    ev(st, 'acq', mode, L, g)
    return ret(st, g)
@m('<tokio::sync::rwlock::read_guard::RwLockReadGuard<\'_, T> as core::ops::deref::Deref>::deref', '<tokio::sync::rwlock::write_guard::RwLockWriteGuard<\'_, T> as core::ops::deref::Deref>::deref',
   '<tokio::sync::rwlock::write_guard::RwLockWriteGuard<\'_, T> as core::ops::deref::DerefMut>::deref_mut',
   '<tokio::sync::mutex::MutexGuard<\'_, T> as core::ops::deref::Deref>::deref', '<tokio::sync::mutex::MutexGuard<\'_, T> as core::ops::deref::DerefMut>::deref_mut')
def _gderef(c):
    g = c.I.deref_all(c.st, c.args[0])
    if g.op != 'guard': return None
    return ret(c.st, mk('ref', ('M', g.a[2]), ()))
def guards_in(v, n=0):
    if not isinstance(v, T) or n > 6: return []
    if v.op == 'guard': return [v]
    if v.op in ('adt', 'tup', 'clo', 'box', 'arc', 'fut', 'pollfn', 'upd', 'arr'):
        r = []
        for x in v.a: r += guards_in(x, n + 1)
        return r
    return []
def drop_hook(I_, st, v, f, b, t):
    for g in guards_in(v):
        h = held(st)
        if g in h:
            st.ctr = dict(st.ctr); st.ctr[('held',)] = tuple(x for x in h if x is not g)
            ev(st, 'rel', g.a[1], g)

# shared maps: remember what is put in
def lock_of_content(ct):
    if ct.op == 'sym' and ct.a[0] == 'content': return ct.a[1]
    return None
def map_root(c, i=0):
    loc, mp = buf_loc(c.I, c.st, c.args[i])
    L = lock_of_content(loc[0][1]) if loc and loc[0][0] == 'M' and isinstance(loc[0][1], T) else None
    return loc, mp, (L if loc and not loc[1] else None), (L, loc[1] if loc else ())
def mop(I_, st, op, loc, k, v=UNIT, had=UNIT):
    """an operation on a map or set inside the subscription table (only while its bodies are analysed)"""
    if I_.topics_inline and loc is not None: ev(st, 'mop', op, mk('ref', *loc), k, v, had, I_.read(st, *loc))
HMP = models.HM
def wrap_map(path, kind):
    base = M[path]
    def g(c):
        loc, mp, L, sub_ = map_root(c)
        r = base(c)
        if r is None: return r
        k = models.keynorm(c.args[1]) if kind == 'ins' else models.keyarg(c, c.args[1])
        v = c.args[2] if kind == 'ins' and len(c.args) > 2 else UNIT
        for o in r:
            if o.kind == 'ret' and c.I.topics_inline: o.st = o.st.copy(); mop(c.I, o.st, kind, loc, k, v, I(o.val.op == 'adt' and o.val.a[1] == 1))
        if L is None: return r
        for o in r:
            if o.kind != 'ret': continue
            had = o.val.op == 'adt' and o.val.a[1] == 1
            ev(o.st, kind, L, loc[0][1], k, v, I(had))
            if kind == 'ins': c.I.world.inserted(L, k, v)
            if had and kind in ('ins', 'rem', 'get'): pass
        return r
    S[path] = g
for n_, k_ in (('insert', 'ins'), ('remove', 'rem')): wrap_map(HMP + n_, k_)
@m(HMP + 'clear', 'std::collections::hash::set::HashSet::<T, S, A>::clear')
def _hclear(c):
    loc, mp, L, _ = map_root(c)
    if loc is None: return None
    st = c.st.copy(); c.I.write(st, loc[0], loc[1], mk('hmnew')); mop(c.I, st, 'clear', loc, UNIT, UNIT, FALSE); return ret(st, UNIT)
@m(HMP.replace('K, V, S, A', 'K, V, S, A') + 'len', 'std::collections::hash::set::HashSet::<T, S, A>::len')
def _hlen(c):
    if not c.I.topics_inline: return M[c.path](c) if c.path in M else None
    loc, mp, L, _ = map_root(c)
    if mp.op == 'hmnew': return ret(c.st, ZERO)
    return ret(c.st, typed(mk('hmlen', mp), 'usize'))
HSP = 'std::collections::hash::set::HashSet::<T, S, A>::'
def wrap_set(path, kind):
    base = M[path]
    def g(c):
        if not c.I.topics_inline: return base(c)
        loc, mp, L, sub_ = map_root(c)
        r = base(c)
        k = models.keynorm(c.args[1]) if kind == 'ins' else models.keyarg(c, c.args[1])
        for o in r or ():
            if o.kind == 'ret': o.st = o.st.copy(); mop(c.I, o.st, kind, loc, k, UNIT, I(o.val.a[0] != (kind == 'ins')))
        return r
    S[path] = g
for n_, k_ in (('insert', 'ins'), ('remove', 'rem'), ('contains', 'get')):
    if HSP + n_ in M: wrap_set(HSP + n_, k_)
def entry_val(c, st, mp, k, tyi):
    """value of present key k: one of the values put into that map, as another instance"""
    return None
@m(HMP + 'get', HMP + 'get_mut')
def _hget(c):
    loc, mp, L, _ = map_root(c)
    r = M[c.path](c)
    if r is None: return r
    k = models.keyarg(c, c.args[1])
    for o in r:
        if o.kind == 'ret': mop(c.I, o.st, 'get', loc, k, UNIT, I(o.val.op == 'adt' and o.val.a[1] == 1))
        if o.kind == 'ret' and L is not None: ev(o.st, 'get', L, loc[0][1], k, I(o.val.op == 'adt' and o.val.a[1] == 1))
    return r
@m(HMP + 'contains_key')
def _hhas(c):
    loc, mp, L, _ = map_root(c)
    k = models.keyarg(c, c.args[1]); outs = []
    if L is None:
        if not c.I.topics_inline: return M[c.path](c)
        for s, has in c.I.branch(c.st, HAS_(mp, k)):
            s = s.copy(); mop(c.I, s, 'get', loc, k, UNIT, I(has)); outs.append(Out(s, 'ret', I(has)))
        return outs
    for s, has in c.I.branch(c.st, HAS_(mp, k)):
        s = s.copy(); mop(c.I, s, 'get', loc, k, UNIT, I(has)); ev(s, 'get', L, loc[0][1], k, I(has)); outs.append(Out(s, 'ret', I(has)))
    return outs
HAS_ = models.HAS
# entry API
@m(HMP + 'entry')
def _entry(c):
    if c.args[0].op != 'ref': return None
    loc, mp, L, _ = map_root(c); k = models.keynorm(c.args[1]); outs = []
    for s, has in c.I.branch(c.st, HAS_(mp, k)):
        s = s.copy(); mop(c.I, s, 'get', loc, k, UNIT, I(has))
        if L is not None: ev(s, 'get', L, loc[0][1], k, I(has))
        e = mk('hment', mk('ref', *loc), k)
        outs.append(Out(s, 'ret', mk('adt', 'std::collections::hash::map::Entry', 0 if has else 1, e)))
    return outs
OE = 'std::collections::hash::map::OccupiedEntry::<\'a, K, V, A>::'; VE = 'std::collections::hash::map::VacantEntry::<\'a, K, V, A>::'
EN = 'std::collections::hash::map::Entry::<\'a, K, V, A>::'
def ent(c):
    e = c.I.deref_all(c.st, c.args[0]) if c.args[0].op == 'ref' else c.args[0]
    return e if e.op == 'hment' else None
def ent_put(c, st, e, v):
    loc = e.a[0].a; mp = c.I.read(st, *loc); k = e.a[1]
    c.I.write(st, loc[0], loc[1], mk('hmins', mp, k, v))
    L = lock_of_content(loc[0][1]) if loc[0][0] == 'M' and not loc[1] else None
    had = st.facts.decide(HAS_(mp, k))
    mop(c.I, st, 'ins', loc, k, v, I(bool(had)))
    if L is not None: ev(st, 'ins', L, loc[0][1], k, v, I(bool(had))); c.I.world.inserted(L, k, v)
    return mk('ref', loc[0], loc[1] + (('hm', k),))
@m(OE + 'get', OE + 'get_mut', OE + 'into_mut')
def _oget(c):
    e = ent(c)
    if e is None: return None
    loc = e.a[0].a
    return ret(c.st, mk('ref', loc[0], loc[1] + (('hm', e.a[1]),)))
@m(OE + 'insert')
def _oins(c):
    e = ent(c)
    if e is None: return None
    st = c.st.copy(); loc = e.a[0].a; old = models.GET(c.I.read(st, *loc), e.a[1]); ent_put(c, st, e, c.args[1]); return ret(st, old)
@m(OE + 'remove')
def _orem(c):
    e = ent(c)
    if e is None: return None
    st = c.st.copy(); loc = e.a[0].a; mp = c.I.read(st, *loc); old = models.GET(mp, e.a[1])
    c.I.write(st, loc[0], loc[1], mk('hmrem', mp, e.a[1])); mop(c.I, st, 'rem', loc, e.a[1], UNIT, TRUE)
    L = lock_of_content(loc[0][1]) if loc[0][0] == 'M' and not loc[1] else None
    if L is not None: ev(st, 'rem', L, loc[0][1], e.a[1], UNIT, TRUE)
    return ret(st, old)
@m(VE + 'insert')
def _vins(c):
    e = ent(c)
    if e is None: return None
    st = c.st.copy(); return ret(st, ent_put(c, st, e, c.args[1]))
def or_insert(mkval):
    def g(c):
        e = c.args[0]
        if e.op != 'adt' or e.a[2].op != 'hment': return None
        if e.a[1] == 0:
            loc = e.a[2].a[0].a; return ret(c.st, mk('ref', loc[0], loc[1] + (('hm', e.a[2].a[1]),)))
        outs = []
        for o in mkval(c):
            if o.kind != 'ret': outs.append(o); continue
            s = o.st.copy(); outs.append(Out(s, 'ret', ent_put(c, s, e.a[2], o.val)))
        return outs
    return g
S[EN + 'or_insert'] = or_insert(lambda c: ret(c.st, c.args[1]))
S[EN + 'or_insert_with'] = or_insert(lambda c: c.call(c.args[1], []))
def _default(c):
    n = c.rettyname() or ''
    if 'HashMap' in n or 'HashSet' in n: return ret(c.st, mk('hmnew'))
    if 'Vec<' in n: return ret(c.st, mk('vec', ZERO))
    return ret(c.st, c.freshret(c.st.copy(), 'default'))
S[EN + 'or_default'] = S["std::collections::hash::map::Entry::<'a, K, V>::or_default"] = or_insert(_default)
@m(EN + 'and_modify')
def _andmod(c):
    e = c.args[0]
    if e.op != 'adt' or e.a[2].op != 'hment': return None
    if e.a[1] != 0: return ret(c.st, e)
    loc = e.a[2].a[0].a; outs = []
    for o in c.call(c.args[1], [mk('ref', loc[0], loc[1] + (('hm', e.a[2].a[1]),))]): outs.append(Out(o.st, 'ret', e) if o.kind == 'ret' else o)
    return outs

# ------------------------------------------------------------------ sockets
@m('tokio::net::tcp::listener::TcpListener::bind')
def _bind(c): return ret(c.st, fut('bind', c.args[0]))
def io_err(c, st): 
    e = st.fresh(None, 'ioerr', c.f['p'], c.b); return e
@aw('bind')
def _abind(c, st, v):
    s2 = st.copy(); wait(c, st, 'bind', v.a[1]); return [Out(st, 'ret', Ok(st.fresh(None, 'listener', c.f['p'], c.b))), Out(s2, 'ret', Err(io_err(c, s2)))]
@m('tokio::net::tcp::stream::TcpStream::connect')
def _connect(c): return ret(c.st, fut('connect', c.args[0]))
@aw('connect')
def _aconnect(c, st, v):
    wait(c, st, 'connect', UNIT); s2 = st.copy()
    return [Out(st, 'ret', Ok(st.fresh(None, 'sock', c.f['p'], c.b))), Out(s2, 'ret', Err(io_err(c, s2)))]
@m('tokio::net::tcp::listener::TcpListener::accept')
def _accept(c): return ret(c.st, fut('accept', unwrap(c.I, c.st, c.args[0])))
@aw('accept')
def _aaccept(c, st, v):
    wait(c, st, 'accept', v.a[1]); s2 = st.copy()
    x = st.fresh(None, 'sock', c.f['p'], c.b)
    ev(st, 'accepted', x)
    return [Out(st, 'ret', Ok(mk('tup', x, st.fresh(None, 'addr', c.f['p'], c.b)))), Out(s2, 'ret', Err(io_err(c, s2)))]
@m('tokio::net::tcp::stream::TcpStream::into_split')
def _split(c): return ret(c.st, mk('tup', mk('sockr', c.args[0]), mk('sockw', c.args[0])))
@m('tokio::io::util::async_read_ext::AsyncReadExt::take', 'tokio::io::util::async_read_ext::AsyncReadExt::take')
def _take(c): return ret(c.st, mk('rtake', c.args[0], c.args[1]))
@m('tokio::io::util::take::Take::<R>::set_limit')
def _setlimit(c):
    loc, v = buf_loc(c.I, c.st, c.args[0])
    if v.op != 'rtake': return None
    st = c.st.copy(); c.I.write(st, loc[0], loc[1], mk('rtake', v.a[0], c.args[1])); return ret(st, UNIT)
@m('tokio::io::util::take::Take::<R>::limit')
def _limit(c):
    loc, v = buf_loc(c.I, c.st, c.args[0])
    return ret(c.st, v.a[1]) if v.op == 'rtake' else None
@m('tokio::io::util::async_read_ext::AsyncReadExt::read_buf')
def _readbuf(c): return ret(c.st, fut('readbuf', c.args[0], c.args[1]))
def bb(c, st, ref):
    loc, v = buf_loc(c.I, st, ref)
    return loc, v
def blen(c, st, v): return c.I.length(st, v)
@aw('readbuf')
def _areadbuf(c, st, v):
    wait(c, st, 'read', UNIT)
    rl, r = buf_loc(c.I, st, v.a[1]); bl, b = buf_loc(c.I, st, v.a[2])
    s2 = st.copy()
    n = st.fresh('usize', 'nread', c.f['p'], c.b); ATOM_RNG.setdefault(n, (0, 2**40))
    if r.op == 'rtake':
        try: st.facts.assume(ge0(sub(r.a[1], n)))
        except Infeasible: return [Out(s2, 'ret', Err(io_err(c, s2)))]
        src = r.a[0]
        c.I.write(st, rl[0], rl[1], mk('rtake', r.a[0], sub(r.a[1], n)))
        lim = r.a[1]
    else: src = r; lim = UNIT
    L = blen(c, st, b)
    nb = mk('bbuf', st.fresh(None, 'bytes', c.f['p'], c.b), add(L, n)); c.I.write(st, bl[0], bl[1], nb)
    ev(st, 'readbuf', src, b, n, L, lim, I(bl[0][1] if bl[0][0] == 'L' else -1), nb)
    ev(s2, 'readerr', src)
    return [Out(st, 'ret', Ok(n)), Out(s2, 'ret', Err(io_err(c, s2)))]
@m('tokio::io::util::async_write_ext::AsyncWriteExt::write_all_buf', 'tokio::io::util::async_write_ext::AsyncWriteExt::write_all')
def _wab(c): return ret(c.st, fut('writeall', c.args[0], c.args[1], mk('str', c.path.split('::')[-1])))
@aw('writeall')
def _awab(c, st, v):
    wait(c, st, 'write', UNIT)
    w = unwrap(c.I, st, v.a[1]); b = unwrap(c.I, st, v.a[2]); s2 = st.copy()
    ev(st, 'write', w, b, TRUE); ev(s2, 'write', w, b, FALSE)
    if v.a[3].a[0] == 'write_all_buf':
        bl, x = buf_loc(c.I, st, v.a[2])
        if bl is not None and x.op == 'bbuf':
            c.I.write(st, bl[0], bl[1], mk('bbuf', mk('bempty'), ZERO))
            n = s2.fresh('usize', 'nleft', c.f['p'], c.b); ATOM_RNG.setdefault(n, (0, 2**40))
            c.I.write(s2, bl[0], bl[1], mk('bbuf', s2.fresh(None, 'bytes', c.f['p'], c.b), n))
    return [Out(st, 'ret', Ok(UNIT)), Out(s2, 'ret', Err(io_err(c, s2)))]
@m('tokio::io::util::async_write_ext::AsyncWriteExt::write_buf', 'tokio::io::util::async_write_ext::AsyncWriteExt::write')
def _wpart(c): return ret(c.st, fut('writepart', c.args[0], c.args[1], c.args[1]))
@aw('writepart')
def _awpart(c, st, v):
    wait(c, st, 'write', UNIT)
    w = unwrap(c.I, st, v.a[1]); b = unwrap(c.I, st, v.a[2]); s2 = st.copy()
    n = st.fresh('usize', 'nwritten', c.f['p'], c.b); ATOM_RNG.setdefault(n, (0, 2**40))
    try: st.facts._ge(sub(c.I.length(st, b), n))
    except Infeasible: pass
    ev(st, 'write', w, mk('part', b, n), TRUE); ev(s2, 'write', w, mk('part', b, n), FALSE)
    return [Out(st, 'ret', Ok(n)), Out(s2, 'ret', Err(io_err(c, s2)))]
for n_ in ('flush', 'shutdown'):
    S['tokio::io::util::async_write_ext::AsyncWriteExt::' + n_] = (lambda c: ret(c.st, fut('flush', c.args[0])))
@aw('flush')
def _aflush(c, st, v):
    wait(c, st, 'write', UNIT); s2 = st.copy()
    return [Out(st, 'ret', Ok(UNIT)), Out(s2, 'ret', Err(io_err(c, s2)))]

# ------------------------------------------------------------------ byte buffers: bbuf(identity, length)
def new_bbuf(c, L, *tag):
    st = c.st.copy(); return st, mk('bbuf', st.fresh(None, 'bytes', c.f['p'], c.b), L)
@m('bytes::bytes_mut::BytesMut::with_capacity', 'bytes::bytes_mut::BytesMut::new', '<bytes::bytes_mut::BytesMut as core::default::Default>::default')
def _bnew(c): return ret(c.st, mk('bbuf', mk('bempty'), ZERO))
@m('<bytes::bytes_mut::BytesMut as bytes::buf::buf_impl::Buf>::advance', 'bytes::bytes_mut::BytesMut::split_to', '<bytes::bytes_mut::BytesMut as bytes::buf::Buf>::advance')
def _badv(c):
    loc, v = buf_loc(c.I, c.st, c.args[0]); n = c.args[1]
    if v.op not in ('bbuf', 'sym', 'fld', 'elem', 'upd'): return None
    outs = []; L = c.I.length(c.st, v)
    for s, ok in c.I.branch(c.st, ge0(sub(L, n))):
        if not ok: outs.append(c.panic(s, 'panic: advance past the end of the buffer')); continue
        s = s.copy(); nb = mk('bbuf', mk('badv', v.a[0] if v.op == 'bbuf' else v, n), sub(L, n)); c.I.write(s, loc[0], loc[1], nb)
        ev(s, 'advance', v, n, nb)
        outs.append(Out(s, 'ret', UNIT if c.path.endswith('advance') else mk('bbuf', mk('bhead', v, n), n)))
    return outs
@m('bytes::bytes_mut::BytesMut::clear')
def _bclear(c):
    loc, v = buf_loc(c.I, c.st, c.args[0]); st = c.st.copy(); nb = mk('bbuf', mk('bempty'), ZERO); ev(st, 'advance', v, c.I.length(st, v), nb); c.I.write(st, loc[0], loc[1], nb); return ret(st, UNIT)
@m('bytes::bytes_mut::BytesMut::reserve')
def _bres(c): return ret(c.st, UNIT)
def is_blob(v): return v.op in ('bbuf', 'blob')
def server_len(I_, st, v, p):
    if p == ('len',):
        if v.op == 'bbuf': return v.a[1]
        if v.op == 'blob': return v.a[1]
    return None
@m('<bytes::bytes_mut::BytesMut as bytes::buf::buf_impl::Buf>::remaining', '<bytes::bytes::Bytes as bytes::buf::buf_impl::Buf>::remaining')
def _brem(c): return ret(c.st, c.I.length(c.st, val(c, 0)))
@m('core::io::cursor::Cursor::<T>::position', 'std::io::cursor::Cursor::<T>::position')
def _curpos(c):
    v = val(c, 0)
    return ret(c.st, v.a[3]) if v.op == 'adt' and v.a[0].endswith('cursor::Cursor') and len(v.a) > 3 else None
@m('alloc::vec::Vec::<T, A>::truncate', 'bytes::bytes_mut::BytesMut::truncate', 'bytes::bytes::Bytes::truncate')
def _trunc(c):
    loc, v = buf_loc(c.I, c.st, c.args[0]); n = c.args[1]
    if loc is None or v.op not in ('blob', 'bslice', 'bbuf'): return None
    outs = []; L = c.I.length(c.st, v)
    for s, ok in [(c.st, False)] if c.st.facts.prove_ge0(sub(L, n)) else c.I.branch(c.st, ge0(sub(n, L))):
        s = s.copy()
        if not ok:
            if v.op == 'bbuf': c.I.write(s, loc[0], loc[1], mk('bbuf', mk('bhead', v, n), n))
            else: c.I.write(s, loc[0], loc[1], mk('bslice', v, ZERO, n) if v.op == 'blob' else mk('bslice', v.a[0], v.a[1], n))
        outs.append(Out(s, 'ret', UNIT))
    return outs
@m('alloc::vec::from_elem')
def _felem(c): return ret(c.st, mk('blob', mk('zeros'), c.args[1])) if c.targ(0) in (None, 'u8') else None
def slice_hook(c):
    """subslices of abstract byte buffers"""
    p = c.callee['p']
    if not (p.endswith('Index::index') or p.endswith('IndexMut::index_mut') or '::index' in p and 'index::Index' in p): return None
    v = val(c, 0)
    if not (v.op in ('bbuf', 'blob', 'bslice', 'rep') or (c.argty(0) or '').replace('&mut ', '&') in ('&[u8]', '&alloc::vec::Vec<u8,alloc::alloc::Global>', '&bytes::bytes_mut::BytesMut', '&bytes::bytes::Bytes') or (c.argty(0) or '').replace('&mut ', '&').startswith('&[u8;')): return None
    r = c.args[1]; L = c.I.length(c.st, v)
    rn = r.a[0] if r.op == 'adt' else ''
    if rn.endswith('RangeFull') or r is UNIT or rn == '': lo, hi = ZERO, L
    elif rn.endswith('RangeTo'): lo, hi = ZERO, r.a[2]
    elif rn.endswith('RangeFrom'): lo, hi = r.a[2], L
    elif rn.endswith('::Range'): lo, hi = r.a[2], r.a[3]
    else: return None
    if lo is ZERO and hi is L: return ret(c.st, c.args[0] if c.args[0].op == 'ref' else c.I.ref_to(v))
    outs = []
    for s, ok in c.I.branch(c.st, b_and(ge0(sub(L, hi)), ge0(sub(hi, lo)))):
        if not ok: outs.append(c.panic(s, 'panic: slice index out of range')); continue
        outs.append(Out(s, 'ret', c.I.ref_to(mk('bslice', v, lo, sub(hi, lo)))))
    return outs
def slice_len(I_, st, v, p):
    if p == ('len',) and v.op == 'bslice': return v.a[2]
    return None

@m('core::io::cursor::Cursor::<T>::new', 'std::io::cursor::Cursor::<T>::new')
def _cursor(c): return ret(c.st, mk('adt', 'core::io::cursor::Cursor', 0, c.args[0], ZERO))
for nm_, ad_, va_ in (('Ok', models.RES, 0), ('Err', models.RES, 1), ('Some', models.OPT, 1)):
    S['%s::%s' % (ad_, nm_)] = (lambda c, ad_=ad_, va_=va_: ret(c.st, mk('adt', ad_, va_, c.args[0])))
# ------------------------------------------------------------------ packets
def packet_hook(c):
    p = c.path
    if p == PACKET + '::from_bytes':
        loc, src = buf_loc(c.I, c.st, c.args[0])
        st = c.st.copy()
        k = st.fresh(None, 'packet', c.f['p'], c.b); ATOM_TY[k] = PACKET; ATOM_META[k] = PACKET
        ti = c.I.prog.types[c.retty]['a'][0] if c.retty is not None else None
        if ti is not None: c.I.reg(k, ti)
        s2 = st.copy()
        e = s2.fresh(None, 'perr', c.f['p'], c.b)
        if ti is not None: c.I.reg(e, c.I.prog.types[c.retty]['a'][1])
        d = src
        while d.op in ('adt', 'take', 'ref', 'upd'):
            if d.op == 'ref': d = c.I.read(st, d.a[0], d.a[1])
            elif d.op == 'upd': d = d.a[0]
            elif d.op == 'adt' and len(d.a) > 2: d = d.a[2]
            elif d.op == 'take': d = d.a[0]
            else: break
        fl = typed(mk('framelen', k), 'usize'); ATOM_RNG.setdefault(fl, (2, 2**28 + 4))
        try: st.facts._ge(sub(c.I.length(st, d), fl))
        except Infeasible: pass
        ev(st, 'decode', d, k); ev(s2, 'decode', d, NONE, e)
        if src.op == 'adt' and src.a[0].endswith('cursor::Cursor') and loc is not None: c.I.write(st, loc[0], loc[1], mk('adt', src.a[0], src.a[1], src.a[2], add(src.a[3], fl)))
        return [Out(st, 'ret', Ok(k)), Out(s2, 'ret', Err(e))]
    if p == PACKET + '::to_bytes':
        pk = unwrap(c.I, c.st, c.args[0]); loc, b = buf_loc(c.I, c.st, c.args[1])
        st = c.st.copy(); fl = typed(mk('framelen', pk), 'usize'); ATOM_RNG.setdefault(fl, (2, 2**28 + 4))
        c.I.write(st, loc[0], loc[1], mk('bbuf', mk('enc', b.a[0] if b.op == 'bbuf' else mk('bempty') if c.I.length(st, b) is ZERO else b, pk), add(c.I.length(st, b), fl)))
        ev(st, 'encode', pk)
        return ret(st, UNIT)
    if p == PACKET + '::frame_len':
        pk = unwrap(c.I, c.st, c.args[0])
        fl = typed(mk('framelen', pk), 'usize'); ATOM_RNG.setdefault(fl, (2, 2**28 + 4))
        return ret(c.st, fl)
    return None

# ------------------------------------------------------------------ noise, framed
@m('tokio_util::codec::framed::Framed::<T, U>::new')
def _framed(c): return ret(c.st, mk('framed', c.args[0], c.args[1]))
@m('tokio_util::codec::length_delimited::LengthDelimitedCodec::new')
def _ldc(c): return ret(c.st, mk('ldcodec', mk('dflt')))
@m('tokio_util::codec::length_delimited::LengthDelimitedCodec::builder', 'tokio_util::codec::length_delimited::Builder::new')
def _ldb(c): return ret(c.st, mk('ldb', mk('dflt')))
@m('tokio_util::codec::length_delimited::Builder::max_frame_length')
def _mfl(c):
    loc, v = buf_loc(c.I, c.st, c.args[0]); st = c.st.copy(); c.I.write(st, loc[0], loc[1], mk('ldb', c.args[1])); return ret(st, c.args[0])
@m('tokio_util::codec::length_delimited::LengthDelimitedCodec::set_max_frame_length')
def _smfl(c):
    a = c.args[0]; n = 0
    while n < 6:
        if a.op == 'ref' and a.a[0][0] == 'M' and not a.a[1]: a = a.a[0][1]
        elif a.op == 'deref': a = a.a[0]
        else: break
        n += 1
    if a.op == 'codecref':
        fr = a.a[0]; st = c.st.copy(); v = c.I.read(st, fr.a[0], fr.a[1])
        if v.op != 'framed': return None
        c.I.write(st, fr.a[0], fr.a[1], mk('framed', v.a[0], mk('ldcodec', c.args[1]))); return ret(st, UNIT)
    loc, v = buf_loc(c.I, c.st, c.args[0]); st = c.st.copy(); c.I.write(st, loc[0], loc[1], mk('ldcodec', c.args[1])); return ret(st, UNIT)
@m('tokio_util::codec::framed::Framed::<T, U>::codec_mut')
def _cmut(c):
    a = c.args[0]; n = 0
    while a.op == 'ref' and n < 6:
        v = c.I.read(c.st, a.a[0], a.a[1]); n += 1
        if v.op == 'framed': return ret(c.st, mk('codecref', a))
        a = v
    return None
@m('alloc::rcs::arc::Arc::<T, A>::ptr_eq', 'alloc::sync::Arc::<T, A>::ptr_eq')
def _ptreq(c):
    def target(v):
        n = 0
        while v.op == 'ref' and n < 6: v = c.I.read(c.st, v.a[0], v.a[1]); n += 1
        return v.a[0] if v.op == 'arc' else v
    a, b = target(c.args[0]), target(c.args[1])
    if a is b: return ret(c.st, TRUE)
    if a.id > b.id: a, b = b, a
    return ret(c.st, typed(mk('ptreq', a, b), 'bool'))
@m('tokio_util::codec::length_delimited::Builder::new_codec')
def _nc(c): return ret(c.st, mk('ldcodec', val(c, 0).a[0]))
@m('tokio_util::codec::length_delimited::Builder::new_framed')
def _nf(c): return ret(c.st, mk('framed', c.args[1], mk('ldcodec', val(c, 0).a[0])))
@m('futures_util::stream::stream::StreamExt::next')
def _next(c): return ret(c.st, fut('next', c.args[0]))
@m('tokio::net::tcp::stream::TcpStream::set_nodelay')
def _nodelay(c): return ret(c.st, Ok(UNIT))
@aw('next')
def _anext(c, st, v):
    loc, s = buf_loc(c.I, st, v.a[1])
    if s.op == 'futset' or (ATOM_TY.get(s) or '').startswith('futures_util::stream::futures_unordered'):
        wait(c, st, 'nextjoin', s); outs = []
        s0 = st.copy(); ev(s0, 'joined', NONE); outs.append(Out(s0, 'ret', NONE))
        s1 = st.copy(); e = s1.fresh(None, 'joinerr', c.f['p'], c.b); ev(s1, 'joined', Err(e)); outs.append(Out(s1, 'ret', Some(Err(e))))
        for x in c.I.world.join_result(c, st, s):
            s2 = st.copy(); ev(s2, 'joined', x); outs.append(Out(s2, 'ret', Some(Ok(x))))
        return outs
    wait(c, st, 'read', UNIT); outs = []
    s0 = st.copy(); ev(s0, 'frame', s, NONE); outs.append(Out(s0, 'ret', NONE))
    s1 = st.copy(); ev(s1, 'frame', s, FALSE); outs.append(Out(s1, 'ret', Some(Err(io_err(c, s1)))))
    L = typed(mk('flen', st.fresh(None, 'frame', c.f['p'], c.b)), 'usize'); ATOM_RNG.setdefault(L, (0, 2**30))
    b = mk('bbuf', mk('frameb', s.a[0] if s.op == 'framed' else s, L.a[0]), L)
    ev(st, 'frame', s, b); outs.append(Out(st, 'ret', Some(Ok(b))))
    return outs
@m('futures_util::sink::SinkExt::send')
def _sinksend(c): return ret(c.st, fut('sinksend', c.args[0], c.args[1]))
@aw('sinksend')
def _asink(c, st, v):
    wait(c, st, 'write', UNIT); s2 = st.copy(); w = unwrap(c.I, st, v.a[1]); b = unwrap(c.I, st, v.a[2])
    ev(st, 'write', w, b, TRUE); ev(s2, 'write', w, b, FALSE)
    return [Out(st, 'ret', Ok(UNIT)), Out(s2, 'ret', Err(io_err(c, s2)))]
@m('bytes::bytes::Bytes::copy_from_slice', '<bytes::bytes::Bytes as core::convert::From<alloc::vec::Vec<u8>>>::from', '<bytes::bytes::Bytes as core::convert::From<alloc::vec::Vec<u8, alloc::alloc::Global>>>::from', 'bytes::bytes_mut::BytesMut::freeze')
def _bcopy(c): return ret(c.st, val(c, 0))
@m('snow::builder::Builder::<\'builder>::new')
def _sb(c): return ret(c.st, mk('nbuilder', c.args[0]))
@m('snow::builder::Builder::<\'builder>::local_private_key')
def _slk(c): return ret(c.st, mk('nkey', c.args[0], val(c, 1)))
@m('snow::builder::Builder::<\'builder>::build_responder')
def _sbr(c):
    st = c.st.copy(); s = st.fresh(None, 'noise', c.f['p'], c.b)
    return ret(st, Ok(mk('hs', s, ZERO)))       # a valid pattern and a 32 byte key are always accepted
@m('core::str::<impl str>::parse')
def _parse(c):
    v = val(c, 0)
    if v.op == 'str' and v.a[0].startswith('Noise_'): return ret(c.st, Ok(mk('npattern', v)))
    st = c.st.copy(); return [Out(st, 'ret', Ok(c.freshret(st, 'parsed'))), Out(c.st.copy(), 'ret', Err(c.fresh(c.st, 'parseerr')))]
def noise_rw(kind, side):
    def g(c):
        loc, h = buf_loc(c.I, c.st, c.args[0]); src = val(c, 1); st = c.st.copy(); s2 = st.copy()
        n = st.fresh('usize', 'nlen', c.f['p'], c.b)
        oloc, o = buf_loc(c.I, st, c.args[2]) if c.args[2].op == 'ref' else (None, UNDEF)
        L = c.I.length(st, o) if oloc is not None else None
        if kind == 'write':
            out = mk('cipher', h, src, n)
        else: out = mk('plain', h, src, n)
        if L is not None:
            try: st.facts._ge(sub(L, n))
            except Infeasible: pass
            c.I.write(st, oloc[0], oloc[1], mk('blob', out, L))
        if kind == 'read':
            try: st.facts._ge(sub(c.I.length(st, src), n))
            except Infeasible: pass
        if h.op == 'hs': c.I.write(st, loc[0], loc[1], mk('hs', h.a[0], add(h.a[1], ONE)))
        ev(st, 'noise', kind, side, h, src, out)
        ev(s2, 'noiseerr', kind, side, h)
        e = s2.fresh(None, 'noiseerr', c.f['p'], c.b)
        return [Out(st, 'ret', Ok(n)), Out(s2, 'ret', Err(e))]
    return g
for cls, side in (('handshakestate::HandshakeState', 'hs'), ('transportstate::TransportState', 'tr')):
    for k in ('read', 'write'): S['snow::%s::%s_message' % (cls, k)] = noise_rw(k, side)
@m('snow::handshakestate::HandshakeState::into_transport_mode')
def _itm(c):
    h = c.args[0]; outs = []
    if h.op == 'hs' and h.a[1].op == 'int' and h.a[1].a[0] >= 3: return ret(c.st, Ok(mk('tr', h.a[0])))
    s2 = c.st.copy()
    return [Out(c.st.copy(), 'ret', Ok(mk('tr', h.a[0] if h.op == 'hs' else h))), Out(s2, 'ret', Err(s2.fresh(None, 'noiseerr', c.f['p'], c.b)))]

# ------------------------------------------------------------------ futures unordered
FU = 'futures_util::stream::futures_unordered::FuturesUnordered::<Fut>::'
@m(FU + 'new')
def _funew(c): st, s = ident_sym(c, 'futs'); return ret(st, mk('futset', s))
@m(FU + 'push')
def _fupush(c):
    st = c.st.copy(); fs = unwrap(c.I, st, c.args[0]); ev(st, 'fupush', fs, c.args[1]); c.I.world.pushed(fs, c.args[1]); return ret(st, UNIT)
@m(FU + 'is_empty', FU + 'len')
def _fuempty(c):
    st = c.st.copy(); return ret(st, st.fresh('bool' if c.path.endswith('empty') else 'usize', 'fuempty', c.f['p'], c.b))

# ------------------------------------------------------------------ misc
def level_hook(c):
    p = c.path
    if p.startswith('<tracing_core::metadata::Level as core::cmp::PartialOrd<tracing_core::metadata::LevelFilter>>') or p.startswith('<tracing_core::metadata::Level as core::cmp::Partial'):
        return ret(c.st, TRUE if c.I.tracing else FALSE)
    if c.I.tracing:
        if p in ('tracing_core::subscriber::Interest::is_never', 'tracing::span::Span::is_disabled'): return ret(c.st, FALSE)
        if p == 'tracing::__macro_support::MacroCallsite::is_enabled': return ret(c.st, TRUE)
        if p.endswith('FieldSet::iter') or 'field::Iter' in p: 
            if p.endswith('::next'): 
                st = c.st.copy(); return ret(st, Some(st.fresh(None, 'field')))
    return None
@m('uuid::v4::<impl uuid::Uuid>::new_v4')
def _uuid(c): st, s = ident_sym(c, 'uuid'); return ret(st, s)
@m('uuid::adapter::<impl uuid::Uuid>::to_hyphenated', '<uuid::adapter::Hyphenated as core::fmt::Display>::fmt', 'uuid::adapter::<impl uuid::Uuid>::to_simple')
def _hyph(c): return ret(c.st, c.args[0])
@m('core::mem::size_of')
def _size(c):
    t = mk('sizeof', c.targ(0) or '?'); typed(t, 'usize'); ATOM_RNG.setdefault(t, (1, 4096)); return ret(c.st, t)
@m('<u8 as core::default::Default>::default', '<u16 as core::default::Default>::default', '<u32 as core::default::Default>::default', '<u64 as core::default::Default>::default')
def _zero(c): return ret(c.st, ZERO)
def err_conv_hook(c):
    return None
def conv_hook(c):
    p = c.path
    if c.callee.get('tr') == 'core::convert::From' and c.callee.get('r') is None and len(c.args) == 1:
        return None
    return None
def pure_srv(c):
    p = c.path
    if p.endswith(('Instrument::instrument', 'Instrument>::instrument', 'Instrument::in_current_span')): return ret(c.st, c.args[0])
    if p == 'tracing::span::Span::is_disabled' and not c.I.tracing: return ret(c.st, TRUE)
    if p in ('std::io::stdio::_print', 'std::io::stdio::_eprint'): return ret(c.st, UNIT)
    if p.startswith(('tracing', '<tracing', 'core::fmt', 'alloc::fmt', 'log::', '<log::')):
        v = c.st.copy(); return ret(v, c.I.reg(v.fresh(None, 'pure', p), c.retty))
    if p.endswith('Error>::source') or p in ('std::io::error::Error::kind',) or p.endswith('io::error::Error as core::convert::From<core::io::error::ErrorKind>>::from'):
        v = c.st.copy(); return ret(v, c.I.reg(v.fresh(None, 'pure', p), c.retty))
    return None

# ------------------------------------------------------------------ the world
def syms_of(v, acc, seen=None):
    if seen is None: seen = set()
    if v in seen: return
    seen.add(v)
    if v.op == 'sym': acc.add(v)
    for x in v.a:
        if isinstance(x, T): syms_of(x, acc, seen)
        elif isinstance(x, tuple): _st(x, acc, seen)
def _st(x, acc, seen):
    for y in x:
        if isinstance(y, T): syms_of(y, acc, seen)
        elif isinstance(y, tuple): _st(y, acc, seen)
ORIGIN = {}
def origin(s):
    while s in ORIGIN: s = ORIGIN[s]
    return s
def skel(v, n=0):
    if v.op == 'adt': return (v.a[0], v.a[1]) + tuple(skel(x, n + 1) for x in v.a[2:]) if n < 8 else '*'
    if v.op in ('tup', 'box', 'arc'): return (v.op,) + tuple(skel(x, n + 1) for x in v.a)
    return '*'
JOINED = {}
def join_vals(vs, key):
    """least common generalisation of values with the same skeleton"""
    memo = {}
    def g(xs):
        if all(x is xs[0] for x in xs): return xs[0]
        o = xs[0].op
        if all(x.op == o and len(x.a) == len(xs[0].a) for x in xs) and o in ('adt', 'tup', 'box', 'arc', 'bbuf', 'rtake', 'framed', 'ldcodec', 'utx', 'urx', 'btx', 'brx') and all(not isinstance(y, T) and y == z or isinstance(y, T) and isinstance(z, T) for x in xs for y, z in zip(x.a, xs[0].a)):
            return mk(o, *[g([x.a[i] for x in xs]) if isinstance(xs[0].a[i], T) else xs[0].a[i] for i in range(len(xs[0].a))])
        k = tuple(xs)
        if k not in memo:
            memo[k] = t = sym(None, 'join', key, len(memo)); JOINED[t] = tuple(dict.fromkeys(x for x in JOINED.get(t, ()) + k if x is not t))
            for x in xs:
                for reg in (ATOM_TY, ATOM_META):
                    if x in reg: reg.setdefault(t, reg[x])
            if all(x.op == 'int' or x in ATOM_DOM for x in xs):
                d = set()
                for x in xs: d |= {x.a[0]} if x.op == 'int' else set(ATOM_DOM[x])
                if len(d) < 20: ATOM_DOM[t] = frozenset(d)
        return memo[k]
    return g(vs)

def num_leaves(v):
    """path -> number, for the numbers in a value; the length of a buffer has a path ending in blen"""
    r = {}
    def g(v, p):
        if len(p) > 14: return
        if v.op == 'bbuf': r[p + ('blen',)] = v.a[1]; return
        if v.op in ('adt', 'tup', 'box', 'arc', 'rtake', 'framed', 'clo'):
            for i, x in enumerate(v.a):
                if isinstance(x, T): g(x, p + (i,))
            return
        if ATOM_TY.get(v) in INT_RNG: r[p] = v
    g(v, ())
    return r
class World:
    def __init__(self, P, tracing=False, max_steps=3000000):
        self.P = P; self.tracing = tracing; self.max_steps = max_steps
        self.sends = {}; self.inserts = {}; self.pushes = {}; self.tasks = {}; self.main = set()
        self.results = {}; self.cur = None; self.rels = {}; self.order = []; self.dirty = False
        self.taskrets = {}; self.iters = {}
        self.fns = set(); self.unmodelled = {}
        self.coro_hooks = []; self.extra_hooks = []
        self.log = {}; self.filtered = []; self.topicvals = {}; self.waits = {}
    def interp(self):
        I_ = interp(self.P, max_steps=self.max_steps)
        import srvpk
        I_.world = self
        I_.hooks = list(self.extra_hooks) + [srvpk.api_hook, packet_hook, poll_hook, level_hook, slice_hook, pure_srv] + I_.hooks
        I_.models = dict(I_.models); I_.models.update(S)
        I_.field_hooks = [server_len, slice_len, self.entry_field] + I_.field_hooks
        I_.drop_hook = drop_hook; I_.owns = lambda v: bool(guards_in(v))
        I_.pollers = []; I_.coro_hooks = list(self.coro_hooks) + [topics_hook]; I_.topics_inline = False; I_.world = self; I_.tracing = self.tracing
        I_.back_hooks = [self.on_back]; I_.bound_hints = True
        return I_
    # ---- joins
    def add(self, table, key, v, st=None):
        d = table.setdefault(key, {})
        sk = skel(v)
        old = d.get(sk)
        if st is not None: self.relate((id(table), key, sk), v, st)
        new = v if old is None else join_vals([old, v], (str(key), str(hash(sk))))
        if new is not old: d[sk] = new; self.dirty = True
    def relate(self, k, v, st):
        """bounds between numbers inside a value that hold whenever it is passed on"""
        ls = num_leaves(v)
        old = self.rels.get(k); pairs = set()
        if old is None:
            for p in ls:
                if p[-1] != 'blen': continue
                for q in ls:
                    if q != p and q[-1] != 'blen' and ATOM_TY.get(ls[q]) in INT_RNG and st.facts.prove_ge0(sub(ls[q], ls[p])): pairs.add((p, q))
        else:
            for p, q in old:
                if p in ls and q in ls and st.facts.prove_ge0(sub(ls[q], ls[p])): pairs.add((p, q))
        if pairs != old:
            self.rels[k] = pairs; self.dirty = True
    def related(self, k, v, st):
        ls = num_leaves(v)
        for p in ls:
            if p[-1] == 'blen':
                try: st.facts._ge(ls[p])
                except Infeasible: pass
        for p, q in self.rels.get(k, ()):
            if p in ls and q in ls:
                try: st.facts._ge(sub(ls[q], ls[p]))
                except Infeasible: pass
    def chans(self, ch):
        """the channels, by where they are made, a value of a channel end can stand for"""
        seen = set(); res = set()
        def go(t):
            while isinstance(t, T) and (t.op in ENDS or t.op in ('arc', 'arcin', 'deref')) and isinstance(t.a[0], T): t = t.a[0]
            t = origin(t)
            if t in seen: return
            seen.add(t)
            if t in JOINED:
                for x in JOINED[t]: go(x)
                return
            path = []; x = t
            while x.op in ('fld', 'arcin', 'deref') and isinstance(x.a[0], T):
                if x.op == 'fld': path.append(x.a[2])
                x = x.a[0]
            if x.op == 'hmget':
                ct = x.a[0]
                while ct.op in ('hmput', 'hmins', 'hmrem', 'upd') and isinstance(ct.a[0], T): ct = ct.a[0]
                if ct.op == 'sym' and ct.a[0] == 'content':
                    for v in self.inserts.get(origin(ct.a[1]), {}).values():
                        for i in reversed(path):
                            while v.op in ('arc', 'arcin', 'box'): v = v.a[0]
                            if v.op != 'adt' or 2 + i >= len(v.a): break
                            v = v.a[2 + i]
                        else: go(v)
                    return
            res.add(t)
        go(ch)
        return res or {origin(ch)}
    def sent(self, ch, v, st):
        for c in sorted(self.chans(ch), key=show): self.add(self.sends, c, v, st)
    def inserted(self, L, k, v): self.add(self.inserts, origin(L), v)
    def pushed(self, fs, v): self.pushes.setdefault(origin(fs.a[0]) if fs.op == 'futset' else fs, set()).add(v)
    def instance(self, v, key):
        """v as created by another execution of its creator"""
        acc = set(); syms_of(v, acc); mp = {}
        for s in acc:
            if s in self.main or s.a[0] == 'cfg': continue
            t = mk('sym', 'inst', key, s); ORIGIN[t] = s
            for reg in (ATOM_TY, ATOM_META, ATOM_RNG, ATOM_DOM):
                if s in reg: reg[t] = reg[s]
            mp[s] = t
        return loopgen.subst(v, mp) if mp else v
    def received(self, c, st, ch, ty):
        n = st.fresh(None, 'recv', origin(ch), c.f['p'], c.b)
        return [((id(self.sends), x, sk), self.instance(v, n)) for x in sorted(self.chans(ch), key=show) for sk, v in self.sends.get(x, {}).items()]
    def join_result(self, c, st, fs):
        idx = {v.a[1].a[0] for v in self.pushes.get(origin(fs.a[0]) if fs.op == 'futset' else fs, ()) if v.op == 'fut' and v.a[0] == 'join' and v.a[1].op == 'clo'}
        n = st.fresh(None, 'joinres', c.f['p'], c.b); r = []
        for i in idx:
            for v in self.taskrets.get(i, {}).values(): r.append(self.instance(v, n))
        return r
    def subscribed(self, I_, st, args):
        """enumerated options (QoS) with which subscriptions are entered"""
        for x in args:
            if x.op == 'adt': t, d = x.a[0], {x.a[1]}
            else:
                t = I_.adt_of(x)
                if t not in self.P.adts: continue
                d = st.facts.values(I_.disc(x, t)) or {-1}
                d = {i for i, y in enumerate(I_.discs(t) or range(len(self.P.adts[t]['v']))) if y in d or -1 in d}
            if len(self.P.adts[t]['v']) < 2: continue
            o = self.topicvals.setdefault(t, set())
            if not d <= o: o |= d; self.dirty = True
    def entry_field(self, I_, st, v, p):
        """what a subscription found in the table holds was given when it was entered (decided by S10)"""
        if p[0] != 'f' or v.op != 'hmval' or v.a[0].op != 'sym' or v.a[0].a[0] != 'topics': return None
        t = self.P.tname(p[3])
        d = self.topicvals.get(t)
        if d is not None and len(d) == 1 and not any(x['f'] for x in self.P.adts[t]['v']): return mk('adt', t, next(iter(d)))
        return None
    # ---- tasks
    def spawned(self, c, st, v):
        if v.op != 'clo' or not isinstance(v.a[0], int): self.unmodelled['spawn of ' + v.op] = 1; return
        if self.cur == 'main':
            acc = set(); syms_of(v, acc); self.main |= acc
        self.log.setdefault('spawns', {}).setdefault((self.cur, c.f['p']), set()).add(v.a[0])
        key = v.a[0]
        self.add(self.tasks, key, mk('tup', *v.a[1:]), st)
    def on_back(self, I_, f, h, H, backs):
        k = len(H.trace)
        self.iters[(self.cur, f['p'], h, tuple(x['p'] for x, _ in I_.stack), hash((I_.loop_entry.trace, I_.loop_entry.facts.key())))] = [(H, b, b.trace[k:]) for b in backs]
    def run_task(self, name, v, st=None):
        self.cur = name; I_ = self.interp()
        g = self.P.insts[v.a[0]]
        if st is None:
            st = State()
            if isinstance(name, tuple): self.related((id(self.tasks), name[0], name[1]), mk('tup', *v.a[1:]), st)
        for k in [k for k in self.iters if k[0] == name]: del self.iters[k]
        self.filtered = [x for x in self.filtered if x[0] != name]
        outs = I_.run(g, [v, UNIT], st, 1, None)
        self.fns |= I_.analysed
        for k, n in I_.unmodelled.items(): self.unmodelled[k] = self.unmodelled.get(k, 0) + n
        self.results[name] = outs
        if isinstance(name, tuple):
            for o in outs:
                if o.kind == 'ret': self.add(self.taskrets, name[0], o.val)
        return outs
    def main_value(self):
        f = find_fn(self.P, SRV + 'MqttServer::new')
        if f is None: raise Unsupported('MqttServer::new not found')
        I_ = self.interp(); st = State()
        cfgt = f['body']['locals'][1][0]
        cfg = I_.reg(sym(None, 'cfg'), cfgt)
        for o in I_.run(f, [cfg], st, 1, None):
            if o.kind == 'ret' and o.val.op == 'clo': return o.val, o.st
        raise Unsupported('MqttServer::new is not an async function')
    def explore(self, rounds=4, verbose=False):
        import time
        v, st = self.main_value()
        for r in range(rounds):
            self.dirty = False
            t0 = time.time()
            self.run_task('main', v, st)
            if verbose: print('round', r, 'main %.1fs' % (time.time() - t0), len(self.results['main']))
            done = set()
            while True:
                todo = [(i, sk) for i, d in self.tasks.items() for sk in d if (i, sk) not in done]
                if not todo: break
                for i, sk in todo:
                    done.add((i, sk)); t0 = time.time()
                    self.run_task((i, sk), mk('clo', i, *self.tasks[i][sk].a))
                    if verbose: print('   task', self.P.insts[i]['p'][21:], '%.1fs' % (time.time() - t0), len(self.results[(i, sk)]))
            if not self.dirty: break
