"""Models (summaries) of library operations: std, bytes.  Semantics, not text: keyed by resolved path."""
from term import *
from interp import *
from loopgen import LEN, psum, subst, subst_state, BOUND, elems_of
import re

OPT = 'core::option::Option'; RES = 'core::result::Result'
NONE = mk('adt', OPT, 0)
def Some(v): return mk('adt', OPT, 1, v)
def Ok(v): return mk('adt', RES, 0, v)
def Err(v): return mk('adt', RES, 1, v)

M = {}
def model(*paths):
    def d(fn):
        for p in paths: M[p] = fn
        return fn
    return d

PANICS = ('core::panicking::', 'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed',
          'std::panicking::begin_panic', 'std::rt::begin_panic', 'core::slice::index::slice_', 'core::str::slice_error_fail',
          'alloc::alloc::handle_alloc_error', 'core::cell::panic_already')
def panic_hook(c):
    p = c.path
    if p.startswith(PANICS) and not (p.endswith('_msg') and (c.rettyname() or '!') not in ('!', 'never')) and not p.startswith('core::panicking::panic_nounwind'):
        what = p.split('::')[-1]
        return [c.panic(c.st, 'panic: ' + panic_kind(c, p))]
    return None
def panic_kind(c, p):
    n = p.split('::')[-1]
    for a in c.args:
        if a.op == 'str': return '%s "%s"' % (n, a.a[0][:60])
        if a.op == 'ref':
            v = c.I.deref_all(c.st, a)
            if v.op == 'str': return '%s "%s"' % (n, v.a[0][:60])
    return n

# ------------------------------------------------------------------ integer min
def t_min(st, a, b):
    if a is b: return a
    if st.facts.prove_ge0(sub(b, a)): return a
    if st.facts.prove_ge0(sub(a, b)): return b
    if a.id > b.id: a, b = b, a
    return typed(mk('min', a, b), 'usize')

# ------------------------------------------------------------------ byte buffers (Buf)
def REM(sid):
    t = mk('total', sid); ATOM_TY.setdefault(t, 'usize'); ATOM_RNG.setdefault(t, (0, 2**62)); return t

def buf_loc(I_, st, v):
    """location (cell, proj) of the buffer behind reference(s) v, and its value"""
    loc = None
    n = 0
    while v.op == 'ref' and n < 12:
        loc = (v.a[0], v.a[1]); v = I_.read(st, *loc); n += 1
    if loc is None:
        t = mk('deref', v); loc = (('M', t), ()); v = I_.load(st, loc[0])
    return loc, v

def remaining(I_, st, v):
    o = v.op
    if o == 'ref':
        _, w = buf_loc(I_, st, v); return remaining(I_, st, w)
    if o == 'stream': return sub(REM(v.a[0]), v.a[1])
    if o == 'take': return t_min(st, remaining(I_, st, v.a[0]), v.a[1])
    if o == 'chain': return add(remaining(I_, st, v.a[0]), remaining(I_, st, v.a[1]))
    if o == 'bsub': return v.a[2]
    if o == 'toks': return v.a[0]
    return I_.length(st, v)

def toklen(I_, st, t):
    if t.op == 'u': return I(t.a[0])
    if t.op == 'vi': return VSZ(t.a[0])
    if t.op == 'raw': return I_.length(st, t.a[0])
    if t.op == 'fill': return t.a[1]
    if t.op == 'props': return t.a[1]
    return None
def consume_toks(I_, st, v, n):
    """read n bytes off a token sequence: whole tokens, single bytes of integers, first byte of a varint"""
    toks = v.a[1:]
    if not toks:
        return [(st, v, [(mk('notok'), ZERO, n)])]
    t = toks[0]; L = toklen(I_, st, t)
    if L is None: return [(st, mk('toks', sub(v.a[0], n), mk('unk', v)), [(mk('unk', v), ZERO, n)])]
    if L is n or st.facts.prove_eq(L, n):
        return [(st, mk('toks', sub(v.a[0], L), *toks[1:]), [(t, ZERO, n)])]
    if n.op == 'int':
        if t.op == 'u' and n.a[0] < t.a[0]:
            w, x = t.a; k = w - n.a[0]
            hi = bit('shr', x, I(8 * k)); lo = bit('and', x, I((1 << 8 * k) - 1))
            return [(st, mk('toks', sub(v.a[0], n), mk('u', k, lo), *toks[1:]), [(mk('u', n.a[0], hi), ZERO, n)])]
        if t.op == 'vi' and n is ONE:
            res = []
            x = t.a[0]
            for s, small in I_.branch(st, ge0(sub(I(127), x))):
                if small: res.append((s, mk('toks', sub(v.a[0], ONE), *toks[1:]), [(mk('u', 1, x), ZERO, ONE)]))
                else:
                    b = bit('or', bit('and', x, I(127), 'u8'), I(128), 'u8')
                    res.append((s, mk('toks', sub(v.a[0], ONE), mk('vi', bit('shr', x, I(7), 'u32')), *toks[1:]), [(mk('u', 1, b), ZERO, ONE)]))
            return res
        if t.op == 'u' and n.a[0] > t.a[0]:
            res = []
            for s, w, ps in consume_toks(I_, st, v, I(t.a[0])):
                for s2, w2, ps2 in consume_toks(I_, s, w, sub(n, I(t.a[0]))): res.append((s2, w2, ps + ps2))
            return res
    if t.op == 'raw' and st.facts.prove_ge0(sub(L, n)):
        src, off = t.a[0], ZERO
        if src.op == 'blob': src, off = src.a[0], src.a[1]
        return [(st, mk('toks', sub(v.a[0], n), mk('raw', mk('blob', src, add(off, n), sub(L, n))), *toks[1:]), [(mk('blob', src, off, n), ZERO, n)])]
    return [(st, mk('toks', sub(v.a[0], n), mk('unk', v, n)), [(mk('unk', v, n), ZERO, n)])]
def as_toks(v):
    """readable token sequence of a written buffer, or None"""
    if v.op == 'toks': return v
    if v.op == 'w':
        ps = v.a[1:]
        if ps and ps[0].op == 'was' and (ps[0].a[0].op == 'vec' and ps[0].a[0].a[0] is ZERO): ps = ps[1:]
        elif ps and ps[0].op == 'was': return None
        return mk('toks', v.a[0], *ps)
    return None

def consume(I_, st, v, n):
    """[(state, new buffer value, [pieces])]: consume n bytes (n <= remaining already established).
       piece = (source term, offset term, length term)"""
    o = v.op
    if n is ZERO: return [(st, v, [])]
    if o == 'ref':
        loc, w = buf_loc(I_, st, v)
        r = []
        for s, w2, ps in consume(I_, st, w, n):
            s = s.copy(); I_.write(s, loc[0], loc[1], w2); r.append((s, v, ps))
        return r
    if o == 'stream': return [(st, mk('stream', v.a[0], add(v.a[1], n)), [(mk('st', v.a[0]), v.a[1], n)])]
    if o == 'take':
        return [(s, mk('take', w, sub(v.a[1], n)), ps) for s, w, ps in consume(I_, st, v.a[0], n)]
    if o == 'chain':
        ra = remaining(I_, st, v.a[0])
        out = []
        for s, z in I_.branch(st, eq0(ra)):
            if z:
                out += [(s2, mk('chain', v.a[0], w), ps) for s2, w, ps in consume(I_, s, v.a[1], n)]
            else:
                for s2, enough in I_.branch(s, ge0(sub(ra, n))):
                    if enough: out += [(s3, mk('chain', w, v.a[1]), ps) for s3, w, ps in consume(I_, s2, v.a[0], n)]
                    else:
                        for s3, w, ps in consume(I_, s2, v.a[0], ra):
                            out += [(s4, mk('chain', w, w2), ps + ps2) for s4, w2, ps2 in consume(I_, s3, v.a[1], sub(n, ra))]
        return out
    if o == 'bsub':
        return [(st, mk('bsub', v.a[0], add(v.a[1], n), sub(v.a[2], n)), [(v.a[0], v.a[1], n)])]
    if o in ('toks', 'w'):
        tv = as_toks(v)
        if tv is not None: return consume_toks(I_, st, tv, n)
    ln = I_.length(st, v)
    return [(st, mk('bsub', v, n, sub(ln, n)), [(v, ZERO, n)])]

def datum(ps, width, ty):
    """value of a big endian integer of `width` bytes made of pieces"""
    if len(ps) == 1:
        src, off, _ = ps[0]
        if src.op == 'u' and src.a[0] == width and off is ZERO: return src.a[1]
        if src.op == 'vi' and width == 1 and off is ZERO: return src.a[0]      # a whole one byte integer
        if src.op == 'arr' and off.op == 'int' and off.a[0] + width <= len(src.a):
            r = ZERO
            for i in range(width): r = add(scale(r, 256), src.a[off.a[0] + i])
            return r
        return typed(mk('rd', src, off, width), ty)
    return typed(mk('rdm', tuple(ps), width), ty)
def blob(ps):
    if not ps: return mk('arr')
    if len(ps) == 1:
        src, off, n = ps[0]
        if src.op == 'raw' and off is ZERO: return src.a[0]
        if src.op == 'blob' and off is ZERO and src.a[2] is n: return src
        if off is ZERO and src.op in ('arr', 'bstr') and n.op == 'int' and n.a[0] == len(src.a): return src
        if off is ZERO and src.op not in ('st', 'arr') and n.op == 'len' and n.a[0] is src: return src
        return mk('blob', src, off, n)
    return mk('blobs', tuple(ps))

def get_int(width, ty):
    def g(c):
        I_ = c.I; st = c.st; v = c.args[0]
        loc, buf = buf_loc(I_, st, v)
        if buf.op == 'tokens': return None
        rem = remaining(I_, st, buf)
        outs = []
        for s, ok in I_.branch(st, ge0(sub(rem, I(width)))):
            if not ok:
                outs.append(c.panic(s, 'read of %d byte(s) past the end of the buffer (%s)' % (width, c.callee['p'].split('::')[-1]))); continue
            for s2, w, ps in consume(I_, s, buf, I(width)):
                s2 = s2.copy(); I_.write(s2, loc[0], loc[1], w)
                outs.append(Out(s2, 'ret', datum(ps, width, ty)))
        return outs
    return g
B = 'bytes::buf::buf_impl::Buf::'
def bufpaths(name):
    return [B + name, '<&mut T as bytes::buf::buf_impl::Buf>::' + name, '<bytes::buf::take::Take<T> as bytes::buf::buf_impl::Buf>::' + name,
            '<bytes::buf::chain::Chain<T, U> as bytes::buf::buf_impl::Buf>::' + name,
            '<bytes::bytes::Bytes as bytes::buf::buf_impl::Buf>::' + name, '<bytes::bytes_mut::BytesMut as bytes::buf::buf_impl::Buf>::' + name,
            '<&[u8] as bytes::buf::buf_impl::Buf>::' + name, 'bytes::buf::buf_impl::<impl bytes::buf::buf_impl::Buf for &[u8]>::' + name]
for nm, w, ty in (('get_u8', 1, 'u8'), ('get_u16', 2, 'u16'), ('get_u32', 4, 'u32'), ('get_u64', 8, 'u64')):
    for p in bufpaths(nm): M[p] = get_int(w, ty)
@model(*bufpaths('remaining'))
def _rem(c):
    loc, buf = buf_loc(c.I, c.st, c.args[0])
    return ret(c.st, remaining(c.I, c.st, buf))
@model(*bufpaths('has_remaining'))
def _hasrem(c):
    loc, buf = buf_loc(c.I, c.st, c.args[0])
    return ret(c.st, ge0(sub(remaining(c.I, c.st, buf), ONE)))
@model(*bufpaths('advance'))
def _adv(c):
    loc, buf = buf_loc(c.I, c.st, c.args[0]); n = c.args[1]
    outs = []
    for s, ok in c.I.branch(c.st, ge0(sub(remaining(c.I, c.st, buf), n))):
        if not ok: outs.append(c.panic(s, 'advance past the end of the buffer')); continue
        for s2, w, ps in consume(c.I, s, buf, n):
            s2 = s2.copy(); c.I.write(s2, loc[0], loc[1], w); outs.append(Out(s2, 'ret', UNIT))
    return outs
@model(*bufpaths('copy_to_bytes'))
def _ctb(c):
    loc, buf = buf_loc(c.I, c.st, c.args[0]); n = c.args[1]
    outs = []
    for s, ok in c.I.branch(c.st, ge0(sub(remaining(c.I, c.st, buf), n))):
        if not ok: outs.append(c.panic(s, 'copy_to_bytes past the end of the buffer')); continue
        for s2, w, ps in consume(c.I, s, buf, n):
            s2 = s2.copy(); c.I.write(s2, loc[0], loc[1], w); outs.append(Out(s2, 'ret', blob(ps)))
    return outs
@model(*bufpaths('copy_to_slice'))
def _cts(c):
    loc, buf = buf_loc(c.I, c.st, c.args[0])
    dloc, dst = buf_loc(c.I, c.st, c.args[1]); n = c.I.length(c.st, dst)
    outs = []
    for s, ok in c.I.branch(c.st, ge0(sub(remaining(c.I, c.st, buf), n))):
        if not ok: outs.append(c.panic(s, 'copy_to_slice past the end of the buffer')); continue
        for s2, w, ps in consume(c.I, s, buf, n):
            s2 = s2.copy(); c.I.write(s2, loc[0], loc[1], w); c.I.write(s2, dloc[0], dloc[1], blob(ps)); outs.append(Out(s2, 'ret', UNIT))
    return outs
def contiguous(v, I_, st):
    """buffers whose chunk() is their whole contents"""
    return v.op not in ('stream', 'take', 'chain', 'ref') 
@model(*bufpaths('chunk'))
def _chunk(c):
    I_ = c.I
    loc, buf = buf_loc(I_, c.st, c.args[0])
    v = buf; lim = None
    # unwrap takes
    st = c.st.copy()
    rem = remaining(I_, st, buf)
    x = buf
    while x.op in ('take', 'ref'):
        x = x.a[0] if x.op == 'take' else buf_loc(I_, st, x)[1]
    if x.op not in ('stream', 'chain'):
        # contiguous storage: chunk is everything
        outs = []
        for s2, w, ps in consume(I_, st.copy(), buf, rem): outs.append(Out(st, 'ret', I_.ref_to(blob(ps))))
        return outs[:1]
    n = mk('chunklen', x); ATOM_TY.setdefault(n, 'usize'); ATOM_RNG.setdefault(n, (0, 2**62))
    cl = typed(mk('min', *sorted((n, rem), key=lambda t: t.id)), 'usize')
    ps = consume(I_, st.copy(), buf, cl)[0][2]
    p0 = ps[0] if ps else (mk('st', '?'), ZERO, cl)
    st.event('chunk', c.f['p'])
    return ret(st, I_.ref_to(mk('blob', p0[0], p0[1], cl)))
@model(B + 'take')
def _take(c): return ret(c.st, mk('take', c.args[0], c.args[1]))
@model(B + 'chain')
def _chain(c):
    a = c.args[0]
    if a.op == 'ref':
        v = c.I.deref_all(c.st, a)
        if v.op == 'arr': a = v
        elif as_toks(v) is not None: a = as_toks(v)
    return ret(c.st, mk('chain', a, c.args[1]))
@model('bytes::buf::take::Take::<T>::into_inner')
def _into_inner(c):
    v = c.args[0]
    return ret(c.st, v.a[0]) if v.op == 'take' else None
@model('bytes::buf::take::Take::<T>::limit')
def _limit(c):
    v = c.I.deref_all(c.st, c.args[0])
    return ret(c.st, v.a[1]) if v.op == 'take' else None
@model('bytes::buf::take::Take::<T>::set_limit')
def _setlimit(c):
    loc, v = buf_loc(c.I, c.st, c.args[0])
    if v.op != 'take': return None
    s = c.st.copy(); c.I.write(s, loc[0], loc[1], mk('take', v.a[0], c.args[1])); return ret(s, UNIT)
@model('bytes::buf::take::Take::<T>::get_mut', 'bytes::buf::take::Take::<T>::get_ref')
def _getmut(c):
    v = c.I.deref_all(c.st, c.args[0])
    if v.op == 'take' and v.a[0].op == 'ref':
        x = v.a[0]
        return ret(c.st, x)
    return None

# ------------------------------------------------------------------ writers (BufMut)
def put(c, tok, n, arg=0):
    I_ = c.I
    loc, w = buf_loc(I_, c.st, c.args[arg])
    st = c.st.copy()
    if w.op != 'w': w = mk('w', I_.length(st, w), mk('was', w))
    I_.write(st, loc[0], loc[1], mk('w', add(w.a[0], n), *(w.a[1:] + (tok,))))
    return ret(st, UNIT)
def mutpaths(name):
    return ['bytes::buf::buf_mut::BufMut::' + name, '<&mut T as bytes::buf::buf_mut::BufMut>::' + name, '<bytes::bytes_mut::BytesMut as bytes::buf::buf_mut::BufMut>::' + name,
            'bytes::buf::buf_mut::<impl bytes::buf::buf_mut::BufMut for alloc::vec::Vec<u8>>::' + name]
for nm, w in (('put_u8', 1), ('put_u16', 2), ('put_u32', 4), ('put_u64', 8)):
    for p in mutpaths(nm): M[p] = (lambda w: lambda c: put(c, mk('u', w, c.args[1]), I(w)))(w)
@model(*(mutpaths('put_slice') + ['bytes::bytes_mut::BytesMut::extend_from_slice']))
def _put_slice(c):
    v = c.I.deref_all(c.st, c.args[1])
    return put(c, mk('raw', v), c.I.length(c.st, v))
@model(*mutpaths('put'))
def _put(c):
    v = c.args[1]
    if v.op == 'ref': v = c.I.deref_all(c.st, v)
    if v.op == 'bsub': v = mk('blob', v.a[0], v.a[1], v.a[2])
    return put(c, mk('raw', v), c.I.length(c.st, v))
@model(*mutpaths('put_bytes'))
def _put_bytes(c): return put(c, mk('fill', c.args[1], c.args[2]), c.args[2])

# ------------------------------------------------------------------ lengths of modelled values
def len_hook(I_, st, v, p):
    if p[0] != 'len': return None
    o = v.op
    if o == 'blob': return v.a[2]
    if o == 'bsub': return v.a[2]
    if o == 'blobs':
        n = ZERO
        for _, _, k in v.a[0]: n = add(n, k)
        return n
    if o == 'utf8': return I_.length(st, v.a[0])
    if o == 'arc': return I_.length(st, v.a[0])
    if o == 'vec': return v.a[0]
    if o == 'w': return v.a[0]
    if o == 'ref': return I_.length(st, I_.deref_all(st, v))
    if o == 'rep': return None
    return None

# ------------------------------------------------------------------ smart pointers, identity like
def ident(c): return ret(c.st, c.args[0])
for p in ('core::pin::Pin::<Ptr>::new_unchecked', 'core::pin::Pin::<Ptr>::new', '<I as core::iter::traits::collect::IntoIterator>::into_iter',
          'core::hint::must_use', 'core::convert::identity', 'core::hint::black_box',
          '<core::pin::Pin<Ptr> as core::ops::deref::Deref>::deref', '<core::pin::Pin<Ptr> as core::ops::deref::DerefMut>::deref_mut',
          'core::pin::Pin::<&'"'a"' mut T>::get_unchecked_mut', 'core::pin::Pin::<Ptr>::as_mut', 'core::str::<impl str>::as_bytes', 'alloc::string::String::as_str', 'alloc::vec::Vec::<T, A>::as_slice',
          'alloc::string::String::as_bytes', '<str as core::convert::AsRef<[u8]>>::as_ref', '<T as core::borrow::Borrow<T>>::borrow', 'core::str::<impl core::convert::AsRef<str> for str>::as_ref', 'core::str::<impl core::convert::AsRef<[u8]> for str>::as_ref',
          '<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref', '<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut', '<alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref',
          '<alloc::string::String as core::ops::deref::Deref>::deref', '<bytes::bytes::Bytes as core::ops::deref::Deref>::deref', '<bytes::bytes_mut::BytesMut as core::ops::deref::Deref>::deref', '<bytes::bytes_mut::BytesMut as core::ops::deref::DerefMut>::deref_mut',
          '<bytes::bytes::Bytes as core::convert::AsRef<[u8]>>::as_ref', 'bytes::bytes_mut::BytesMut::freeze'):
    M[p] = ident
@model('core::mem::drop')
def _drop(c):
    if c.I.drop_hook: 
        st = c.st.copy()
        c.I.drop_hook(c.I, st, c.args[0], c.f, c.b, None)
        return ret(st, UNIT)
    return ret(c.st, UNIT)
@model('core::mem::replace')
def _replace(c):
    loc, v = (c.args[0].a[0], c.args[0].a[1]) if c.args[0].op == 'ref' else (None, None), None
    if loc[0] is None: return None
    st = c.st.copy(); old = c.I.read(st, *loc); c.I.write(st, loc[0], loc[1], c.args[1]); return ret(st, old)
@model('core::mem::take')
def _mtake(c):
    if c.args[0].op != 'ref': return None
    loc = c.args[0].a; st = c.st.copy(); old = c.I.read(st, *loc)
    rt = c.rettyname() or ''
    new = {'u8': ZERO, 'usize': ZERO, 'bool': ZERO}.get(rt) or (NONE if rt.startswith(OPT) else mk('vec', ZERO) if rt.startswith('alloc::vec::Vec') else mk('default', rt))
    c.I.write(st, loc[0], loc[1], new); return ret(st, old)
@model('core::option::Option::<T>::take')
def _otake(c):
    if c.args[0].op != 'ref': return None
    loc = c.args[0].a; st = c.st.copy(); old = c.I.read(st, *loc); c.I.write(st, loc[0], loc[1], NONE); return ret(st, old)

def arcin(a):
    if a.op == 'arc': return a.a[0]
    return mk('arcin', a)
@model('<alloc::rcs::arc::Arc<T, A> as core::ops::deref::Deref>::deref', '<alloc::rcs::arc::Arc<T, A> as core::convert::AsRef<T>>::as_ref', '<alloc::boxed::Box<T, A> as core::ops::deref::Deref>::deref')
def _arcderef(c):
    a = c.I.deref_all(c.st, c.args[0]) if c.args[0].op == 'ref' else c.I.deref(c.st, c.args[0])
    if a.op == 'harc': return ret(c.st, mk('ref', a.a[0], ()))
    t = arcin(a)
    return ret(c.st, c.I.ref_to(typed_arc(c, a, t)))
def typed_arc(c, a, t):
    n = c.rettyname()
    if t.op == 'arcin' and n and n.startswith('&') and t not in ATOM_TY:
        ATOM_TY[t] = n[1:]
        ti = c.I.prog.types[c.retty].get('e')
        if ti is not None:
            c.I.tyreg.setdefault(n[1:], ti)
            if c.I.prog.types[ti]['k'] == 'adt': ATOM_META[t] = c.I.prog.types[ti]['p']
    return t
@model('<alloc::rcs::arc::Arc<str> as core::convert::From<&str>>::from', '<alloc::rcs::arc::Arc<str> as core::convert::From<alloc::string::String>>::from',
       '<alloc::rcs::arc::Arc<T> as core::convert::From<&str>>::from')
def _arcfrom(c):
    v = c.args[0]
    x = c.I.deref_all(c.st, v) if v.op in ('ref',) else (v if v.op == 'str' else c.I.deref(c.st, v) if (c.argty(0) or '').startswith('&') else v)
    return ret(c.st, x.a[0] if x.op == 'arcin' else mk('arc', x))
@model('alloc::rcs::arc::Arc::<T>::new', 'alloc::rcs::rc::Rc::<T>::new')
def _arcnew(c): return ret(c.st, mk('arc', c.args[0]))
@model('alloc::boxed::Box::<T>::new', 'alloc::boxed::Box::<T>::pin')
def _boxnew(c): return ret(c.st, mk('box', c.args[0]))

def cloneval(c):
    v = c.args[0]
    x = c.I.deref(c.st, v)
    return ret(c.st, x)
def clone_hook(c):
    p = c.path
    if p.endswith('::clone') and (c.callee.get('tr') == 'core::clone::Clone' or 'core::clone::Clone' in p) and c.callee.get('r') is None:
        return cloneval(c)
    if c.callee.get('tr') == 'alloc::borrow::ToOwned' or p in ('alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned', '<T as alloc::string::ToString>::to_string', '<str as alloc::string::ToString>::to_string', 'bytes::bytes::Bytes::copy_from_slice', 'alloc::slice::<impl [T]>::to_vec',
            '<alloc::string::String as core::convert::From<&str>>::from', 'alloc::str::<impl str>::to_string', 'bytes::bytes::Bytes::from_static', 'bytes::bytes::Bytes::to_vec'):
        return ret(c.st, c.I.deref_all(c.st, c.args[0]) if c.args[0].op == 'ref' else c.I.deref(c.st, c.args[0]))
    return None

# ------------------------------------------------------------------ strings
@model('core::str::<impl str>::len', 'core::slice::<impl [T]>::len', 'alloc::vec::Vec::<T, A>::len', 'alloc::string::String::len', 'bytes::bytes::Bytes::len', 'bytes::bytes_mut::BytesMut::len', 'std::collections::hash::map::HashMap::<K, V, S, A>::len')
def _len(c):
    v = c.I.deref_all(c.st, c.args[0]) if c.args[0].op == 'ref' else c.I.deref(c.st, c.args[0])
    return ret(c.st, c.I.length(c.st, v))
@model('core::str::<impl str>::is_empty', 'core::slice::<impl [T]>::is_empty', 'alloc::vec::Vec::<T, A>::is_empty', 'alloc::string::String::is_empty', 'bytes::bytes::Bytes::is_empty', 'bytes::bytes_mut::BytesMut::is_empty')
def _isempty(c):
    v = c.I.deref_all(c.st, c.args[0]) if c.args[0].op == 'ref' else c.I.deref(c.st, c.args[0])
    return ret(c.st, eq0(c.I.length(c.st, v)))
def isstr(v):
    return v.op in ('str', 'utf8') or v.op == 'arcin' and ATOM_TY.get(v) == 'str'
@model('core::str::converts::from_utf8')
def _utf8(c):
    v = c.I.deref_all(c.st, c.args[0])
    if isstr(v): return ret(c.st, Ok(c.I.ref_to(v)))      # the bytes of a string
    b = typed(mk('isutf8', v), 'bool')
    outs = []
    for s, ok in c.I.branch(c.st, b):
        outs.append(Out(s, 'ret', Ok(c.I.ref_to(mk('utf8', v))) if ok else Err(mk('utf8err', v))))
    return outs
@model('core::str::traits::<impl core::cmp::PartialEq for str>::eq')
def _streq(c):
    a = c.I.deref_all(c.st, c.args[0]); b = c.I.deref_all(c.st, c.args[1])
    t = streq(a, b)
    if t.op != 'streq': return ret(c.st, t)
    outs = []
    for s, v in c.I.branch(c.st, t):
        if v:      # equal strings have equal lengths
            s = s.copy(); d = sub(c.I.length(s, a), c.I.length(s, b))
            try:
                if d is not ZERO: s.facts.assume(eq0(d))
            except Infeasible: continue
        outs.append(Out(s, 'ret', I(v)))
    return outs
def streq(a, b):
    if a is b: return TRUE
    if a.op == 'str' and b.op == 'str': return I(a.a[0] == b.a[0])
    if b.id < a.id: a, b = b, a
    return typed(mk('streq', a, b), 'bool')

# ------------------------------------------------------------------ vectors / slices
@model('alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity', 'alloc::vec::Vec::<T, A>::with_capacity', '<alloc::vec::Vec<T> as core::default::Default>::default')
def _vecnew(c): return ret(c.st, mk('vec', ZERO))
def as_vec(I_, st, v):
    if v.op == 'vec': return v
    if v.op == 'arr': return mk('vec', I(len(v.a)), *[mk('pe', x) for x in v.a])
    return mk('vec', I_.length(st, v), mk('pall', v))
@model('alloc::vec::Vec::<T, A>::push')
def _push(c):
    loc, v = buf_loc(c.I, c.st, c.args[0])
    st = c.st.copy(); w = as_vec(c.I, st, v)
    c.I.write(st, loc[0], loc[1], mk('vec', add(w.a[0], ONE), *(w.a[1:] + (mk('pe', c.args[1]),))))
    return ret(st, UNIT)
@model('alloc::vec::Vec::<T, A>::insert')
def _vecinsert(c):
    loc, v = buf_loc(c.I, c.st, c.args[0]); i = c.args[1]
    w = as_vec(c.I, c.st, v)
    if i.op != 'int' or any(p.op != 'pe' for p in w.a[1:]): return None
    if i.a[0] > len(w.a) - 1: return [c.panic(c.st, 'insertion index out of bounds')]
    st = c.st.copy(); ps = list(w.a[1:]); ps.insert(i.a[0], mk('pe', c.args[2]))
    c.I.write(st, loc[0], loc[1], mk('vec', add(w.a[0], ONE), *ps))
    return ret(st, UNIT)
def vec_get(I_, v, idx):
    if v.op == 'arr' and idx.op == 'int' and 0 <= idx.a[0] < len(v.a): return v.a[idx.a[0]]
    if v.op == 'vec':
        ps = v.a[1:]
        if idx.op == 'int' and all(p.op == 'pe' for p in ps) and 0 <= idx.a[0] < len(ps): return ps[idx.a[0]].a[0]
        if len(ps) == 1 and ps[0].op == 'pall': return mk('elem', ps[0].a[0], idx)
    if isstr(v): I_.textreads += 1
    return mk('elem', v, idx)
@model('<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index', 'core::slice::index::<impl core::ops::index::Index<I> for [T]>::index', 'core::array::<impl core::ops::index::Index<I> for [T; N]>::index',
       'core::array::<impl core::ops::index::IndexMut<I> for [T; N]>::index_mut', '<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut', 'core::slice::index::<impl core::ops::index::IndexMut<I> for [T]>::index_mut')
def _index(c):
    I_ = c.I
    base = c.args[0]; idx = c.args[1]
    v = I_.deref_all(c.st, base) if base.op == 'ref' else I_.deref(c.st, base)
    ity = c.argty(1) or ''
    if idx.op == 'adt' or 'Range' in ity:
        p = idx.a[0] if idx.op == 'adt' else ity
        if 'RangeFull' in p: return ret(c.st, base)
        ln = I_.length(c.st, v)
        lo, hi = ZERO, ln
        if idx.op == 'adt':
            k = p.split('::')[-1]
            if k == 'RangeTo': hi = idx.a[2]
            elif k == 'RangeFrom': lo = idx.a[2]
            elif k == 'Range': lo, hi = idx.a[2], idx.a[3]
            elif k == 'RangeInclusive': return None
            elif k == 'RangeToInclusive': hi = add(idx.a[2], ONE)
        outs = []
        cond = b_and(ge0(sub(hi, lo)), ge0(sub(ln, hi)))
        for s, ok in I_.branch(c.st, cond):
            if not ok: outs.append(c.panic(s, 'slice index out of bounds')); continue
            n_ = sub(hi, lo)
            if v.op == 'vec' and lo.op == 'int' and n_.op == 'int' and all(p_.op == 'pe' for p_ in v.a[1:]): outs.append(Out(s, 'ret', I_.ref_to(mk('vec', n_, *v.a[1 + lo.a[0]:1 + lo.a[0] + n_.a[0]])))); continue
            outs.append(Out(s, 'ret', I_.ref_to(subslice(v, lo, sub(hi, lo)))))
        return outs
    ln = I_.length(c.st, v)
    outs = []
    for s, ok in I_.branch(c.st, ge0(add(sub(ln, idx), I(-1)))):
        if not ok: outs.append(c.panic(s, 'index out of bounds')); continue
        if base.op == 'ref' and v.op in ('arr',) and idx.op == 'int':
            outs.append(Out(s, 'ret', mk('ref', base.a[0], base.a[1] + (('i', idx),)))); continue
        t = vec_get(I_, v, idx)
        outs.append(Out(s, 'ret', I_.ref_to(retyped(c, t))))
    return outs
def subterms(v):
    if isinstance(v, T):
        yield v; v = v.a
    if isinstance(v, (tuple, list, frozenset)):
        for x in v: yield from subterms(x)
def plain_offset(s, k):
    """an offset into the text made of nothing but numbers and lengths: nothing says that a character starts there"""
    if k.op in ('int', 'len'): return True
    if k.op not in ('lin', 'sum', 'add', 'min', 'max', 'div', 'mul', 'rem'): return False
    return all(plain_offset(s, x) for x in kids(k.a))
def kids(v):
    for x in v:
        if isinstance(x, T): yield x
        elif isinstance(x, (tuple, list)): yield from kids(x)
def knows_text(st, s):
    return any(x.op in ('starts_with', 'ends_with', 'contains', 'findpos', 'anychar', 'eq', 'call', 'isascii', 'is_char_boundary') and any(y is s for y in subterms(x)) for a in fact_terms(st) for x in subterms(a))
def fact_terms(st):
    k = st.facts.key(); out = []
    def go(o, d=0):
        if isinstance(o, T): out.append(o)
        elif isinstance(o, (tuple, list, frozenset, set)) and d < 6:
            for y in o: go(y, d + 1)
    go(k); return out
def str_cut(c, s, cuts, make):
    """cutting text s at the offsets: a panic when one is out of range or may lie within a character"""
    I_ = c.I; ln = I_.length(c.st, s); cond = TRUE; known = None
    if knows_text(c.st, s): return [Out(c.st, 'ret', make(c.st))]
    st = c.st; mid = False; prev = ZERO
    for k in cuts:
        if k is ZERO or k is ln: continue
        if not plain_offset(s, k) and not any(x.op == 'findpos' for x in subterms(k)): continue
        cond = b_and(cond, ge0(sub(ln, k)))
        if plain_offset(s, k) and not st.facts.prove_eq(k, ln):
            if known is None: known = knows_text(st, s)
            mid = mid or not known
    outs = []
    for x, ok in I_.branch(st, cond):
        if not ok: outs.append(c.panic(x, 'text cut out of bounds')); continue
        if mid:
            outs.append(c.panic(x.copy(), 'text cut where no character need start'))
        outs.append(Out(x, 'ret', make(x)))
    return outs
def subtext(c, st, s, lo, hi):
    r = mk('substr', s, lo, hi); ATOM_TY[r] = 'str'
    n = c.I.length(st, r)
    if not any(x.op in ('findpos',) for k in (lo, hi) for x in subterms(k)) and not (plain_offset(s, lo) and plain_offset(s, hi)): return r
    try: st.facts._ge(sub(n, sub(hi, lo))); st.facts._ge(sub(sub(hi, lo), n))
    except Infeasible: pass
    return r
@model('core::str::traits::<impl core::ops::index::Index<I> for str>::index', '<alloc::string::String as core::ops::index::Index<I>>::index', 'core::str::<impl str>::get', 'core::str::<impl str>::split_at')
def _strindex(c):
    I_ = c.I; a = c.args[0]; idx = c.args[1]
    s = I_.deref_all(c.st, a) if a.op in ('ref', 'str') else I_.deref(c.st, a)
    ln = I_.length(c.st, s)
    if c.path.endswith('::split_at'):
        return str_cut(c, s, [idx], lambda st: mk('tuple', I_.ref_to(subtext(c, st, s, ZERO, idx)), I_.ref_to(subtext(c, st, s, idx, ln))))
    if idx.op != 'adt' and 'RangeFull' not in (c.argty(1) or ''): return None
    k = (idx.a[0] if idx.op == 'adt' else c.argty(1)).split('::')[-1]
    lo, hi = ZERO, ln
    if k == 'RangeFull' or 'RangeFull' in k: return ret(c.st, a if not c.path.endswith('::get') else Some(a))
    if k == 'RangeTo': hi = idx.a[2]
    elif k == 'RangeFrom': lo = idx.a[2]
    elif k == 'Range': lo, hi = idx.a[2], idx.a[3]
    elif k == 'RangeToInclusive': hi = add(idx.a[2], ONE)
    else: return None
    if c.path.endswith('::get'):
        s1 = c.st.copy(); return [Out(c.st.copy(), 'ret', NONE), Out(s1, 'ret', Some(I_.ref_to(subtext(c, s1, s, lo, hi))))]
    return str_cut(c, s, [lo, hi], lambda st: I_.ref_to(subtext(c, st, s, lo, hi)))
@model('core::str::<impl str>::is_char_boundary')
def _icb(c):
    s = c.I.deref_all(c.st, c.args[0]) if c.args[0].op in ('ref', 'str') else c.I.deref(c.st, c.args[0])
    outs = []
    for st, ok in c.I.branch(c.st, typed(mk('is_char_boundary', s, c.args[1]), 'bool')):
        if not ok:                      # the start of the text is one
            st = st.copy()
            try: st.facts._ge(sub(c.args[1], ONE))
            except Infeasible: continue
        outs.append(Out(st, 'ret', TRUE if ok else FALSE))
    return outs
@model('core::str::<impl str>::strip_prefix', 'core::str::<impl str>::strip_suffix')
def _strip(c):
    s = c.I.deref_all(c.st, c.args[0]) if c.args[0].op in ('ref', 'str') else c.I.deref(c.st, c.args[0])
    x = c.args[1]
    if x.op == 'ref': x = c.I.deref_all(c.st, x)
    if x.op == 'clo': return None
    n = 'starts_with' if c.path.endswith('prefix') else 'ends_with'
    outs = []
    for st, ok in c.I.branch(c.st, typed(mk(n, s, x), 'bool')):
        if not ok: outs.append(Out(st, 'ret', NONE)); continue
        r = mk('strip', s, n, x); ATOM_TY[r] = 'str'
        outs.append(Out(st, 'ret', Some(c.I.ref_to(r))))
    return flush(outs)
def retyped(c, t):
    """type t as the pointee of the call's return type (a reference)"""
    if c.retty is not None:
        ty = c.I.prog.types[c.retty]
        if ty['k'] == 'ref': c.I.reg(t, ty['e'])
    return t
def subslice(v, lo, n):
    if v.op == 'blob': return mk('blob', v.a[0], add(v.a[1], lo), n)
    if v.op == 'bsub': return mk('blob', v.a[0], add(v.a[1], lo), n)
    return mk('blob', v, lo, n)
@model('alloc::vec::Vec::<T, A>::remove')
def _vremove(c):
    loc, v = buf_loc(c.I, c.st, c.args[0]); idx = c.args[1]
    outs = []
    ln = c.I.length(c.st, v)
    for s, ok in c.I.branch(c.st, ge0(add(sub(ln, idx), I(-1)))):
        if not ok: outs.append(c.panic(s, 'Vec::remove out of bounds')); continue
        s = s.copy()
        w = as_vec(c.I, s, v); ps = w.a[1:]
        x = vec_get(c.I, v, idx)
        if idx.op == 'int' and all(p.op == 'pe' for p in ps): n = mk('vec', sub(w.a[0], ONE), *[p for i, p in enumerate(ps) if i != idx.a[0]])
        else: n = mk('vec', sub(w.a[0], ONE), mk('premoved', v, idx))
        c.I.write(s, loc[0], loc[1], n)
        outs.append(Out(s, 'ret', c.I.reg(x, c.retty)))
    return outs
@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last')
def _first(c):
    v = c.I.deref_all(c.st, c.args[0])
    ln = c.I.length(c.st, v); outs = []
    idx = ZERO if c.path.endswith('first') else add(ln, I(-1))
    for s, ok in c.I.branch(c.st, ge0(add(ln, I(-1)))):
        if not ok: outs.append(Out(s, 'ret', NONE)); continue
        outs.append(Out(s, 'ret', Some(c.I.ref_to(opt_ref_typed(c, vec_get(c.I, v, idx))))))
    return outs
def opt_ref_typed(c, t):
    """type t from an Option<&X> return type"""
    if c.retty is not None:
        ty = c.I.prog.types[c.retty]
        if ty['k'] == 'adt' and ty['a']:
            e = c.I.prog.types[ty['a'][0]]
            if e['k'] == 'ref': c.I.reg(t, e['e'])
    return t
@model('core::slice::<impl [T]>::get')
def _sget(c):
    v = c.I.deref_all(c.st, c.args[0]); idx = c.args[1]
    if idx.op == 'adt': return None
    ln = c.I.length(c.st, v); outs = []
    for s, ok in c.I.branch(c.st, ge0(add(sub(ln, idx), I(-1)))):
        outs.append(Out(s, 'ret', Some(c.I.ref_to(opt_ref_typed(c, vec_get(c.I, v, idx)))) if ok else NONE))
    return outs
# vec![x] : Box::new_uninit + write + box_assume_init_into_vec_unsafe
@model('alloc::boxed::Box::<T>::new_uninit')
def _newuninit(c): return ret(c.st, mk('box', mk('undef')))
@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def _boxvec(c):
    b = c.args[0]
    v = b.a[0] if b.op == 'box' else UNDEF
    v = find_arr(v)
    return ret(c.st, as_vec(c.I, c.st, v) if v is not None else mk('anyvec', b))
def find_arr(v, n=0):
    if v.op == 'arr': return v
    if v.op in ('upd', 'adt', 'box', 'tup') and n < 8:
        for x in v.a:
            if isinstance(x, T):
                r = find_arr(x, n + 1)
                if r is not None: return r
    return None

# ------------------------------------------------------------------ hash maps
def present(c, s, m, k):
    """facts the registered class invariants give about the entry of key k of map m (None: contradiction)"""
    b = m
    while b.op in ('hmins', 'hmupd', 'hmrem'):
        if keyeq(b.a[1], k) is not False: return s
        b = b.a[0]
    for h in c.I.present_hooks:
        s = s.copy()
        try: h(c.I, s, b, k)
        except Infeasible: return None
    return s
def HAS(m, k):
    """membership of key k in map term m"""
    if m.op == 'hmnew': return FALSE
    if m.op == 'hmins':
        if m.a[1] is k: return TRUE
        e = keyeq(m.a[1], k)
        if e is False: return HAS(m.a[0], k)
    if m.op == 'hmrem':
        if m.a[1] is k: return FALSE
        if keyeq(m.a[1], k) is False: return HAS(m.a[0], k)
    return typed(mk('hmhas', m, k), 'bool')
def GET(m, k):
    if m.op == 'hmins':
        if m.a[1] is k: return m.a[2]
        if keyeq(m.a[1], k) is False: return GET(m.a[0], k)
    if m.op == 'hmrem' and keyeq(m.a[1], k) is False: return GET(m.a[0], k)
    return mk('hmget', m, k)
def keyeq(a, b):
    if a is b: return True
    if a.op == b.op == 'int': return a.a[0] == b.a[0]
    if a.op == b.op == 'adt' and len(a.a) == 2 and len(b.a) == 2: return a.a[1] == b.a[1]
    if a.op == b.op == 'str': return a.a[0] == b.a[0]
    return None
HM = 'std::collections::hash::map::HashMap::<K, V, S, A>::'
def keyarg(c, a):
    """normalised key term behind a borrowed key"""
    v = c.I.deref_all(c.st, a) if a.op == 'ref' else a if a.op in ('str',) else c.I.deref(c.st, a)
    return keynorm(v)
def keynorm(v):
    if v.op == 'arc': return keynorm(v.a[0])
    if v.op == 'arcin': return v.a[0] if v.a[0].op != 'arc' else keynorm(v.a[0].a[0])
    return v
@model('std::collections::hash::map::HashMap::<K, V>::new', '<std::collections::hash::map::HashMap<K, V, S> as core::default::Default>::default', 'std::collections::hash::set::HashSet::<T>::new', '<std::collections::hash::map::HashMap<K, V, S, A> as core::default::Default>::default')
def _hmnew(c): return ret(c.st, mk('hmnew'))
@model(HM + 'get', HM + 'get_mut')
def _hmget(c):
    loc, m = buf_loc(c.I, c.st, c.args[0]); k = keyarg(c, c.args[1])
    outs = []
    mut = c.path.endswith('get_mut')
    for s, has in c.I.branch(c.st, HAS(m, k)):
        if not has: outs.append(Out(s, 'ret', NONE)); continue
        t = opt_ref_typed(c, GET(m, k))
        s = present(c, s, m, k)
        if s is None: continue
        if mut:
            s = s.copy(); outs.append(Out(s, 'ret', Some(mk('ref', loc[0], loc[1] + (('hm', k),)))))
        else: outs.append(Out(s, 'ret', Some(c.I.ref_to(t))))
    return outs
@model(HM + 'contains_key', 'std::collections::hash::set::HashSet::<T, S, A>::contains')
def _hmhas(c):
    loc, m = buf_loc(c.I, c.st, c.args[0]); k = keyarg(c, c.args[1])
    return ret(c.st, HAS(m, k))
@model(HM + 'insert')
def _hmins(c):
    loc, m = buf_loc(c.I, c.st, c.args[0]); k = keynorm(c.args[1]); v = c.args[2]
    outs = []
    for s, has in c.I.branch(c.st, HAS(m, k)):
        s = s.copy()
        c.I.write(s, loc[0], loc[1], mk('hmins', m, k, v))
        old = GET(m, k)
        if c.retty is not None and has:
            ty = c.I.prog.types[c.retty]
            if ty['k'] == 'adt' and ty['a']: c.I.reg(old, ty['a'][0])
        if has:
            s = present(c, s, m, k)
            if s is None: continue
        outs.append(Out(s, 'ret', Some(old) if has else NONE))
    return outs
@model('std::collections::hash::set::HashSet::<T, S, A>::insert')
def _hsins(c):
    loc, m = buf_loc(c.I, c.st, c.args[0]); k = keynorm(c.args[1])
    outs = []
    for s, has in c.I.branch(c.st, HAS(m, k)):
        s = s.copy(); c.I.write(s, loc[0], loc[1], mk('hmins', m, k, UNIT)); outs.append(Out(s, 'ret', I(not has)))
    return outs
@model(HM + 'remove', 'std::collections::hash::set::HashSet::<T, S, A>::remove')
def _hmrem(c):
    loc, m = buf_loc(c.I, c.st, c.args[0]); k = keyarg(c, c.args[1])
    outs = []
    isset = 'set::' in c.path
    for s, has in c.I.branch(c.st, HAS(m, k)):
        s = s.copy()
        if has: c.I.write(s, loc[0], loc[1], mk('hmrem', m, k))
        if isset: outs.append(Out(s, 'ret', I(has))); continue
        old = GET(m, k)
        if has and c.retty is not None:
            ty = c.I.prog.types[c.retty]
            if ty['k'] == 'adt' and ty['a']: c.I.reg(old, ty['a'][0])
        outs.append(Out(s, 'ret', Some(old) if has else NONE))
    return outs
@model('std::collections::hash::map::HashMap::<K, V, S, A>::is_empty', 'std::collections::hash::set::HashSet::<T, S, A>::is_empty')
def _hmempty(c):
    loc, m = buf_loc(c.I, c.st, c.args[0])
    if m.op == 'hmnew': return ret(c.st, TRUE)
    if m.op == 'hmins': return ret(c.st, FALSE)
    return ret(c.st, typed(mk('hmempty', m), 'bool'))
def hm_set(m, k, v):
    """map m with the value of (present) key k replaced"""
    if m.op == 'hmins' and m.a[1] is k: return mk('hmins', m.a[0], k, v)
    if m.op == 'hmupd' and m.a[1] is k: return mk('hmupd', m.a[0], k, v)
    return mk('hmupd', m, k, v)

# ------------------------------------------------------------------ iterators
# mk('iter', src, pos, kind): kind ref (items are references to elem(src,pos)), val (by value), hm (key/value pairs),
# keys, vals, chars, split, flat.   adaptors: itmap(inner, f) itenum(inner, n) itchain(a, b) itcloned(inner) itpeek(inner, peeked)
# itfilter(inner, f) ittake(inner, n) itskip...
RNGP = 'core::ops::range::Range'
def it_elem(c, src, pos):
    v = vec_get(c.I, src, pos) if src.op in ('arr', 'vec') else mk('elem', src, pos)
    return v
def elem_type(I_, tyi):
    """type index of the item type of an iterator-like type"""
    return None
def it_next(c, st, it, itemty=None):
    """[(state, new iterator, item or None)]"""
    I_ = c.I; o = it.op
    if o == 'iter':
        src, pos, kind = it.a
        L = I_.length(st, src)
        res = []
        for s, more in I_.branch(st, ge0(add(sub(L, pos), I(-1)))):
            if more:
                s = s.copy(); nit = mk('iter', src, add(pos, ONE), kind)
                if getattr(I_, 'world', None) is not None and kind in ('hm', 'hmv', 'keys', 'keysv', 'ref', 'val'): s.trace = s.trace + (('item', src, pos),)
                if kind == 'flat':
                    res += [(s2, nit, x) for s2, x in flat_item(c, s, src, pos)]; continue
                res.append((s, nit, it_item(c, src, pos, kind, itemty)))
            else:
                s = s.copy()
                ld = sub(L, pos)
                if ld is not ZERO:
                    cst, ps = lin_parts(pos)
                    sy = [x for x, k in ps if k == 1 and x.op == 'sym' and x.a[0] == 'lv']
                    if sy:
                        if getattr(I_, 'world', None) is not None and kind in ('hm', 'hmv', 'keys', 'keysv', 'ref', 'val'): s.trace = s.trace + (('noitem', src),)
                        try:
                            x = sy[0]
                            subst_state(s, {x: sub(L, sub(pos, x))})
                            nit = mk('iter', src, L, kind)
                            res.append((s, nit, None)); continue
                        except Infeasible: continue
                res.append((s, it, None))
        return res
    if o == 'adt' and it.a[0] in (RNGP, 'core::ops::range::RangeInclusive'):
        lo, hi = it.a[2], it.a[3]
        if it.a[0] != RNGP: hi = add(hi, ONE)
        res = []
        for s, more in I_.branch(st, ge0(add(sub(hi, lo), I(-1)))):
            if more: res.append((s.copy(), mk('adt', it.a[0], 0, add(lo, ONE), *it.a[3:]), lo))
            else: res.append((s.copy(), it, None))
        return res
    if o == 'itmap':
        res = []
        for s, n, x in it_next(c, st, it.a[0]):
            if x is None: res.append((s, mk('itmap', n, it.a[1]), None)); continue
            for r in c.call(it.a[1], [x], s):
                if r.kind == 'ret': res.append((r.st, mk('itmap', n, it.a[1]), r.val))
                else: c_extra(c).append(r)
        return res
    if o == 'itfilter':
        res = []
        for s, n, x in it_next(c, st, it.a[0]):
            if x is not None and getattr(I_, 'world', None) is not None:
                for r in c.call(it.a[1], [I_.ref_to(x)], s):
                    if r.kind != 'ret': c_extra(c).append(r); continue
                    for s2, ok in I_.branch(r.st, r.val):
                        if ok: res.append((s2.copy(), mk('itfilter', n, it.a[1]), x))
                        else: I_.world.filtered.append((I_.world.cur, c.f['p'], s2.copy(), x))
                continue
            res.append((s, mk('itfilter', n, it.a[1]), x))       # over-approximation: every element may pass
        return res
    if o == 'itenum':
        return [(s, mk('itenum', n, add(it.a[1], ONE) if x is not None else it.a[1]), mk('tup', it.a[1], x) if x is not None else None) for s, n, x in it_next(c, st, it.a[0])]
    if o == 'ittake':
        res = []
        for s, some in I_.branch(st, ge0(add(it.a[1], I(-1)))):
            if not some: res.append((s.copy(), it, None)); continue
            res += [(s2, mk('ittake', n, sub(it.a[1], ONE) if x is not None else it.a[1]), x) for s2, n, x in it_next(c, s, it.a[0])]
        return res
    if o == 'itcloned':
        return [(s, mk('itcloned', n), (I_.deref(s, x) if x is not None else None)) for s, n, x in it_next(c, st, it.a[0])]
    if o == 'itonce':
        return [(st.copy(), mk('itempty'), it.a[0])]
    if o == 'itempty': return [(st.copy(), it, None)]
    if o == 'itchain':
        res = []
        for s, n, x in it_next(c, st, it.a[0]):
            if x is not None: res.append((s, mk('itchain', n, it.a[1]), x)); continue
            for s2, n2, y in it_next(c, s, it.a[1]): res.append((s2, mk('itchain', mk('itempty'), n2), y))
        return res
    if o == 'monit':
        import strmon
        return strmon.nxt(c, st, it)
    if o in ('itref', 'itidx'):
        res = []
        for s, n, x in it_next(c, st, it.a[0]):
            if x is not None: x = I_.ref_to(x) if o == 'itref' else mk('tup', s.fresh('usize', 'index', c.f['p'], c.b), x)
            res.append((s, mk(o, n), x))
        return res
    if o == 'itpeek':
        if it.a[1] is not UNDEF:
            pk = it.a[1]
            if pk.op != 'adt':               # joined states: the slot may be empty, exhausted or filled
                v = st.fresh(None, 'item', c.f['p'], c.b)
                return [(s, mk('itpeek', n, UNDEF), x) for s, n, x in it_next(c, st, it.a[0])] + [(st.copy(), mk('itpeek', it.a[0], UNDEF), v), (st.copy(), mk('itpeek', it.a[0], UNDEF), None)]
            return [(st.copy(), mk('itpeek', it.a[0], UNDEF), pk.a[2] if pk.a[1] == 1 else None)]
        return [(s, mk('itpeek', n, UNDEF), x) for s, n, x in it_next(c, st, it.a[0])]
    if o == 'ref':
        loc, v = buf_loc(I_, st, it)
        res = []
        for s, n, x in it_next(c, st, v):
            s = s.copy(); I_.write(s, loc[0], loc[1], n); res.append((s, it, x))
        return res
    if o in IT_NEXT: return IT_NEXT[o](c, st, it)
    # opaque iterator
    s1 = st.copy(); s2 = st.copy()
    v = s1.fresh(None, 'item', c.f['p'], c.b)
    return [(s1, mk('itop', it), v), (s2, it, None)]
IT_NEXT = {}
_extra = []
def c_extra(c): return _extra
def it_item(c, src, pos, kind, itemty):
    if kind == 'hm': return mk('tup', c.I.ref_to(mk('hmkey', src, pos)), c.I.ref_to(mk('hmval', src, pos)))
    if kind == 'hmv': return mk('tup', mk('hmkey', src, pos), mk('hmval', src, pos))
    if kind == 'keys': return c.I.ref_to(mk('hmkey', src, pos))
    if kind == 'keysv': return mk('hmkey', src, pos)
    if kind == 'vals': return c.I.ref_to(mk('hmval', src, pos))
    if kind == 'chars':
        t = mk('elem', src, pos); ATOM_TY.setdefault(t, 'char'); return t
    if kind == 'split': return mk('elem', src, pos)
    if kind == 'bytes':
        return typed(mk('elem', src, pos), 'u8')
    v = it_elem(c, src, pos)
    return c.I.ref_to(v) if kind == 'ref' else v
def flat_item(c, st, src, pos):
    """items of a flattened iterator: src = ('flatsrc', inner iterator value)"""
    inner = src.a[0]; fi = mk('fi', src, pos); fj = mk('fj', src, pos)
    for t in (fi, fj): ATOM_TY.setdefault(t, 'usize'); ATOM_RNG.setdefault(t, (0, 2**48))
    def at(s, it, ix):
        if it.op == 'iter' and it.a[2] != 'flat':
            s.facts._ge(add(sub(c.I.length(s, it.a[0]), ix), I(-1)))
            return [(s, it_item(c, it.a[0], ix, it.a[2], None))]
        if it.op == 'itmap':
            r = []
            for s2, x in at(s, it.a[0], ix):
                for o in c.call(it.a[1], [x], s2):
                    if o.kind == 'ret': r.append((o.st, o.val))
                    else: c_extra(c).append(o)
            return r
        if it.op == 'itcloned': return [(s2, c.I.deref(s2, x)) for s2, x in at(s, it.a[0], ix)]
        return [(s, mk('elem', it, ix))]
    res = []
    for s, sub_it in at(st.copy(), inner, fi):
        y = as_iter(c, s, sub_it)
        if y is None: res.append((s, mk('elem', src, pos)))
        else: res += at(s, y, fj)
    return res
def as_iter(c, st, v, ty=None):
    """IntoIterator::into_iter by value shape / type name"""
    o = v.op
    if o in IT_NEXT: return v
    if o in ('iter', 'itmap', 'itfilter', 'itenum', 'ittake', 'itcloned', 'itonce', 'itempty', 'itchain', 'itpeek', 'itop', 'monit', 'itref', 'itidx'): return v
    if o == 'adt' and v.a[0] in (RNGP, 'core::ops::range::RangeInclusive'): return v
    ty = ty or ATOM_TY.get(v) or ''
    if ty.startswith('&'):
        isref = True; t = ty.replace('&mut ', '&')[1:]
        x = c.I.deref_all(st, v) if o == 'ref' else c.I.deref(st, v)
    else: isref = False; t = ty; x = v
    if o == 'ref' and not ty: isref = True; x = c.I.deref_all(st, v); t = ATOM_TY.get(x, '')
    if t.startswith('std::collections::hash::map::HashMap'): return mk('iter', x, ZERO, 'hm' if isref else 'hmv')
    if t.startswith('std::collections::hash::set::HashSet'): return mk('iter', x, ZERO, 'keys' if isref else 'keysv')
    if t.startswith(('alloc::vec::Vec', '[')) or x.op in ('vec', 'arr'): return mk('iter', x, ZERO, 'ref' if isref else 'val')
    if t.startswith(OPT) or (x.op == 'adt' and x.a[0] == OPT):
        if x.op == 'adt': return mk('itonce', x.a[2]) if x.a[1] == 1 else mk('itempty')
    return None
def flush(outs):
    r = outs + _extra[:]
    _extra.clear()
    return r

@model('core::ops::range::Range::<Idx>::contains', 'core::ops::range::RangeInclusive::<Idx>::contains')
def _rcontains(c):
    r = c.I.deref_all(c.st, c.args[0]); x = c.I.deref_all(c.st, c.args[1])
    if r.op != 'adt' or not c.I.intlike(x): return None
    hi = r.a[3]
    return ret(c.st, b_and(ge0(sub(x, r.a[2])), ge0(sub(hi, x) if 'Inclusive' in r.a[0] else add(sub(hi, x), I(-1)))))
ITP = 'core::iter::traits::iterator::Iterator::'
@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut')
def _sliter(c):
    v = c.I.deref_all(c.st, c.args[0]) if c.args[0].op == 'ref' else c.I.deref(c.st, c.args[0])
    return ret(c.st, mk('iter', v, ZERO, 'ref'))
def hmiter(kind):
    def g(c):
        v = c.I.deref_all(c.st, c.args[0]) if c.args[0].op == 'ref' else (c.I.deref(c.st, c.args[0]) if (c.argty(0) or '').startswith('&') else c.args[0])
        return ret(c.st, mk('iter', v, ZERO, kind))
    return g
for n_, k_ in (('iter', 'hm'), ('iter_mut', 'hm'), ('keys', 'keys'), ('values', 'vals'), ('values_mut', 'vals'), ('drain', 'hmv')): M[HM + n_] = hmiter(k_)
M['std::collections::hash::set::HashSet::<T, S, A>::iter'] = hmiter('keys')
M['std::collections::hash::set::HashSet::<T, S>::iter'] = hmiter('keys')
@model('core::str::<impl str>::chars', 'core::str::<impl str>::bytes')
def _chars(c):
    s = c.I.deref_all(c.st, c.args[0]) if c.args[0].op == 'ref' else c.I.deref(c.st, c.args[0])
    k = 'chars' if c.path.endswith('chars') else 'bytes'
    if s.op == 'str':
        src = mk('arr', *[I(ord(x)) for x in s.a[0]]) if k == 'chars' else mk('arr', *[I(x) for x in s.a[0].encode()])
        return ret(c.st, mk('iter', src, ZERO, 'val'))
    return ret(c.st, mk('iter', mk(k, s), ZERO, k))
@model('core::str::<impl str>::split')
def _split(c):
    s = c.I.deref_all(c.st, c.args[0]) if c.args[0].op == 'ref' else c.I.deref(c.st, c.args[0])
    src = mk('split', s, c.args[1])
    n = c.I.length(c.st, src); ATOM_RNG[n] = (1, 2**48)
    return ret(c.st, mk('iter', src, ZERO, 'split'))
@model('core::iter::sources::once::once')
def _once(c): return ret(c.st, mk('itonce', c.args[0]))
@model('core::iter::sources::empty::empty')
def _empty(c): return ret(c.st, mk('itempty'))
def adaptor(name, n):
    def g(c):
        it = as_iter(c, c.st, c.args[0], c.argty(0))
        if it is None: return None
        return ret(c.st, mk(name, it, *c.args[1:1 + n]))
    return g
M[ITP + 'map'] = adaptor('itmap', 1); M[ITP + 'cloned'] = adaptor('itcloned', 0); M[ITP + 'copied'] = adaptor('itcloned', 0); M[ITP + 'filter'] = adaptor('itfilter', 1)
@model(ITP + 'enumerate')
def _enum(c):
    it = as_iter(c, c.st, c.args[0], c.argty(0))
    return ret(c.st, mk('itenum', it, ZERO)) if it is not None else None
@model(ITP + 'take')
def _ittake(c):
    it = as_iter(c, c.st, c.args[0], c.argty(0))
    return ret(c.st, mk('ittake', it, c.args[1])) if it is not None else None
def reversed_(it):
    if it.op in ('itmap', 'itcloned', 'itfilter'):
        x = reversed_(it.a[0]); return None if x is None else mk(it.op, x, *it.a[1:])
    if it.op == 'iter' and it.a[1] is ZERO and it.a[2] in ('ref', 'val') and it.a[0].op == 'vec' and all(p.op == 'pe' for p in it.a[0].a[1:]):
        return mk('iter', mk('vec', it.a[0].a[0], *reversed(it.a[0].a[1:])), ZERO, it.a[2])
    return None
@model(ITP + 'rev')
def _itrev(c):
    it = as_iter(c, c.st, c.args[0], c.argty(0))
    r = reversed_(it) if it is not None else None
    return ret(c.st, r) if r is not None else None
@model(ITP + 'by_ref')
def _byref(c): return ret(c.st, c.args[0])
@model(ITP + 'peekable')
def _peekable(c):
    it = as_iter(c, c.st, c.args[0], c.argty(0))
    return ret(c.st, mk('itpeek', it, UNDEF)) if it is not None else None
@model(ITP + 'chain')
def _ichain(c):
    a = as_iter(c, c.st, c.args[0], c.argty(0)); b = as_iter(c, c.st, c.args[1], c.argty(1))
    return ret(c.st, mk('itchain', a, b)) if a is not None and b is not None else None
@model(ITP + 'flatten')
def _flatten(c):
    it = as_iter(c, c.st, c.args[0], c.argty(0))
    if it is None: return None
    return ret(c.st, mk('iter', mk('flatsrc', it), ZERO, 'flat'))
@model(ITP + 'flat_map')
def _flatmap(c):
    it = as_iter(c, c.st, c.args[0], c.argty(0))
    if it is None: return None
    return ret(c.st, mk('iter', mk('flatsrc', mk('itmap', it, c.args[1])), ZERO, 'flat'))
def into_iter(c):
    it = as_iter(c, c.st, c.args[0], c.argty(0))
    return ret(c.st, it) if it is not None else None
def next_(c):
    loc, it = buf_loc(c.I, c.st, c.args[0])
    if as_iter(c, c.st, it) is not it: return None
    outs = []
    for s, n, x in it_next(c, c.st, it):
        c.I.write(s, loc[0], loc[1], n)
        outs.append(Out(s, 'ret', NONE if x is None else Some(opt_reg(c, x))))
    return flush(outs)
def opt_reg(c, x):
    if c.retty is not None:
        ty = c.I.prog.types[c.retty]
        if ty['k'] == 'adt' and ty['a']:
            c.I.reg(x, ty['a'][0])
            e = c.I.prog.types[ty['a'][0]]
            regref(c.I, x, ty['a'][0])
    return x
def regref(I_, x, tyi):
    ty = I_.prog.types[tyi]
    if x.op == 'ref' and ty['k'] == 'ref' and x.a[0][0] == 'M' and not x.a[1]: I_.reg(x.a[0][1], ty['e'])
    elif x.op == 'tup' and ty['k'] == 'tuple':
        for y, t in zip(x.a, ty['a']): regref(I_, y, t)
    elif x.op not in ('ref', 'tup'): I_.reg(x, tyi)
def iter_hook(c):
    p = c.path; tr = c.callee.get('tr')
    if tr == 'core::iter::traits::collect::IntoIterator' and p.endswith('into_iter'): return into_iter(c)
    if tr == 'core::iter::traits::iterator::Iterator':
        n = c.callee['p'].split('::')[-1]
        if n == 'next': return next_(c)
        g = CONSUME.get(n)
        if g is not None and c.callee.get('r') is None: return g(c)
    if p == 'core::iter::adapters::peekable::Peekable::<I>::peek': return peek(c)
    return None
def peek(c):
    loc, it = buf_loc(c.I, c.st, c.args[0])
    if it.op != 'itpeek': return None
    outs = []
    if it.a[1] is not UNDEF and it.a[1].op != 'adt':
        v = c.st.fresh(None, 'item', c.f['p'], c.b)
        alts = [(s, mk('itpeek', n, Some(x) if x is not None else NONE), x) for s, n, x in it_next(c, c.st, mk('itpeek', it.a[0], UNDEF))] + [(c.st.copy(), mk('itpeek', it.a[0], Some(v)), v), (c.st.copy(), mk('itpeek', it.a[0], NONE), None)]
    elif it.a[1] is not UNDEF: alts = [(c.st.copy(), it, it.a[1].a[2] if it.a[1].a[1] == 1 else None)]
    else: alts = [(s, mk('itpeek', n, Some(x) if x is not None else NONE), x) for s, n, x in it_next(c, c.st, it.a[0])]
    for s, n, x in alts:
        c.I.write(s, loc[0], loc[1], n)
        outs.append(Out(s, 'ret', NONE if x is None else Some(c.I.ref_to(x))))
    return flush(outs)

def mloop(c, it, body, acc=UNIT):
    """abstract `while let Some(x) = it.next()`; body(state, x, acc) -> [(state, 'next'|'stop', acc/result)] plus panics in _extra.
       returns [(state, 'end'|'stop', value)]"""
    I_ = c.I; cell = ('X', c.depth, c.b, 'it'); cacc = ('X', c.depth, c.b, 'acc')
    st = c.st.copy(); st.mem[cell] = it; st.mem[cacc] = acc
    outs = []
    def step(states, o):
        backs = {}; exits = {}
        for s in states:
            for s2, n, x in it_next(c, s, s.mem[cell]):
                s2.mem[cell] = n
                if x is None: exits[('end', s2.key())] = (('end', None), s2); continue
                for s3, k, v in body(s2, x, s2.mem[cacc]):
                    if k == 'next':
                        s3 = s3.copy(); s3.mem[cacc] = v; backs.setdefault(s3.key(), s3)
                    else: exits.setdefault(('stop', v, s3.key()), (('stop', v), s3))
        o.extend(flush([]))
        return list(backs.values()), list(exits.values())
    ex = I_.gloop(c.f, ('ml', c.b), st, c.depth, outs, step)
    res = []
    for (k, v), s in ex:
        s = s.copy(); a = s.mem.pop(cacc); s.mem.pop(cell, None)
        res.append((s, k, a if k == 'end' else v))
    _extra.extend(outs)
    return res
def callb(c, s, f, args):
    """call closure; returns [(state, value)], panics collected"""
    r = []
    for o in c.call(f, args, s):
        if o.kind == 'ret': r.append((o.st, o.val))
        else: _extra.append(o)
    return r
def selfiter(c):
    v = c.args[0]
    loc = None
    if v.op == 'ref' and (c.argty(0) or '&').startswith('&'):
        loc, it = buf_loc(c.I, c.st, v)
    else: it = v
    it2 = as_iter(c, c.st, it, None if loc else c.argty(0))
    return loc, it2
def quantifier(stop_on):
    def g(c):
        loc, it = selfiter(c)
        if it is None: return None
        # pure character predicate over a whole string: one boolean atom
        if it.op == 'iter' and it.a[1] is ZERO and it.a[2] == 'chars' and it.a[0].op == 'chars':
            cc = char_class(c, c.st, c.args[1], it_item(c, it.a[0], BOUND, 'chars', None))
            if cc is not None:
                if not stop_on:      # all(p) == !any(not p)
                    neg = []; nx = 0
                    for lo, hi in cc:
                        if lo > nx: neg.append((nx, lo - 1))
                        nx = hi + 1
                    if nx <= 0x10ffff: neg.append((nx, 0x10ffff))
                    return flush([Out(c.st.copy(), 'ret', b_not(any_char(it.a[0].a[0], tuple(neg))))])
                return flush([Out(c.st.copy(), 'ret', any_char(it.a[0].a[0], cc))])
            _extra.clear()
        def body(s, x, acc):
            r = []
            for s2, v in callb(c, s, c.args[1], [x]):
                for s3, b in c.I.branch(s2, v):
                    r.append((s3, 'stop', I(stop_on)) if b == stop_on else (s3, 'next', acc))
            return r
        res = mloop(c, it, body)
        return flush([Out(s, 'ret', I(not stop_on) if k == 'end' else v) for s, k, v in res])
    return g
def find_(c):
    loc, it = selfiter(c)
    if it is None: return None
    def body(s, x, acc):
        r = []
        for s2, v in callb(c, s, c.args[1], [c.I.ref_to(x)]):
            for s3, b in c.I.branch(s2, v): r.append((s3, 'stop', x) if b else (s3, 'next', acc))
        return r
    return flush([Out(s, 'ret', NONE if k == 'end' else Some(opt_reg(c, v))) for s, k, v in mloop(c, it, body)])
def find_map_(c):
    loc, it = selfiter(c)
    if it is None: return None
    def body(s, x, acc):
        r = []
        for s2, v in callb(c, s, c.args[1], [x]):
            for s3, b in c.I.branch(s2, eq0(sub(c.I.disc(v), ONE))): r.append((s3, 'stop', v) if b else (s3, 'next', acc))
        return r
    return flush([Out(s, 'ret', NONE if k == 'end' else v) for s, k, v in mloop(c, it, body)])
def position_(c):
    loc, it = selfiter(c)
    if it is None: return None
    def body(s, x, acc):
        r = []
        for s2, v in callb(c, s, c.args[1], [x]):
            for s3, b in c.I.branch(s2, v): r.append((s3, 'stop', acc) if b else (s3, 'next', add(acc, ONE)))
        return r
    return flush([Out(s, 'ret', NONE if k == 'end' else Some(v)) for s, k, v in mloop(c, it, body, ZERO)])
def fold_(c):
    loc, it = selfiter(c)
    if it is None: return None
    def body(s, x, acc): return [(s2, 'next', v) for s2, v in callb(c, s, c.args[2], [acc, x])]
    return flush([Out(s, 'ret', v) for s, k, v in mloop(c, it, body, c.args[1])])
def for_each_(c):
    loc, it = selfiter(c)
    if it is None: return None
    def body(s, x, acc): return [(s2, 'next', acc) for s2, v in callb(c, s, c.args[1], [x])]
    return flush([Out(s, 'ret', UNIT) for s, k, v in mloop(c, it, body)])
def sum_(c):
    loc, it = selfiter(c)
    if it is None: return None
    def body(s, x, acc):
        if x.op == 'ref': x = c.I.deref_all(s, x)
        return [(s, 'next', add(acc, x))]
    return flush([Out(s, 'ret', v) for s, k, v in mloop(c, it, body, ZERO)])
def count_(c):
    loc, it = selfiter(c)
    if it is None: return None
    if it.op == 'iter': return ret(c.st, sub(c.I.length(c.st, it.a[0]), it.a[1]))
    def body(s, x, acc): return [(s, 'next', add(acc, ONE))]
    return flush([Out(s, 'ret', v) for s, k, v in mloop(c, it, body, ZERO)])
def collect_(c):
    loc, it = selfiter(c)
    if it is None: return None
    rt = c.rettyname() or ''
    if not rt.startswith('alloc::vec::Vec'): return None
    def body(s, x, acc): return [(s, 'next', mk('vec', add(acc.a[0], ONE), *(acc.a[1:] + (mk('pe', x),))))]
    return flush([Out(s, 'ret', v) for s, k, v in mloop(c, it, body, mk('vec', ZERO))])
def extend_(c):
    loc, v = buf_loc(c.I, c.st, c.args[0]); it = as_iter(c, c.st, c.args[1], c.argty(1))
    if it is None: return None
    def body(s, x, acc): return [(s, 'next', mk('vec', add(acc.a[0], ONE), *(acc.a[1:] + (mk('pe', x),))))]
    outs = []
    for s, k, w in mloop(c, it, body, as_vec(c.I, c.st, v)):
        s = s.copy(); c.I.write(s, loc[0], loc[1], w); outs.append(Out(s, 'ret', UNIT))
    return flush(outs)
M['<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<T>>::extend'] = extend_
CONSUME = {'any': quantifier(True), 'all': quantifier(False), 'find': find_, 'find_map': find_map_, 'position': position_, 'fold': fold_, 'for_each': for_each_,
           'sum': sum_, 'count': count_, 'collect': collect_}

# ------------------------------------------------------------------ characters and string searches
def rng_cond(x, lo, hi): return b_and(ge0(sub(x, I(lo))), ge0(sub(I(hi), x)))
@model('core::char::methods::<impl char>::is_control')
def _isctl(c):
    x = c.args[0]
    return ret(c.st, b_or(ge0(sub(I(0x1f), x)), rng_cond(x, 0x7f, 0x9f)))
@model('core::str::<impl str>::contains')
def _contains(c):
    s = c.I.deref_all(c.st, c.args[0]) if c.args[0].op in ('ref', 'str') else c.I.deref(c.st, c.args[0])
    x = c.args[1]; ty = c.argty(1)
    if s.op == 'str' and ty == 'char':
        r = FALSE
        for ch in s.a[0]: r = b_or(r, eq0(sub(x, I(ord(ch)))))
        return ret(c.st, r)
    p = str_pred(c, x, ty, s)
    if p is None:
        y = c.I.deref_all(c.st, x) if x.op == 'ref' else x
        return ret(c.st, typed(mk('contains', s, y), 'bool'))
    return ret(c.st, any_char(s, p))
def consts_of(t, acc):
    if t.op == 'int': acc.add(t.a[0])
    elif t.op == 'lin': acc.add(t.a[0]); acc.add(-t.a[0])
    for x in t.a:
        if isinstance(x, T): consts_of(x, acc)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T): consts_of(y, acc)
    return acc
def truth(rs):
    vs = {v.a[0] if v.op == 'int' else None for _, v in rs}
    return bool(vs.pop()) if len(vs) == 1 and None not in vs else None
def char_class(c, st, f, e):
    """the set of characters a predicate closure accepts, as canonical intervals; None when it is not a pure character predicate"""
    rs = callb(c, st.copy(), f, [e])
    if _extra: _extra.clear(); return None
    ks = set()
    for r, v in rs:
        consts_of(v, ks)
        for b in r.facts.bo:
            if b not in st.facts.bo: consts_of(b, ks)
        for l in r.facts.ge:
            if l not in st.facts.ge: consts_of(l, ks)
        for x, (lo, hi) in r.facts.iv.items():
            if x is e: ks |= {lo, hi}
        for x, d in r.facts.dom.items():
            if x is e: ks |= set(d)
    pts = sorted({p for k in ks for p in (k - 1, k, k + 1) if 0 <= p <= 0x10ffff} | {0, 0x10ffff})
    if len(pts) > 400: return None
    out = []; prev = None
    for n, p in enumerate(pts):
        v = truth(callb(c, st.copy(), f, [I(p)]))
        _extra.clear()
        if v is None: return None
        if v:
            nxt = pts[n + 1] - 1 if n + 1 < len(pts) else p
            if out and out[-1][1] == p - 1: out[-1] = (out[-1][0], nxt)
            else: out.append((p, nxt))
    return tuple(out)
def any_char(s, cc):
    """does string s contain a character of class cc"""
    if not cc: return FALSE
    if s.op == 'str': return I(any(lo <= ord(ch) <= hi for ch in s.a[0] for lo, hi in cc))
    return typed(mk('any', mk('chars', s), mk('cset', cc)), 'bool')
def str_pred(c, x, ty, s):
    """character class (intervals) of a Pattern argument, or None"""
    e = it_item(c, mk('chars', s), BOUND, 'chars', None)
    if ty == 'char': return ((x.a[0], x.a[0]),) if x.op == 'int' else None
    if x.op in ('clo', 'fn'): return char_class(c, c.st, x, e)
    y = c.I.deref_all(c.st, x) if x.op == 'ref' else x
    if y.op == 'arr' and all(z.op == 'int' for z in y.a):
        vs = sorted({z.a[0] for z in y.a}); out = []
        for v in vs:
            if out and out[-1][1] == v - 1: out[-1] = (out[-1][0], v)
            else: out.append((v, v))
        return tuple(out)
    if y.op == 'str' and len(y.a[0]) == 1: return ((ord(y.a[0]), ord(y.a[0])),)
    return None
@model('core::str::<impl str>::find', 'core::str::<impl str>::rfind')
def _sfind(c):
    s = c.I.deref_all(c.st, c.args[0]) if c.args[0].op in ('ref', 'str') else c.I.deref(c.st, c.args[0])
    p = str_pred(c, c.args[1], c.argty(1), s)
    if p is None:
        y = c.I.deref_all(c.st, c.args[1]) if c.args[1].op == 'ref' else c.args[1]
        t = typed(mk('contains', s, y), 'bool'); p = (y,)
    else: t = any_char(s, p)
    outs = []
    for st, has in c.I.branch(c.st, t):
        if not has: outs.append(Out(st, 'ret', NONE)); continue
        st = st.copy(); i = typed(mk('findpos', s, p), 'usize')
        try: st.facts._ge(add(sub(c.I.length(st, s), i), I(-1)))
        except Infeasible: continue
        outs.append(Out(st, 'ret', Some(i)))
    return flush(outs)
@model('core::str::<impl str>::starts_with', 'core::str::<impl str>::ends_with')
def _sw(c):
    s = c.I.deref_all(c.st, c.args[0]) if c.args[0].op in ('ref', 'str') else c.I.deref(c.st, c.args[0])
    x = c.args[1]
    if x.op == 'ref': x = c.I.deref_all(c.st, x)
    if x.op == 'clo': return None
    return ret(c.st, typed(mk(c.path.split('::')[-1], s, x), 'bool'))

@model('core::intrinsics::discriminant_value')
def _discv(c):
    v = c.I.deref_all(c.st, c.args[0]) if c.args[0].op == 'ref' else c.I.deref(c.st, c.args[0])
    aty = c.argty(0)
    tyi = c.argtys[0] if c.argtys else None
    e = c.I.prog.types[tyi].get('e') if tyi is not None and c.I.prog.types[tyi]['k'] == 'ref' else None
    return ret(c.st, c.I.disc(v, None, e))
@model('core::intrinsics::integer_min', 'core::cmp::min', 'core::cmp::Ord::min')
def _imin(c): return ret(c.st, t_min(c.st, c.args[0], c.args[1]))
@model('core::intrinsics::integer_max', 'core::cmp::max', 'core::cmp::Ord::max')
def _imax(c):
    a, b = c.args
    if not (c.I.intlike(a) and c.I.intlike(b)): return None
    return [Out(s, 'ret', a if ok else b) for s, ok in c.I.branch(c.st, ge0(sub(a, b)))]
@model('core::num::<impl usize>::saturating_sub', 'core::num::<impl u32>::saturating_sub', 'core::num::<impl u16>::saturating_sub', 'core::num::<impl u64>::saturating_sub', 'core::num::<impl u8>::saturating_sub')
def _satsub(c):
    outs = []
    for s, ok in c.I.branch(c.st, ge0(sub(c.args[0], c.args[1]))): outs.append(Out(s, 'ret', sub(c.args[0], c.args[1]) if ok else ZERO))
    return outs
def checked(op):
    def g(c):
        ty = c.argty(0); a, b = c.args
        v = add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else bit('mul', a, b, ty)
        lo, hi = INT_RNG.get(ty, (0, 2**64 - 1)); outs = []
        for s, ok in c.I.branch(c.st, b_and(ge0(sub(v, I(lo))), ge0(sub(I(hi), v)))): outs.append(Out(s, 'ret', Some(v) if ok else NONE))
        return outs
    return g
for t_ in ('usize', 'u64', 'u32', 'u16', 'u8'):
    for o_ in ('add', 'sub', 'mul'): M['core::num::<impl %s>::checked_%s' % (t_, o_)] = checked(o_)

# ------------------------------------------------------------------ formatting: opaque and pure
PURE = ('core::fmt::', 'alloc::fmt::', 'core::hash::', 'tracing', 'serde::')
def pure_hook(c):
    p = c.path
    if p.startswith(PURE) or 'core::fmt::' in p:
        if c.callee.get('r') is not None and 'Formatter' not in p and p.startswith(('core::', 'alloc::')): pass
        v = mk('pure', p)
        st = c.st.copy()
        if c.retty is not None: v = st.fresh(None, 'pure', p); c.I.reg(v, c.retty)
        return ret(st, v)
    return None
ALLHOOKS = [panic_hook, clone_hook, iter_hook, pure_hook]

def int_cmp(partial):
    def g(c):
        a, b = (c.I.deref_all(c.st, x) if x.op == 'ref' else x for x in c.args[:2])
        if not (c.I.intlike(a) and c.I.intlike(b)): return None
        d = sub(a, b); outs = []
        for s, ge in c.I.branch(c.st, ge0(d)):
            for s2, eq in (c.I.branch(s, eq0(d)) if ge else [(s, None)]):
                v = mk('adt', 'core::cmp::Ordering', 0 if not ge else 1 if eq else 2)
                outs.append(Out(s2, 'ret', Some(v) if partial else v))
        return outs
    return g
for _t in BITS:
    M['core::cmp::impls::<impl core::cmp::PartialOrd for %s>::partial_cmp' % _t] = int_cmp(True)
    M['core::cmp::impls::<impl core::cmp::Ord for %s>::cmp' % _t] = int_cmp(False)
