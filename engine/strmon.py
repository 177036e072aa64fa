"""Text abstracted as a stream of character classes, read together with the automaton of MQTT topic filters.

Every string that is not a literal carries a cell ('MON', s) = mon(pass, dfa, seen, ended, allowed, need, finals):
  dfa     automaton state after the characters revealed in the running pass
  seen    character classes revealed in the running pass (bit mask)
  ended   the pass reached the end of the text
  allowed classes the text may contain at all, need: masks the text must meet, finals: automaton states the whole
          text may end in (knowledge of earlier passes and of whole-text predicates)
Each step of an iterator over the text branches over the classes, so the loops of a validator are explored over the
finite product (program state x automaton state); nothing is executed and no particular text is chosen."""
from term import *
from interp import *
import models
from models import str_pred, callb, flush

# classes of characters: the ones MQTT gives a meaning to, controls, the other ASCII ones, the rest (no surrogates)
CLS = [[(0, 0)], [(1, 31)], [(127, 127)], [(128, 159)], [(35, 35)], [(36, 36)], [(43, 43)], [(47, 47)], [(32, 34), (37, 42), (44, 46), (48, 126)], [(160, 0xd7ff), (0xe000, 0x10ffff)]]
# classes of bytes: (intervals, character classes the byte may belong to)
BCLS = [([(0, 0)], 1), ([(1, 31)], 2), ([(127, 127)], 4), None, ([(35, 35)], 16), ([(36, 36)], 32), ([(43, 43)], 64), ([(47, 47)], 128), ([(32, 34), (37, 42), (44, 46), (48, 126)], 256), ([(128, 255)], 512 | 8)]
HASH, DOLLAR, PLUS, SLASH = 4, 5, 6, 7
CTL = 15
ALL = (1 << len(CLS)) - 1
WILD = 1 << HASH | 1 << PLUS
PLAIN = ALL & ~WILD & ~(1 << SLASH)
MAYBE, STARTED = 1 << 21, 1 << 20      # private bits: a control character may have been among what was revealed; a first level was seen
TRACK = CTL | WILD                # classes whose presence in the text is remembered
DS = 'SNPHD'                      # level start, plain level, + level, # level, dead
ACC = frozenset('SNPH')
def dfa(q, k):
    if q == 'D' or q == 'H': return 'D'
    if k == SLASH: return 'S'
    if k == HASH: return 'H' if q == 'S' else 'D'
    if k == PLUS: return 'P' if q == 'S' else 'D'
    return 'N' if q in 'SN' else 'D'
def catom(op, n, iv, ty):
    lo, hi = iv[0][0], iv[-1][1]
    if lo == hi: return I(lo)
    t = mk(op, n); ATOM_TY.setdefault(t, ty); ATOM_RNG.setdefault(t, (lo, hi))
    if hi < 256: ATOM_DOM.setdefault(t, frozenset(x for l, h in iv for x in range(l, h + 1)))
    return t
def chatom(n): return catom('mch', n, CLS[n], 'char')
def bchatom(n): return catom('mbch', n, BCLS[n][0], 'u8')
def fresh_mon(): return mk('mon', 0, 'S', 0, 0, ALL, (), tuple(DS))
OPQ = {}
def mon(st, s):
    m = st.mem.get(('MON', s))
    if m is not None and m.op != 'mon':          # joined states: nothing is known of the text (and no running pass may go on)
        m = mk('mon', 1000 * OPQ.setdefault(m, len(OPQ) + 1), 'S', 0, 0, ALL, (), tuple(DS))
    return m or fresh_mon()
def setmon(st, s, *a): st.mem[('MON', s)] = mk('mon', *a)
def text(c, a):
    v = c.I.deref_all(c.st, a) if a.op in ('ref', 'str') else c.I.deref(c.st, a)
    return v
def begin(st, s):
    """a new pass over s: what earlier passes revealed is remembered"""
    m = mon(st, s)
    n, q, seen, ended, allowed, need, fin = m.a
    for k, w in ((0, CTL), (HASH, 1 << HASH), (PLUS, 1 << PLUS)):
        if seen >> k & 1: need = need + (w,)
    if ended: allowed &= seen & WILD | ~TRACK & ALL | (CTL if seen & (MAYBE | 1) else 0); fin = tuple(x for x in fin if x == q)
    elif q == 'D': fin = ('D',)
    setmon(st, s, n + 1, 'S', 0, 0, allowed, tuple(sorted(set(need))), fin)
    return True
def met(seen, need): return all(seen & w & WILD or w & ~TRACK or w & CTL and seen & (MAYBE | 1) for w in need)
def reveal(c, st, it, bytes_):
    """[(state, item or None)]"""
    s = it.a[0]; m = mon(st, s); I_ = c.I
    if m.op != 'mon' or m.a[0] != it.a[2]: return None
    n, q, seen, ended, allowed, need, fin = m.a
    L = I_.length(st, s); res = []
    if not ended:
        for k in range(len(CLS)):
            if bytes_ and BCLS[k] is None: continue
            bit_ = BCLS[k][1] if bytes_ else 1 << k
            if not allowed & bit_: continue
            if bit_ & (bit_ - 1): bit_ = MAYBE if bit_ & allowed & CTL else 0                # a byte of one of several classes
            s2 = st.copy()
            try: s2.facts._ge(sub(L, ONE))
            except Infeasible: continue
            q2 = dfa(q, k)
            if q2 == 'D' and 'D' not in fin: continue
            setmon(s2, s, n, q2, seen | (bit_ & (WILD | MAYBE)) | (1 if bit_ & CTL else 0), 0, allowed, need, fin)
            res.append((s2, bchatom(k) if bytes_ else chatom(k)))
    if q in fin and met(seen, need):
        s2 = st.copy()
        ok = True
        if ok:
            setmon(s2, s, n, q, seen, 1, allowed, need, fin)
            res.append((s2, None))
    return res
# levels between slashes: class -> (name, characters it contains for sure, length range)
LV = [('', '', (0, 0)), ('p', '', (1, 65535)), ('+', '+', (1, 1)), ('#', '#', (1, 1)), ('x+', '+', (2, 65535)), ('x#', '#', (2, 65535)), ('x+#', '+#', (2, 65535))]
def lvatom(n):
    t = mk('lvl', n); ATOM_TY.setdefault(t, 'str'); l = typed(mk('len', t), 'usize'); ATOM_RNG[l] = LV[n][2]; return t
def reveal_level(c, st, it):
    s = it.a[0]; m = mon(st, s)
    if m.op != 'mon' or m.a[0] != it.a[2]: return None
    n, q, seen, ended, allowed, need, fin = m.a
    res = []
    if not ended:
        for k, (nm_, has, _) in enumerate(LV):
            bits = (1 << HASH if '#' in has else 0) | (1 << PLUS if '+' in has else 0)
            if bits & ~allowed: continue
            q1 = q
            if seen & STARTED:
                if not allowed >> SLASH & 1: continue
                q1 = dfa(q, SLASH)
            q2 = {'': q1, 'p': dfa(q1, 1), '+': dfa(q1, PLUS), '#': dfa(q1, HASH)}.get(nm_, 'D')
            if q1 == 'D': q2 = 'D'
            if q2 == 'D' and 'D' not in fin: continue
            s2 = st.copy()
            if nm_ in ('p', 'x+', 'x#', 'x+#'): bits |= MAYBE if allowed & CTL else 0          # may contain anything plain
            setmon(s2, s, n, q2, seen | bits | STARTED, 0, allowed, need, fin)
            res.append((s2, c.I.ref_to(lvatom(k))))
        if not seen & STARTED: return res           # split yields at least one item
    if q in fin and met(seen, need):
        s2 = st.copy(); setmon(s2, s, n, q, seen, 1, allowed, need, fin); res.append((s2, None))
    return res
def nxt(c, st, it):
    k = it.a[1]
    r = reveal_level(c, st, it) if k == 'levels' else reveal(c, st, it, k == 'bytes')
    if r is None:
        st = st.copy(); st.ctr[('tainted',)] = 1
        return [(st, it, st.fresh(None, 'item', c.f['p'], c.b)), (st.copy(), it, None)]
    return [(s, it, x) for s, x in r]
def classes_mask(cc):
    """(classes met by a union of intervals, classes wholly inside it)"""
    t = f = 0
    for k, iv in enumerate(CLS):
        n = sum(max(0, min(h, hi) - max(l, lo) + 1) for l, h in cc for lo, hi in iv)
        if n: t |= 1 << k
        if n == sum(hi - lo + 1 for lo, hi in iv): f |= 1 << k
    return t, f
def restrict(c, st, s, op, allowed=None, fin=None):
    """state in which the text meets the classes op / is confined; None when that cannot be"""
    n, q, seen, ended, al, need, f = mon(st, s).a
    s2 = st.copy()
    if op is not None: need = tuple(sorted(set(need + (op,))))
    if allowed is not None: al = allowed
    if fin is not None: f = tuple(x for x in f if x in fin)
    if not f or any(not w & al for w in need): return None
    if ended and (q not in f or not met(seen, need)): return None
    setmon(s2, s, n, q, seen, ended, al, need, f)
    if op is not None:
        try: s2.facts._ge(sub(c.I.length(s2, s), ONE))
        except Infeasible: return None
    return s2
def contains_any(c, st, s, mask, full=None):
    """[(state, bool)]"""
    if full is None: full = mask
    n, q, seen, ended, allowed, need, fin = mon(st, s).a
    if seen & full & WILD or seen & 1 and full & CTL == CTL: return [(st.copy(), 1)]
    op = mask & allowed
    if ended: op = op & ~TRACK | (op & CTL if seen & (MAYBE | 1) else 0) | seen & mask & WILD
    if not op: return [(st.copy(), 0)]
    res = []
    a = restrict(c, st, s, op)
    if a is not None: res.append((a, 1))
    b = restrict(c, st, s, None, allowed & ~full)
    if b is not None: res.append((b, 0))
    return res
def edge(c, st, s, ch, last):
    """does the text start / end with the character"""
    k = next(k for k, iv in enumerate(CLS) if any(l <= ord(ch) <= h for l, h in iv))
    full = CLS[k] == [(ord(ch), ord(ch))]
    fs = {HASH: 'H', PLUS: 'P', SLASH: 'S'}
    al = mon(st, s).a[4]; res = []
    if al >> k & 1:
        a = restrict(c, st, s, 1 << k, None, ((fs[k] + 'D') if k in fs else 'ND') if last else None)
        if a is not None: res.append((a, 1))
    b = restrict(c, st, s, None, None, [x for x in DS if not (k in (HASH, PLUS) and x == fs[k])] if last else None)
    if b is not None: res.append((b, 0))
    return res
STR = 'core::str::<impl str>::'
def monitored(s):
    if s.op == 'deref': return True
    return s.op not in ('str', 'lvl') and (models.isstr(s) or ATOM_TY.get(s) == 'str' or s.op in ('arcin', 'utf8', 'elem', 'sym', 'unk'))
def hook(c):
    p = c.path
    if p == 'core::str::traits::<impl core::cmp::PartialEq for str>::eq' or p.endswith('PartialEq<&B> for &A>::eq') and (c.argty(0) or '').endswith('str'):
        a = c.I.deref_all(c.st, c.args[0]); b = c.I.deref_all(c.st, c.args[1])
        if b.op == 'lvl': a, b = b, a
        if a.op == 'lvl' and b.op == 'str':
            if b.a[0] in ('', '+', '#'): return ret(c.st, I(LV[a.a[0]][0] == b.a[0]))
            if LV[a.a[0]][0] in ('', '+', '#'): return ret(c.st, FALSE)
        return None
    if p.endswith(('Iterator::count', 'Iterator>::count')) and c.args and c.args[0].op == 'monit' and c.args[0].a[1] != 'levels':
        s = c.args[0].a[0]; n = typed(mk('nchars', s), 'usize'); ATOM_RNG.setdefault(n, (0, 2**48)); st = c.st.copy(); L = c.I.length(st, s)
        if c.args[0].a[1] == 'bytes': return ret(st, L)
        try: st.facts._ge(sub(L, n)); st.facts._ge(sub(scale(n, 4), L))
        except Infeasible: return []
        return ret(st, n)
    if p.startswith('core::slice::<impl [T]>::'):
        f = p[len('core::slice::<impl [T]>::'):]
        if f not in ('iter', 'contains') or c.args[0].op not in ('ref', 'sym', 'arcin', 'utf8'): return None
        s = text(c, c.args[0])
        if s.op in ('str', 'lvl') or not (models.isstr(s) or ATOM_TY.get(s) == 'str'): return None
        if f == 'contains':
            y = c.I.deref_all(c.st, c.args[1]) if c.args[1].op == 'ref' else c.args[1]
            if y.op != 'int' or y.a[0] > 127: return c.I.unknown(c)
            return [Out(st, 'ret', I(v)) for st, v in contains_any(c, c.st, s, *classes_mask(((y.a[0], y.a[0]),)))]
        st = c.st.copy(); begin(st, s)
        return ret(st, mk('itref', mk('monit', s, 'bytes', mon(st, s).a[0])))
    if not p.startswith(STR): return None
    f = p[len(STR):]
    if f not in ('chars', 'bytes', 'split', 'contains', 'find', 'starts_with', 'ends_with', 'split_terminator', 'char_indices', 'rsplit', 'rfind', 'matches', 'split_once', 'rsplit_once', 'strip_suffix', 'strip_prefix', 'trim_end_matches', 'splitn'): return None
    s = text(c, c.args[0])
    if s.op == 'lvl':
        if f == 'contains':
            cc = str_pred(c, c.args[1], c.argty(1), s)
            mask = classes_mask(cc)[0] if cc is not None else None
            if mask is not None and not mask & ~WILD:
                return ret(c.st, I(bool(('#' in LV[s.a[0]][1] and mask >> HASH & 1) or ('+' in LV[s.a[0]][1] and mask >> PLUS & 1))))
        if f in ('chars', 'bytes') and LV[s.a[0]][0] in ('', '+', '#'): return ret(c.st, mk('iter', mk('arr', *[I(ord(x)) for x in LV[s.a[0]][0]]), ZERO, 'val'))
        return c.I.unknown(c)
    if not monitored(s): return None
    if f in ('chars', 'bytes', 'char_indices'):
        st = c.st.copy(); begin(st, s)
        it = mk('monit', s, 'bytes' if f == 'bytes' else 'chars', mon(st, s).a[0])
        return ret(st, it if f != 'char_indices' else mk('itidx', it))
    if f == 'split':
        x = c.args[1]; y = c.I.deref_all(c.st, x) if x.op == 'ref' else x
        if not (y.op == 'int' and y.a[0] == 47 or y.op == 'str' and y.a[0] == '/'): return c.I.unknown(c)
        st = c.st.copy(); begin(st, s)
        return ret(st, mk('monit', s, 'levels', mon(st, s).a[0]))
    if f in ('starts_with', 'ends_with'):
        x = c.args[1]; y = c.I.deref_all(c.st, x) if x.op == 'ref' else x
        ch = chr(y.a[0]) if y.op == 'int' else y.a[0] if y.op == 'str' and len(y.a[0]) == 1 else None
        if ch is None or f == 'starts_with' and ch in '#+/': return c.I.unknown(c)
        return [Out(st, 'ret', I(v)) for st, v in edge(c, c.st, s, ch, f == 'ends_with')]
    if f in ('contains', 'find', 'rfind'):
        cc = str_pred(c, c.args[1], c.argty(1), s)
        if cc is None: return c.I.unknown(c)
        outs = []
        for st, v in contains_any(c, c.st, s, *classes_mask(cc)):
            if f == 'contains': outs.append(Out(st, 'ret', I(v)))
            elif not v: outs.append(Out(st, 'ret', models.NONE))
            else:
                i = typed(mk('findpos', s, p, cc), 'usize')
                try: st.facts._ge(add(sub(c.I.length(st, s), i), I(-1)))
                except Infeasible: continue
                outs.append(Out(st, 'ret', models.Some(i)))
        return outs
    return c.I.unknown(c)

def verdict(st, s):
    """'valid' / 'invalid' / None: what is known of the whole text as a topic filter"""
    m = st.mem.get(('MON', s))
    if m is None or m.op != 'mon': return None
    n, q, seen, ended, allowed, need, fin = m.a
    if set(fin) <= {'D'} or q == 'D': return 'invalid'
    if not allowed & WILD: return 'valid'
    if ended and q in ACC or set(fin) <= ACC: return 'valid'
    return None
def no_wild(st, s):
    """True: the text has no wildcard, False: it has one, None: open"""
    m = st.mem.get(('MON', s))
    if m is None or m.op != 'mon': return None
    n, q, seen, ended, allowed, need, fin = m.a
    if not allowed & WILD or ended and not seen & WILD: return True
    if seen & WILD or any(not w & allowed & ~WILD for w in need): return False
    return None
def has_ctl(st, s):
    m = st.mem.get(('MON', s))
    if m is None or m.op != 'mon': return None
    n, q, seen, ended, allowed, need, fin = m.a
    if not allowed & CTL or ended and not seen & (1 | MAYBE): return False
    if seen & 1 or any(not w & allowed & ~CTL for w in need): return True
    return None
def monitored_texts(st): return [k[1] for k in st.mem if isinstance(k, tuple) and k[0] == 'MON']
