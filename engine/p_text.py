"""P11 limits of strings/binaries/integers, P12 topic syntax, P14 value accessors."""
from reach import *
from p_decode import *
from p_wire import *
from p_rules import kind_path, accessor, is_some, nm, PropTab
import spec, models, strmon

TOPIC = PK + 'topic::MqttTopic'
STRT = D + 'MqttUtf8String'
BINT = D + 'MqttBinaryData'

def textual(P, *contracts, **kw):
    I_ = interp(P, *contracts, **kw)
    I_.hooks.insert(0, strmon.hook); I_.unroll = 40; I_.max_unroll_states = 1500
    return I_
def guarded(R, key, run):
    try: return list(run())
    except (Unsupported, Budget) as e:
        R.undecided(key, '%s: %s' % (type(e).__name__, str(e)[:200])); return []
def local(P, f): return f and f.get('body') and f.get('local') and f['p'].startswith(('apiformes_packet', '<apiformes_packet'))
def constructs(f, path):
    def go(x):
        if isinstance(x, list):
            if len(x) >= 2 and x[0] == 'agg' and isinstance(x[1], list) and len(x[1]) > 1 and x[1][0] == 'adt' and x[1][1] == path: return True
            return any(go(y) for y in x)
        return False
    return go(f['body']['blocks'])
ARCSTR = 'alloc::rcs::arc::Arc<str'
def generic(P, f):
    return sum(1 for i in range(1, f['body']['args'] + 1) if P.types[P.types[f['body']['locals'][i][0]].get('e', f['body']['locals'][i][0])]['k'] != 'param')
def makers(P, path):
    r = {}
    names = {f['p'].split('::{closure')[0] for f in P.insts if local(P, f) and constructs(f, path)}
    for f in P.insts:
        if f['p'] in names and local(P, f) and not f['p'].endswith('::clone'):
            g = r.get(f['p'])
            if g is None or generic(P, f) < generic(P, g): r[f['p']] = f
    return [r[k] for k in sorted(r)]
def args_for(P, I_, RE, f, st=None):
    """[(state, args)] arbitrary arguments (a stream for a buffer parameter)"""
    st = st or State(); args = []
    opts = [([], st)]
    for i in range(1, f['body']['args'] + 1):
        ti = f['body']['locals'][i][0]; n = P.tname(ti); t = P.types[ti]; no = []
        for pre, s in opts:
            if n.startswith('&mut ') and P.types[t['e']]['k'] == 'param':
                s = s.copy(); c = ('H', 'buf'); s.mem[c] = mk('stream', 'S', ZERO); no.append((pre + [mk('ref', c, ())], s))
            elif n.startswith('&mut '): return None
            elif t['k'] == 'param': no.append((pre + [mk('stream', mk('argbuf', i), ZERO)], s))
            else:
                a = sym(None, 'targ', f['n'], i); I_.reg(a, ti)
                if n in INT_RNG: ATOM_TY.setdefault(a, n)
                no.append((pre + [a], s))
        opts = no
    return [(s, a) for a, s in opts]
def result_of(o, path):
    """the value of type path inside a successful result, None on error; False: not understood"""
    v = o.val
    if v is None: return False
    for _ in range(3):
        if v.op != 'adt': return False
        if v.a[0] == path: return v
        if v.a[0] == models.RES:
            if v.a[1] == 1: return None
            v = v.a[2]
        elif v.a[0] == 'core::option::Option':
            if v.a[1] == 0: return None
            v = v.a[2]
        elif len(v.a) == 3: v = v.a[2]
        else: return False
    return False
def arc_of(v):
    """Arc<str> inside a string / topic value"""
    for _ in range(4):
        if v.op == 'adt' and len(v.a) == 3: v = v.a[2]
        else: break
    return v
def text_of(v):
    x = arc_of(v)
    return x if x.op == 'str' else models.arcin(x)
def lit_verdict(s):
    q = 'S'
    for ch in s:
        k = next((k for k, iv in enumerate(strmon.CLS) if any(l <= ord(ch) <= h for l, h in iv)), 8)
        q = strmon.dfa(q, k)
    return 'valid' if q in strmon.ACC else 'invalid'
def other_facts(st, s):
    """knowledge about the text that the monitor does not express"""
    F = st.facts
    def read(x): return isinstance(x, T) and (x.op == 'elem' and x.a[0] is s or any(read(y) for y in x.a)) or isinstance(x, tuple) and any(read(y) for y in x)
    if any(read(x) for d in (F.dom, F.iv, F.bo, F.ge) for x in d): return True
    ln = typed(mk('len', s), 'usize')
    for x in list(F.dom) + list(F.bo):
        if x.op == 'outcome' and any(y is s for y in x.a): return True
        if occurs(x, s) and not occurs(x, ln) and x.op in ('any', 'all', 'streq', 'contains', 'sw', 'ew', 'not', 'eq', 'ne', 'isutf8', 'elem') and x.op != 'isutf8': return True
    return False
def too_long(I_, st, s):
    """True: over the limit, False: within, None: open"""
    n = I_.length(st, s)
    if st.facts.prove_ge0(sub(I(65535), n)): return False
    if st.facts.prove_ge0(sub(n, I(65536))): return True
    return None
def empty(I_, st, s):
    return st.facts.prove_eq(I_.length(st, s), ZERO)
def err_name(P, o):
    e = o.val.a[2] if o.val.op == 'adt' and o.val.a[0] == models.RES and o.val.a[1] == 1 else None
    return P.adts[ERR]['v'][e.a[1]]['n'] if e is not None and e.op == 'adt' and e.a[0] == ERR else '?'
def unclear(o): return tainted(o.st) or o.st.ctr.get(('textloop',))
def describe(st, s):
    m = strmon.mon(st, s)
    if m.op != 'mon': return [short(show(s))[:80]]
    n, q, seen, ended, allowed, need, fin = m.a
    N = ['NUL', 'U+0001-1F', 'DEL', 'U+0080-9F', '#', '$', '+', '/', 'other ASCII', 'non-ASCII']
    f = lambda k: ' '.join(N[i] for i in range(10) if k >> i & 1)
    return ['text read: automaton state %s%s, contains {%s}, may contain {%s}%s' % (q, ', whole text read' if ended else '', f(seen), f(allowed), ''.join(', contains one of {%s}' % f(w) for w in need))]

TEXTERR = {'BadTopic', 'BadMqttUtf8String'}
def judge_topic(R, P, I_, key, o, s, publish, accepted, what):
    """one outcome of code that takes (accepts or refuses) a topic text s"""
    v = lit_verdict(s.a[0]) if s.op == 'str' else strmon.verdict(o.st, s)
    w = strmon.no_wild(o.st, s) if s.op != 'str' else not set(s.a[0]) & set('#+')
    det = describe(o.st, s) if s.op != 'str' else [s.a[0]]
    R.paths += 1
    if accepted:
        good = w is True if publish else v == 'valid'
        if good: R.ok('%s: accepted text is a valid %s' % (what, 'topic name' if publish else 'filter')); return
        if other_facts(o.st, s): R.undecided(key, 'the text is judged in a way the monitor does not follow'); return
        R.viol(key + '|accepts', '%s accepts %s' % (what, 'a topic with a wildcard' if publish else 'a topic filter with a misplaced # or +'), det + facts_lines(o.st))
    else:
        bad = w is False if publish else v == 'invalid'
        if publish and v == 'invalid': bad = True
        if bad or strmon.has_ctl(o.st, s) is True or too_long(I_, o.st, s) is True or empty(I_, o.st, s): R.ok('%s: refused text is not valid' % what); return
        if other_facts(o.st, s): R.undecided(key, 'the text is judged in a way the monitor does not follow'); return
        # could the text be too long or hold a control character?  then the refusal may be for that reason only if it is known
        R.viol(key + '|refuses', '%s refuses a valid %s' % (what, 'topic name' if publish else 'topic filter'), det + facts_lines(o.st))

def topic_makers(R, P):
    n = 0
    RE = Reach(P)
    for f in makers(P, TOPIC):
        key = short(f['p']); I_ = textual(P, VARINT)
        al = args_for(P, I_, RE, f)
        if al is None: R.undecided(key, 'arguments not understood'); continue
        n += 1
        for st, args in al:
            src = next((a for a in args if ATOM_TY.get(a, '').startswith(ARCSTR)), None)
            for o in guarded(R, key, lambda: I_.run(f, args, st, 1, None)):
                if o.kind != 'ret': continue                 # P01
                if unclear(o): R.undecided(key, 'unmodelled: ' + ', '.join(list(I_.unmodelled)[:3])); continue
                v = result_of(o, TOPIC)
                if v is False: R.undecided(key, 'result not understood'); continue
                if v is not None: judge_topic(R, P, I_, key, o, text_of(v), False, True, key); continue
                if err_name(P, o) not in TEXTERR and err_name(P, o) != '?': R.ok('%s: refused (%s)' % (key, err_name(P, o))); continue
                ts = [models.arcin(src)] if src is not None else strmon.monitored_texts(o.st)
                if not ts: R.ok('%s: refused before a text was read' % key); continue
                for s in ts: judge_topic(R, P, I_, key, o, s, False, False, key)
        R.used(I_)
    if not n: R.undecided('topic', 'no code builds topics')
    R.counts['functions building topics'] = n

def field_of(P, path, fn_):
    for i, fl in enumerate(P.adts[path]['v'][0]['f']):
        if fl['n'] == fn_: return i
def topic_field(P, path):
    """index of the field of type topic (or string) of Publish"""
    for i, fl in enumerate(P.adts[path]['v'][0]['f']):
        if P.tname(fl['ti']) in (TOPIC, STRT): return i

def P12(R, P):
    R.rule('Rule: every function that builds a topic, builds or decodes a PUBLISH or adds a topic to a SUBSCRIBE/UNSUBSCRIBE is run with the text abstracted as a stream of character classes in product with the automaton of MQTT 5 topic filters; on every accepting path the whole text is in the language (without wildcard for PUBLISH), on every refusing path it is outside it, over-long, empty or holds a control character.')
    if TOPIC not in P.adts: R.undecided('topic', 'topic type not found')
    else: topic_makers(R, P)
    RE = Reach(P, veccap=1)
    pub = kind_path(P, 'Publish'); ti = topic_field(P, pub)
    if ti is None: R.undecided('publish', 'topic field not found')
    for f in makers(P, pub) if ti is not None else ():
        key = short(f['p']); I_ = textual(P, VARINT, PVC, PROPC)
        al = args_for(P, I_, RE, f)
        if al is None: continue                              # mutators: below
        for st, args in al:
            src = next((a for a in args if ATOM_TY.get(a, '').startswith(ARCSTR)), None)
            for o in guarded(R, key, lambda: I_.run(f, args, st, 1, None)):
                if o.kind != 'ret': continue
                if unclear(o): R.undecided(key, 'unmodelled: ' + ', '.join(list(I_.unmodelled)[:3])); continue
                v = result_of(o, pub)
                if v is False: R.undecided(key, 'result not understood'); continue
                if v is not None: judge_topic(R, P, I_, key, o, text_of(v.a[2 + ti]), True, True, key); continue
                if err_name(P, o) not in TEXTERR: R.ok('%s: refused (%s)' % (key, err_name(P, o))); continue
                ts = [models.arcin(src)] if src is not None else strmon.monitored_texts(o.st)[:1]
                for s in ts:
                    # texts after the topic are property texts: the refusal must come from the topic or name another error
                    if src is None and strmon.no_wild(o.st, s) is True and strmon.has_ctl(o.st, s) is False and len(strmon.monitored_texts(o.st)) > 1: continue
                    judge_topic(R, P, I_, key, o, s, True, False, key)
        R.used(I_)
    # mutators
    for kn in ('Publish', 'Subscribe', 'Unsubscribe'):
        path = kind_path(P, kn)
        ctors, muts = RE.methods(path)
        for f, how in muts:
            tys = [P.tname(f['body']['locals'][i][0]) for i in range(2, f['body']['args'] + 1)]
            if not any(t.startswith(ARCSTR) for t in tys): continue
            key = short(f['p']); I_ = textual(P, VARINT, PVC, PROPC)
            base = None
            for c in ctors:
                for o in RE.call(interp(P, VARINT, PVC, PROPC), c, [], None):
                    v = result_of(o, path) if o.kind == 'ret' else None
                    if v not in (None, False) and base is None: base = (v, o.st.facts)
            if base is None: R.undecided(key, 'no value to work on'); continue
            s0 = State(); s0.facts = base[1].copy(); cell = ('H', 'self'); s0.mem[cell] = base[0]
            old = RE.arg
            for o in guarded(R, key, lambda: RE.call(I_, f, [mk('ref', cell, ()) if how == 'ref' else base[0]], s0)):
                if o.kind != 'ret': continue
                src = [x for x in ATOM_TY if x.op == 'sym' and str(ATOM_TY[x]).startswith(ARCSTR) and x.a[0] == 'arg' and str(x.a[1]).startswith(f['n'] + '#')]
                if unclear(o): R.undecided(key, 'unmodelled: ' + ', '.join(list(I_.unmodelled)[:3])); continue
                failed = o.val.op == 'adt' and o.val.a[0] == models.RES and o.val.a[1] == 1
                for a in src:
                    if failed:
                        if err_name(P, o) in TEXTERR: judge_topic(R, P, I_, key, o, models.arcin(a), kn == 'Publish', False, key)
                        else: R.ok('%s: refused (%s)' % (key, err_name(P, o)))
                    else: judge_topic(R, P, I_, key, o, models.arcin(a), kn == 'Publish', True, key)
            R.used(I_)
    R.funcs |= RE.analysed

# ---------------------------------------------------------------- P11
VBLIM = 0xfffffff
def size_of(I_, st, v):
    """(number of bytes held, limit) of a string / binary value, or (value, limit) of an integer"""
    x = v
    for _ in range(4):
        if x.op == 'adt' and len(x.a) == 3: x = x.a[2]
        else: break
    return x
def check_text(R, I_, key, o, s, what):
    R.paths += 1
    if s.op == 'str':
        R.check(len(s.a[0].encode()) <= 65535 and not any(c < ' ' or '\x7f' <= c <= '\x9f' for c in s.a[0]), key + '|literal', '%s holds a text outside the limits' % what, [s.a[0][:60]], '%s: literal' % what); return
    c = strmon.has_ctl(o.st, s)
    if c is not False and other_facts(o.st, s): R.undecided(key, 'the text is judged in a way the monitor does not follow')
    else: R.check(c is False, key + '|control', '%s accepts a text with a control character' % what, describe(o.st, s) + facts_lines(o.st), '%s: no control characters' % what)
    n = too_long(I_, o.st, s)
    R.check(n is False, key + '|length', '%s accepts a text longer than 65535 bytes' % what, ['bytes %s' % short(show(I_.length(o.st, s)))[:200]] + facts_lines(o.st), '%s: at most 65535 bytes' % what)
def check_bin(R, I_, key, o, x, what):
    R.paths += 1
    n = I_.length(o.st, x)
    R.check(o.st.facts.prove_ge0(sub(I(65535), n)), key + '|length', '%s accepts binary data longer than 65535 bytes' % what, ['bytes %s' % short(show(n))[:200]] + facts_lines(o.st), '%s: at most 65535 bytes' % what)
def check_int(R, key, o, x, what):
    R.paths += 1
    R.check(o.st.facts.prove_ge0(sub(I(VBLIM), x)), key + '|range', '%s accepts an integer above 268435455' % what, ['value %s' % short(show(x))[:200]] + facts_lines(o.st), '%s: at most 268435455' % what)
def feasible(st, c):
    G = st.facts.copy()
    try: G.assume(c)
    except Infeasible: return False
    return True
def symbols_in(v, pred, acc=None):
    acc = [] if acc is None else acc
    if isinstance(v, T):
        if pred(v): acc.append(v) if v not in acc else None
        else:
            for x in v.a: symbols_in(x, pred, acc)
    return acc

def P11(R, P):
    R.rule('Rule: in every function that builds a protocol string, binary or variable-length integer, each successful path leaves the held text (abstracted as a stream of character classes) without control characters and at most 65535 bytes long, binary data at most 65535 bytes long, an integer at most 268435455, and each refusing path of the constructors is outside those limits; the same is checked on every public constructor and mutator for the caller values it stores.')
    RE = Reach(P, veccap=1)
    for path, kind in ((STRT, 'text'), (BINT, 'bin'), (VB, 'int')):
        if path not in P.adts: R.undecided(short(path), 'type not found'); continue
        ms = makers(P, path)
        if not ms: R.undecided(short(path), 'no code builds it')
        for f in ms:
            key = short(f['p']); I_ = textual(P) if path == VB else textual(P, VARINT)
            al = args_for(P, I_, RE, f)
            if al is None: R.undecided(key, 'arguments not understood'); continue
            R.count('functions building ' + short(path))
            for st, args in al:
                streamed = any(a.op == 'ref' and a.a[0] == ('H', 'buf') for a in args)
                for o in guarded(R, key, lambda: I_.run(f, args, st, 1, None)):
                    if o.kind != 'ret': continue
                    if unclear(o): R.undecided(key, 'unmodelled: ' + ', '.join(list(I_.unmodelled)[:3])); continue
                    v = result_of(o, path)
                    if v is False: R.undecided(key, 'result not understood'); continue
                    if v is not None:
                        if kind == 'text': check_text(R, I_, key, o, text_of(v), key)
                        elif kind == 'bin': check_bin(R, I_, key, o, arc_of(v), key)
                        else: check_int(R, key, o, arc_of(v), key)
                        continue
                    if streamed: R.ok('%s: refused (%s)' % (key, err_name(P, o))); continue
                    # a refusal of caller data
                    if kind == 'text':
                        for s in [models.arcin(a) for a in args if str(ATOM_TY.get(a, '')).startswith(ARCSTR)]:
                            why = strmon.has_ctl(o.st, s) is True or not feasible(o.st, ge0(sub(I(65535), I_.length(o.st, s))))
                            if not why and other_facts(o.st, s): R.undecided(key, 'the text is judged in a way the monitor does not follow'); continue
                            R.check(why, key + '|refuses', '%s refuses a text within the limits' % key, describe(o.st, s) + facts_lines(o.st), '%s: refused text is outside the limits' % key)
                    elif kind == 'int':
                        for a in args:
                            if ATOM_TY.get(a) in INT_RNG: R.check(not feasible(o.st, ge0(sub(I(VBLIM), a))), key + '|refuses', '%s refuses an integer within the limit' % key, facts_lines(o.st), '%s: refused integer is above the limit' % key)
                    else:
                        for a in args:
                            if a.op == 'stream' or str(ATOM_TY.get(a, '')).startswith('bytes::'):
                                n = models.REM(a.a[0]) if a.op == 'stream' else I_.length(o.st, a)
                                R.check(not feasible(o.st, ge0(sub(I(65535), n))), key + '|refuses', '%s refuses binary data within the limit' % key, facts_lines(o.st), '%s: refused data is over-long' % key)
            R.used(I_)
    # leaf mutators
    for f in P.insts:
        if not local(P, f): continue
        for i in range(1, f['body']['args'] + 1):
            n = P.tname(f['body']['locals'][i][0])
            if n in ('&mut ' + STRT, '&mut ' + BINT, '&mut ' + VB): R.undecided(short(f['p']), 'mutates a limited value in place')
    # public surface: what the caller hands over is either refused or within the limits
    n = 0
    kinds = [kind_path(P, k) for k in spec.KINDS] + [PK + 'connect::Will', PV]
    for path in kinds:
        if path is None or path not in P.adts: continue
        ctors, muts = RE.methods(path)
        base = None
        for f, how in [(c, None) for c in ctors] + muts:
            tys = [P.tname(f['body']['locals'][i][0]) for i in range(1, f['body']['args'] + 1)]
            if not any(t.startswith((ARCSTR, 'bytes::')) or P.types[f['body']['locals'][i + 1][0]]['k'] == 'param' for i, t in enumerate(tys)) and not (path == PV and 'u32' in tys): continue
            key = short(f['p']); I_ = textual(P, VARINT, PVC, PROPC)
            if how is None: first, s0, cell = [], State(), None
            else:
                if base is None:
                    for c in ctors:
                        I2 = interp(P, VARINT, PVC, PROPC)
                        for o in RE.call(I2, c, [], None):
                            v = result_of(o, path) if o.kind == 'ret' else None
                            if v not in (None, False) and base is None:
                                base = (subst(v, {x: mk('sym', 'base', *x.a[1:]) for x in symbols_in(v, lambda y: y.op == 'sym' and y.a[0] == 'arg')}), o.st.facts)
                if base is None: R.undecided(key, 'no value to work on'); continue
                s0 = State(); s0.facts = base[1].copy(); cell = ('H', 'self'); s0.mem[cell] = base[0]
                first = [mk('ref', cell, ())] if how == 'ref' else [base[0]]
            n += 1
            for o in guarded(R, key, lambda: RE.call(I_, f, first, s0)):
                if o.kind != 'ret': continue
                if unclear(o): R.undecided(key, 'unmodelled: ' + ', '.join(list(I_.unmodelled)[:3])); continue
                if how == 'ref':
                    if o.val.op == 'adt' and o.val.a[0] == models.RES and o.val.a[1] == 1: continue
                    v = o.st.mem[cell]
                else: v = result_of(o, path)
                if v in (None, False): continue
                mine = lambda x: x.op == 'sym' and x.a[0] == 'arg' and str(x.a[1]).startswith(f['n'] + '#')
                for x in symbols_in(v, lambda y: mine(y) or y.op in ('sub', 'stream') and bool(symbols_in(y, lambda z: z.op == 'argbuf'))):
                    t = str(ATOM_TY.get(x, ''))
                    if t.startswith(ARCSTR): check_text(R, I_, key, o, models.arcin(x), key)
                holders = symbols_in(v, lambda y: y.op == 'adt' and y.a[0] in (BINT, VB))
                for h in holders:
                    x = arc_of(h)
                    if not (mine(x) or symbols_in(x, lambda z: z.op == 'argbuf' or mine(z))): continue
                    if h.a[0] == BINT: check_bin(R, I_, key, o, x, key)
                    else: check_int(R, key, o, x, key)
            R.used(I_)
    R.counts['public operations taking caller data'] = n
    R.funcs |= RE.analysed

# ---------------------------------------------------------------- P14
ACC_T = [('Option<bool>', 'bool'), ('Option<u8>', 'byte'), ('Option<u16>', 'two'), ('Option<u32>', 'num'), ('Option<&str>', 'string'), ('Option<(&' + ARCSTR, 'pair'), ('Option<&bytes::bytes::Bytes>', 'binary'), ('Option<&' + ARCSTR, 'string')]
REL = {'byte': ('bool', 'byte'), 'two': ('two',), 'four': ('num',), 'varint': ('num',), 'string': ('string',), 'pair': ('pair',), 'binary': ('binary',)}
def accessors_of(P):
    r = []
    for f in P.insts:
        if not local(P, f) or f['kind'] != 'fn' or f.get('trait') or not f.get('vis') or f.get('self') is None or P.tname(f['self']) != PV: continue
        if f['body']['args'] != 1 or P.tname(f['body']['locals'][1][0]) != '&' + PV: continue
        rt = P.tname(f['body']['locals'][0][0]).replace('core::option::', '')
        k = next((k for p, k in ACC_T if rt.startswith(p)), None)
        if k: r.append((f, k))
    return r
def content(v):
    """what a property value holds: list of leaf terms"""
    if v.op == 'adt' and v.a[0] in (STRT, BINT, VB, D + 'MqttOneBytesInt', D + 'MqttTwoBytesInt', D + 'MqttFourBytesInt'): return [arc_of(v)]
    if v.op == 'adt':
        r = []
        for x in v.a[2:]: r += content(x) if isinstance(x, T) else []
        return r
    return [v]
def flat_result(I_, st, v):
    v = v.a[2] if v.op == 'adt' and v.a[0] == 'core::option::Option' else v
    xs = list(v.a) if v.op == 'tup' else [v]
    return [I_.deref_all(st, x) if x.op == 'ref' else x for x in xs]
def same_leaf(st, a, b, k):
    """does accessor result a denote the stored b"""
    na = lambda x: x.a[0] if x.op in ('arcin', 'arc') else x
    if na(a) is na(b): return True
    if k == 'bool':                    # stored 0 reads as false, stored 1 as true; other bytes are not boolean
        for bv in (0, 1):
            G = st.facts.copy()
            try:
                if b.op == 'int':
                    if b.a[0] != bv: continue
                else: G.assume(eq0(sub(b, I(bv))))
            except Infeasible: continue
            d = bool(a.a[0]) if a.op == 'int' else G.decide(a)
            if d is None:
                y = subst(a, {b: I(bv)})
                from loopgen import reeval
                y = reeval(a, {b: I(bv)}, {})
                d = bool(y.a[0]) if y.op == 'int' else G.decide(y)
            if d is None: return None
            if d != bool(bv): return False
        return True
    try: return True if st.facts.prove_eq(a, b) else False
    except Exception: return None
def P14(R, P):
    R.rule('Rule: for every property value the public constructors build and every value the table decoder returns, each abstract path of each public accessor returns exactly the held value when the accessor\'s type is the value\'s type, and None when the types are unrelated.')
    T_ = PropTab(R, P); accs = accessors_of(P)
    have = {k for _, k in accs}
    for k in ('bool', 'byte', 'two', 'num', 'string', 'pair', 'binary'):
        if k not in have: R.undecided('accessor|' + k, 'no accessor of that type')
    R.counts['accessors'] = len(accs)
    I_ = interp(P, VARINT)
    def judge(v, F, must, origin, want):
        """must: accessor kinds that have to return the value; want: the leaf terms"""
        sh = T_.shape(v)
        if sh is None: R.undecided(origin, 'value not understood'); return
        got = {}
        for f, k in accs:
            key = '%s|%s' % (short(f['p']), origin)
            st0 = State(); st0.facts = F.copy()
            for r, st in accessor(P, I_, f, v, st0):
                R.paths += 1
                if r is None: R.undecided(key, 'accessor not understood'); continue
                some = is_some(r)
                if some is None: R.undecided(key, 'result not understood'); continue
                got.setdefault(k, set()).add(some)
                if k not in REL[sh]: R.check(not some, key + '|unrelated', '%s returns something for a value of type %s (%s)' % (short(f['p']), sh, origin), facts_lines(st), '%s: None for %s' % (short(f['p']), sh)); continue
                if not some:
                    if must and k in must and len(must) == 1: R.viol(key + '|none', '%s returns nothing for a value of type %s (%s)' % (short(f['p']), sh, origin), facts_lines(st))
                    continue
                xs = flat_result(I_, st, r)
                if len(xs) != len(want): R.undecided(key, 'result not understood'); continue
                eqs = [same_leaf(st, a, b, k) for a, b in zip(xs, want)]
                if None in eqs: R.undecided(key, 'comparison'); continue
                R.check(all(eqs), key + '|value', '%s returns another value than the one held (%s)' % (short(f['p']), origin), ['returned ' + ', '.join(short(show(x))[:100] for x in xs), 'held ' + ', '.join(short(show(x))[:100] for x in want)] + facts_lines(st), '%s: returns the held %s' % (short(f['p']), sh))
        if must and len(must) > 1 and not any(got.get(k) == {True} for k in must) and all(k in got for k in must): R.viol('accessor|%s|none' % origin, 'no accessor returns a value of type %s (%s)' % (sh, origin))
    RE = T_.RE
    ctors, _ = RE.methods(PV)
    for f in ctors:
        tys = [P.tname(f['body']['locals'][i][0]) for i in range(1, f['body']['args'] + 1)]
        for o in guarded(R, short(f['p']), lambda: RE.call(I_, f, [], None)):
            if o.kind != 'ret': continue
            if tainted(o.st): R.undecided(short(f['p']), 'unmodelled'); continue
            v = result_of(o, PV)
            if v is None: continue
            if v is False: R.undecided(short(f['p']), 'result not understood'); continue
            args = [x for x in symbols_in(v, lambda y: y.op == 'sym' and y.a[0] == 'arg')]
            k = {'bool': 'bool', 'u8': 'byte', 'u16': 'two', 'u32': 'num'}.get(tys[0]) if len(tys) == 1 else 'pair' if len(tys) == 2 else None
            if k is None: k = 'string' if tys[0].startswith(ARCSTR) else 'binary' if P.types[f['body']['locals'][1][0]]['k'] == 'param' else None
            if k is None: R.undecided(short(f['p']), 'constructor not understood'); continue
            R.count('constructors'); held = content(v)
            if k in ('string', 'pair', 'two', 'num', 'byte', 'bool'):
                want = [sym(None if P.tname(f['body']['locals'][i][0]) not in INT_RNG else P.tname(f['body']['locals'][i][0]), 'arg', '%s#%d' % (f['n'], i), P.tname(f['body']['locals'][i][0])) for i in range(1, f['body']['args'] + 1)]
            else: want = held
            judge(v, o.st.facts, (k,), short(f['p']), want)
    # decoded values
    for i, n in T_.keys:
        sid = T_.byname.get(nm(n))
        if sid is None: continue
        sh = spec.PROPS_T[sid][1]
        done = 0
        for x, F in T_.vals.get(sh, ()):
            outs = T_.decode([(i, x, F)])
            for o in outs or ():
                if o.kind != 'ret' or o.val.op != 'adt' or o.val.a[1] != 0: continue
                t = o.val.a[2]
                m = t.a[2 + T_.fi[2]] if t.op == 'adt' else None
                es = entries(m) if m is not None else None
                if not es: continue
                for kk, vs in [(k_, v_) for k_, l_ in es.items() for v_ in l_]:
                    w = vs
                    while w.op in ('vec', 'arr', 'pe', 'box') and len(w.a) >= 1: w = w.a[-1]
                    if w.op != 'adt': continue
                    done += 1
                    judge(w, o.st.facts, REL[sh], 'decoded ' + n, content(x))
            if done: break
        if not done: R.count('property kinds not seen decoded (P08)')
    R.used(I_); R.used(T_.I); R.funcs |= RE.analysed
