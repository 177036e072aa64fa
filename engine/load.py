"""Loads a MIR dump (one crate) into an indexed program."""
import json, os, sys
sys.setrecursionlimit(20000)

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d['crate']
        self.types = d['types']
        self.adts = d['adts']
        self.insts = d['insts']
        self.consts = d.get('consts', {})
        self._tkey = {}
        self._tcanon = {}
        self.by_path = {}
        for f in self.insts:
            if f:
                self.by_path.setdefault(f['p'], []).append(f)
                f['prog'] = self
        self._cfg = {}

    # ---- types
    def tname(self, i):
        """canonical, crate independent, readable name of type i"""
        r = self._tkey.get(i)
        if r is not None: return r
        self._tkey[i] = '<rec>'
        t = self.types[i]; k = t['k']
        if k in ('int', 'uint', 'param', 'float'): r = t['n']
        elif k == 'adt':
            r = t['p'] + ('<%s>' % ','.join(self.tname(a) for a in t['a']) if t['a'] else '')
        elif k == 'ref': r = ('&mut ' if t['m'] else '&') + self.tname(t['e'])
        elif k == 'ptr': r = '*' + (self.tname(t['e']) if 'e' in t else '')
        elif k == 'tuple': r = '(%s)' % ','.join(self.tname(a) for a in t['a'])
        elif k == 'slice': r = '[%s]' % self.tname(t['e'])
        elif k == 'array': r = '[%s;%s]' % (self.tname(t['e']), t.get('l'))
        elif k in ('closure', 'coroutine'): r = '{%s}' % t['p']
        elif k == 'fndef': r = 'fn ' + t['fn']['p']
        else: r = k
        self._tkey[i] = r
        return r

    def ty(self, i): return self.types[i]

    # ---- control flow graph
    def cfg(self, f):
        c = self._cfg.get(f['id'])
        if c is None:
            c = self._cfg[f['id']] = CFG(f['body'])
        return c

def succs(term):
    t = term[0]
    if t == 'goto': return [term[1]]
    if t == 'switch': return [b for _, b in term[2]] + ([term[3]] if term[3] is not None else [])
    if t == 'drop': return [term[2]]
    if t == 'call': return [term[4]] if term[4] is not None else []
    if t == 'assert': return [term[5]]
    if t == 'yield': return [term[1]]
    return []

class CFG:
    def __init__(self, body):
        bl = body['blocks']
        self.succ = {}
        order = []; seen = set()
        st = [(0, iter(()))]
        # iterative postorder
        def su(b):
            if bl[b] is None: return []
            return [x for x in succs(bl[b][1]) if bl[x] is not None]
        stack = [(0, iter(su(0)))]; seen.add(0); self.succ[0] = su(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); self.succ[s] = su(s); stack.append((s, iter(self.succ[s]))); break
            else:
                order.append(b); stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]: self.pred[s].append(b)
        # dominators (simple iterative)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                if not ps: continue
                n = ps[0]
                for p in ps[1:]:
                    a = p
                    while a != n:
                        while self.rpo[a] > self.rpo[n]: a = idom[a]
                        while self.rpo[n] > self.rpo[a]: n = idom[n]
                if idom.get(b) != n: idom[b] = n; ch = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if self.rpo[s] <= self.rpo[b]:
                    x = b
                    while self.rpo[x] > self.rpo[s]: x = idom[x]
                    if x == s: self.loops.setdefault(s, set()).update(self._body(s, b))
        self.njoin = {b for b in order if len(self.pred[b]) > 1}
    def _body(self, h, b):
        r = {h, b}; w = [b] if b != h else []
        while w:
            x = w.pop()
            for p in self.pred[x]:
                if p not in r: r.add(p); w.append(p)
        return r
