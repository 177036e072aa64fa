"""Pretty-print a dumped function: pp.py <crate> <path-substring>"""
import json, sys
def main():
    d = json.load(open('/verif/.cache/dump/%s.json' % sys.argv[1]))
    T = d['types']
    def ty(i):
        t = T[i]; k = t['k']
        if k in ('int','uint','param'): return t['n']
        if k == 'adt': return t['p'].split('::')[-1] + ('<%s>' % ','.join(map(ty, t['a'])) if t['a'] else '')
        if k == 'ref': return '&' + ('mut ' if t['m'] else '') + ty(t['e'])
        if k == 'tuple': return '(%s)' % ','.join(map(ty, t['a']))
        if k in ('closure','coroutine'): return '{%s}' % t['p']
        if k == 'fndef': return 'fn:' + t['fn']['p']
        return k
    def place(p):
        s = '_%d' % p[0]
        for e in p[1:]:
            if e == '*': s = '*' + s
            elif e[0] == 'f': s = '(%s).%s' % (s, e[2] or e[1])
            elif e[0] == 'd': s = '%s as %s' % (s, e[2])
            else: s = '%s%s' % (s, e)
        return s
    def const(c):
        if c['k'] == 'fn': return 'fn ' + c['fn']['p']
        r = c['k'] + ':' + (str(c.get('v')) if 'v' in c and not isinstance(c['v'], dict) else '')
        if 'v' in c and isinstance(c['v'], dict): r += const(c['v'])
        if 'f' in c: r += '(%s)' % ','.join(const(x) for x in c['f'])
        if 'name' in c: r += '{%s}' % c['name']
        return r + ':' + ty(c['t'])
    def op(o): return (('' if o[0] == 'c' else 'move ') + place(o[1])) if o[0] in 'cm' else const(o[1])
    def rv(r):
        if r[0] == 'use': return op(r[1])
        if r[0] == 'ref': return '&%s%s' % ('mut ' if r[2] else '', place(r[1]))
        if r[0] == 'bin': return '%s(%s, %s)' % (r[1], op(r[2]), op(r[3]))
        if r[0] == 'un': return '%s(%s)' % (r[1], op(r[2]))
        if r[0] == 'cast': return '%s as %s (%s)' % (op(r[2]), ty(r[4]), r[1])
        if r[0] == 'disc': return 'disc(%s)' % place(r[1])
        if r[0] == 'agg': return '%s{%s}' % (r[1], ', '.join(map(op, r[2])))
        return str(r)
    for f in d['insts']:
        if f and sys.argv[2] in f['p']:
            b = f['body']
            print('===', f['id'], f['p'], f['kind'], 'root' if f['root'] else '', [ty(x) for x in f['targs']], 'args', b['args'], 'vis', f.get('vis'), 'reach', f.get('reach'), f['file'], f['line'], 'self', f.get('self') and ty(f['self']), f.get('trait'))
            for i, (t, nm) in enumerate(b['locals']): print('  let _%d: %s %s' % (i, ty(t), '// ' + nm if nm else ''))
            print('  upv', b['upv'])
            for i, bl in enumerate(b['blocks']):
                if bl is None: continue
                print(' bb%d:' % i)
                for s in bl[0]:
                    if s[0] == '=': print('    %s = %s' % (place(s[1]), rv(s[2])))
                    elif s[0] not in ('dead', 'live'): print('    ', s)
                t = bl[1]
                if t[0] == 'call':
                    f_ = t[1]
                    nm = f_['p'] + ((' => %s#%s' % (f_.get('rp'), f_.get('r'))) if f_.get('rp') != f_['p'] else '#%s' % f_.get('r')) if isinstance(f_, dict) else op(f_)
                    print('    %s = call %s(%s) -> %s   @%s' % (place(t[3]), nm, ', '.join(map(op, t[2])), t[4] if len(t) > 4 else '', t[5]))
                elif t[0] == 'switch': print('    switch %s %s else %s @%s' % (op(t[1]), t[2], t[3], t[5]))
                elif t[0] == 'assert': print('    assert %s==%s %s -> %s' % (op(t[1]), t[2], t[3], t[5]))
                elif t[0] == 'drop': print('    drop %s -> %s : %s' % (place(t[1]), t[2], ty(t[3])))
                else: print('    ', t)
main()
