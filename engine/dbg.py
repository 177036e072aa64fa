import sys
from try1 import *
import interp, time
old=Interp.generalise
def g(self,f,h,depth,st0,H,backs,it):
    t=time.time()
    n=old(self,f,h,depth,st0,H,backs,it)
    print('GEN',f['p'][-40:],h,'it',it,'backs',len(backs), '%.1fs'%(time.time()-t))
    for c in n.mem:
        if st0.mem.get(c) is not n.mem[c]: print('   ',c if c[0]!='M' else ('M',show(c[1])[:80]),'::',show(st0.mem[c])[:200] if c in st0.mem else None,' -> ',show(n.mem[c])[:300])
    print('    facts', [show(x)[:200] for x in n.facts.ge if x not in st0.facts.ge],n.trace)
    return n
Interp.generalise=g
pat=sys.argv[1]
for f in P.insts:
    if f and pat in f['p'] and f.get('body'):
        I_=mkI(); st=State(); args=[]
        for i in range(1, f['body']['args']+1):
            n=P.tname(f['body']['locals'][i][0])
            if n.startswith('&mut T'):
                c=('H','buf'); st.mem[c]=mk('stream','S',ZERO); args.append(mk('ref',c,()))
            else: a=sym(None,'arg',i); I_.reg(a,f['body']['locals'][i][0]); args.append(a)
        t=time.time()
        try: outs=I_.run(f,args,st,1,None)
        except Exception as e: print(e)
        print(time.time()-t)
        break
