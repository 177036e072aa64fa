import sys, time
from load import *; from term import *; from interp import *; import models
from models import M, len_hook, ALLHOOKS
P = Program('/verif/.cache/dump/apiformes_packet.json')
def mkI():
    import contracts
    return contracts.interp(P, contracts.VARINT)
if __name__=='__main__':
    pat = sys.argv[1]
    for f in P.insts:
        if f and pat in f['p'] and f.get('body'):
            I_ = mkI()
            st = State()
            args=[]
            for i in range(1, f['body']['args']+1):
                ty=f['body']['locals'][i][0]
                n=P.tname(ty)
                if n.startswith('&mut T') or n in('&mut T',):
                    c=('H','buf'); st.mem[c]=mk('stream','S',ZERO); args.append(mk('ref',c,()))
                else:
                    a=sym(None,'arg',i); I_.reg(a,ty); args.append(a)
            t=time.time()
            try:
                outs=I_.run(f,args,st,1,None)
            except Exception as e:
                import traceback; print("".join(traceback.format_exc().splitlines(True)[-4:])); print('EXC',f['p'],e); continue
            print('==',f['p'],f['targs'] if 'targs' in f else '', len(outs),'outs',I_.steps,'steps %.2fs'%(time.time()-t), 'unm',I_.unmodelled)
            for o in outs[:int(sys.argv[2]) if len(sys.argv)>2 else 6]:
                print('  ',o.kind, show(o.val) if o.val is not None else '', o.info.text() if o.info else '', '| buf', show(o.st.mem.get(('H','buf'))) if ('H','buf') in o.st.mem else '')
                print('       facts', {show(k):(v if len(v)<6 else '%d..%d/%d'%(min(v),max(v),len(v))) for k,v in o.st.facts.dom.items()}, [show(x) for x in o.st.facts.ge], {show(k):tuple('inf' if abs(z)>2**100 else z for z in v) for k,v in o.st.facts.iv.items()}, {show(k):v for k,v in o.st.facts.bo.items()}, o.st.trace)
