import sys,time
sys.path[:0]=['/verif/dcv/eng','/verif/dcv/specs']
from il import Program
import contract, exec as X, logic as L
import expr
t=time.time(); P=Program('/verif/build/il.json'); print('load',time.time()-t)
OP={'dcgp::kernel<double>'}
def go(sig,dbg=True,regs=None,**o):
    con=expr.REG[sig]
    t=time.time()
    ex=contract.verify(P,con,dict(regs or expr.REG),opts=dict(debug=dbg,**o),opaque=OP)
    print(sig,'gen',round(time.time()-t,2),'obls',len(ex.obls),'ret',ex.nret,'throw',ex.nthrow)
    t=time.time(); contract.discharge(ex)
    bad=[o for o in ex.obls if o.res!='proved']
    print('  discharge',round(time.time()-t,2),'failed',len(bad), 'queries',L.Stats.queries, L.Stats.slowest)
    for o in bad: print('   FAIL',o.kind,o.name,o.loc)
    if dbg:
        for l in ex.loopstats: print('   loop',l[0],l[1],'rounds',l[2],l[3])
    return ex
if __name__=='__main__':
    for s in expr.REG:
        if len(sys.argv)<2 or sys.argv[1] in s: go(s)
