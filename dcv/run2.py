import sys,time
sys.path[:0]=['/verif/dcv','/verif/dcv/eng','/verif/dcv/specs']
import registry, contract, logic as L
from il import Program
P=Program('/verif/build/il.json')
dbg='-v' in sys.argv; full='-f' in sys.argv; dump='-d' in sys.argv
pat=[a for a in sys.argv[1:] if a[:1]!='-']
grp=pat[0]
def go(key):
    con,regs,kw=registry.setup(key)
    t=time.time()
    opts=dict(kw.pop('opts',{})); opts.update(debug=dbg)
    if '-D' in sys.argv: opts.update(dumpdir='/tmp/dd')
    try: ex=contract.verify(P,con,regs,opts=opts,**kw)
    except contract.Unsupported as u:
        if full: raise
        print(key[:150],'UNSUPPORTED',u); return
    g=time.time()-t; t=time.time(); contract.discharge(ex)
    bad=[o for o in ex.obls if o.res!='proved']
    print(key[:170],'gen',round(g,1),'dis',round(time.time()-t,1),'obls',len(ex.obls),'ret',ex.nret,'throw',ex.nthrow,'FAILED' if bad else 'ok',len(bad))
    for n,o in enumerate(bad):
        print('   FAIL',o.kind,o.name,o.loc)
        if dump: L.dump(o.pc,o.goal,'/tmp/f%d.smt2'%n)
    if dbg:
        for l in ex.loopstats: print('   loop',l[0],l[1],'rounds',l[2],l[3])
for g,(regs,kw) in registry.GROUPS.items():
    if g!=grp: continue
    for s in regs:
        if (len(pat)<2 or any(p in s for p in pat[1:])) and getattr(regs[s],'sig',None)==s.split('#')[0] and not getattr(regs[s],'assumed',False): go(g+'|'+s)
