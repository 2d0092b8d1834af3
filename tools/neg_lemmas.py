import sys; sys.path[:0]=['/verif','/verif/vcg']

from lemma import *
class M: funcs={}; decls={}; attrs={}; globals={}
T={"fwd SU":forward(B64S,B64U,True,"pad"),"fwd pad->nopad":forward(B64S,B64S,True,"nopad"),"fwd nopad->pad":forward(B64S,B64S,False,"pad"),"bwd SU":backward(B64U,B64S,True,"pad"),
"bwd hex nofold":backward(HEXL,HEX,False,"nopad",False),"fwd 32":forward(B32,B32H,True,"pad"),"bwd forgiving":backward(B64S,B64S,True,"forgiving"),"fwd64->32":forward(B64S,B32,False,"nopad")}
for k,f in T.items():
    try: e=lemma(M,f); print(k,len(e.fail),[(x.what[:60],x.status) for x in e.fail][:3])
    except Exception as ex: print(k,"EXC",repr(ex)[:100])
