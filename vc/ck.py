"""Contracts for composite keys: lexicographic comparison, componentwise equality, hash of the components."""
import z3
from .sym import *
from .rb import base_state
I_=z3.IntSort()
LT=z3.Function('lt',I_,I_,I_,z3.BoolSort()); EQF=z3.Function('eq',I_,I_,I_,z3.BoolSort()); HF=z3.Function('hf',I_,I_,I_); KF=z3.Function('kf',I_,I_,I_)
def contracts():
    def mk(f,rng=None):
        def h(eng,st,I,args):
            a=[eng.num(x) if not isinstance(x,Ptr) else x.addr() for x in args]
            def eff(s):
                r=f(*a)
                if rng: eng.range_fact(r,0,rng)
                return r
            return [(None,eff,'ret')]
        return h
    return {'kf':mk(KF,2**32-1),'lt':mk(LT),'eq':mk(EQF),'hf':mk(HF,2**64-1)}
def lex(xs,ys):
    r=z3.BoolVal(False)
    for i in reversed(range(min(len(xs),len(ys)))):
        r=z3.If(LT(i,xs[i],ys[i]),z3.BoolVal(True),z3.If(LT(i,ys[i],xs[i]),z3.BoolVal(False),r))
    return r
def alleq(xs,ys): return z3.And([EQF(i,a,b) for i,(a,b) in enumerate(zip(xs,ys))])
FUNS=('c_kk c_kkm c_kmk c_kb c_bk c_ks c_sk c_kv c_vk e_kk e_kb e_bk e_ks e_sk h_k h_b h_s o_eq_kk o_eq_kb o_eq_bk o_eq_ks o_eq_sk '
 'o_lt_kk o_lt_kb o_lt_bk o_lt_ks o_lt_sk o_gt_kk o_ge_kk o_le_kk o_ne_kk o_gt_kb o_le_ks').split()
def run_all(eng,N,M):
    eng.contracts=contracts(); eng.skhook=None; eng.paths_total=0; hs=[]; allx=[]
    for fn in FUNS+(['h_k'] if N==M else []):
        if N!=M and not fn.startswith(('c_kkm','c_kmk','c_kb','c_bk','c_ks','c_sk')): continue
        F=eng.mod.func(fn); eng.fn=fn
        kinds=fn.split('_')[-1]
        ks=[]; 
        k=kinds
        while k:
            t=k[0]; k=k[1:]
            if t=='k' and k[:1]=='m': t='km'; k=k[1:]
            ks.append(t)
        eng.solver.push()
        try:
            args=[]
            st=St(); st.heap=Heap('h0')
            for A,t in zip(F.args,ks):
                x=z3.Int('arg%d'%len(args))
                if t=='v': eng.range_fact(x,0,2**32-1); args.append(x); st.env[A]=x
                else: eng.solver.add(x!=0); args.append(x); st.env[A]=Ptr(x,0)
            eng.solver.add(z3.Distinct(*args) if len(args)>1 and 'v' not in ks else z3.BoolVal(True))
            def comps(t,x):
                if t=='k': return [KF(i,x) for i in range(N)]
                if t=='km': return [KF(i,x) for i in range(M)]
                if t=='v': return [x]
                full=not fn.startswith('c_')
                pre={('b',0):'bt',('s',0):'stt',('b',1):'bv',('s',1):'sv'}[(t,int(fn.startswith('o_')))] if full else {'b':'bm','s':'sm'}[t]
                return [eng.num(eng.probe('%s%d'%(pre,i),[Ptr(x,0)],Heap('h0')),32) for i in range(N if full else M)]
            if fn.startswith('h_') : args[0]=z3.Int('harg%d'%len(hs)); st.env[F.args[0]]=Ptr(args[0],0)
            xs=comps(ks[0],args[0])
            if fn.startswith('h_'): allx.append(xs)
            ys=comps(ks[1],args[1]) if len(ks)>1 else None
            op=fn.split('_')[1] if fn.startswith('o_') else fn[0]
            def on_exit(s,kind,val):
                if kind!='ret': eng.prove_all(s,fn,[('no-%s'%kind,z3.BoolVal(False))]); return
                if op=='h':
                    # all forms of a key hash alike, and the hash depends on the component hashes only
                    hs.append((fn,eng.num(val))); eng.prove_all(s,fn,[('%s/frame'%fn,z3.BoolVal(not s.touched))]); return
                r=eng.boolv(val)
                want={'c':lambda:lex(xs,ys),'e':lambda:alleq(xs,ys),'eq':lambda:alleq(xs,ys),'lt':lambda:lex(xs,ys),'gt':lambda:lex(ys,xs),
                      'ge':lambda:z3.Not(lex(xs,ys)),'le':lambda:z3.Not(lex(ys,xs)),'ne':lambda:z3.Not(alleq(xs,ys))}[op]()
                eng.prove_all(s,fn,[('%s/result'%fn,r==want),('%s/frame'%fn,z3.BoolVal(not s.touched))])
            eng.run(F,st,on_exit,[],fnname=fn); eng.paths_total+=eng.paths; eng.paths=0
        finally: eng.solver.pop()
    if N==M:
        st=St(); st.heap=Heap('h0'); eng.fn='hash'
        if len(hs)!=len(allx): raise ToolError('hash functions branch')
        for i,(x,(fn,v)) in enumerate(zip(allx,hs)):
            for j in range(i):
                same=z3.And([HF(k,a)==HF(k,b) for k,(a,b) in enumerate(zip(x,allx[j]))])
                st.trace=['%d'%i,'%d'%j]
                eng.prove_all(st,'hash',[('%s/same-hash-as-%s-for-components-that-hash-alike'%(fn,hs[j][0]),z3.Implies(same,v==hs[j][1]))])
