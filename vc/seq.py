"""Contracts for the node algorithms of sequenced indices (seq_index_node.hpp).
A list with header H is a set N of nodes and a position ord: the circular chain visits N in ord order."""
import z3
from .sym import *
from .rb import sel,Not,And,Or,Imp,If,T,run_case,start,pool_all
class SQ:
    def __init__(s,eng,heap,N,ord,H): s.e=eng; s.h=heap; s.N=N; s.ord=ord; s.H=H; s.c={}
    def memo(s,k,t,f):
        key=(k,t.get_id()); x=s.c.get(key)
        if x is None: x=s.c[key]=(f(),t)
        return x[0]
    def nx(s,t): return s.memo('n',t,lambda:s.e.ptr(s.e.probe('p_next',[Ptr(t)],s.h)).addr())
    def pr(s,t): return s.memo('p',t,lambda:s.e.ptr(s.e.probe('p_prior',[Ptr(t)],s.h)).addr())
    def M(s,t): return Or(t==s.H,s.N(t))
    def LC(s,a):
        n=s.nx(a); p=s.pr(a); H=s.H
        out=[('next-in-list',s.M(n)),('prior-in-list',s.M(p)),('next-linked-back',s.pr(n)==a),('prior-linked-back',s.nx(p)==a),
             ('next-order',Or(a==H,n==H,s.ord(a)<s.ord(n))),('prior-order',Or(a==H,p==H,s.ord(p)<s.ord(a))),('nonnull',a!=0)]
        return [(k,Imp(s.M(a),f)) for k,f in out]
    def GAP(s,a,w):
        n=s.nx(a); p=s.pr(a); H=s.H
        return [('nothing-skipped-forward',Imp(And(s.M(a),s.N(w),Or(a==H,s.ord(w)>s.ord(a))),And(n!=H,s.ord(n)<=s.ord(w)))),
                ('nothing-skipped-backward',Imp(And(s.M(a),s.N(w),Or(a==H,s.ord(w)<s.ord(a))),And(p!=H,s.ord(w)<=s.ord(p)))),
                ('positions-distinct',Imp(And(s.N(a),s.N(w),s.ord(a)==s.ord(w)),a==w))]
    def HC(s): return [('header',And(s.H!=0,Not(s.N(s.H))))]
def view(eng,heap,H,tag=''):
    return SQ(eng,heap.copy(),sel(eng.fresharr('N'+tag,'bool')),sel(eng.fresharr('ord'+tag,'real')),H)
def assume(eng,st,v):
    for n,f in v.HC(): eng.solver.add(f)
    eng.add_uni(st,lambda a: v.LC(a),'p','LC')
    eng.add_uni(st,lambda a,w: v.GAP(a,w),('p','p'),'GAP')
def goals(v,names=''):
    return dict(facts=[(names+n,f) for n,f in v.HC()],unis=[(names+'LC',lambda a: v.LC(a),'p'),(names+'GAP',lambda a,w: v.GAP(a,w),('p','p'))])
def hook(eng,st,sk,pools):
    for v in st.g['views']:
        for k in sk: pool_all(eng,st,[v.nx(k),v.pr(k)])
def setup_common(eng,F,names,hdr='H',two=False):
    st,cs=start(eng,F,names)
    H=cs[names.index(hdr)] if hdr in names else z3.Int(hdr)
    v=view(eng,st.heap,H); st.g['v0']=v; st.g['views']=[v]
    assume(eng,st,v)
    pool_all(eng,st,[H]+[c for c in cs if c is not H])
    return st,cs,v
def cur(eng,st,N,ordf,H): return SQ(eng,st.heap.copy(),N,ordf,H)
def mid(v,lo,hi):
    """a position strictly between two neighbours (H: unbounded side)"""
    H=v.H
    return If(And(lo==H,hi==H),z3.RealVal(0),If(lo==H,v.ord(hi)-1,If(hi==H,v.ord(lo)+1,(v.ord(lo)+v.ord(hi))/2)))
def wrap(setup,post,loops=()):
    return setup,list(loops),post
def case(name):
    if name=='link':
        def setup(eng,F):
            st,(x,H),v=setup_common(eng,F,['x','H'])
            eng.solver.add(x!=0,x!=H,Not(v.N(x))); pool_all(eng,st,[v.pr(H)]); st.g['x']=x; return st
        def post(eng,st,val):
            v=st.g['v0']; x=st.g['x']; ox=mid(v,v.pr(v.H),v.H)
            u=cur(eng,st,lambda t:Or(t==x,v.N(t)),lambda t:If(t==x,ox,v.ord(t)),v.H)
            g=goals(u); g['facts'].append(('appended-last',u.pr(v.H)==x)); return g
        return wrap(setup,post)
    if name=='unlink':
        def setup(eng,F):
            st,(x,),v=setup_common(eng,F,['x']); eng.solver.add(v.N(x)); st.g['x']=x; return st
        def post(eng,st,val):
            v=st.g['v0']; x=st.g['x']
            return goals(cur(eng,st,lambda t:And(t!=x,v.N(t)),v.ord,v.H))
        return wrap(setup,post)
    if name=='relink':
        def setup(eng,F):
            st,(p,x),v=setup_common(eng,F,['p','x']); eng.solver.add(v.N(x),v.M(p),p!=x); pool_all(eng,st,[v.pr(p),v.pr(x),v.nx(x)]); st.g['x']=x; st.g['p']=p; return st
        def post(eng,st,val):
            v=st.g['v0']; x=st.g['x']; p=st.g['p']
            lo=If(v.pr(p)==x,v.pr(x),v.pr(p)); ox=mid(v,lo,p)
            u=cur(eng,st,v.N,lambda t:If(t==x,ox,v.ord(t)),v.H)
            g=goals(u); g['facts'].append(('before-position',u.nx(x)==p)); return g
        return wrap(setup,post)
    if name=='relink_range':
        def setup(eng,F):
            st,(p,x,y),v=setup_common(eng,F,['p','x','y']); H=v.H
            # [x,y) is a range of the list and p is not in it
            eng.solver.add(v.M(x),v.M(y),v.M(p),Or(x==y,And(x!=H,Or(y==H,v.ord(x)<v.ord(y)))))
            inr=lambda t:And(x!=y,v.N(t),v.ord(x)<=v.ord(t),Or(y==H,v.ord(t)<v.ord(y)))
            eng.solver.add(Not(inr(p)))
            f=sel(eng.fresharr('emb','real')); lo=v.pr(p)
            # ghost embedding of the moved range into the gap before p (exists: the reals are dense)
            lo2=If(And(x!=y,lo==v.pr(y)),v.pr(x),lo)
            def emb(a,w):
                return [('e1',Imp(inr(a),And(Or(lo2==H,v.ord(lo2)<f(a)),Or(p==H,f(a)<v.ord(p))))),('e2',Imp(And(inr(a),inr(w)),(f(a)<f(w))==(v.ord(a)<v.ord(w))))]
            eng.add_uni(st,emb,('p','p'),'emb')
            pool_all(eng,st,[v.pr(p),v.pr(x),v.nx(x),v.pr(y)])
            st.g.update(x=x,p=p,y=y,inr=inr,f=f); return st
        def post(eng,st,val):
            v=st.g['v0']; inr=st.g['inr']; f=st.g['f']
            u=cur(eng,st,v.N,lambda t:If(inr(t),f(t),v.ord(t)),v.H)
            return goals(u)
        return wrap(setup,post)
    if name=='reverse':
        def setup(eng,F):
            st,(H,),v=setup_common(eng,F,['H']); return st
        def inv(eng,st,roles,phase):
            x=eng.ptr(roles['x']).addr(); v=st.g['v0']; H=v.H; u=cur(eng,st,v.N,v.ord,H)
            if phase=='assume': st.g['views']=[v,u]
            def done(w): return Or(And(w==H,x!=H),And(v.N(w),x!=H,v.ord(w)<v.ord(x)))
            return dict(facts=[('x-in-list',v.M(x))],unis=[('swapped',lambda w:[('visited',Imp(done(w),And(u.nx(w)==v.pr(w),u.pr(w)==v.nx(w)))),
                ('not-visited',Imp(And(v.M(w),Not(done(w))),And(u.nx(w)==v.nx(w),u.pr(w)==v.pr(w))))],'p')])
        def havoc(eng,s,tag): s.heap=Heap('L'+tag)
        def post(eng,st,val):
            v=st.g['v0']; u=cur(eng,st,v.N,lambda t:-v.ord(t),v.H)
            return goals(u)
        return wrap(setup,post,[LoopSpec('reverse-loop',[('x','ptr')],inv,havoc=havoc,writes=True)])
    if name=='swap':
        def setup(eng,F):
            st,(x,y),v=setup_common(eng,F,['x','y'],hdr='x')
            w=SQ(eng,v.h,sel(eng.fresharr('N2','bool')),sel(eng.fresharr('ord2','real')),y); assume(eng,st,w); st.g['views'].append(w); st.g['w']=w
            eng.solver.add(x!=y,Not(v.N(y)),Not(w.N(x)))
            eng.add_uni(st,lambda t:[('disjoint',Not(And(v.N(t),w.N(t))))],'p','disjoint')
            pool_all(eng,st,[v.pr(x),v.nx(x),w.pr(y),w.nx(y)]); return st
        def post(eng,st,val):
            v=st.g['v0']; w=st.g['w']
            g=goals(cur(eng,st,w.N,w.ord,v.H),'first-'); g2=goals(cur(eng,st,v.N,v.ord,w.H),'second-')
            return dict(facts=g['facts']+g2['facts'],unis=g['unis']+g2['unis'])
        return wrap(setup,post)
    if name in('increment','decrement'):
        def setup(eng,F):
            st,(x,),v=setup_common(eng,F,['x']); eng.solver.add(v.M(x)); st.g['x']=x; return st
        def post(eng,st,val):
            v=st.g['v0']; x=st.g['x']; r=eng.ptr(val).addr(); H=v.H; pool_all(eng,st,[r])
            if name=='increment':
                return dict(facts=[('in-list',v.M(r)),('frame',z3.BoolVal(not st.touched))],unis=[('next',lambda w:[('first-after',Imp(And(v.N(w),Or(x==H,v.ord(w)>v.ord(x))),And(r!=H,v.ord(r)<=v.ord(w)))),('after',Or(r==H,x==H,v.ord(x)<v.ord(r)))],'p')])
            return dict(facts=[('in-list',v.M(r)),('frame',z3.BoolVal(not st.touched))],unis=[('prior',lambda w:[('last-before',Imp(And(v.N(w),Or(x==H,v.ord(w)<v.ord(x))),And(r!=H,v.ord(w)<=v.ord(r)))),('before',Or(r==H,x==H,v.ord(r)<v.ord(x)))],'p')])
        return wrap(setup,post)
CASES=['link','unlink','relink','relink_range','reverse','swap','increment','decrement']
def run(eng,name):
    eng.skhook=hook
    setup,loops,post=case(name)
    run_case(eng,name,'f_'+name,setup,loops,post,skhook=hook)
