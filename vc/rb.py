"""Contracts for the red-black node algorithms (ord_index_node.hpp)."""
import z3
from .sym import *
T=z3.BoolVal(True)
Not=z3.Not; And=z3.And; Or=z3.Or; Imp=z3.Implies; If=z3.If
class RB:
    """ghost view of a tree: N node set, ord position (real in (0,1)), [lo,hi] interval, bh black height"""
    def __init__(s,eng,heap,N,ord,lo,hi,bh,H,sz=None,es=None):
        s.c={}; s.e=eng; s.h=heap; s.N=N; s.ord=ord; s.lo=lo; s.hi=hi; s.bh=bh; s.H=H; s.sz=sz; s.es=es
    def memo(s,k,t,f):
        key=(k,t.get_id()); x=s.c.get(key)
        if x is None: x=s.c[key]=(f(),t)
        return x[0]
    def L(s,t): return s.memo('L',t,lambda:s.e.ptr(s.e.probe('p_left',[Ptr(t)],s.h)).addr())
    def R(s,t): return s.memo('R',t,lambda:s.e.ptr(s.e.probe('p_right',[Ptr(t)],s.h)).addr())
    def P(s,t): return s.memo('P',t,lambda:s.e.ptr(s.e.probe('p_parent',[Ptr(t)],s.h)).addr())
    def C(s,t): return s.memo('C',t,lambda:s.e.num(s.e.probe('p_color',[Ptr(t)],s.h),32))
    def S(s,t): return s.memo('S',t,lambda:s.e.num(s.e.probe('p_size',[Ptr(t)],s.h)))
    def isN(s,t): return s.N(t)
    # local condition of node a; ex(a): a is exempt from the red-red rule towards its parent
    def LC(s,a,redx=None,defx=None,redp=None):
        """redx: node allowed to be a red child of a red parent (insert fix-up).
        defx: (x, xp, side) black-height deficit by one on that child position (erase fix-up)"""
        H=s.H; l=s.L(a); r=s.R(a); p=s.P(a); c=s.C(a)
        bl=If(l==0,0,s.bh(l)); br=If(r==0,0,s.bh(r))
        out=[('nonnull',And(a!=0,a!=H)),
          ('left-linked',Imp(l!=0,And(s.N(l),s.P(l)==a,l!=a))),
          ('right-linked',Imp(r!=0,And(s.N(r),s.P(r)==a,r!=a))),
          ('left-order',Imp(l!=0,And(s.lo(a)<=s.lo(l),s.hi(l)<=s.ord(a)))),
          ('right-order',Imp(r!=0,And(s.ord(a)<=s.lo(r),s.hi(r)<=s.hi(a)))),
          ('in-interval',And(s.lo(a)<s.ord(a),s.ord(a)<s.hi(a),s.lo(a)>=0,s.hi(a)<=1)),
          ('children-distinct',Imp(l!=0,l!=r)),
          ('parent-linked',Or(And(p==H,s.P(H)==a),And(p!=H,s.N(p),Or(s.L(p)==a,s.R(p)==a)))),
          ('colour',Or(c==0,c==1))]
        rl=Imp(And(c==0,l!=0),s.C(l)==1); rr=Imp(And(c==0,r!=0),s.C(r)==1)
        if redx is not None:
            rl=Or(l==redx,rl); rr=Or(r==redx,rr)
        if redp is not None:   # the node that is painted black when the loop ends may have red children
            rl=Or(a==redp,rl); rr=Or(a==redp,rr)
        out+=[('red-left',rl),('red-right',rr)]
        if defx is None:
            out+=[('black-height-equal',bl==br),('black-height',s.bh(a)==bl+c)]
        else:
            xp,left=defx   # black height of that side counted plus one
            bl2=If(And(a==xp,left),bl+1,bl); br2=If(And(a==xp,Not(left)),br+1,br)
            out+=[('black-height-equal',bl2==br2),('black-height',s.bh(a)==bl2+c)]
        out+=[('black-height-nonneg',And(bl>=0,br>=0,s.bh(a)>=0))]
        if s.e.ranked: out.append(s.SZ(a))
        return [(n,Imp(s.N(a),f)) for n,f in out]
    def SZ(s,a,delta=0):
        """ranked indices: size(a)==size(left)+size(right)+1+delta, in machine arithmetic (modulo 2^64)"""
        l=s.L(a); r=s.R(a); d=If(l==0,0,s.S(l))+If(r==0,0,s.S(r))+1+delta-s.S(a)
        return ('size',Or([d==k*2**64 for k in(0,1,-1,2)]))
    def LAM(s,a,b):
        """laminar intervals: two nodes have disjoint intervals, or one lies inside a child's interval of the other"""
        la=s.L(a); ra=s.R(a); lb=s.L(b); rb=s.R(b)
        ins=lambda u,c: And(c!=0,s.lo(c)<=s.lo(u),s.hi(u)<=s.hi(c))
        return Imp(And(s.N(a),s.N(b),a!=b),Or(s.hi(a)<=s.lo(b),s.hi(b)<=s.lo(a),ins(b,la),ins(b,ra),ins(a,lb),ins(a,rb)))
    def HC(s,rootblack=True,exempt=None):
        """header facts that are not quantified"""
        H=s.H; rt=s.P(H); lm=s.L(H); rm=s.R(H)
        out=[('header-red',s.C(H)==0),
          ('root',Imp(rt!=0,And(s.N(rt),s.P(rt)==H,s.lo(rt)==0,s.hi(rt)==1))),
          ('extremes-empty',Imp(rt==0,And(lm==H,rm==H))),
          ('extremes',Imp(rt!=0,And(s.N(lm),s.N(rm)))),
          ('header-not-node',Not(s.N(H))),('null-not-node',Not(s.N(z3.IntVal(0)))),('header-nonnull',H!=0)]
        if rootblack: out.append(('root-black',Imp(rt!=0,s.C(rt)==1)))
        return out
    def HU(s,w):
        """header facts for every node w"""
        H=s.H
        return [('root-present',Imp(s.N(w),And(s.P(H)!=0,0<s.ord(w),s.ord(w)<1))),
                ('leftmost',Imp(s.N(w),s.ord(s.L(H))<=s.ord(w))),
                ('rightmost',Imp(s.N(w),s.ord(s.R(H))>=s.ord(w)))]
    def INJ(s,a,w): return Imp(And(s.N(a),s.N(w),s.ord(a)==s.ord(w)),a==w)

def szonly(v,g,f=None):
    """in the ranked instantiation only the size obligations are generated; the structural ones are those of the
    same code with the null policy (same template, the policy touches nothing but size)"""
    if v.e.sizeonly: g=dict(facts=g['facts'],unis=[('sizes',lambda a: [(n,Imp(v.N(a),x)) for n,x in [v.SZ(a)]],'p')])
    return g
def sel(a): return lambda t: z3.Select(a,t)
def fresh_view(eng,heap,H,tag='',N=None,ordv=None):
    A=lambda n,r: sel(eng.fresharr(n+tag,r))
    return RB(eng,heap.copy(),N or A('N','bool'),ordv or A('ord','real'),A('lo','real'),A('hi','real'),A('bh','int'),H)

def assume_tree(eng,st,v,redx=None,defx=None,rootblack=True,skip_hu=False):
    """adds: v is a well-formed tree"""
    for n,f in v.HC(rootblack): eng.solver.add(f)
    eng.add_uni(st,lambda a: v.LC(a,redx,defx),'p','LC')
    eng.add_uni(st,lambda a,w: [('laminar',v.LAM(a,w))],('p','w'),'LAM')
    pool_all(eng,st,[v.L(v.H),v.R(v.H)],('p','w'))
    eng.add_uni(st,lambda w: v.HU(w),'p','HU')
    eng.add_uni(st,lambda w: v.HU(w),'w','HUw')
def tree_goals(v,redx=None,defx=None,rootblack=True,names='',redp=None):
    return dict(facts=[(names+n,f) for n,f in v.HC(rootblack)],
      unis=[(names+'LC',lambda a: v.LC(a,redx,defx,redp),'p'),
            (names+'LAM',lambda a,w: [('laminar',v.LAM(a,w))],('w','w'),('p','w')),
            (names+'HU',lambda w: v.HU(w),'w')])

def derive(v0,heap,T,N=None,ordv=None,depth=5,bhdepth=5,new=(),bhT=(),defx=None):
    """ghost state after the stores of a path: intervals/black heights recomputed only where the
    links of a touched node changed; total definitions by bounded recursion (no axioms)."""
    e=v0.e; h=heap.copy()
    v=RB(e,h,N or v0.N,ordv or v0.ord,None,None,None,v0.H)
    T=list(T)
    inT=lambda t: Or([t==x for x in T]) if T else z3.BoolVal(False)
    def memod(g):
        return lambda t,d=None: v.memo((g.__name__,d),t,lambda: g(t) if d is None else g(t,d))
    def moved(t,d=3):
        p=v.P(t)
        return Or([t==x for x in new]+[p!=v0.P(t),And(p!=v0.H,(v.L(p)==t)!=(v0.L(p)==t))]+
                  ([And(p!=v0.H,inT(p),moved(p,d-1))] if d else []))
    moved=memod(moved)
    def lo(t,d=depth):
        if d==0: return v0.lo(t)
        p=v.P(t)
        return If(And(inT(t),moved(t)),If(p==v.H,z3.RealVal(0),If(v.L(p)==t,lo(p,d-1),v.ord(p))),v0.lo(t))
    lo=memod(lo)
    def hi(t,d=depth):
        if d==0: return v0.hi(t)
        p=v.P(t)
        return If(And(inT(t),moved(t)),If(p==v.H,z3.RealVal(1),If(v.L(p)==t,v.ord(p),hi(p,d-1))),v0.hi(t))
    hi=memod(hi)
    def bh(t,d=bhdepth):
        if d==0: return v0.bh(t)
        l=v.L(t)
        if defx is not None: l=If(And(t==defx[0],defx[1]),v.R(t),l)
        return If(Or([inT(t)]+[t==x for x in bhT]),If(l==0,0,bh(l,d-1))+v.C(t),v0.bh(t))
    bh=memod(bh)
    v.lo=lo; v.hi=hi; v.bh=bh
    return v

# ------------------------------------------------------------------ function contracts
class Case:
    """one function under contract"""
    def __init__(s,name,fn,setup): s.name=name; s.fn=fn; s.setup=setup

def base_state(eng,F,args):
    st=St(); st.heap=Heap('h0')
    for A,a in zip(F.args,args): st.env[A]=a
    return st
def pool_all(eng,st,ts,pools=('p',)):
    for t in ts:
        for p in pools: eng.pool(st,t,p)

def skhook_rb(eng,st,sk,pools):
    v=st.g['v0']
    # a skolem node: also look at its neighbours in the start state
    for k,p in zip(sk,pools):
        eng.pool(st,k,'p')
        if p=='w': eng.pool(st,k,'w')

def cur_ghosts(eng,st):
    """N and ord after the update performed by this function so far"""
    N1=st.g.get('N1'); o1=st.g.get('ord1')
    return (N1(eng,st) if N1 else None),(o1(eng,st) if o1 else None)
def rel_unis(st,v):
    """relation of the current nodes/order to the initial ones (content and relative order)"""
    f=st.g.get('rel')
    return f(v) if f else []
def rebalance_loop():
    def havoc(eng,s,tag): s.heap=Heap('L'+tag)
    def inv(eng,st,roles,phase):
        x=eng.ptr(roles['x']).addr()
        v0=st.g['v0']
        if phase=='assume':
            v=fresh_view(eng,st.heap,v0.H,'!r')
            st.g['v0']=v; st.g['N1']=None; st.g['ord1']=None; st.g['new']=(); st.touched=[]
            for f in st.g.get('carry',[]): eng.solver.add(f)
            pool_all(eng,st,[v.H,v.P(v.H)]); pool_all(eng,st,[v.L(v.H),v.R(v.H)]+st.g.get('wkeep',[]),('p','w'))
        else:
            N1,o1=cur_ghosts(eng,st)
            v=derive(v0,st.heap,st.touched,N=N1,ordv=o1,new=st.g.get('new',()))
        g=tree_goals(v,redx=x,rootblack=False)
        g['facts']+=[('x-in-tree',v.N(x)),('x-red',v.C(x)==0),
                     ('root-black-or-x',Or(v.P(v.H)==0,v.C(v.P(v.H))==1,v.P(v.H)==x))]
        g['unis']+=rel_unis(st,v)
        return g if phase=='assume' else szonly(v,g)
    return LoopSpec('rebalance-loop',[('x','ptr')],inv,fresh=True,havoc=havoc,writes=True)

def size_loop(kind):
    """rank_policy::add / remove: sizes of the ancestors of x adjusted one after the other"""
    def sizeoff(eng):
        p=z3.Int('probe!sz'); r=eng.probe('p_size',[Ptr(p)],Heap('hsz'))
        return [int(str(k).split('_o')[1]) for k in [r.arg(0)]][0]
    def havoc(eng,s,tag):
        s.g=dict(s.g); s.g['touched']=list(s.touched)
        o=sizeoff(eng); s.heap=s.heap.copy(); s.heap.m[(o,'v')]=z3.Array('sz!%s'%tag,z3.IntSort(),z3.IntSort())
    def inv(eng,st,roles,phase):
        if not eng.ranked: raise RoleMismatch()
        c=eng.ptr(roles['x']).addr(); v0=st.g['v0']; H=v0.H
        if phase=='entry': st.g=dict(st.g); st.g['sz_y']=c
        y=st.g['sz_y']
        if phase=='assume':
            st.touched=list(st.g['touched'])
        o=sizeoff(eng)
        N1,o1=cur_ghosts(eng,st) if kind=='add' else (None,None)
        v=derive(v0,st.heap,st.touched,N=N1,ordv=o1,new=st.g.get('new',())) if kind=='add' else RB(eng,st.heap.copy(),v0.N,v0.ord,v0.lo,v0.hi,v0.bh,H)
        if phase=='assume': pool_all(eng,st,[c]); pool_all(eng,st,[v.P(c)])
        atP=lambda a,t: And(a==v.P(t),t!=v.P(H))
        one=lambda b: If(b,z3.IntVal(1),z3.IntVal(0))
        if kind=='add': rel=lambda a: v.SZ(a,-one(atP(a,c)))[1]
        else: rel=lambda a: v.SZ(a,one(And(c!=y,atP(a,c)))-one(And(c!=y,a==v.P(y))))[1]
        f=[('in-tree',v.N(c))]
        if kind=='remove': f.append(('ancestor',Or(c==y,And(v.ord(c)!=v.ord(y),v.lo(c)<=v.lo(y),v.hi(y)<=v.hi(c)))))
        if phase=='close': f.append(('frame',z3.BoolVal(all(z3.eq(st.heap.arr(*k),st.g['szheap'].arr(*k)) for k in set(st.heap.m)|set(st.g['szheap'].m) if k!=(o,'v')))))
        if phase=='assume': st.g=dict(st.g); st.g['szheap']=st.heap.copy()
        return dict(facts=f,unis=[('sizes',lambda a:[('size',Imp(v.N(a),rel(a)))],'p')])
    return LoopSpec('size-%s-loop'%kind,[('x','ptr')],inv,havoc=havoc,writes=True)

def final_goals(eng,st,kind,val):
    v0=st.g['v0']
    N1,o1=cur_ghosts(eng,st)
    v=derive(v0,st.heap,st.touched,N=N1,ordv=o1,new=st.g.get('new',()),bhT=st.g.get('bhT',()))
    st.g['vf']=v
    g=tree_goals(v)
    g['unis']+=rel_unis(st,v)
    return szonly(v,g)

def run_case(eng,name,fname,setup,loops,post,skhook=None):
    F=eng.mod.func(fname)
    eng.solver.push()
    try:
        st=setup(eng,F)
        eng.fn=name; eng.skhook=skhook or skhook_rb
        if not eng.feasible(): raise ToolError('precondition of %s is unsatisfiable'%name)
        for n,f,p in st.g.get('lemmas',[]): eng.prove_uni(st,'lemma/'+n,f,p)
        def on_exit(s,kind,val):
            if kind=='throw' and st.g.get('onthrow'):
                eng.prove_all(s,name,[('throw/'+n,f) for n,f in st.g['onthrow'](s)]); return
            if kind!='ret':
                eng.prove_all(s,name,[('no-%s'%kind,z3.BoolVal(False))]); return
            g=post(eng,s,val)
            nm='post'
            eng.prove_all(s,name,[('%s/%s'%(nm,n),f) for n,f in g.get('facts',[])])
            for u in g.get('unis',[]): eng.prove_uni(s,nm+'/'+u[0],u[1],u[2])
        eng.run(F,st,on_exit,loops,fnname=name)
    finally: eng.solver.pop()

def start(eng,F,names,pre=None):
    cs=[z3.Int(n) for n in names]
    st=base_state(eng,F,[Ptr(c) for c in cs])
    return st,cs

def inserted_rel(vi,x,p,before,H):
    """x was inserted immediately before/after p (p==H: at the end), everything else kept its order"""
    def content(w): return [('nodes',None)]
    def rel(v):
        adj=(lambda w: Imp(And(vi.N(w),w!=x),If(vi.ord(w)<vi.ord(p),v.ord(w)<v.ord(x),v.ord(x)<v.ord(w)))) if before else \
            (lambda w: Imp(And(vi.N(w),w!=x),If(vi.ord(w)<=vi.ord(p),v.ord(w)<v.ord(x),v.ord(x)<v.ord(w))))
        adj2=lambda w: If(p==H,Imp(And(vi.N(w),w!=x),v.ord(w)<v.ord(x)),adj(w))
        return [('content',lambda w: [('nodes',v.N(w)==Or(vi.N(w),w==x)),('order-kept',Imp(vi.N(w),v.ord(w)==vi.ord(w))),
                                      ('position',adj2(w))],'w')]
    return rel
def inserted_ghosts(st,v,x,H):
    """ghost choice: x gets a position in the middle of the free interval of the slot it was put in"""
    N=v.N; od=v.ord
    def N1(eng,s): return lambda t: Or(t==x,N(t))
    def ord1(eng,s):
        w=RB(eng,s.heap.copy(),None,None,None,None,None,H); q=w.P(x)
        ox=If(q==H,z3.RealVal('1/2'),If(w.L(q)==x,(v.lo(q)+od(q))/2,(od(q)+v.hi(q))/2))
        return lambda t: If(t==x,ox,od(t))
    st.g['N1']=N1; st.g['ord1']=ord1; st.g['new']=(x,)

def case_link(side):
    def setup(eng,F):
        st,(x,p,H)=start(eng,F,['x','p','H'])
        v=fresh_view(eng,st.heap,H); st.g['v0']=v
        assume_tree(eng,st,v)
        S=eng.solver
        S.add(x!=0,x!=H,Not(v.N(x)))
        if side=='left': S.add(Or(And(v.N(p),v.L(p)==0),And(p==H,v.P(H)==0)))
        else: S.add(v.N(p),v.R(p)==0)
        st.g['carry']=[x!=0,x!=H,Not(v.N(x)),Imp(p!=H,v.N(p))]; st.g['wkeep']=[x,p]
        inserted_ghosts(st,v,x,H)
        st.g['rel']=inserted_rel(v,x,p,side=='left',H)
        pool_all(eng,st,[x,p,H,v.P(H),v.L(H),v.R(H)]); pool_all(eng,st,[p],('w',))
        return st
    def post(eng,st,val): return final_goals(eng,st,'ret',val)
    return setup,[rebalance_loop(),size_loop('add')],post

def case_restore():
    """restore(x,position,header): x is put back immediately before position (or last, if header)"""
    def setup(eng,F):
        st,(x,p,H)=start(eng,F,['x','p','H'])
        v=fresh_view(eng,st.heap,H); st.g['v0']=v
        assume_tree(eng,st,v)
        S=eng.solver
        S.add(x!=0,x!=H,Not(v.N(x)),Or(v.N(p),p==H))
        st.g['carry']=[x!=0,x!=H,Not(v.N(x)),Imp(p!=H,v.N(p))]; st.g['wkeep']=[x,p]
        inserted_ghosts(st,v,x,H)
        st.g['rel']=inserted_rel(v,x,p,True,H)
        st.g['x0']=p
        pool_all(eng,st,[v.R(v.R(H))],('p','w'))
        pool_all(eng,st,[x,p,H,v.P(H),v.L(H),v.R(H)]); pool_all(eng,st,[p],('w',))
        return st
    def post(eng,st,val): return final_goals(eng,st,'ret',val)
    return setup,[rebalance_loop(),down_loop('left'),up_loop('left'),size_loop('add')],post

def down_loop(dirn):
    """descent to the neighbour of x0 inside one of its subtrees. dirn 'right': successor (go right, then left)"""
    def inv(eng,st,roles,phase):
        y=eng.ptr(roles['y']).addr(); v=st.g['v0']; x0=st.g['x0']
        if phase=='assume': eng.pool(st,y,'w')
        if dirn=='right':
            f=[('in-tree',v.N(y)),('beyond',v.ord(x0)<=v.lo(y)),('inside',v.hi(y)<=v.hi(x0)),('chain',Or(y==v.R(x0),v.L(v.P(y))==y))]
            u=[('no-node-skipped',lambda w: [('gap',Imp(And(v.N(w),v.ord(x0)<v.ord(w),v.ord(w)<v.ord(y)),v.lo(y)<v.ord(w)))],'w')]
        else:
            f=[('in-tree',v.N(y)),('beyond',v.hi(y)<=v.ord(x0)),('inside',v.lo(x0)<=v.lo(y)),('chain',Or(y==v.L(x0),v.R(v.P(y))==y))]
            u=[('no-node-skipped',lambda w: [('gap',Imp(And(v.N(w),v.ord(w)<v.ord(x0),v.ord(y)<v.ord(w)),v.ord(w)<v.hi(y)))],'w')]
        return dict(facts=f,unis=u)
    return LoopSpec('descend-'+dirn,[('y','ptr')],inv,writes=False)
def up_loop(dirn):
    def inv(eng,st,roles,phase):
        y=eng.ptr(roles['y']).addr(); x=eng.ptr(roles['x']).addr(); v=st.g['v0']; x0=st.g['x0']; H=v.H
        if phase=='assume': pool_all(eng,st,[y],('w',))
        if dirn=='right':
            f=[('parent',y==v.P(x)),('x',Or(And(v.N(x),v.ord(x0)<v.hi(x),v.lo(x)<v.hi(x)),And(x==H,v.P(H)==v.R(H))))]
            u=[('no-node-skipped',lambda w: [('gap',Imp(And(v.N(w),v.ord(x0)<v.ord(w)),And(x!=H,v.ord(w)>=v.hi(x))))],'w')]
        else:
            f=[('parent',y==v.P(x)),('x',And(v.N(x),v.lo(x)<v.ord(x0)))]
            u=[('no-node-skipped',lambda w: [('gap',Imp(And(v.N(w),v.ord(w)<v.ord(x0)),v.ord(w)<=v.lo(x)))],'w')]
        return dict(facts=f,unis=u)
    return LoopSpec('ascend-'+dirn,[('x','ptr'),('y','ptr')],inv,writes=False)

def case_step(dirn):
    def setup(eng,F):
        st,(x,)=start(eng,F,['x']); H=z3.Int('H')
        v=fresh_view(eng,st.heap,H); st.g['v0']=v; st.g['x0']=x; st.g['H']=H
        assume_tree(eng,st,v)
        if dirn=='right': eng.solver.add(v.N(x))
        else: eng.solver.add(Or(And(v.N(x),x!=v.L(H)),And(x==H,v.P(H)!=0)))
        pool_all(eng,st,[x,H,v.P(H),v.L(H),v.R(H)]); pool_all(eng,st,[x],('w',))
        return st
    def post(eng,st,val):
        v=st.g['v0']; x=st.g['x0']; H=v.H; r=eng.ptr(val).addr(); eng.pool(st,r,'w'); eng.pool(st,r)
        fr=[('heap-unchanged',z3.BoolVal(not st.touched))]
        if dirn=='right':
            return dict(facts=fr+[('result',Or(r==H,And(v.N(r),v.ord(x)<v.ord(r))))],
              unis=[('next',lambda w: [('no-node-between',Imp(And(v.N(w),v.ord(x)<v.ord(w)),And(r!=H,v.ord(r)<=v.ord(w))))],'w')])
        return dict(facts=fr+[('result',And(v.N(r),Or(x==H,v.ord(r)<v.ord(x))))],
              unis=[('prev',lambda w: [('no-node-between',Imp(And(v.N(w),Or(x==H,v.ord(w)<v.ord(x))),v.ord(w)<=v.ord(r)))],'w')])
    return setup,[down_loop(dirn),up_loop(dirn)],post

def fixup_loop():
    def havoc(eng,s,tag): s.heap=Heap('L'+tag)
    def inv(eng,st,roles,phase):
        x=eng.ptr(roles['x']).addr(); xp=eng.ptr(roles['xp']).addr()
        v0=st.g['v0']
        if phase=='assume':
            v=fresh_view(eng,st.heap,v0.H,'!e')
            st.g['v0']=v; st.g['N1']=None; st.g['ord1']=None; st.touched=[]; st.g['bhT']=[xp]; st.g['nomoredesc']=True
            for f in st.g.get('carry',[]): eng.solver.add(f)
            pool_all(eng,st,[v.H,v.P(v.H)]); pool_all(eng,st,[v.L(v.H),v.R(v.H)]+st.g.get('wkeep',[]),('p','w'))
            pool_all(eng,st,[xp],('w',))
            left=v.L(xp)==x
        else:
            N1,o1=cur_ghosts(eng,st)
            h=RB(eng,st.heap.copy(),None,None,None,None,None,v0.H)
            left=h.L(xp)==x
            v=derive(v0,st.heap,st.touched,N=N1,ordv=o1,bhT=st.g.get('bhT',()),defx=(xp,left))
        g=tree_goals(v,redx=x,defx=(xp,left),rootblack=False,redp=x)
        H=v.H
        g['facts']+=[('x-linked',Imp(x!=0,And(v.N(x),v.P(x)==xp))),
           ('xp',Or(And(xp==H,v.P(H)==x),And(xp!=H,v.N(xp),Or(v.L(xp)==x,v.R(xp)==x)))),
           ('root-black-or-x',Or(v.P(H)==0,v.C(v.P(H))==1,v.P(H)==x))]
        g['unis']+=rel_unis(st,v)
        return g if phase=='assume' else szonly(v,g)
    return LoopSpec('extract-fixup-loop',[('x','ptr'),('xp','ptr')],inv,fresh=True,havoc=havoc,writes=True)

def case_extract():
    def setup(eng,F):
        st,(z,H)=start(eng,F,['z','H'])
        v=fresh_view(eng,st.heap,H); st.g['v0']=v; st.g['x0']=z; st.g['z']=z
        assume_tree(eng,st,v)
        eng.solver.add(v.N(z))
        st.g['carry']=[z!=0,z!=H,v.N(z)]; st.g['wkeep']=[]
        N=v.N; od=v.ord
        st.g['N1']=lambda eng,s: (lambda t: And(N(t),t!=z))
        def ord1(eng,s):
            h=RB(eng,s.heap.copy(),None,None,None,None,None,H)
            l=v.L(z); y=If(And(l!=0,v.R(z)!=0),h.P(l),z)
            return lambda t: If(And(t==y,t!=z),od(z),od(t))
        st.g['ord1']=ord1
        def rel(u):
            return [('content',lambda w: [('nodes',u.N(w)==And(N(w),w!=z))],'w'),
                    ('order',lambda a,w: [('relative-order-kept',Imp(And(u.N(a),u.N(w)),(u.ord(a)<u.ord(w))==(od(a)<od(w))))],('w','w'))]
        st.g['rel']=rel
        pool_all(eng,st,[z,H,v.P(H),v.L(H),v.R(H),v.L(z),v.R(z),v.P(z)]); pool_all(eng,st,[z],('w',))
        return st
    def post(eng,st,val):
        g=final_goals(eng,st,'ret',val)
        g['facts'].append(('returns-removed-node',eng.ptr(val).addr()==st.g['z']))
        return g
    return setup,[fixup_loop(),size_loop('remove'),down_loop('right'),down_loop('left')],post

CASES={'link/left':('f_link_left',lambda:case_link('left')),'link/right':('f_link_right',lambda:case_link('right')),
 'rebalance_for_extract':('f_extract',case_extract),'increment':('f_increment',lambda:case_step('right')),
 'decrement':('f_decrement',lambda:case_step('left')),'restore':('f_restore',case_restore)}
