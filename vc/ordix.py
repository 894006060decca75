"""Contracts for ordered index lookup and insertion-point functions (ord_index_ops.hpp, ord_index_impl.hpp).
The comparison is a strict weak ordering given by a rank function; a compatible key is an interval of ranks;
range predicates are monotone.  Tree facts are those the node algorithms establish (rb.py)."""
import z3,re
from .sym import *
from . import rb
from .rb import RB,sel,fresh_view,pool_all,Not,And,Or,Imp,If,run_case
I_=z3.IntSort(); Rl=z3.RealSort()
KF=z3.Function('kf',I_,I_); RANK=z3.Function('rank',I_,Rl)
LX=z3.Function('lx',I_,Rl); UX=z3.Function('ux',I_,Rl); LOW=z3.Real('lower_cut'); UPP=z3.Real('upper_cut')
LOSTRICT=z3.Bool('lower_strict'); UPSTRICT=z3.Bool('upper_strict')
# a monotone predicate on ranks is a cut, closed or open
lowp=lambda r: If(LOSTRICT,LOW<r,LOW<=r)
uppp=lambda r: If(UPSTRICT,r<UPP,r<=UPP)
def fieldoff(eng,probe,obj):
    F=eng.mod.func(probe); s=St(); s.heap=Heap('hx'); s.env={F.args[0]:Ptr(obj,0)}
    for I in F.blocks[0].ins:
        if I.op=='ret': break
        eng.simple(s,I,probing=True)
    ks=[k for k in s.local if k[0] is obj]
    if len(ks)!=1: raise ToolError('cannot locate the field read by '+probe)
    return ks[0]
class Ix:
    """an index object and its tree"""
    def __init__(s,eng,F,st,unique):
        s.eng=eng; s.obj=Obj('index'); st.env[F.args[0]]=Ptr(s.obj,0)
        H=z3.Int('H'); s.H=H; s.v=fresh_view(eng,st.heap,H); v=s.v
        # impl offset inside a node
        p=eng.probe('p_impl',[Ptr(z3.Int('nd'),0)],st.heap); s.off=p.o
        hk=fieldoff(eng,'p_header',s.obj); st.local[hk]=Ptr(H,-s.off)
        ck=fieldoff(eng,'p_count',s.obj); n=z3.Int('node_count'); st.local[ck]=n; eng.range_fact(n,0,2**64-1)
        eng.solver.add((n>0)==(v.P(H)!=0))
        rb.assume_tree(eng,st,v); st.g['v0']=v; st.g['ix']=s
        s.unique=unique
        eng.add_uni(st,lambda a,w:[('sorted',Imp(And(v.N(a),v.N(w),v.ord(a)<v.ord(w)),(s.key(a)<s.key(w)) if unique else s.key(a)<=s.key(w)))],('p','w'),'SORTED')
        eng.add_uni(st,lambda a,w:[('inj',v.INJ(a,w))],('p','w'),'INJ')
        eng.add_uni(st,lambda a:[('al',Imp(Or(a==H,v.N(a)),a>s.off))],'p','ALIGN')
        pool_all(eng,st,[H,v.P(H)]); pool_all(eng,st,[v.P(H)],('w',))
    def ranks(s,eng,st,sizes):
        """ghost positions. base(a): nodes before the subtree of a; idx(a): position of a in the whole sequence"""
        v=s.v; H=s.H; s.base=z3.Function('base',I_,I_); s.idx=z3.Function('idx',I_,I_); s.total=z3.Int('node_count')
        if sizes: s.size=lambda t: If(t==0,z3.IntVal(0),v.S(t))
        else:
            sz=z3.Function('gsize',I_,I_); s.size=lambda t: If(t==0,z3.IntVal(0),sz(t))
        rt=v.P(H)
        eng.solver.add(s.total==s.size(rt),s.idx(H)==s.total,s.base(rt)==0)
        def loc(a):
            l=v.L(a); r=v.R(a)
            return [Imp(v.N(a),And(s.idx(a)==s.base(a)+s.size(l),s.size(a)==s.size(l)+s.size(r)+1,Imp(l!=0,s.base(l)==s.base(a)),Imp(r!=0,s.base(r)==s.idx(a)+1),
                s.base(a)>=0,s.size(a)>=1,s.base(a)+s.size(a)<=s.total,s.idx(a)<s.total))]
        eng.add_uni(st,loc,'p','SIZES')
        eng.add_uni(st,lambda a,w:[Imp(And(v.N(a),v.N(w),v.ord(a)<v.ord(w)),s.idx(a)<s.idx(w))],('p','w'),'POSITIONS')
        # all positions of the subtree of a: from base(a) on, size(a) of them (lemma/ranks)
        eng.add_uni(st,lambda a,w:[Imp(And(v.N(a),v.N(w),v.lo(a)<=v.lo(w),v.hi(w)<=v.hi(a)),And(s.base(a)<=s.idx(w),s.idx(w)<s.base(a)+s.size(a)))],('p','w'),'SUBTREE')
    def val(s,t): return s.eng.ptr(s.eng.probe('p_value',[Ptr(t,-s.off)],s.v.h)).addr()
    def key(s,t): return RANK(KF(s.val(t)))
    def nd(s,x):
        """impl address of a node pointer value, 0 for null"""
        p=s.eng.ptr(x); b=p.b; s.eng.solver.add(p.addr()>=0)
        if not isinstance(b,Obj) and p.o==-s.off: return If(b==s.off,z3.IntVal(0),b)
        if not isinstance(b,Obj) and z3.is_int_value(b) and b.as_long()==0 and p.o==0: return z3.IntVal(0)
        a=p.addr(); return If(a==0,z3.IntVal(0),z3.simplify(a+s.off))
def contracts(eng):
    def pure(f):
        def h(eng,st,I,args):
            a=[x.addr() if isinstance(x,Ptr) else eng.num(x,32) for x in args]
            return [(None,lambda s:f(*a),'ret')]
        return h
    def kfh(eng,st,I,args):
        a=eng.ptr(args[0]).addr()
        def eff(s):
            r=KF(a); eng.range_fact(r,0,2**32-1); return r
        return [(None,eff,'ret')]
    c={'kf':kfh,'cmp':pure(lambda a,b:RANK(a)<RANK(b)),'cmp_kx':pure(lambda k,x:RANK(k)<LX(x)),'cmp_xk':pure(lambda x,k:UX(x)<RANK(k)),
       'lowerp':pure(lambda k:lowp(RANK(k))),'upperp':pure(lambda k:uppp(RANK(k)))}
    def step(dirn):
        def h(eng,st,I,args):
            ix=st.g['ix']; v=ix.v; H=ix.H
            q=eng.ptr(args[0])
            if not isinstance(q.b,Obj): raise ToolError('increment of a non-local iterator')
            x=eng.ptr(st.local[(q.b,q.o)]).addr()
            eng.pool(st,x,'p'); eng.pool(st,x,'w')
            if dirn>0: eng.prove_all(st,eng.fn,[('call-increment/node',v.N(x))])
            else: eng.prove_all(st,eng.fn,[('call-decrement/node-not-first',Or(And(v.N(x),x!=v.L(H)),And(x==H,v.P(H)!=0)))])
            def eff(s):
                r=eng.fresh('step'); s.local[(q.b,q.o)]=Ptr(r,0)
                if dirn>0:
                    eng.solver.add(Or(r==H,And(v.N(r),v.ord(x)<v.ord(r))))
                    if hasattr(ix,'idx'): eng.solver.add(ix.idx(r)==ix.idx(x)+1)
                    eng.add_uni(s,lambda w:[('nb',Imp(And(v.N(w),v.ord(x)<v.ord(w)),And(r!=H,v.ord(r)<=v.ord(w))))],'p','next')
                else:
                    eng.solver.add(And(v.N(r),Or(x==H,v.ord(r)<v.ord(x))))
                    eng.add_uni(s,lambda w:[('nb',Imp(And(v.N(w),Or(x==H,v.ord(w)<v.ord(x))),v.ord(w)<=v.ord(r)))],'p','prev')
                eng.pool(s,r,'p'); eng.pool(s,r,'w')
                return None
            return [(None,eff,'ret')]
        return h
    def errk(eng,st,I,args):
        ix=st.g['ix']; v=ix.v; pr=preds(ix,st); a=eng.fresh('er'); b=eng.fresh('er')
        for x in(a,b): eng.range_fact(x,0,2**64-1)
        x=args[1]; 
        if isinstance(x,Ptr) and isinstance(x.b,Obj): eng.prove_all(st,eng.fn,[('call-equal_range_rank/key',eng.num(st.local[(x.b,x.o)])==st.g['k'])])
        else: eng.prove_all(st,eng.fn,[('call-equal_range_rank/key',eng.ptr(x).addr()==st.g.get('x',z3.IntVal(-1)))])
        def eff(s):
            s.g=dict(s.g); s.g['er']=(a,b)
            g=both(is_rank(ix,a,pr['lower']),'first',is_rank(ix,b,pr['upper']),'second')
            for _,f in g['facts']: eng.solver.add(f)
            for u in g['unis']: eng.add_uni(s,u[1],'p',u[0])
            # first<=second: a lower bound is never after the upper bound of the same key (positions are onto 0..size-1)
            eng.solver.add(a<=b)
            return Agg([a,b])
        return [(None,eff,'ret')]
    def erk(eng,st,I,args):
        ix=st.g['ix']; v=ix.v; pr=preds(ix,st); a=eng.fresh('er'); b=eng.fresh('er'); x=args[1]
        if isinstance(x,Ptr) and isinstance(x.b,Obj): eng.prove_all(st,eng.fn,[('call-equal_range/key',eng.num(st.local[(x.b,x.o)])==st.g['k'])])
        else: eng.prove_all(st,eng.fn,[('call-equal_range/key',eng.ptr(x).addr()==st.g.get('x',z3.IntVal(-1)))])
        def eff(s):
            g=both(is_bound(ix,a,pr['lower']),'first',is_bound(ix,b,pr['upper']),'second'); pool_all(eng,s,[a,b],('p','w'))
            for _,f in g['facts']: eng.solver.add(f)
            for u in g['unis']: eng.add_uni(s,u[1],('p'),u[0])
            return Agg([Ptr(a,-ix.off),Ptr(b,-ix.off)])
        return [(None,eff,'ret')]
    for n,d in eng.mod.kept.items():
        if 'equal_range_rank' in d: c[n]=errk
        elif 'equal_range' in d: c[n]=erk
        if '::increment(' in d: c[n]=step(1)
        if '::decrement(' in d: c[n]=step(-1)
    return c
KEEP=(r'ordered_index_node_impl<.*>::increment\(',r'ordered_index_node_impl<.*>::decrement\(')
KEEPCOUNT=KEEP+(r'#ranked_index\|1?\|equal_range_rank',r'#ordered_index_impl\|1?\|equal_range')
def hook(eng,st,sk,pools):
    for k in sk: pool_all(eng,st,[k],('p','w'))
# ---- loops
def preds(ix,st):
    """the monotone predicates a descent may be looking for"""
    x=st.g.get('x'); k=st.g.get('k'); out=[]
    if x is not None: out+=[('lower',lambda w: ix.key(w)>=LX(x)),('upper',lambda w: UX(x)<ix.key(w))]
    if k is not None: out+=[('lower',lambda w: ix.key(w)>=RANK(k)),('upper',lambda w: RANK(k)<ix.key(w))]
    if st.g.get('range'): out+=[('lower',lambda w: lowp(ix.key(w))),('upper',lambda w: Not(uppp(ix.key(w))))]
    return dict(out)
def bound_loop(which):
    """descent of find/lower_bound/upper_bound/range: roles top, y; dom: interval searched"""
    def inv(eng,st,roles,phase):
        ix=st.g['ix']; v=ix.v; H=ix.H; pr=preds(ix,st)
        if which not in pr: raise RoleMismatch()
        Pd=pr[which]; t=ix.nd(roles['top']); y=ix.nd(roles['y'])
        if phase=='entry':
            st.g=dict(st.g); st.g['dom_'+which]=(t,y)
        t0,y0=st.g['dom_'+which]
        if phase=='assume': pool_all(eng,st,[t,y,v.L(t),v.R(t)],('p','w'))
        inside=lambda u,c: And(c!=0,v.lo(c)<=v.lo(u),v.hi(u)<=v.hi(c))
        dom=lambda w: And(v.N(w),t0!=0,v.lo(t0)<=v.lo(w),v.hi(w)<=v.hi(t0))
        return dict(facts=[('top',Or(t==0,And(v.N(t),inside(t,t0)))),('candidate',Or(y==y0,And(v.N(y),Pd(y),dom(y)))),('beyond',Or(t==0,y==y0,v.hi(t)<=v.ord(y)))],
            unis=[('no-candidate-lost',lambda w:[('cover',Imp(And(dom(w),Pd(w)),Or(inside(w,t),And(y!=y0,v.ord(y)<=v.ord(w)))))],'w','p')])
    return LoopSpec(which+'-bound-descent',[('top','ptr'),('y','ptr')],inv,writes=False)
def equal_loop():
    """first phase of equal_range/range: neither bound has been separated yet"""
    def inv(eng,st,roles,phase):
        ix=st.g['ix']; v=ix.v; H=ix.H; pr=preds(ix,st); lo=pr['lower']; up=pr['upper']
        t=ix.nd(roles['top']); y=ix.nd(roles['y'])
        if phase=='assume': pool_all(eng,st,[t,y,v.L(t),v.R(t)],('p','w'))
        inside=lambda u,c: And(c!=0,v.lo(c)<=v.lo(u),v.hi(u)<=v.hi(c))
        return dict(facts=[('top',Or(t==0,v.N(t))),('candidate',Or(y==H,And(v.N(y),lo(y),up(y)))),('beyond',Or(t==0,y==H,v.hi(t)<=v.ord(y)))],
            unis=[('no-candidate-lost',lambda w:[('upper',Imp(And(v.N(w),lo(w),up(w)),Or(inside(w,t),And(y!=H,v.ord(y)<=v.ord(w))))),
                    ('lower',Imp(And(v.N(w),lo(w),Not(up(w))),inside(w,t)))],'w','p')])
    return LoopSpec('equal-range-descent',[('top','ptr'),('y','ptr')],inv,writes=False)
def point_loop(which):
    """descent of link_point: roles x (next), y (last visited), c (direction taken at y)"""
    def inv(eng,st,roles,phase):
        ix=st.g['ix']; v=ix.v; H=ix.H; pr=preds(ix,st); Pd=pr[which]
        x=ix.nd(roles['x']); y=ix.nd(roles['y']); c0=roles['c']; c=eng.boolv(c0); isbit=z3.BoolVal(True) if isinstance(c0,z3.BoolRef) else And(eng.num(c0,8)>=0,eng.num(c0,8)<=1)
        if which=='lower': c=Not(c)
        if phase=='assume': pool_all(eng,st,[x,y],('p','w'))
        inside=lambda u,k: And(k!=0,v.lo(k)<=v.lo(u),v.hi(u)<=v.hi(k))
        return dict(facts=[('flag',isbit),('x',Or(x==0,v.N(x))),('y',Or(And(y==H,x==v.P(H),c),And(v.N(y),x==If(c,v.L(y),v.R(y)),c==Pd(y))))],
            unis=[('slot',lambda w:[('separates',Imp(And(v.N(w),Not(inside(w,x)),y!=H),Pd(w)==If(c,v.ord(w)>=v.ord(y),v.ord(w)>v.ord(y)))),
                                    ('top-covers',Imp(And(y==H,v.N(w)),inside(w,x)))],'w','p')])
    return LoopSpec(which+'-link-point-descent',[('x','ptr'),('y','ptr'),('c','bool')],inv,writes=False)
def rank_loop(which,withy,nn=True):
    """descent of the rank lookups: s is the position, counted from the subtree searched, of the candidate"""
    def inv(eng,st,roles,phase):
        ix=st.g['ix']; v=ix.v; H=ix.H; pr=preds(ix,st)
        if which not in pr or not hasattr(ix,'base'): raise RoleMismatch()
        Pd=pr[which]; t=ix.nd(roles['top']); s=eng.num(roles['s'])
        y=ix.nd(roles['y']) if withy else None
        if phase=='entry': st.g=dict(st.g); st.g['rdom_'+which]=(t,y)
        t0,y0=st.g['rdom_'+which]
        if phase=='assume': pool_all(eng,st,[t,v.L(t),v.R(t)]+([y] if withy else []),('p','w'))
        inside=lambda u,c: And(c!=0,v.lo(c)<=v.lo(u),v.hi(u)<=v.hi(c))
        q=s+ix.base(t0)
        f=[('top',Or(And(t==0,not nn),And(v.N(t),inside(t,t0),q==ix.base(t)+ix.size(t)))),('bounded',And(Or(v.N(t0),And(t0==0,not nn)),s>=0,s<=ix.size(t0)))]
        if withy: f.append(('candidate',If(y==y0,s==ix.size(t0),And(v.N(y),Pd(y),ix.idx(y)==q))))
        return dict(facts=f,unis=[('position',lambda w:[('decided',Imp(And(v.N(w),inside(w,t0),Not(inside(w,t))),Pd(w)==(ix.idx(w)>=q)))],'w','p')])
    return LoopSpec(which+'-rank-descent'+('' if nn else '-checked-first')+('-with-candidate' if withy else ''),[('top','ptr'),('s','int')]+([('y','ptr')] if withy else []),inv,writes=False)
def equal_rank_loop(nn=True):
    def inv(eng,st,roles,phase):
        ix=st.g['ix']; v=ix.v; pr=preds(ix,st)
        if not hasattr(ix,'base') or 'lower' not in pr: raise RoleMismatch()
        lo=pr['lower']; up=pr['upper']; t=ix.nd(roles['top']); s=eng.num(roles['s'])
        if phase=='assume': pool_all(eng,st,[t,v.L(t),v.R(t)],('p','w'))
        inside=lambda u,c: And(c!=0,v.lo(c)<=v.lo(u),v.hi(u)<=v.hi(c))
        return dict(facts=[('top',Or(And(t==0,not nn),And(v.N(t),s==ix.base(t)+ix.size(t)))),('bounded',And(s>=0,s<=ix.total))],
           unis=[('position',lambda w:[('separated',Imp(And(v.N(w),Not(inside(w,t))),If(ix.idx(w)>=s,up(w),Not(lo(w)))))],'w','p')])
    return LoopSpec('equal-range-rank-descent',[('top','ptr'),('s','int')],inv,writes=False)
def nth_loop():
    def inv(eng,st,roles,phase):
        ix=st.g['ix']; v=ix.v; t=eng.ptr(roles['top']).addr(); n=eng.num(roles['n'])
        if 'n' not in st.g: raise RoleMismatch()
        if phase=='assume': pool_all(eng,st,[t,v.L(t),v.R(t)],('p','w'))
        return dict(facts=[('target-in-subtree',And(v.N(t),n>=0,n<ix.size(t),ix.base(t)+n==st.g['n']))],unis=[])
    return LoopSpec('nth-descent',[('top','ptr'),('n','int')],inv,writes=False)
def rankof_loop():
    def inv(eng,st,roles,phase):
        ix=st.g['ix']; v=ix.v; x=eng.ptr(roles['x']).addr(); s=eng.num(roles['s'])
        if 'nx' not in st.g: raise RoleMismatch()
        if phase=='assume': pool_all(eng,st,[x,v.P(x),v.L(v.P(x)),v.R(v.P(x))],('p','w'))
        return dict(facts=[('position',And(v.N(x),s>=0,ix.base(x)+s==ix.idx(st.g['nx'])))],unis=[])
    return LoopSpec('rank-ascent',[('x','ptr'),('s','int')],inv,writes=False)
def distance_loop():
    """std::distance(first,last) over the elements of a range"""
    def inv(eng,st,roles,phase):
        ix=st.g['ix']; v=ix.v; H=ix.H; pr=preds(ix,st); f=ix.nd(roles['first']); n=eng.num(roles['n'])
        if not hasattr(ix,'base') or 'upper' not in pr: raise RoleMismatch()
        if phase=='entry': st.g=dict(st.g); st.g['a0']=f
        if phase=='assume': pool_all(eng,st,[f],('p','w'))
        return dict(facts=[('counted',And(Or(f==H,v.N(f)),n>=0,n==ix.idx(f)-ix.idx(st.g['a0'])))],
           unis=[('not-past-the-end',lambda w:[('upper',Imp(And(v.N(w),pr['upper'](w)),ix.idx(f)<=ix.idx(w)))],'w','p')])
    return LoopSpec('distance',[('first','ptr'),('n','int')],inv,writes=None)
# ---- cases
def is_rank(ix,r,Pd):
    """r is the number of nodes before the first one satisfying the monotone predicate"""
    v=ix.v
    return dict(facts=[('at-most-size',And(r>=0,r<=ix.total))],unis=[('exact',lambda w:[('position',Imp(v.N(w),Pd(w)==(ix.idx(w)>=r)))],'w')])
def is_bound(ix,r,Pd):
    """r is the first node satisfying the monotone predicate, or the header"""
    v=ix.v; H=ix.H
    return dict(facts=[('in-index',Or(r==H,And(v.N(r),Pd(r))))],unis=[('first',lambda w:[('none-before',Imp(And(v.N(w),Pd(w)),And(r!=H,v.ord(r)<=v.ord(w))))],'w')])
def both(g1,n1,g2,n2):
    return dict(facts=[(n1+'/'+n,f) for n,f in g1['facts']]+[(n2+'/'+n,f) for n,f in g2['facts']],
                unis=[(n1+'/'+u[0],u[1],u[2]) for u in g1['unis']]+[(n2+'/'+u[0],u[1],u[2]) for u in g2['unis']])
def outcells(eng,F,st,idx):
    os=[]
    for i in idx:
        o=Obj('out%d'%i); st.env[F.args[i]]=Ptr(o,0); os.append(o)
    return os
def case(name,unique):
    bare=name[:-2] if name.endswith('_k') else name
    ranky=bare in RANKED or bare=='count'
    loops=[]; outs=[]
    def setup(eng,F):
        st=St(); st.heap=Heap('h0'); eng.contracts=contracts(eng)
        ix=Ix(eng,F,st,unique); v=ix.v
        na=F.args
        if ranky: ix.ranks(eng,st,bare!='count' or 'p_size' in eng.mod.funcs)
        if name in('link_point','hinted_link_point','lower_link_point') or name.endswith('_k'):
            k=z3.Int('k'); eng.range_fact(k,0,2**32-1); st.env[na[1]]=k; st.g['k']=k
        elif name.startswith('range'): st.g['range']=True; eng.solver.add(z3.BoolVal(True))
        elif name in('begin','end'): pass
        elif name=='nth': n=z3.Int('n'); eng.range_fact(n,0,2**64-1); st.env[na[1]]=n; st.g['n']=n
        elif name=='rank':
            x=z3.Int('nx'); st.env[na[1]]=Ptr(x,-ix.off); eng.solver.add(Or(v.N(x),x==ix.H)); st.g['nx']=x; pool_all(eng,st,[x,v.L(x),v.R(x)],('p','w'))
        elif name!='in_place':
            x=z3.Int('x'); st.env[na[1]]=Ptr(x,0); st.g['x']=x; eng.solver.add(LX(x)<=UX(x))
        st.g['outs']=[]
        if bare in('equal_range',): st.g['outs']=outcells(eng,F,st,(2,3))
        if bare=='equal_range_rank': st.g['outs']=outcells(eng,F,st,(2,3))
        if bare.startswith('range'): st.g['outs']=outcells(eng,F,st,(1,2))
        if name in('link_point','lower_link_point'): st.g['outs']=outcells(eng,F,st,(2,3))
        if name=='hinted_link_point':
            st.g['outs']=outcells(eng,F,st,(3,4)); h=z3.Int('hint'); st.env[na[2]]=Ptr(h,-ix.off); eng.solver.add(Or(v.N(h),h==ix.H)); st.g['hint']=h
            pool_all(eng,st,[h,v.L(h),v.L(ix.H),v.R(ix.H),v.R(v.R(ix.H)),v.L(v.L(ix.H))],('p','w'))
        if name=='in_place':
            a=z3.Int('v'); st.env[na[1]]=Ptr(a,0); x=z3.Int('nx'); st.env[na[2]]=Ptr(x,-ix.off); eng.solver.add(v.N(x)); st.g['kv']=RANK(KF(a)); st.g['nx']=x
            pool_all(eng,st,[x],('p','w'))
        return st
    def post(eng,st,val):
        ix=st.g['ix']; v=ix.v; H=ix.H
        pr=preds(ix,st)
        fr=('frame',z3.BoolVal(not st.touched))
        out=lambda i: st.local.get((st.g['outs'][i],0))
        if bare in('lower_bound','upper_bound'):
            r=ix.nd(val); pool_all(eng,st,[r],('p','w')); g=is_bound(ix,r,pr[bare[:5]])
        elif bare in('find','contains'):
            lo,up=pr['lower'],pr['upper']; eqv=lambda w: And(lo(w),Not(up(w)))
            if bare=='find':
                r=ix.nd(val); pool_all(eng,st,[r],('p','w'))
                g=dict(facts=[('equivalent',Or(r==H,And(v.N(r),eqv(r))))],unis=[('found-if-present',lambda w:[('first-equivalent',Imp(And(v.N(w),eqv(w)),And(r!=H,v.ord(r)<=v.ord(w))))],'w')])
            else:
                b=eng.boolv(val)
                # existence has no ground witness term here: the result is the comparison of a node and the header
                g=dict(facts=[],unis=[('present',lambda w:[('true-if-present',Imp(And(v.N(w),eqv(w)),b))],'w')])
        elif bare=='equal_range':
            a,b=ix.nd(out(0)),ix.nd(out(1)); pool_all(eng,st,[a,b],('p','w'))
            lo,up=pr['lower'],pr['upper']
            g=both(is_bound(ix,a,lo),'first',is_bound(ix,b,up),'second')
        elif bare=='range':
            a,b=ix.nd(out(0)),ix.nd(out(1)); pool_all(eng,st,[a,b],('p','w')); lo,up=pr['lower'],pr['upper']
            # the range is exactly the nodes satisfying lower and upper; empty if the predicates exclude each other
            g=dict(facts=[('in-index',And(Or(a==H,v.N(a)),Or(b==H,v.N(b)))),('ordered',Or(b==H,And(a!=H,v.ord(a)<=v.ord(b))))],
              unis=[('exact',lambda w:[('members',Imp(v.N(w),And(lo(w),Not(up(w)))==And(a!=H,v.ord(w)>=v.ord(a),Or(b==H,v.ord(w)<v.ord(b)))))],'w')])
        elif bare=='count':
            c=eng.num(val); lo,up=pr['lower'],pr['upper']
            if 'er' in st.g: a=st.g['er'][0]
            else: a=ix.idx(st.g['a0'])
            g=dict(facts=[('nonneg',And(c>=0,a>=0,a+c<=ix.total))],unis=[('exact',lambda w:[('equivalents-are-c-consecutive-positions',Imp(v.N(w),And(lo(w),Not(up(w)))==And(ix.idx(w)>=a,ix.idx(w)<a+c)))],'w')])
        elif bare in('lower_bound_rank','upper_bound_rank'): g=is_rank(ix,eng.num(val),pr[bare[:5]])
        elif bare=='find_rank':
            r=eng.num(val); lo,up=pr['lower'],pr['upper']; eqv=lambda w: And(lo(w),Not(up(w)))
            g=dict(facts=[('at-most-size',And(r>=0,r<=ix.total))],unis=[('found',lambda w:[('rank-of-first-equivalent',Imp(And(v.N(w),eqv(w)),And(r<ix.total,ix.idx(w)>=r))),
                 ('names-an-equivalent',Imp(And(v.N(w),ix.idx(w)==r),eqv(w)))],'w')])
        elif bare=='equal_range_rank':
            a,b=[eng.num(out(i)) for i in(0,1)]; g=both(is_rank(ix,a,pr['lower']),'first',is_rank(ix,b,pr['upper']),'second')
        elif bare=='range_rank':
            a,b=[eng.num(out(i)) for i in(0,1)]; lo,up=pr['lower'],pr['upper']
            g=dict(facts=[('ordered',And(a>=0,a<=b,b<=ix.total))],unis=[('exact',lambda w:[('members',Imp(v.N(w),And(lo(w),Not(up(w)))==And(ix.idx(w)>=a,ix.idx(w)<b)))],'w')])
        elif bare.startswith('range_rank_'):
            a,b=[eng.num(out(i)) for i in(0,1)]; T=z3.BoolVal(True)
            g=both(is_rank(ix,a,pr['lower'] if bare=='range_rank_uu' else lambda w:T),'first',is_rank(ix,b,pr['upper'] if bare=='range_rank_lu' else lambda w:Not(T)),'second')
        elif name=='nth':
            r=ix.nd(val); n=st.g['n']; pool_all(eng,st,[r],('p','w'))
            g=dict(facts=[('exact',If(n<ix.total,And(v.N(r),ix.idx(r)==n),r==H))],unis=[])
        elif name=='rank': g=dict(facts=[('exact',eng.num(val)==If(st.g['nx']==H,ix.total,ix.idx(st.g['nx'])))],unis=[])
        elif bare.startswith('range_'):
            a,b=ix.nd(out(0)),ix.nd(out(1)); pool_all(eng,st,[a,b],('p','w')); lo,up=pr['lower'],pr['upper']
            lo2=lo if bare=='range_uu' else (lambda w: z3.BoolVal(True)); up2=up if bare=='range_lu' else (lambda w: z3.BoolVal(False))
            g=both(is_bound(ix,a,lo2),'first',is_bound(ix,b,up2),'second')
        elif bare=='begin': r=ix.nd(val); pool_all(eng,st,[r],('p','w')); g=is_bound(ix,r,lambda w:z3.BoolVal(True))
        elif bare=='end': g=dict(facts=[('end',ix.nd(val)==H)],unis=[])
        elif name in('link_point','lower_link_point','hinted_link_point'):
            pos=eng.ptr(out(0)).addr(); side=eng.num(out(1),32); res=eng.boolv(val); k=st.g['k']; pool_all(eng,st,[pos],('p','w'))
            left=side==0
            after=lambda w: If(pos==H,z3.BoolVal(False),If(left,v.ord(w)>=v.ord(pos),v.ord(w)>v.ord(pos)))
            slot=And(Or(side==0,side==1),Or(And(left,v.N(pos),v.L(pos)==0),And(left,pos==H,v.P(H)==0),And(Not(left),v.N(pos),v.R(pos)==0)))
            hinted=name[0]=='h'
            if unique:
                g=dict(facts=[('slot-or-blocker',If(res,slot,And(v.N(pos),ix.key(pos)==RANK(k))))],
                       unis=[('order',lambda w:[('sorted-after-insertion',Imp(And(v.N(w),res),If(after(w),RANK(k)<ix.key(w),ix.key(w)<RANK(k))))],'w')])
            else:
                g=dict(facts=[('accepted',res),('slot',slot)],unis=[('order',lambda w:[('sorted-after-insertion',Imp(v.N(w),If(after(w),RANK(k)<=ix.key(w),ix.key(w)<=RANK(k))))],'w')])
                if not hinted: g['unis'].append(('end-of-equivalents',lambda w:[(('goes-last' if name=='link_point' else 'goes-first'),Imp(v.N(w),after(w)==(RANK(k)<ix.key(w) if name=='link_point' else RANK(k)<=ix.key(w))))],'w'))
            if hinted:
                h=st.g['hint']
                before_ok=lambda w: (ix.key(w)<RANK(k) if unique else ix.key(w)<=RANK(k)); after_ok=lambda w: (RANK(k)<ix.key(w) if unique else RANK(k)<=ix.key(w))
                isbefore=lambda w: Or(h==H,v.ord(w)<v.ord(h))
                # a hint with all smaller elements before it and all larger ones from it on is taken exactly
                st.g['hintok']=z3.Bool('hint_ok')
                eng.add_uni(st,lambda w:[('hint-correct',Imp(And(st.g['hintok'],v.N(w)),If(isbefore(w),before_ok(w),after_ok(w))))],'p','hintok')
                g['unis'].append(('hint-honoured',lambda w:[('exactly-before-hint',Imp(And(st.g['hintok'],v.N(w),res),after(w)==Not(isbefore(w))))],'w'))
        elif name=='in_place':
            res=eng.boolv(val); x=st.g['nx']; kv=st.g['kv']
            ok=lambda w: Imp(And(v.N(w),w!=x),If(v.ord(w)<v.ord(x),(ix.key(w)<kv) if unique else ix.key(w)<=kv,(kv<ix.key(w)) if unique else kv<=ix.key(w)))
            st.g['fits']=z3.Bool('fits')
            eng.add_uni(st,lambda w:[('fits',Imp(st.g['fits'],ok(w)))],'p','fits')
            g=dict(facts=[('true-if-order-holds',Imp(st.g['fits'],res))],unis=[('sound',lambda w:[('order-holds-if-true',Imp(res,ok(w)))],'w')])
        g['facts'].append(fr)
        return g
    if name in('link_point','hinted_link_point','lower_link_point'): L=[point_loop('upper'),point_loop('lower')]
    elif name=='nth': L=[nth_loop()]
    elif name=='rank': L=[rankof_loop()]
    elif bare in RANKED: L=[rank_loop(w,y,nn) for nn in(True,False) for y in(False,True) for w in('lower','upper')]+([equal_rank_loop(),equal_rank_loop(False)] if bare in('equal_range_rank','range_rank') else [])
    else: L=[bound_loop('lower'),bound_loop('upper')]+([equal_loop()] if bare in('equal_range','range','count') else [])+([distance_loop()] if bare=='count' else [])
    return setup,L,post
CASES=['find','find_k','lower_bound','lower_bound_k','upper_bound','upper_bound_k','equal_range','equal_range_k','contains','range','range_lu','range_uu','range_bu','begin','end','link_point','hinted_link_point','in_place','lower_link_point']
RANKED=['nth','rank','find_rank','lower_bound_rank','upper_bound_rank','equal_range_rank','range_rank','range_rank_lu','range_rank_uu','range_rank_bu']
RKCASES=['nth','rank','find_rank','find_rank_k','lower_bound_rank','lower_bound_rank_k','upper_bound_rank','upper_bound_rank_k','equal_range_rank','equal_range_rank_k','range_rank','range_rank_lu','range_rank_uu','range_rank_bu']
ENGKW=dict(tagged={0})
def lemma_positions(eng):
    """induction step of the counting lemma: if positions of each child's subtree are exactly base..base+size-1, increasing
    with the order, so are those of the subtree of the node"""
    F=eng.mod.func('f_begin'); eng.solver.push(); eng.fn='lemma'; eng.skhook=hook
    try:
        st=St(); st.heap=Heap('h0'); eng.contracts=contracts(eng); ix=Ix(eng,F,st,False); v=ix.v
        ix.ranks(eng,st,True); st.unis=[u for u in st.unis if u.name not in('POSITIONS','SUBTREE','SORTED')]
        a,u,w=z3.Ints('a u w'); S=eng.solver
        ins=lambda x,c: And(v.N(x),v.lo(c)<=v.lo(x),v.hi(x)<=v.hi(c))
        def sub(c): return And(Imp(ins(u,c),And(ix.base(c)<=ix.idx(u),ix.idx(u)<ix.base(c)+ix.size(c))),Imp(ins(w,c),And(ix.base(c)<=ix.idx(w),ix.idx(w)<ix.base(c)+ix.size(c))),
            Imp(And(ins(u,c),ins(w,c),v.ord(u)<v.ord(w)),ix.idx(u)<ix.idx(w)))
        S.add(v.N(a)); l=v.L(a); r=v.R(a); pool_all(eng,st,[a,u,w,l,r],('p','w'))
        S.add(Imp(l!=0,sub(l)),Imp(r!=0,sub(r)))
        if not eng.feasible(l!=0,r!=0,ins(u,a),ins(w,a),v.ord(u)<v.ord(w)): raise ToolError('lemma is vacuous')
        eng.reach=1; eng.paths=1; eng.prove_all(st,'lemma',[('subtree-positions',sub(a))])
    finally: eng.solver.pop()
def run(eng,name,unique=None):
    if name=='lemma_positions': return lemma_positions(eng)
    if unique is None:
        try: eng.mod.func('f_lower_link_point'); unique=False
        except Exception: unique=True
    if unique and name=='lower_link_point': return
    eng.perentry=True; eng.pure={'kf','cmp','cmp_kx','cmp_xk','lowerp','upperp'}
    setup,loops,post=case(name,unique)
    run_case(eng,name,'f_'+name,setup,loops,post,skhook=hook)
