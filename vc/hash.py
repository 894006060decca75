"""Contracts for the node algorithms of hashed indices (hash_index_node.hpp).
Ghost state: a circular doubly linked list nx/pv of the nodes N and the header H, divided into buckets (bkt) and, inside a
bucket, into groups of equivalent elements (gf: first, gl: last).  The representation invariant says how next() and prior()
encode it; every contract gives the ghost list, buckets and groups after the call explicitly."""
import z3
from .sym import *
from .rb import sel,Not,And,Or,Imp,If,T,run_case,start,pool_all
class HS:
    def __init__(s,eng,heap,H,E,N,B,nx,pv,bkt,gf,gl,unique,ord=None,bl=None):
        s.ord=ord; s.bl=bl; s.e=eng; s.h=heap; s.H=H; s.E=E; s.N=N; s.B=B; s.nx=nx; s.pv=pv; s.bkt=bkt; s.gf=gf; s.gl=gl; s.c={}; s.unique=unique
    def memo(s,k,t,f):
        key=(k,t.get_id()); x=s.c.get(key)
        if x is None: x=s.c[key]=(f(),t)
        return x[0]
    def next(s,t): return s.memo('n',t,lambda:s.e.ptr(s.e.probe('p_next',[Ptr(t)],s.h)).addr())
    def prior(s,t): return s.memo('p',t,lambda:s.e.ptr(s.e.probe('p_prior',[Ptr(t)],s.h)).addr())
    def M(s,a): return Or(a==s.H,s.N(a))
    def firstb(s,a): return Or(a==s.H,s.bkt(s.pv(a))!=s.bkt(a))
    def lastb(s,a): return Or(a==s.H,s.bkt(s.nx(a))!=s.bkt(a))
    def big(s,a): return And(s.gf(a)!=s.gl(a),s.nx(s.gf(a))!=s.gl(a))
    def std(s,a): return If(s.lastb(a),s.bkt(s.nx(a)),s.nx(a))
    def LC(s,a):
        H=s.H; n=s.nx(a); p=s.pv(a); f=s.gf(a); l=s.gl(a)
        out=[('list',And(s.M(n),s.M(p),s.pv(n)==a,s.nx(p)==a,a!=0)),
          ('bucket',And(s.B(s.bkt(a)),(s.bkt(a)==s.E)==(a==H),s.prior(s.bkt(a))!=0,Not(s.B(a)))),
          ('next',s.next(a)==(s.std(a) if s.unique else If(And(a!=l,n==l,s.big(a)),f,s.std(a)))),
          ('prior',s.prior(a)==(p if s.unique else If(And(a!=f,p==f,s.big(a)),l,p))),
          ('bucket-first',Imp(s.firstb(a),s.prior(s.bkt(a))==a)),
          ('bucket-last',And(s.M(s.bl(s.bkt(a))),s.lastb(s.bl(s.bkt(a))),s.bkt(s.bl(s.bkt(a)))==s.bkt(a),Imp(s.lastb(a),s.bl(s.bkt(a))==a))),
          ('order',Imp(a!=H,And(Imp(n!=H,s.ord(a)<s.ord(n)),s.ord(s.prior(s.bkt(a)))<=s.ord(a),s.ord(a)<=s.ord(s.bl(s.bkt(a))))))]
        if not s.unique:
            out+=[('group',And(s.M(f),s.M(l),s.gf(f)==f,s.gl(f)==l,s.gf(l)==f,s.gl(l)==l,s.bkt(f)==s.bkt(a),s.bkt(l)==s.bkt(a),Imp(a==H,And(f==H,l==H)))),
              ('group-forward',If(a!=l,And(s.N(n),s.gf(n)==f,s.gl(n)==l,s.bkt(n)==s.bkt(a)),s.gf(n)==n)),
              ('group-backward',If(a!=f,And(s.N(p),s.gf(p)==f,s.gl(p)==l,s.bkt(p)==s.bkt(a)),s.gl(p)==p)),
              ('group-order',Imp(a!=H,And(s.ord(f)<=s.ord(a),s.ord(a)<=s.ord(l))))]
        return [(k,Imp(s.M(a),x)) for k,x in out]
    def BC(s,b):
        q=s.prior(b)
        return [('bucket-array',Imp(s.B(b),And(b!=0,Not(s.M(b)),Or(q==0,And(s.M(q),s.bkt(q)==b,s.firstb(q))))))]
    def PC(s,a,w):
        n=s.nx(a); return [('sequence',Imp(And(s.M(a),s.N(w)),Or(w==a,w==n,And(a!=s.H,s.ord(w)<s.ord(a)),And(n!=s.H,s.ord(w)>s.ord(n)))))]+([] if s.unique else [('group-contiguous',Imp(And(s.N(a),s.N(w),s.ord(s.gf(a))<=s.ord(w),s.ord(w)<=s.ord(s.gl(a))),s.gf(w)==s.gf(a)))])
    def HC(s): return [('header',And(s.H!=0,Not(s.N(s.H)),s.B(s.E)))]
    def near(s,t):
        out=[t,s.nx(t),s.pv(t),s.bkt(t),s.bl(s.bkt(t))]
        if not s.unique: out+=[s.gf(t),s.gl(t)]
        return out
def fresh(eng,heap,H,E,unique,tag=''):
    A=lambda n,r='int': sel(eng.fresharr(n+tag,r))
    gf,gl=(A('gf'),A('gl')) if not unique else ((lambda t:t),(lambda t:t))
    return HS(eng,heap.copy(),H,E,A('N','bool'),A('B','bool'),A('nx'),A('pv'),A('bkt'),gf,gl,unique,A('ord','real'),A('bl'))
def assume(eng,st,v):
    for n,f in v.HC(): eng.solver.add(f)
    eng.add_uni(st,lambda a: v.LC(a)+v.BC(a),'p','LC'); eng.add_uni(st,lambda a,w: v.PC(a,w),('q','q'),'PC')
def goals(v,names=''):
    return dict(facts=[(names+n,f) for n,f in v.HC()],unis=[(names+'rep',lambda a: v.LC(a),'p'),(names+'buckets',lambda a: v.BC(a),'p'),(names+'order',lambda a,w: v.PC(a,w),('q','q'))])
def around(eng,st,v,ts,d=2):
    seen=[]; cur=list(ts)
    for _ in range(d):
        nxt=[]
        for t in cur:
            for x in v.near(t):
                x=z3.simplify(x) if False else x
                if not any(x.eq(y) for y in seen): seen.append(x); nxt.append(x)
        cur=nxt
    pool_all(eng,st,seen)
    for t in ts:
        for q in (t,v.nx(t),v.pv(t)): eng.pool(st,q,'q')
def hook(eng,st,sk,pools):
    for v in st.g['views']:
        for k in sk: around(eng,st,v,[k],2); around(eng,st,v,[v.prior(k)],1); [eng.pool(st,q,'q') for q in (v.prior(v.bkt(k)),v.bl(v.bkt(k)))]
def setup_common(eng,F,names,unique,hdr='H'):
    st,cs=start(eng,F,names); d=dict(zip(names,cs))
    H=d[hdr] if hdr in d else z3.Int('H'); E=z3.Int('E')
    v=fresh(eng,st.heap,H,E,unique); st.g['v0']=v; st.g['views']=[v]
    assume(eng,st,v); pool_all(eng,st,[H,E]+[c for c in cs if c is not H]); around(eng,st,v,[H],2)
    return st,d,v
def upd(f,*kv):
    """map f updated at given keys (first match wins)"""
    def g(t):
        r=f(t)
        for k,x in reversed(kv): r=If(t==k,x,r)
        return r
    return g
def post_view(eng,st,v,N=None,nx=None,pv=None,bkt=None,gf=None,gl=None,ord=None,bl=None):
    return HS(eng,st.heap.copy(),v.H,v.E,N or v.N,v.B,nx or v.nx,pv or v.pv,bkt or v.bkt,gf or v.gf,gl or v.gl,v.unique,ord or v.ord,bl or v.bl)
def inserted(v,x,y,before):
    """ghost list with the segment x..y put before node `before`"""
    p=v.pv(before)
    d=dict(nx=upd(v.nx,(p,x),(y,before)),pv=upd(v.pv,(before,y),(x,p)))
    if x is y: d['ord']=upd(v.ord,(x,If(p==v.H,If(before==v.H,z3.RealVal(0),v.ord(before)-1),If(before==v.H,v.ord(p)+1,(v.ord(p)+v.ord(before))/2))))
    return d
def removed(v,x,y):
    p=v.pv(x); n=v.nx(y)
    return dict(nx=upd(v.nx,(p,n)),pv=upd(v.pv,(n,p)),bl=upd(v.bl,(v.bkt(x),If(And(v.lastb(y),Not(v.firstb(x))),p,v.bl(v.bkt(x))))))
def segment(eng,st,v,first,last):
    """a detached group first..last: nodes R, internal links as in the representation"""
    R=sel(eng.fresharr('R','bool'))
    def seg(a):
        n=v.nx(a); p=v.pv(a)
        big=And(first!=last,v.nx(first)!=last)
        return [('seg',Imp(R(a),And(a!=0,Not(v.M(a)),Not(v.B(a)),v.gf(a)==first,v.gl(a)==last,v.ord(first)<=v.ord(a),v.ord(a)<=v.ord(last),
           Imp(a!=last,And(R(n),n!=first,v.pv(n)==a,v.next(a)==If(And(n==last,big),first,n))),
           Imp(a!=first,And(R(p),p!=last,v.nx(p)==a,v.prior(a)==If(And(p==first,big),last,p))))))]
    def segpair(a,w): return [('segpair',Imp(And(R(a),R(w)),Or(w==a,And(a!=last,w==v.nx(a)),v.ord(w)<v.ord(a),And(a!=last,v.ord(w)>v.ord(v.nx(a))))))]
    eng.solver.add(R(first),R(last)); eng.add_uni(st,seg,'p','segment'); eng.add_uni(st,segpair,('q','q'),'segpair'); st.g['R']=R
    return R
def seg_between(eng,st,v,R,last,before):
    """the ghost order of the detached segment lies between the neighbours it is put between (it is ghost: any choice will do)"""
    p=v.pv(before)
    def f(a): return [('segord',Imp(R(a),And(Imp(p!=v.H,v.ord(p)<v.ord(a)),Imp(before!=v.H,v.ord(a)<v.ord(before)),Imp(a!=last,v.ord(a)<v.ord(v.nx(a))))))]
    eng.add_uni(st,f,'p','segord')
def case(name,unique):
    def simple(setup,post,loops=()): return setup,list(loops),post
    if name in('is_first_of_bucket','after','after_local','next_to_inspect','is_first_of_group'):
        def setup(eng,F):
            st,d,v=setup_common(eng,F,['x'],unique); x=d['x']; st.g['x']=x
            eng.solver.add(v.M(x) if name=='is_first_of_bucket' else Or(v.N(x),And(x==v.H,v.nx(x)!=x)) if name=='after' else v.N(x))
            # traversal that skips groups is only ever started at the first element of a group
            if name=='next_to_inspect': eng.solver.add(Or(v.gf(x)==x,Not(v.big(x))))
            around(eng,st,v,[x],3); return st
        def post(eng,st,val):
            v=st.g['v0']; x=st.g['x']; fr=('frame',z3.BoolVal(not st.touched))
            if name=='is_first_of_bucket': return dict(facts=[fr,('exact',eng.boolv(val)==v.firstb(x))])
            if name=='is_first_of_group': return dict(facts=[fr,('exact',eng.boolv(val)==And(v.gf(x)==x,v.big(x)))])
            r=eng.ptr(val).addr()
            if name=='after': return dict(facts=[fr,('exact',r==v.nx(x))])
            if name=='after_local': return dict(facts=[fr,('exact',r==If(v.lastb(x),0,v.nx(x)))])
            l=If(v.big(x),v.gl(x),x); return dict(facts=[fr,('exact',r==If(v.lastb(l),0,v.nx(l)))])
        return simple(setup,post)
    if name=='link':
        def setup(eng,F):
            st,d,v=setup_common(eng,F,['x','b','H'],unique); x=d['x']; b=d['b']; st.g.update(x=x,b=b)
            eng.solver.add(x!=0,x!=v.H,Not(v.N(x)),Not(v.B(x)),v.B(b),b!=v.E)
            around(eng,st,v,[v.prior(b)],2); return st
        def post(eng,st,val):
            v=st.g['v0']; x=st.g['x']; b=st.g['b']; f=v.prior(b); pos=If(f==0,v.H,f)
            return goals(post_view(eng,st,v,N=lambda t:Or(t==x,v.N(t)),bkt=upd(v.bkt,(x,b)),bl=upd(v.bl,(b,If(f==0,x,v.bl(b)))),gf=upd(v.gf,(x,x)) if not unique else None,gl=upd(v.gl,(x,x)) if not unique else None,**inserted(v,x,x,pos)))
        return simple(setup,post)
    if name in('unlink','unlink_undo'):
        def setup(eng,F):
            st,d,v=setup_common(eng,F,['x'],unique); x=d['x']; st.g['x']=x; eng.solver.add(v.N(x))
            st.g['h0']=st.heap.copy(); around(eng,st,v,[x],3); return st
        def post(eng,st,val):
            v=st.g['v0']; x=st.g['x']
            if name=='unlink_undo':
                u=post_view(eng,st,v)
                return dict(facts=[],unis=[('restored',lambda t:[('next',u.next(t)==v.next(t)),('prior',u.prior(t)==v.prior(t))],'p')])
            n=v.nx(x); p=v.pv(x)
            gf=(lambda t: If(v.gf(t)==x,n,v.gf(t))) if not unique else None
            gl=(lambda t: If(v.gl(t)==x,p,v.gl(t))) if not unique else None
            return goals(post_view(eng,st,v,N=lambda t:And(t!=x,v.N(t)),gf=gf,gl=gl,**removed(v,x,x)))
        def noinv(eng,st,roles,phase): raise RoleMismatch()
        return simple(setup,post)
    if name=='append':
        def setup(eng,F):
            st,d,v=setup_common(eng,F,['x','H'],unique); x=d['x']; st.g['x']=x
            eng.solver.add(x!=0,x!=v.H,Not(v.N(x)),Not(v.B(x)),v.pv(v.H)!=v.H); around(eng,st,v,[v.pv(v.H)],2); return st
        def post(eng,st,val):
            v=st.g['v0']; x=st.g['x']
            return goals(post_view(eng,st,v,N=lambda t:Or(t==x,v.N(t)),bkt=upd(v.bkt,(x,v.bkt(v.pv(v.H)))),bl=upd(v.bl,(v.bkt(v.pv(v.H)),x)),**inserted(v,x,x,v.H)))
        return simple(setup,post)
    if name=='unlink_last':
        def setup(eng,F):
            st,d,v=setup_common(eng,F,['H'],unique); eng.solver.add(v.pv(v.H)!=v.H); around(eng,st,v,[v.pv(v.H)],3); return st
        def post(eng,st,val):
            v=st.g['v0']; x=v.pv(v.H)
            g=goals(post_view(eng,st,v,N=lambda t:And(t!=x,v.N(t)),**removed(v,x,x))); g['facts'].append(('bucket-emptied',eng.boolv(val)==v.firstb(x))); return g
        return simple(setup,post)
    if name=='link_group':
        def setup(eng,F):
            st,d,v=setup_common(eng,F,['x','f','l'],unique); x=d['x']; f=d['f']; l=d['l']; st.g.update(x=x,f=f,l=l)
            eng.solver.add(x!=0,x!=v.H,Not(v.N(x)),Not(v.B(x)),v.N(f),v.gf(f)==f,v.gl(f)==l); around(eng,st,v,[f,l],3); return st
        def post(eng,st,val):
            v=st.g['v0']; x=st.g['x']; f=st.g['f']; l=st.g['l']
            return goals(post_view(eng,st,v,N=lambda t:Or(t==x,v.N(t)),bkt=upd(v.bkt,(x,v.bkt(f))),gf=lambda t:If(Or(t==x,And(v.N(t),v.gf(t)==f)),x,v.gf(t)),gl=upd(v.gl,(x,l)),**inserted(v,x,x,f)))
        return simple(setup,post)
    if name in('link_range','append_range'):
        def setup(eng,F):
            st,d,v=setup_common(eng,F,['f','l','b','H'] if name=='link_range' else ['f','l','H'],unique); f=d['f']; l=d['l']
            segment(eng,st,v,f,l)
            if name=='link_range': b=d['b']; eng.solver.add(v.B(b),b!=v.E)
            else: eng.solver.add(v.pv(v.H)!=v.H); b=v.bkt(v.pv(v.H))
            q=v.prior(b); pos=If(q==0,v.H,q) if name=='link_range' else v.H; seg_between(eng,st,v,st.g['R'],l,pos)
            st.g.update(f=f,l=l,b=b); around(eng,st,v,[pos],2); around(eng,st,v,[f,l],3); return st
        def post(eng,st,val):
            v=st.g['v0']; f=st.g['f']; l=st.g['l']; b=st.g['b']; R=st.g['R']; q=v.prior(b)
            pos=If(q==0,v.H,q) if name=='link_range' else v.H
            return goals(post_view(eng,st,v,N=lambda t:Or(R(t),v.N(t)),bkt=lambda t:If(R(t),b,v.bkt(t)),bl=upd(v.bl,(b,If(Or(q==0,pos==v.H) if name!='link_range' else q==0,l,v.bl(b)))),**inserted(v,f,l,pos)))
        return simple(setup,post)
    if name in('unlink_last_group','unlink_range'):
        # what is unlinked together: a group of three or more, or one node of a smaller group (those carry no group links)
        def setup(eng,F):
            st,d,v=setup_common(eng,F,['H','e'] if name=='unlink_last_group' else ['f','l'],unique)
            if name=='unlink_last_group':
                eo=Obj('emptied'); st.env[F.args[1]]=Ptr(eo,0); st.g['eo']=eo
                l=v.pv(v.H); f=If(v.big(l),v.gf(l),l); eng.solver.add(l!=v.H)
            else: f=d['f']; l=d['l']; eng.solver.add(v.N(f),If(v.big(f),And(v.gf(f)==f,v.gl(f)==l),f==l))
            st.g.update(f=f,l=l); around(eng,st,v,[l,f],3); return st
        def post(eng,st,val):
            v=st.g['v0']; f=st.g['f']; l=st.g['l']; b=v.big(l); R=lambda t:And(v.N(t),If(b,v.gf(t)==f,t==f)); rest=lambda t: And(Not(b),v.gf(t)==v.gf(f))
            u=post_view(eng,st,v,N=lambda t:And(v.N(t),Not(R(t))),gf=lambda t:If(rest(t),t,v.gf(t)),gl=lambda t:If(rest(t),t,v.gl(t)),**removed(v,f,l))
            g=goals(u)
            # the group comes out intact
            g['unis'].append(('group-intact',lambda a:[('links',Imp(R(a),And(Imp(a!=l,u.next(a)==v.next(a)),Imp(a!=f,u.prior(a)==v.prior(a)))))],'p'))
            if name=='unlink_last_group':
                g['facts']+=[('returns-first-of-group',eng.ptr(val).addr()==f),('bucket-emptied',eng.boolv(st.local.get((st.g['eo'],0)))==v.firstb(f))]
            return g
        return simple(setup,post)
UC=['is_first_of_bucket','after','after_local','next_to_inspect','link','unlink','unlink_undo','append','unlink_last']
NC=['is_first_of_bucket','is_first_of_group','after','after_local','next_to_inspect','link','link_group','unlink','unlink_undo','link_range','append_range','unlink_last_group','unlink_range']
ENGKW={}
def run(eng,name,unique):
    eng.skhook=hook; eng.unroll=16 if name=='unlink_undo' else 0
    setup,loops,post=case(name,unique)
    run_case(eng,name,'f_'+name,setup,loops,post,skhook=hook)
