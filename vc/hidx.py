"""Contracts for hashed index lookups, placement and bucket functions (hashed_index.hpp).
Equality is an equivalence given by a class function, equal keys have equal hashes; a compatible key denotes one class.
The list of nodes, its buckets and groups are those the node algorithms (hash.py) establish; node algorithms and
bucket_array functions are called through their contracts."""
import z3
from .sym import *
from . import hash as hsh
from .hash import HS,fresh,assume,around
from .rb import sel,pool_all,Not,And,Or,Imp,If,run_case
from .ordix import fieldoff,outcells
I_=z3.IntSort(); Rl=z3.RealSort()
KF=z3.Function('kf',I_,I_); CLS=z3.Function('cls',I_,I_); HASH=z3.Function('hash_of_class',I_,I_); CX=z3.Function('cx',I_,I_)
BA=z3.Function('bucket_at',I_,I_); POS=z3.Function('position',I_,I_); SIZE=z3.Int('bucket_count')
KEEP=(r'#hashed_index_node_alg\|\|(after|after_local|next_to_inspect|is_first_of_group)',r'#bucket_array\|\|(size|position|at|begin|end)')
class Ix:
    def __init__(s,eng,F,st,unique,own=True):
        s.eng=eng; s.unique=unique; s.obj=Obj('index')
        if own: st.env[F.args[0]]=Ptr(s.obj,0)
        H=z3.Int('H'); E=z3.Int('E'); s.H=H; s.v=v=fresh(eng,st.heap,H,E,unique)
        p=eng.probe('p_impl',[Ptr(z3.Int('nd'),0)],st.heap); s.off=p.o
        hk=fieldoff(eng,'p_header',s.obj); st.local[hk]=Ptr(H,-s.off)
        st.g['v0']=v; st.g['views']=[v]; st.g['ix']=s
        assume(eng,st,v)
        eng.solver.add(SIZE>0,E==BA(SIZE))
        # every element is in the bucket its hash selects; groups are the classes of equivalent elements
        eng.add_uni(st,lambda a:[Imp(v.N(a),And(v.bkt(a)==BA(POS(HASH(s.cls(a)))),a>s.off)),a>=0 if False else Imp(a==H,a>s.off)],'p','placed')
        if unique: eng.add_uni(st,lambda a,w:[Imp(And(v.N(a),v.N(w),s.cls(a)==s.cls(w)),a==w)],('q','q'),'unique')
        else: eng.add_uni(st,lambda a,w:[Imp(And(v.N(a),v.N(w)),(s.cls(a)==s.cls(w))==(v.gf(a)==v.gf(w)))],('q','q'),'grouped')
        # positions in the traversal
        s.idx=z3.Function('idx',I_,I_); s.total=z3.Int('node_count')
        eng.add_uni(st,lambda a:[Imp(v.N(a),And(s.idx(a)>=0,s.idx(a)<s.total,s.idx(v.nx(a))==s.idx(a)+1))],'p','idx')
        eng.add_uni(st,lambda a,w:[Imp(And(v.N(a),v.N(w)),(s.idx(a)<s.idx(w))==(v.ord(a)<v.ord(w)))],('q','q'),'idxord')
        eng.solver.add(s.total>=0,s.total<2**63,s.idx(H)==s.total)
        pool_all(eng,st,[H,E]); around(eng,st,v,[H],1)
    def val(s,t): return s.eng.ptr(s.eng.probe('p_value',[Ptr(t,-s.off)],s.v.h)).addr()
    def cls(s,t): return CLS(KF(s.val(t)))
    def nd(s,x):
        p=s.eng.ptr(x); b=p.b; s.eng.solver.add(p.addr()>=0)
        if not isinstance(b,Obj) and p.o==-s.off: return If(b==s.off,z3.IntVal(0),b)
        if not isinstance(b,Obj) and z3.is_int_value(b) and b.as_long()==0 and p.o==0: return z3.IntVal(0)
        a=p.addr(); return If(a==0,z3.IntVal(0),z3.simplify(a+s.off))
def near(eng,st,v,t,d=1):
    around(eng,st,v,[t],d)
def contracts(eng):
    c={}
    def user(f,w):
        def h(eng,st,I,args):
            a=[eng.ptr(x).addr() if isinstance(x,Ptr) else eng.num(x) for x in args]
            def eff(s):
                r=f(*a)
                if w and w>1: eng.range_fact(r,0,2**w-1)
                return r
            return [(None,eff,'ret'),(None,None,'throw')]
        return h
    c['kf']=user(lambda v:KF(v),32); c['hk']=user(lambda k:HASH(CLS(k)),64); c['ek']=user(lambda a,b:CLS(a)==CLS(b),1)
    c['hx']=user(lambda x:HASH(CX(x)),64); c['ex']=user(lambda x,k:CX(x)==CLS(k),1)
    def alg(fn,pre,res):
        def h(eng,st,I,args):
            v=st.g['v0']; x=eng.ptr(args[0]).addr(); near(eng,st,v,x,2)
            eng.prove_all(st,eng.fn,[('call-%s/precondition'%fn,pre(v,x))])
            def eff(s):
                r=res(v,x)
                if fn=='is_first_of_group': return r
                q=eng.fresh('nx'); eng.solver.add(q==r,q>=0); near(eng,s,v,q,1)
                # the null result in an alternative of its own keeps pointers canonical
                return Ptr(q,0)
            return [(None,eff,'ret')]
        return h
    def nti(v,x): l=If(v.big(x),v.gl(x),x); return If(v.lastb(l),0,v.nx(l))
    SP={'after':(lambda v,x:v.N(x),lambda v,x:v.nx(x)),'after_local':(lambda v,x:v.N(x),lambda v,x:If(v.lastb(x),0,v.nx(x))),
        'next_to_inspect':(lambda v,x:And(v.N(x),True if v.unique else Or(v.gf(x)==x,Not(v.big(x)))),lambda v,x: If(v.lastb(x),0,v.nx(x)) if v.unique else nti(v,x)),
        'is_first_of_group':(lambda v,x:v.N(x),lambda v,x:And(v.gf(x)==x,v.big(x)))}
    def bpos(eng,st,I,args):
        h=eng.num(args[1])
        def eff(s):
            r=POS(h); eng.range_fact(r,0,2**64-1); eng.solver.add(r>=0,r<SIZE); return r
        return [(None,eff,'ret')]
    def bat(eng,st,I,args):
        n=eng.num(args[1]); v=st.g['v0']; eng.prove_all(st,eng.fn,[('call-at/in-range',And(n>=0,n<=SIZE))])
        def eff(s):
            r=BA(n); eng.solver.add(v.B(r),r>0,(r==v.E)==(n==SIZE)); eng.pool(s,r,'p'); near(eng,s,v,v.prior(r),1); return Ptr(r,0)
        return [(None,eff,'ret')]
    def bsize(eng,st,I,args):
        def eff(s): eng.range_fact(SIZE,0,2**64-1); return SIZE
        return [(None,eff,'ret')]
    for n,d in eng.mod.kept.items():
        from .build import classify
        cl,_,fn=classify(d)
        if cl=='hashed_index_node_alg': c[n]=alg(fn,*SP[fn])
        if cl=='bucket_array': c[n]={'position':bpos,'at':bat,'size':bsize}.get(fn)
        if c.get(n) is None: c.pop(n,None)
    return c
def hook(eng,st,sk,pools):
    v=st.g['v0']
    for k in sk:
        around(eng,st,v,[k],1); pool_all(eng,st,[v.prior(k)]); pool_all(eng,st,[k],('q',))
        if not v.unique: pool_all(eng,st,[v.gf(k),v.gl(k)],('q',))
        pool_all(eng,st,[v.prior(v.bkt(k)),v.bl(v.bkt(k))],('p','q'))
# ---- loops
def search_loop(withp=False):
    """walk along a bucket, one stop per group: nothing equivalent before x"""
    def inv(eng,st,roles,phase):
        ix=st.g['ix']; v=ix.v
        if 'cls' not in st.g: raise RoleMismatch()
        c=st.g['cls']; b=BA(POS(HASH(c))); x=eng.ptr(roles['x']).addr()
        if phase!='entry': pass
        near(eng,st,v,x,2 if phase=='assume' else 1)
        return dict(facts=[('x',Or(x==0,And(v.N(x),v.bkt(x)==b,True if v.unique else Or(v.gf(x)==x,Not(v.big(x))))))],
            unis=[('nothing-missed',lambda w:[('skipped',Imp(And(v.N(w),v.bkt(w)==b,Or(x==0,v.ord(w)<v.ord(x))),ix.cls(w)!=c))],'q','q')])
    return LoopSpec('bucket-search',[('x','ptr')],inv,writes=False)
def count_loop():
    def inv(eng,st,roles,phase):
        ix=st.g['ix']; v=ix.v; x=eng.ptr(roles['x']).addr(); n=eng.num(roles['n'])
        if phase=='entry': st.g=dict(st.g); st.g['x0']=x
        x0=st.g['x0']; near(eng,st,v,x,2 if phase=='assume' else 1)
        return dict(facts=[('counted',And(v.N(x),v.gf(x)==x0,v.gf(x0)==x0,n==ix.idx(x)-ix.idx(x0),v.N(x0)))],unis=[])
    return LoopSpec('count',[('x','ptr'),('n','int')],inv,writes=False)
def bucket_size_loop():
    def inv(eng,st,roles,phase):
        ix=st.g['ix']; v=ix.v; x=eng.ptr(roles['x']).addr(); n=eng.num(roles['n']); b=BA(st.g['n']); q=v.prior(b)
        near(eng,st,v,x,2 if phase=='assume' else 1)
        return dict(facts=[('counted',If(x==0,n==If(q==0,0,ix.idx(v.bl(b))-ix.idx(q)+1),And(v.N(x),v.bkt(x)==b,q!=0,n==ix.idx(x)-ix.idx(q))))],unis=[])
    return LoopSpec('bucket-size',[('x','ptr'),('n','int')],inv,writes=False)
def place_loop():
    """in_place, unique: found <-> x has been passed; no other equivalent element before y"""
    def inv(eng,st,roles,phase):
        ix=st.g['ix']; v=ix.v; y=eng.ptr(roles['y']).addr(); fd=eng.boolv(roles['found']); x=st.g['x']; b=BA(st.g['buc']); k=CLS(st.g['k'])
        near(eng,st,v,y,2 if phase=='assume' else 1)
        isbit=z3.BoolVal(True) if isinstance(roles['found'],z3.BoolRef) else And(eng.num(roles['found'],8)>=0,eng.num(roles['found'],8)<=1)
        return dict(facts=[('y',And(isbit,Or(y==0,And(v.N(y),v.bkt(y)==b)))),('found',fd==And(v.bkt(x)==b,Or(y==0,v.ord(x)<v.ord(y))))],
            unis=[('no-other',lambda w:[('passed',Imp(And(v.N(w),w!=x,v.bkt(w)==b,Or(y==0,v.ord(w)<v.ord(y))),ix.cls(w)!=k))],'q','q')])
    return LoopSpec('in-place',[('y','ptr'),('found','bool')],inv,writes=False)
def case(name,unique):
    bare=name[:-2] if name.endswith('_k') else name; outs=[]
    def setup(eng,F):
        st=St(); st.heap=Heap('h0'); eng.contracts=contracts(eng); na=F.args
        ix=Ix(eng,F,st,unique,own='increment' not in name); v=ix.v
        st.g['onthrow']=lambda s:[('nothing-touched',z3.BoolVal(not s.touched))]
        if name=='in_place':
            k,x,buc=z3.Ints('k x buc'); eng.range_fact(k,0,2**32-1); eng.range_fact(buc,0,2**64-1)
            st.env[na[1]]=k; st.env[na[2]]=Ptr(x,0); st.env[na[3]]=buc; st.g.update(k=k,x=x,buc=buc)
            eng.solver.add(v.N(x),buc>=0,buc<SIZE)
            if unique:
                # x may have any new key k: the facts about keys hold for all the other elements only
                st.unis=[u for u in st.unis if u.name not in('unique','grouped','placed')]
                eng.add_uni(st,lambda a,w:[Imp(And(v.N(a),v.N(w),a!=x,w!=x,ix.cls(a)==ix.cls(w)),a==w)],('q','q'),'unique-but-x')
                eng.add_uni(st,lambda a:[Imp(And(v.N(a),a!=x),v.bkt(a)==BA(POS(HASH(ix.cls(a))))),Imp(v.M(a),a>ix.off)],'p','placed-but-x')
            near(eng,st,v,x,2)
        elif name=='link_point':
            val,b=z3.Ints('val b'); st.env[na[1]]=Ptr(val,0); st.env[na[2]]=Ptr(b,0); c=CLS(KF(val)); st.g.update(cls=c,b=b)
            eng.solver.add(b==BA(POS(HASH(c))),v.B(b),b!=v.E,b>0); eng.pool(st,b,'p'); outs.extend(outcells(eng,F,st,[3] if unique else [3,4])); near(eng,st,v,v.prior(b),1)
        elif bare in('bucket_size','local_begin','local_end'):
            n=z3.Int('n'); eng.range_fact(n,0,2**64-1); st.env[na[1]]=n; st.g['n']=n; eng.solver.add(n<SIZE)
        elif name in('begin','end'): near(eng,st,v,H:=ix.H,2)
        elif name in('increment','local_increment'):
            o=Obj('it'); st.env[na[0]]=Ptr(o,0); x=z3.Int('x'); st.local[(o,0)]=Ptr(x,-ix.off); st.g['x']=x; eng.solver.add(v.N(x)); near(eng,st,v,x,2)
        elif name in('last_of_range','end_of_range'):
            x=z3.Int('x'); st.env[na[1]]=Ptr(x,0); st.g['x']=x; eng.solver.add(v.N(x),v.gf(x)==x); near(eng,st,v,x,3); near(eng,st,v,v.gl(x),2)
        else:
            if name.endswith('_k') or name=='bucket': k=z3.Int('k'); eng.range_fact(k,0,2**32-1); st.env[na[1]]=k; st.g['cls']=CLS(k)
            else: x=z3.Int('x'); st.env[na[1]]=Ptr(x,0); st.g['cls']=CX(x)
            if bare=='equal_range': outs.extend(outcells(eng,F,st,[2,3]))
        return st
    def post(eng,st,val):
        ix=st.g['ix']; v=ix.v; H=ix.H; fr=('frame',z3.BoolVal(not st.touched)); c=st.g.get('cls')
        out=lambda i: st.local.get((outs[i],0))
        absent=lambda on: ('absent',lambda w:[('no-equivalent',Imp(And(v.N(w),on),ix.cls(w)!=c))],'q')
        none=lambda w: Imp(v.N(w),ix.cls(w)!=c)
        if bare=='find':
            r=ix.nd(val); near(eng,st,v,r,1)
            return dict(facts=[fr,('found-is-equivalent',Or(r==H,And(v.N(r),ix.cls(r)==c,v.gf(r)==r)))],unis=[absent(r==H)])
        # `none`: an assumption that may be switched on, nothing equivalent is held
        nf=z3.Bool('none_held')
        if c is not None: eng.add_uni(st,lambda w:[Imp(And(nf,v.N(w)),ix.cls(w)!=c)],'q','none')
        if bare=='contains': return dict(facts=[fr,('false-if-none',Imp(nf,Not(eng.boolv(val))))],unis=[absent(Not(eng.boolv(val)))])
        if bare=='count':
            n=eng.num(val)
            return dict(facts=[fr,('zero-if-none',Imp(nf,n==0))],unis=[('exact',lambda w:[('number-of-equivalents',Imp(And(v.N(w),ix.cls(w)==c),And(n==ix.idx(v.gl(w))-ix.idx(v.gf(w))+1))),('zero-only-if-none',Imp(And(n==0,v.N(w)),ix.cls(w)!=c))],'q')])
        if bare=='equal_range':
            f=ix.nd(out(0)); l=ix.nd(out(1)); near(eng,st,v,f,2)
            return dict(facts=[fr,('range-is-the-group',Or(And(f==H,l==H),And(v.N(f),ix.cls(f)==c,v.gf(f)==f,l==v.nx(v.gl(f)))))],unis=[absent(f==H)])
        if name=='bucket': return dict(facts=[fr,('selected-by-hash',eng.num(val)==POS(HASH(c)))])
        if name=='bucket_size':
            b=BA(st.g['n']); q=v.prior(b); return dict(facts=[fr,('exact',eng.num(val)==If(q==0,0,ix.idx(v.bl(b))-ix.idx(q)+1))])
        if name=='local_begin':
            b=BA(st.g['n']); return dict(facts=[fr,('first-of-bucket',ix.nd(val)==v.prior(b))])
        if name=='local_end': return dict(facts=[fr,('null',ix.nd(val)==0)])
        if name=='begin': return dict(facts=[fr,('first',ix.nd(val)==v.nx(H))])
        if name=='end': return dict(facts=[fr,('header',ix.nd(val)==H)])
        x=st.g.get('x')
        if name=='increment': return dict(facts=[fr,('next',ix.nd(val)==v.nx(x))])
        if name=='local_increment': return dict(facts=[fr,('next-in-bucket',ix.nd(val)==If(v.lastb(x),0,v.nx(x)))])
        if name=='last_of_range': return dict(facts=[fr,('last',eng.ptr(val).addr()==v.gl(x))])
        if name=='end_of_range': return dict(facts=[fr,('next-after-group',eng.ptr(val).addr()==v.nx(v.gl(x)))])
        if name=='link_point':
            r=eng.boolv(val); p=eng.ptr(out(0)).addr(); near(eng,st,v,p,2); b=st.g['b']
            if unique: return dict(facts=[fr,('bucket-or-blocker',If(r,p==b,And(v.N(p),ix.cls(p)==c)))],unis=[absent(r)])
            l=eng.ptr(out(1)).addr()
            return dict(facts=[fr,('accepted',r),('bucket-or-group',If(l==0,p==b,And(v.N(p),ix.cls(p)==c,v.gf(p)==p,l==v.gl(p))))],unis=[absent(l==0)])
        if name=='in_place':
            r=eng.boolv(val); b=BA(st.g['buc']); k=CLS(st.g['k'])
            if unique:
                fits=z3.Bool('fits'); eng.add_uni(st,lambda w:[Imp(fits,And(v.bkt(x)==b,Imp(And(v.N(w),w!=x),ix.cls(w)!=k)))],'q','fits')
                return dict(facts=[fr,('own-bucket-if-true',Imp(r,v.bkt(x)==b)),('true-if-it-fits',Imp(fits,r))],unis=[('sound',lambda w:[('no-other-equivalent-if-true',Imp(And(r,v.N(w),w!=x,v.bkt(w)==b),ix.cls(w)!=k))],'q')])
    L=[search_loop()]
    if bare=='count': L=[count_loop(),search_loop()]
    if name=='bucket_size': L=[bucket_size_loop()]
    if name=='in_place': L=[place_loop()]
    return setup,L,post
CASES=['find','find_k','count','count_k','contains','equal_range','equal_range_k','bucket','bucket_size','local_begin','local_end','begin','end','increment','local_increment','last_of_range','end_of_range','link_point','in_place']
NUCASES=[c for c in CASES if c!='in_place']
def run(eng,name,unique):
    eng.perentry=True; eng.pure={'kf','hk','ek','hx','ex'}|set(eng.mod.kept)
    setup,loops,post=case(name,unique)
    run_case(eng,name,'f_'+name,setup,loops,post,skhook=hook)
ENGKW=dict(timeout=20000)
