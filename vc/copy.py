"""Contracts for copying, swapping and comparing whole indices.

copy_: the copy map pairs every element with its copy; the contract says that the copy of an index is the image of the original
under that pairing: every link of every copy (and of the header and of every bucket) is the image of the link of its original.
swap_, swap_elements_: every field of the layer of one container ends up in the other.
operators: a relational operator is the lexicographical comparison of the two traversals."""
import re
import z3
from .sym import *
from .rb import sel,pool_all,Not,And,Or,Imp,If,T,run_case
from .seq import SQ
from . import hash as hsh
I_=z3.IntSort(); B_=z3.BoolSort()
KEEP=(r'#hashed_index_node_alg\|\|(after|is_first_of_bucket)',r'#copy_map\|\|find',r'#(sequenced_index\|2|index_base\|)\|(copy_|swap_|swap_elements_)')
KEEPC=(r'#sequenced_index\|1\|(copy_|swap_|swap_elements_)',)
KEEPCMP=(r'#(ordered_index_node_impl|sequenced_index_node_impl|random_access_index_node_impl)\|\|increment',r'#hashed_index\|1\|(find|equal_range|end_of_range)')
MAP=z3.Function('copy_of',I_,I_)          # original node (or header) -> its copy
IMG=z3.Function('in_copy',I_,B_); ORG=z3.Function('original_of',I_,I_)
def off(eng,name):
    """(offset, aspect) of the field an accessor reads"""
    F=eng.mod.func(name); s=St(); s.heap=Heap('probe'); s.env={F.args[0]:Ptr(z3.Int('probe!base'),0)}
    for I in F.blocks[0].ins:
        if I.op=='ret': break
        eng.simple(s,I,probing=True)
    ks=sorted(k for k in s.heap.m if k[0]>=-4096)
    if not ks: raise ToolError('accessor %s reads nothing'%name)
    return ks
def shift(eng,name,ty):
    """constant displacement an accessor adds to its argument"""
    r=eng.ptr(eng.probe(name,[Ptr(z3.Int('probe!base'),0)],Heap('probe'))); return z3.simplify(r.addr()-z3.Int('probe!base')).as_long()
def addr(eng,v): return eng.ptr(v).addr()
THIS,X,MP=2000,2000,3000; ENT=1000
class CT:
    pass
def common(eng,F,kind,names):
    """state with index objects this and x; node addresses are those of the node implementation"""
    st=St(); st.heap=Heap('h0'); g=st.g; g['eng']=eng; g['kind']=kind
    d=shift(eng,'p_impl',None); g['d']=d
    eng.tagged={0} if kind<4 else set()
    eng.kinds={}
    ob={}
    for A,nm in zip(F.args,names):
        if nm in('this','x'): ob[nm]=z3.Int(nm); st.env[A]=Ptr(ob[nm],THIS)
        elif nm=='map': ob[nm]=z3.Int(nm); st.env[A]=Ptr(ob[nm],MP)
    eng.solver.add(*[ob[k]>0 for k in ob]); 
    if 'x' in ob: eng.solver.add(ob['this']!=ob['x'])
    g['ob']=ob
    ho=[k for k in off(eng,'p_header')][0][0]; eng.kinds[THIS+ho]=-d
    g['hdr']=lambda nm,heap: psel(heap.arr(THIS+ho),ob[nm])+d
    return st
def fieldv(eng,g,heap,name,nm):
    ks=off(eng,name)
    return [psel(heap.arr(THIS+o,a),g['ob'][nm]) for o,a in ks]
def notfield(eng,g,st,name='unchanged-objects'):
    """index objects themselves are untouched"""
    return z3.BoolVal(not any(any(t.eq(o) for o in g['ob'].values()) for t in st.touched))
def injective(eng,st,S):
    """the pairing: copies are distinct, and distinct from all originals"""
    for p in('p','m'):
        eng.add_uni(st,lambda a:[Imp(S(a),And(IMG(MAP(a)),ORG(MAP(a))==a,MAP(a)>4096,a>4096,Not(IMG(a))))],p,'pairing')
        eng.add_uni(st,lambda a:[Imp(IMG(a),And(S(ORG(a)),MAP(ORG(a))==a))],p,'pairing-back')
def poolmap(eng,st,ts,both=False):
    for t in ts: eng.pool(st,t,'p'); eng.pool(st,MAP(t),'m')
def hooks(eng,st,sk,pools):
    for p,k in zip(pools,sk):
        if p=='p':
            g=st.g; eng.pool(st,MAP(k),'m'); eng.pool(st,ORG(k),'m' if 'nearq' in g else 'p')
            for f in g.get('near',[]):
                poolmap(eng,st,f(k))
            for f in g.get('nearq',[]): pool_all(eng,st,f(k),('q',))
        if p=='i' and 'c' in st.g:
            g=st.g; pool_all(eng,st,[g['c'](k),MAP(g['c'](k)),g['at'](g['tb'],k),g['at'](g['xb'],k)])
def mapped(t): return If(t==0,z3.IntVal(0),MAP(t))
FLD=(0,8,16,24)
def frame(eng,st,written,isdst):
    """nothing but the copies is written"""
    h0=st.g['h0']; h=st.heap.copy()
    return ('frame',lambda a:[('untouched',Imp(Not(isdst(a)),And([psel(h.arr(*k),a)==psel(h0.arr(*k),a) for k in written])))],'p')
def havoc_fields(written):
    def hv(eng,s,tag): s.heap=s.heap.copy(); s.heap.havoc(written,tag)
    return hv
def storecheck(isdst,offs):
    def f(st,b,o,v,ty):
        eng=st.g['eng']
        if o not in offs: raise ToolError('store at unexpected offset %s of %s'%(o,b))
        eng.prove_all(st,eng.fn,[('writes-only-the-copy',isdst(b))])
    return f
def find_contract(eng,st,I,args):
    g=st.g; a=z3.simplify(addr(eng,args[1])+g['d'])
    eng.prove_all(st,eng.fn,[('find/node-is-in-the-map',g['S'](a)),('find/map',addr(eng,args[0])==g['ob']['map']+MP)])
    def eff(s):
        r=MAP(a); eng.pool(s,a,'p'); eng.pool(s,r,'m'); return Ptr(r,-g['d'])
    return [(None,eff,'ret')]
def super_contract(what):
    def h(eng,st,I,args):
        g=st.g
        a=[addr(eng,x) for x in args if isinstance(x,(Ptr,z3.ArithRef))]
        gs=[('super/same-containers',And(a[0]-g['sub']==g['ob']['this']+THIS,a[1]-g['sub']==g['ob']['x']+THIS))]
        if what=='copy': gs.append(('super/same-map',a[2]==g['ob']['map']+MP))
        eng.prove_all(st,eng.fn,gs)
        def eff(s): s.g=dict(s.g); s.g['super']=s.g.get('super',0)+1
        return [(None,eff,'ret')]
    return h
def after_contract(eng,st,I,args):
    # hash/*/after
    g=st.g; v=g['v']; x=addr(eng,args[0]); eng.prove_all(st,eng.fn,[('after/precondition',Or(v.N(x),And(x==v.H,v.nx(x)!=x)))])
    def eff(s): eng.pool(s,v.nx(x),'p'); eng.pool(s,MAP(v.nx(x)),'m'); return Ptr(v.nx(x),0)
    return [(None,eff,'ret')]
def fob_contract(eng,st,I,args):
    # hash/*/is_first_of_bucket
    g=st.g; v=g['v']; x=addr(eng,args[0]); eng.prove_all(st,eng.fn,[('is_first_of_bucket/precondition',v.M(x))])
    return [(None,lambda s:v.firstb(x),'ret')]
def case_copy(kind):
    def setup(eng,F):
        st=common(eng,F,kind,['this','x','map']); g=st.g; d=g['d']; ob=g['ob']; H=z3.Int('H'); H2=z3.Int('H2')
        eng.solver.add(g['hdr']('x',st.heap)==H,g['hdr']('this',st.heap)==H2)
        g['H']=H; g['H2']=H2; g['sub']=0
        # fields read from memory use the canonical implementation address
        do=off(eng,'m_data')[0][0]; eng.kinds[MP+do]=ENT; eng.kinds[ENT]=-d; eng.kinds[ENT+8]=-d
        if kind in(4,5): return setup_hash(eng,F,st)
        if kind==7: return setup_rnd(eng,F,st)
        g['h0']=st.heap.copy()
        N=sel(eng.fresharr('N','bool')); S=lambda a:Or(a==H,N(a)); g['S']=S; g['N']=N
        eng.solver.add(MAP(H)==H2)
        n=z3.Int('n'); g['n']=n; O=z3.Function('original',I_,I_); IX=z3.Function('index_of',I_,I_); g['O']=O; g['IX']=IX
        base=z3.Int('entries'); g['base']=base
        eng.solver.add(n>=0,base>0,psel(st.heap.arr(MP+do),ob['map'])==base,psel(st.heap.arr(MP+off(eng,'m_n')[0][0]),ob['map'])==n,n<2**58)
        h0=g['h0']
        def ent(j):
            b=z3.simplify(base+16*j-ENT)
            return [Imp(And(0<=j,j<n),And(z3.Select(h0.arr(ENT),b)+d==O(j),z3.Select(h0.arr(ENT+8),b)+d==MAP(O(j)),N(O(j)),IX(O(j))==j))]
        if kind<4:
            eng.add_uni(st,ent,'j','entries')
            eng.add_uni(st,lambda a:[Imp(N(a),And(0<=IX(a),IX(a)<n,O(IX(a))==a))],'p','all-in-map')
            pr=lambda nm,t,h=None: eng.ptr(eng.probe(nm,[Ptr(t)],h or h0)).addr()
            L=lambda t,h=None:pr('p_left',t,h); R=lambda t,h=None:pr('p_right',t,h); P=lambda t,h=None:pr('p_parent',t,h)
            C=lambda t,h=None:eng.num(eng.probe('p_color',[Ptr(t)],h or h0),32)
            Z=(lambda t,h=None:eng.num(eng.probe('p_size',[Ptr(t)],h or h0))) if kind>=2 else None
            g.update(L=L,R=R,P=P,C=C,Z=Z)
            def tree(a):
                l=L(a); r=R(a); p=P(a)
                return [Imp(N(a),And(Imp(l!=0,And(N(l),P(l)==a)),Imp(r!=0,And(N(r),P(r)==a)),Imp(l!=0,l!=r),S(p),Imp(p==H,P(H)==a),Imp(p!=H,Or(L(p)==a,R(p)==a)),P(H)!=0,Or(C(a)==0,C(a)==1)))]
            eng.add_uni(st,tree,'p','tree')
            rt=P(H); eng.solver.add(Imp(rt!=0,And(N(rt),P(rt)==H,N(L(H)),N(R(H)))),Not(N(H)),H!=0,Not(N(0)),C(H)==0,Or(C(H)==0,C(H)==1))
            g['near']=[lambda k:[L(k),R(k),P(k)]]
            pool_all(eng,st,[rt,L(H),R(H)])
            written=[(0,'p'),(0,'t'),(8,'v'),(16,'v')]+([(off(eng,'p_size')[0][0],'v')] if kind>=2 else [])
        elif kind==6:
            v=SQ(eng,h0,N,sel(eng.fresharr('ord','real')),H); g['v']=v
            for nn,f in v.HC(): eng.solver.add(f)
            eng.add_uni(st,lambda a:v.LC(a),'p','LC'); eng.add_uni(st,lambda a,w:v.GAP(a,w),('p','p'),'GAP')
            g['near']=[lambda k:[v.nx(k),v.pr(k)]]
            written=[off(eng,'p_next')[0],off(eng,'p_prior')[0]]
        g['written']=written
        injective(eng,st,S); pool_all(eng,st,[H,H2])
        isdst=lambda a:IMG(a)
        eng.on_store=storecheck(isdst,{k[0] for k in written}); g['isdst']=isdst
        return st
    def setup_hash(eng,F,st):
        g=st.g; d=g['d']; ob=g['ob']; H=g['H']; un=kind==4; E=z3.Int('E')
        h0=g['h0']=st.heap.copy()
        v=hsh.fresh(eng,h0,H,E,un); g['v']=v; g['N']=v.N; g['S']=v.M
        bo=off(eng,'s_bdata')[0][0]; xb=psel(h0.arr(THIS+bo),ob['x']); tb=psel(h0.arr(THIS+bo),ob['this']); nb=z3.Int('nb')
        MB=z3.Function('bucket_copy',I_,I_); OB=z3.Function('bucket_original',I_,I_); KB=z3.Function('bucket_index',I_,I_); g['MB']=MB
        B2=lambda b:And(v.B(OB(b)),MB(OB(b))==b); g['B2']=B2
        eng.solver.add(MAP(H)==g['H2'],xb>4096,tb>4096,nb>0)
        eng.add_uni(st,lambda b:[Imp(v.B(b),And(b==xb+8*KB(b),0<=KB(b),KB(b)<=nb,MB(b)==tb+8*KB(b),OB(MB(b))==b,Not(v.M(MB(b))),Not(IMG(MB(b))),Not(v.B(MB(b)))))],'p','buckets')
        eng.add_uni(st,lambda b:[Imp(IMG(b),And(Not(v.B(b)),Not(B2(b)))),Imp(v.M(b),Not(B2(b)))],'p','disjoint')
        injective(eng,st,v.M)
        hsh.assume(eng,st,v); g['views']=[v]
        cnt=eng.num(eng.probe('p_count',[Ptr(ob['x'],THIS)],st.heap)); eng.solver.add((cnt==0)==(v.pv(H)==H))
        g['cnt']=cnt
        pool_all(eng,st,[H,g['H2'],E]); hsh.around(eng,st,v,[H],2)
        g['written']=[(0,'v'),(8,'v')]
        used=lambda b:And(B2(b),v.prior(OB(b))!=0)
        isdst=lambda a:And(cnt!=0,Or(IMG(a),used(a)))
        g['isdst']=isdst; eng.on_store=storecheck(isdst,{0,8}); g['img']=lambda t:If(v.B(t),MB(t),MAP(t))
        def near(k):
            ts=[v.nx(k),v.pv(k),v.bkt(k),v.prior(k),v.next(k),v.bkt(v.nx(k)),OB(k)]
            return ts
        g['near']=[near]; g['nearq']=[lambda k:[k,v.nx(k),v.pv(k)]]
        return st
    def himage(g,h,un):
        v=g['v']; pr=lambda t:psel(h.arr(0),t); nx=lambda t:psel(h.arr(8),t); MB=g['MB']
        if un: return lambda w:And(pr(MAP(w))==MAP(v.pv(w)),nx(MAP(v.pv(w)))==g['img'](v.next(v.pv(w))),Imp(v.firstb(w),pr(MB(v.bkt(w)))==MAP(w)))
        return lambda w:And(nx(MAP(w))==g['img'](v.next(w)),pr(MAP(v.nx(w)))==MAP(v.prior(v.nx(w))),Imp(v.firstb(v.nx(w)),pr(MB(v.bkt(v.nx(w))))==MAP(v.nx(w))))
    def hloop(dd):
        def inv(eng,st,roles,phase):
            g=st.g; v=g['v']; H=g['H']; un=kind==4
            org=z3.simplify(addr(eng,roles['org'])+dd*g['d']); cpy=z3.simplify(addr(eng,roles['cpy'])+dd*g['d']); h=st.heap.copy()
            if phase=='assume':
                q=v.pv(org) if un else v.nx(org)
                hsh.around(eng,st,v,[org],2); poolmap(eng,st,[org,q,v.bkt(org),v.bkt(q),v.next(org),v.prior(q),v.next(q)]); pass
            D=(lambda w:Or(And(w==H,org!=H),And(v.N(w),org!=H,v.ord(w)>v.ord(org)))) if un else (lambda w:Or(And(w==H,org!=H),And(v.N(w),org!=H,v.ord(w)<v.ord(org))))
            im=himage(g,h,un)
            return dict(facts=[('position',And(v.M(org),cpy==MAP(org),g['cnt']!=0))],unis=[('image',lambda w:[('links',Imp(D(w),im(w)))],'p'),frame(eng,st,g['written'],g['isdst'])])
        sp=LoopSpec('copy-buckets',[('org','ptr'),('cpy','ptr')],inv,writes=True); sp.havoc=lambda eng,s,tag:havoc_fields(s.g['written'])(eng,s,tag); return sp
    def setup_rnd(eng,F,st):
        g=st.g; d=g['d']; ob=g['ob']; H=g['H']; eng.kinds[ENT]=0; eng.kinds[ENT+8]=0
        do=off(eng,'s_data')[0][0]; so=off(eng,'s_size')[0][0]; eng.kinds[THIS+do]=ENT
        h0=g['h0']=st.heap.copy()
        xb=psel(h0.arr(THIS+do),ob['x']); tb=psel(h0.arr(THIS+do),ob['this']); n=psel(h0.arr(THIS+so),ob['x'])
        N=sel(eng.fresharr('N','bool')); S=lambda a:Or(a==H,N(a)); g['S']=S; g['N']=N; c=z3.Function('cell',I_,I_)
        eng.solver.add(MAP(H)==g['H2'],xb>4096,tb>4096,n>=0,n<2**58,n==psel(h0.arr(THIS+so),ob['this']),xb+8*n+8<2**63,tb+8*n+8<2**63,Or(xb+8*n+8<=tb,tb+8*n+8<=xb)); eng.range_fact(n,0,2**58)
        g.update(n=n,xb=xb,tb=tb,c=c); K=g['K']=z3.Function('cell_index',I_,I_)
        at=lambda b,i:z3.simplify(b+8*i-ENT)
        g['at']=at
        eng.add_uni(st,lambda i:[Imp(And(0<=i,i<n),And(N(c(i)),z3.Select(h0.arr(ENT),at(xb,i))==c(i),K(c(i))==i)),K(at(tb,i))==i],'i','cells')
        injective(eng,st,S); pool_all(eng,st,[H,g['H2']])
        g['written']=[(0,'v'),(ENT,'v')]
        isdst=lambda a:Or(IMG(a),And(0<=K(a),K(a)<n,a==tb+8*K(a)-ENT))
        g['isdst']=isdst; eng.on_store=storecheck(isdst,{0,ENT}); g['near']=[lambda k:[]]
        return st
    def rimage(g,h,lim): 
        return lambda i:[('cell',Imp(And(0<=i,i<lim),And(psel(h.arr(ENT),g['at'](g['tb'],i))==MAP(g['c'](i)),psel(h.arr(0),MAP(g['c'](i)))==g['tb']+8*i)))]
    def rframe(eng,st):
        g=st.g; h0=g['h0']; h=st.heap.copy()
        return ('frame',lambda a:[('originals',Imp(Not(IMG(a)),psel(h.arr(0),a)==psel(h0.arr(0),a))),],'p')
    def rsource(g,h): return ('source',lambda i:[('cell',Imp(And(0<=i,i<g['n']),psel(h.arr(ENT),g['at'](g['xb'],i))==g['c'](i)))],'i')
    def rndloop():
        def inv(eng,st,roles,phase):
            g=st.g; j=eng.divexact(z3.simplify(addr(eng,roles['org'])-g['xb']),8); k=eng.divexact(z3.simplify(addr(eng,roles['cpy'])-g['tb']),8)
            pool_all(eng,st,[j],('i',)); h=st.heap.copy()
            if phase=='assume': pool_all(eng,st,[g['c'](j),MAP(g['c'](j)),g['at'](g['tb'],j),g['at'](g['xb'],j)])
            return dict(facts=[('position',And(0<=j,j<=g['n'],j==k,addr(eng,roles['org'])==g['xb']+8*j,addr(eng,roles['cpy'])==g['tb']+8*k))],unis=[('image',rimage(g,h,j),'i'),rsource(g,h),rframe(eng,st)])
        def mk(b):
            def f(eng,st,v):
                j=eng.fresh('j'); pool_all(eng,st,[j],('i',)); return Ptr(st.g['at'](st.g[b],j),ENT)
            return f
        sp=LoopSpec('copy-cells',[('org','ptr'),('cpy','ptr')],inv,writes=True,mk=dict(org=mk('xb'),cpy=mk('tb'))); sp.havoc=lambda eng,s,tag:havoc_fields(s.g['written'])(eng,s,tag); return sp
    def ordloop():
        def inv(eng,st,roles,phase):
            g=st.g; it=addr(eng,roles['it']); j=eng.divexact(z3.simplify(it-g['base']),16)
            if phase!='assume' or True: pool_all(eng,st,[j],('j',))
            h=st.heap.copy(); N=g['N']; H=g['H']; L,R,P,C,Z=[g[k] for k in 'LRPCZ']; V=lambda a:And(N(a),g['IX'](a)<j)
            if phase=='assume': pool_all(eng,st,[g['O'](j)]); [pool_all(eng,st,[t,MAP(t)]) for t in (g['O'](j),L(g['O'](j)),R(g['O'](j)),P(g['O'](j)))]
            def vis(a):
                m=MAP(a)
                out=[('visited',Imp(V(a),And(P(m,h)==MAP(P(a)),C(m,h)==C(a)))),('left',Imp(And(N(a),L(a)!=0,V(L(a))),L(m,h)==MAP(L(a)))),('right',Imp(And(N(a),R(a)!=0,V(R(a))),R(m,h)==MAP(R(a)))),
                     ('no-left',Imp(And(V(a),L(a)==0),L(m,h)==0)),('no-right',Imp(And(V(a),R(a)==0),R(m,h)==0))]
                if Z: out.append(('size',Imp(V(a),Z(m,h)==Z(a))))
                return out
            m=g['H2']
            hd=And(P(m,h)==MAP(P(H)),L(m,h)==MAP(L(H)),R(m,h)==MAP(R(H)),C(m,h)==C(H))
            return dict(facts=[('position',And(0<=j,j<=g['n'],it==g['base']+16*j)),('header',And(hd,P(H)!=0))],unis=[('image',vis,'p'),frame(eng,st,g['written'],g['isdst'])])
        def mk(eng,st,v):
            j=eng.fresh('j'); pool_all(eng,st,[j],('j',)); return Ptr(z3.simplify(st.g['base']+16*j-ENT),ENT)
        sp=LoopSpec('copy-nodes',[('it','ptr')],inv,writes=True,mk=dict(it=mk)); sp.havoc=lambda eng,s,tag:havoc_fields(s.g['written'])(eng,s,tag); return sp
    def seqloop(dd):
        def inv(eng,st,roles,phase):
            g=st.g; v=g['v']; H=g['H']; d=g['d']
            org=z3.simplify(addr(eng,roles['org'])+dd*d); cpy=addr(eng,roles['cpy'])+dd*d
            h=st.heap.copy(); u=SQ(eng,h,None,None,g['H2'])
            if phase=='assume': pool_all(eng,st,[org,v.nx(org),MAP(org),MAP(v.nx(org))])
            D=lambda w:Or(And(w==H,org!=H),And(v.N(w),org!=H,v.ord(w)<v.ord(org)))
            first=st.g.get('started') is None
            return dict(facts=[('position',And(v.M(org),cpy==MAP(org)))],
              unis=[('image',lambda w:[('links',Imp(D(w),And(u.nx(MAP(w))==MAP(v.nx(w)),u.pr(MAP(v.nx(w)))==MAP(w))))],'p'),frame(eng,st,g['written'],g['isdst'])])
        sp=LoopSpec('copy-list',[('org','ptr'),('cpy','ptr')],inv,writes=True); sp.havoc=lambda eng,s,tag:havoc_fields(s.g['written'])(eng,s,tag); return sp
    def post(eng,st,val):
        g=st.g; H=g['H']; h=st.heap.copy(); N=g.get('N'); sup=('layer-below-copied-once',z3.BoolVal(g.get('super',0)==1))
        if kind<4:
            L,R,P,C,Z=[g[k] for k in 'LRPCZ']; m=g['H2']
            def img(a):
                out=[('links',Imp(N(a),And(P(MAP(a),h)==MAP(P(a)),L(MAP(a),h)==mapped(L(a)),R(MAP(a),h)==mapped(R(a))))),('colour',Imp(N(a),C(MAP(a),h)==C(a)))]
                if Z: out.append(('size',Imp(N(a),Z(MAP(a),h)==Z(a))))
                return out
            return dict(facts=[sup,('header',If(P(H)==0,And(P(m,h)==0,L(m,h)==m,R(m,h)==m,C(m,h)==0),And(P(m,h)==MAP(P(H)),L(m,h)==MAP(L(H)),R(m,h)==MAP(R(H)),C(m,h)==C(H))))],
              unis=[('image',img,'p'),frame(eng,st,g['written'],g['isdst'])])
        if kind==6:
            v=g['v']; u=SQ(eng,h,None,None,g['H2'])
            return dict(facts=[sup],unis=[('image',lambda w:[('links',Imp(v.M(w),And(u.nx(MAP(w))==MAP(v.nx(w)),u.pr(MAP(w))==MAP(v.pr(w)))))],'p'),frame(eng,st,g['written'],g['isdst'])])
        if kind in(4,5):
            v=g['v']; im=himage(g,h,kind==4)
            return dict(facts=[sup],unis=[('image',lambda w:[('links',Imp(And(g['cnt']!=0,v.M(w)),im(w)))],'p'),frame(eng,st,g['written'],g['isdst'])])
        if kind==7: return dict(facts=[sup],unis=[('image',rimage(g,h,g['n']),'i'),rsource(g,h),rframe(eng,st)])
    return setup,([ordloop()] if kind<4 else [hloop(0),hloop(1)] if kind in(4,5) else [seqloop(1),seqloop(0)] if kind==6 else [rndloop()]),post
def run(eng,name,kind):
    setup,loops,post=case_copy(kind)
    eng.contracts={re.compile('hashed_index_node_alg.*5afterE'):after_contract,re.compile('hashed_index_node_alg.*18is_first_of_bucketE'):fob_contract,re.compile('copy_map.*4findE'):find_contract,re.compile('sequenced_index.*5copy_'):super_contract('copy')}
    eng.perentry=True; eng.nofold=True
    run_case(eng,name,'f_copy',setup,loops,post,skhook=hooks)
