"""Contracts for random-access indices (rnd_index_node.hpp, rnd_index_ptr_array.hpp, rnd_index_ops.hpp, random_access_index.hpp).
The index is an array of n+1 cells: cell i holds a node (cell n the header) whose up() is the address of cell i.
c(i) is the node in cell i at entry.  A contract says which node every cell holds at exit and where every node's up() points:
together, positions are exact and no element is lost or duplicated.  Memory is flat (byte addresses); every store
must hit a cell of an allocated array or the up() field of a node of the index."""
import z3
from .sym import *
from .rb import sel,pool_all,Not,And,Or,Imp,If,run_case
from .ordix import fieldoff
I_=z3.IntSort(); B_=z3.BoolSort()
c=z3.Function('c',I_,I_); S=z3.Function('held',I_,B_)
KEEP=(r'#std\|\|stable_sort',r'#multi_index_container\|\|delete_node_')
class Reg:
    """an array of cap+1 cells"""
    def __init__(s,base,cap): s.base=base; s.cap=cap
    def at(s,i): return z3.simplify(s.base+8*i)
    def has(s,a): return And(s.base<=a,a<s.base+8*(s.cap+1))
    def out(s,a): return Or(a+8<=s.base,a>=s.base+8*(s.cap+1))
def M(st,a): return psel(st.heap.arr(0),a)
def addr(eng,x): return eng.ptr(x).addr()
def idx(eng,st,reg,x):
    """index of the cell an address denotes"""
    a=addr(eng,x); d=z3.simplify(a-reg.base); q=eng.divexact(d,8)
    if not(z3.is_app(q) and q.decl().kind() in(z3.Z3_OP_IDIV,)): 
        if all(x.decl().kind()!=z3.Z3_OP_IDIV for x in subterms(q)): return q
    for k in st.pools.get('i',[]):
        eng.solver.push()
        try:
            eng.solver.add(a!=reg.at(k))
            if eng.check()==z3.unsat: return k
        finally: eng.solver.pop()
    raise RoleMismatch()
def subterms(t):
    st=[t]
    while st:
        x=st.pop(); yield x; st.extend(x.children())
def cellrole(regname,lo=None):
    def mk(eng,st,v):
        k=eng.fresh('k'); eng.pool(st,k,'i'); return Ptr(st.g[regname].at(k),0)
    return mk
def introle(eng,st,v):
    k=eng.fresh('t'); eng.range_fact(k,0,2**64-1); return k
def diffrole(eng,st,v):
    k=eng.fresh('t'); eng.solver.add(k>-2**62,k<2**62); return Diff(k)
def sg(eng,v): return v.e if isinstance(v,Diff) else eng.signed(eng.num(v),64)
class A:
    """the state at entry: one array r0 with n+1 live cells, optionally other regions"""
    def __init__(s,eng,st,n=None,nulls=False):
        b,cap=z3.Ints('base cap'); s.n=n if n is not None else z3.Int('n'); s.r=Reg(b,cap)
        st.g.update(r0=s.r,a=s,regs=[s.r],extra=[],M0=st.heap.copy())
        eng.solver.add(b>0,s.n>=0,s.n<=cap,cap<2**59,b+8*(cap+1)<2**64)
        M0=st.g['M0'].arr(0)
        def good(i):
            f=And(c(i)>0,s.r.out(c(i)),S(c(i)),z3.Select(M0,c(i))==s.r.at(i),c(i)<2**64-64)
            if nulls: f=Or(c(i)==0,f)
            return [Imp(And(0<=i,i<=s.n),And(z3.Select(M0,s.r.at(i))==c(i),f))]
        eng.add_uni(st,good,'i','array')
        pool_all(eng,st,[z3.IntVal(0),s.n],('i',))
        eng.on_store=onstore
        def canon(st,v):
            # up() of the node in cell i at entry is the address of cell i
            if st is None: return None
            for i in st.pools.get('i',[]):
                if v.eq(z3.Select(M0,c(i))):
                    eng.solver.push()
                    try:
                        eng.solver.add(v!=s.r.at(i))
                        if eng.check()==z3.unsat: return s.r.at(i)
                    finally: eng.solver.pop()
            return None
        eng.canon=canon
def onstore(st,b,o,v,ty):
    eng=st.g['eng']
    if ty.k!='ptr': raise ToolError('store of a non-pointer into the array')
    eng.prove_all(st,eng.fn,[('store-in-bounds',Or([r.has(b) for r in st.g['regs']]+[S(b)]+[b==x for x in st.g['extra']]))])
def cells(st,reg,n,cellf,name='cells'):
    return (name,lambda i:[('cell',Imp(And(0<=i,i<=n),M(st,reg.at(i))==cellf(i)))],'i')
def ups(st,posf,n=None,name='ups'):
    a=st.g['a']; n=a.n if n is None else n
    return (name,lambda i:[('up',Imp(And(0<=i,i<=n,c(i)!=0),M(st,c(i))==posf(i)))],'i')
def frame(st,free=()):
    """memory outside the arrays and the nodes of the index is untouched"""
    M0=st.g['M0'].arr(0); regs=st.g['regs']
    return ('frame',lambda x:[('untouched',Imp(And([Not(r.has(x)) for r in regs]+[Not(S(x))]+[x!=y for y in st.g['extra']]),M(st,x)==z3.Select(M0,x)))],'f')
def valid(st,reg,n,name='valid'):
    """every cell holds a node of the index whose up() is that cell (so no node is held twice)"""
    return (name,lambda i:[('held',Imp(And(0<=i,i<=n),And(S(M(st,reg.at(i))),M(st,reg.at(i))>0,reg.out(M(st,reg.at(i))),M(st,M(st,reg.at(i)))==reg.at(i))))],'i')
def hook(eng,st,sk,pools):
    for p,k in zip(pools,sk):
        if p=='i':
            pool_all(eng,st,[z3.simplify(k+1),z3.simplify(k-1)],('i',))
            for f in st.g.get('terms',[]): pool_all(eng,st,[z3.simplify(t) for t in f(k)],('i',))
def loop(name,roles,inv,reg='r0'):
    mk={r:(cellrole(reg if isinstance(reg,str) else reg[r]) if k=='ptr' else {'int':introle,'diff':diffrole}[k]) for r,k in roles}; roles=[(r,'int' if k=='diff' else k) for r,k in roles]
    def w(eng,st,rl,phase): return inv(eng,st,rl,phase)
    def havoc(eng,s,tag): s.heap=Heap('L'+tag)
    return LoopSpec(name,roles,w,writes=True,havoc=havoc,mk=mk)
# ---- shifting one node within [k,e): cells move down by one (extract), or up by one (relocate backwards)
def shift_down(k,e):
    return (lambda j:(lambda i:If(And(k<=i,i<j),c(i+1),c(i)))),(lambda j:(lambda i:If(And(k<i,i<=j),i-1,i)))
def down_loop():
    def inv(eng,st,roles,phase):
        a=st.g['a']; r=st.g['r0']; j=idx(eng,st,r,roles['x']); k=st.g['k']; e=st.g['e']
        cf,pf=shift_down(k,e); pool_all(eng,st,[j,z3.simplify(j+1)],('i',))
        return dict(facts=[('x',And(k<=j,j<=e-1))],unis=[cells(st,r,a.n,cf(j)),ups(st,lambda i:r.at(pf(j)(i))),frame(st)])
    return loop('shift-down',[('x','ptr')],inv)
def up_loop():
    def inv(eng,st,roles,phase):
        a=st.g['a']; r=st.g['r0']; j=idx(eng,st,r,roles['x']); k=st.g['k']; p=st.g['p']
        pool_all(eng,st,[j,z3.simplify(j-1)],('i',))
        return dict(facts=[('x',And(p<=j,j<=k))],unis=[cells(st,r,a.n,lambda i:If(And(j<i,i<=k),c(i-1),c(i))),ups(st,lambda i:r.at(If(And(j<=i,i<k),i+1,i))),frame(st)])
    return loop('shift-up',[('x','ptr')],inv)
def relocated(k,p):
    cf=lambda i:If(p>k,If(And(k<=i,i<p-1),c(i+1),If(i==p-1,c(k),c(i))),If(i==p,c(k),If(And(p<i,i<=k),c(i-1),c(i))))
    pf=lambda i:If(p>k,If(i==k,p-1,If(And(k<i,i<p),i-1,i)),If(i==k,p,If(And(p<=i,i<k),i+1,i)))
    return cf,pf
def reverse_loop():
    def inv(eng,st,roles,phase):
        a=st.g['a']; r=st.g['r0']; j=idx(eng,st,r,roles['pbegin']); j2=idx(eng,st,r,roles['pend']); t=eng.num(roles['i']); b=st.g['b']; e=st.g['e']
        pool_all(eng,st,[j,j2,z3.simplify(j2-1)],('i',))
        m=lambda i:If(Or(And(b<=i,i<j),And(j2<=i,i<e)),b+e-1-i,i)
        return dict(facts=[('x',And(j==b+t,j2==e-t,0<=t,2*t<=e-b))],unis=[cells(st,r,a.n,lambda i:c(m(i))),ups(st,lambda i:r.at(m(i))),frame(st)])
    return loop('reverse',[('pbegin','ptr'),('pend','ptr'),('i','int')],inv)
def transfer_loop():
    """cells [b,e) of r0 copied to r1 starting at d"""
    def inv(eng,st,roles,phase):
        a=st.g['a']; r=st.g['r0']; q=st.g['r1']; j=idx(eng,st,r,roles['pbegin0']); j1=idx(eng,st,q,roles['pbegin1']); b=st.g['b']; e=st.g['e']; d=st.g['d']
        pool_all(eng,st,[j,j1],('i',))
        M0=st.g['M0'].arr(0)
        return dict(facts=[('x',And(b<=j,j<=e,j1==d+(j-b)))],unis=[cells(st,r,a.n,lambda i:c(i),'source'),
            ('target',lambda i:[('cell',Imp(And(d<=i,i<j1),M(st,q.at(i))==c(b+i-d))),('other',Imp(And(0<=i,i<=q.cap,Not(And(d<=i,i<j1))),M(st,q.at(i))==z3.Select(M0,q.at(i))))],'i'),
            ups(st,lambda i:If(And(b<=i,i<j),q.at(d+i-b),r.at(i))),frame(st)])
    return loop('transfer',[('pbegin0','ptr'),('pbegin1','ptr')],inv,dict(pbegin0='r0',pbegin1='r1'))
RK=z3.Function('nonnulls_before',I_,I_); SK=z3.Function('nonnulls_from',I_,I_)
def gather1():
    def inv(eng,st,roles,phase):
        a=st.g['a']; r=st.g['r0']; j=idx(eng,st,r,roles['p']); q=idx(eng,st,r,roles['pbegin']); b=st.g['b']
        pool_all(eng,st,[j,z3.simplify(j+1)],('i',))
        g=lambda i:And(b<=i,i<j,c(i)!=0)
        return dict(facts=[('x',And(b<=j,j<=st.g['x'],q==b+RK(j),q<=j,RK(j)>=0))],
          unis=[('count-monotone',lambda i,w:[('mono',Imp(And(b<=i,i<w,w<=j),RK(i)+If(c(i)!=0,1,0)<=RK(w)))],('i','i')),
            ('gathered',lambda i:[('low',Imp(g(i),And(RK(i)>=0,RK(i)<=i-b,M(st,r.at(b+RK(i)))==c(i),M(st,c(i))==r.at(b+RK(i))))),('rest',Imp(And(0<=i,i<=a.n,Or(i<b,i>=j)),M(st,r.at(i))==c(i)))],'i'),
            ('ups',lambda i:[('up',Imp(And(0<=i,i<=a.n,c(i)!=0,Not(g(i))),M(st,c(i))==r.at(i)))],'i'),frame(st)])
    return loop('gather-front',[('p','ptr'),('pbegin','ptr')],inv)
def gather2():
    def inv(eng,st,roles,phase):
        a=st.g['a']; r=st.g['r0']; j=idx(eng,st,r,roles['p']); q=idx(eng,st,r,roles['pend']); b=st.g['b']; e=st.g['e']; x=st.g['x']
        pool_all(eng,st,[j,z3.simplify(j-1)],('i',))
        g1=lambda i:And(b<=i,i<x,c(i)!=0); g2=lambda i:And(j<=i,i<e,c(i)!=0)
        return dict(facts=[('x',And(x<=j,j<=e,q==e-SK(j),q>=j,SK(j)>=0))],
          unis=[('front-count-monotone',lambda i,w:[('mono',Imp(And(b<=i,i<w,w<=x),RK(i)+If(c(i)!=0,1,0)<=RK(w)))],('i','i')),
            ('count-monotone',lambda i,w:[('mono',Imp(And(j<=i,i<w,w<=e),SK(w)+If(c(i)!=0,1,0)<=SK(i)))],('i','i')),
            ('gathered',lambda i:[('low',Imp(g1(i),And(RK(i)>=0,RK(i)<=i-b,M(st,r.at(b+RK(i)))==c(i),M(st,c(i))==r.at(b+RK(i))))),
               ('high',Imp(g2(i),And(SK(i)>=1,SK(i)<=e-i,M(st,r.at(e-SK(i)))==c(i),M(st,c(i))==r.at(e-SK(i))))),('rest',Imp(And(0<=i,i<=a.n,Or(i<b,i>=e,And(x<=i,i<j))),M(st,r.at(i))==c(i)))],'i'),
            ('ups',lambda i:[('up',Imp(And(0<=i,i<=a.n,c(i)!=0,Not(g1(i)),Not(g2(i))),M(st,c(i))==r.at(i)))],'i'),frame(st)])
    return loop('gather-back',[('p','ptr'),('pend','ptr')],inv)
# ---- rotation: orbits of next(v)=(v+m) mod n
REP=z3.Function('rep',I_,I_); TT=z3.Function('turn',I_,I_)
def orbit(n,m,p,L):
    nx=lambda v:If(v<n-m,v+m,v-(n-m))
    one=lambda v:[Imp(And(0<=v,v<n),And(0<=REP(v),REP(v)<p,0<=TT(v),TT(v)<L,Imp(v<p,And(REP(v)==v,TT(v)==0)),(TT(v)==0)==(v==REP(v)),REP(nx(v))==REP(v),
        Imp(nx(v)!=REP(v),TT(nx(v))==TT(v)+1),(nx(v)==REP(v))==(TT(v)==L-1)))]
    two=lambda v,w:[Imp(And(0<=v,v<n,0<=w,w<n,REP(v)==REP(w),TT(v)==TT(w)),v==w)]
    return nx,one,two
def rot(st):
    g=st.g; B=g['B']; n=g['rn']; m=g['rm']
    nx=lambda v:If(v<n-m,v+m,v-(n-m)); pv=lambda v:If(v>=m,v-m,v+(n-m))
    inr=lambda i:And(B<=i,i<B+n)
    def state(done):
        cf=lambda i:If(And(inr(i),done(i-B)),c(B+nx(i-B)),c(i))
        pf=lambda i:If(And(inr(i),done(pv(i-B))),B+pv(i-B),i)
        return cf,pf
    return nx,pv,state
def rot_outer():
    def inv(eng,st,roles,phase):
        a=st.g['a']; r=st.g['r0']; i0=sg(eng,roles['i']); nx,pv,state=rot(st); cf,pf=state(lambda v:REP(v)<i0)
        st.g=dict(st.g); st.g['outer']=i0; B=st.g['B']; pool_all(eng,st,[z3.simplify(i0),],('v',)); pool_all(eng,st,[z3.simplify(B+i0)],('i',))
        return dict(facts=[('i',And(0<=i0,i0<=st.g['rp']))],unis=[cells(st,r,a.n,cf),ups(st,lambda i:r.at(pf(i))),frame(st)])
    return loop('rotate-outer',[('i','diff')],inv)
def rot_inner():
    def inv(eng,st,roles,phase):
        if 'outer' not in st.g: raise RoleMismatch()
        a=st.g['a']; r=st.g['r0']; j=sg(eng,roles['j']); i0=st.g['outer']; nx,pv,state=rot(st); B=st.g['B']; n=st.g['rn']
        for v in(j,nx(j),nx(nx(j))): pool_all(eng,st,[z3.simplify(v)],('v',)); pool_all(eng,st,[z3.simplify(B+v)],('i',))
        cf,pf=state(lambda v:Or(REP(v)<i0,And(REP(v)==i0,TT(v)<TT(j))))
        return dict(facts=[('j',And(0<=j,j<n,REP(j)==i0,i0>=0,i0<st.g['rp']))],unis=[cells(st,r,a.n,cf),ups(st,lambda i:r.at(pf(i))),frame(st)])
    return loop('rotate-inner',[('j','diff')],inv)
def rothook(eng,st,sk,pools):
    hook(eng,st,sk,pools)
    if 'rn' not in st.g: return
    nx,pv,state=rot(st); B=st.g['B']
    for p,k in zip(pools,sk):
        if p=='i':
            v=k-B
            for t in(v,nx(v),pv(v)): pool_all(eng,st,[z3.simplify(t)],('v',)); pool_all(eng,st,[z3.simplify(B+t)],('i',))
            for j in list(st.pools.get('v',[])): pass
# ---- list operations
PRD=z3.Function('pred',I_,B_); BPR=z3.Function('same',I_,I_,B_); KR=z3.Function('kept_before',I_,I_); LK=z3.Function('last_kept',I_,I_)
VAL=lambda st,nd: nd-st.g['voff']
def remove_loop():
    def inv(eng,st,roles,phase):
        a=st.g['a']; r=st.g['r0']; j=idx(eng,st,r,roles['first']); q=idx(eng,st,r,roles['res']); n=a.n
        pool_all(eng,st,[j,q,z3.simplify(j+1)],('i',))
        K=lambda i:Not(PRD(VAL(st,c(i))))
        return dict(facts=[('x',And(0<=j,j<=n,q==KR(j),q<=j,KR(j)>=0))],
          unis=[('count-monotone',lambda i,w:[('mono',Imp(And(0<=i,i<w,w<=j),KR(i)+If(K(i),1,0)<=KR(w)))],('i','i')),
            ('kept-in-order',lambda i:[('kept',Imp(And(0<=i,i<j,K(i)),And(KR(i)>=0,M(st,r.at(KR(i)))==c(i)))),('rest',Imp(And(j<=i,i<=n),M(st,r.at(i))==c(i))),('dropped',Imp(And(KR(j)<=i,i<j),PRD(VAL(st,M(st,r.at(i))))))],'i'),
            valid(st,r,n),frame(st)])
    return loop('remove',[('first','ptr'),('res','ptr')],inv)
def unique_loop():
    def inv(eng,st,roles,phase):
        a=st.g['a']; r=st.g['r0']; j=idx(eng,st,r,roles['first']); q=idx(eng,st,r,roles['res']); n=a.n
        pool_all(eng,st,[j,q,z3.simplify(j+1),z3.simplify(q+1)],('i',))
        return dict(facts=[('x',And(0<=j,j<n,q==KR(j)-1,q>=0,q<=j,LK(j)<=j,LK(j)>=0,M(st,r.at(q))==c(LK(j)),(LK(j)==j)==st.g['kept'](j)))],
          unis=[('count-monotone',lambda i,w:[('mono',Imp(And(0<=i,i<w,w<=j),KR(i)+If(st.g['kept'](w),1,0)<=KR(w)))],('i','i')),
            ('kept-in-order',lambda i:[('kept',Imp(And(0<=i,i<=j,st.g['kept'](i)),And(KR(i)>=1,M(st,r.at(KR(i)-1))==c(i)))),('rest',Imp(And(j<i,i<=n),M(st,r.at(i))==c(i)))],'i'),
            valid(st,r,n),frame(st)])
    return loop('unique',[('first','ptr'),('res','ptr')],inv)
RANK=z3.Function('rank_of_value',I_,z3.RealSort())
def rk(st,nd): return RANK(VAL(st,nd))
def merge_loop():
    """scratch cells [0,o) hold the stable merge of c[0,f0) and c[m,f1)"""
    def inv(eng,st,roles,phase):
        a=st.g['a']; r=st.g['r0']; q=st.g['r1']; m=st.g['m']; n=a.n
        f0=idx(eng,st,r,roles['first0']); f1=idx(eng,st,r,roles['first1']); o=idx(eng,st,q,roles['out'])
        pool_all(eng,st,[f0,f1,o],('i',))
        W=lambda i:M(st,q.at(i)); P=st.g['pos']; st.g=dict(st.g); st.g['merged']=True
        return dict(facts=[('x',And(0<=f0,f0<=m,m<=f1,f1<=n,o==f0+(f1-m)))],
          unis=[('merged',lambda i:[('held',Imp(And(0<=i,i<o),And(S(W(i)),0<=P(W(i)),P(W(i))<n,c(P(W(i)))==W(i),Or(P(W(i))<f0,And(m<=P(W(i)),P(W(i))<f1))))),
               ('not-after-heads',Imp(And(0<=i,i<o),And(Imp(f0<m,rk(st,W(i))<=rk(st,c(f0))),Imp(And(f0<m,P(W(i))>=m),rk(st,W(i))<rk(st,c(f0))),Imp(f1<n,rk(st,W(i))<=rk(st,c(f1))))))],'i'),
             ('order',lambda i,w:[('sorted-stable',Imp(And(0<=i,i<w,w<o),Or(rk(st,W(i))<rk(st,W(w)),And(rk(st,W(i))==rk(st,W(w)),P(W(i))<P(W(w))))))],('i','i')),
             cells(st,r,n,lambda i:c(i)),ups(st,lambda i:r.at(i)),frame(st)])
    return loop('merge',[('first0','ptr'),('first1','ptr'),('out','ptr')],inv,dict(first0='r0',first1='r0',out='r1'))
def copyback_loop():
    """r0 cells [0,j) come from the scratch array"""
    def inv(eng,st,roles,phase):
        a=st.g['a']; r=st.g['r0']; q=st.g['r1']; n=a.n; j=idx(eng,st,r,roles['first']); o=idx(eng,st,q,roles['buf']); pool_all(eng,st,[j,o],('i',))
        if st.g.get('twostep') and not st.g.get('merged'): raise RoleMismatch()
        if phase=='entry': st.g=dict(st.g); st.g['w0']=st.heap.copy()
        W=lambda i:z3.Select(st.g['w0'].arr(0),q.at(i)); P=st.g['pos']
        pool_all(eng,st,[P(W(j))]+[z3.simplify(t) for f in st.g.get('terms',[]) for t in f(j)],('i',))
        if phase=='entry': st.g['terms']=[t for t in st.g.get('terms',[]) if not hasattr(t,'w0')]+[lambda t:[P(W(t))]]
        return dict(facts=[('x',And(0<=j,j<=n,o==j))],unis=[('written',lambda i:[('cell',Imp(And(0<=i,i<j),And(M(st,r.at(i))==W(i),M(st,W(i))==r.at(i)))),('scratch',Imp(And(0<=i,i<n),M(st,q.at(i))==W(i))),('header',Imp(i==n,M(st,r.at(n))==c(n)))],'i'),
            ('header-up',lambda i:[('up',Imp(i==n,M(st,c(n))==r.at(n)))],'i'),frame(st)])
    return loop('write-back',[('first','ptr'),('buf','ptr')],inv,dict(first='r0',buf='r1'))
PI=z3.Function('given',I_,I_)
def rearrange_loop():
    def inv(eng,st,roles,phase):
        a=st.g['a']; r=st.g['r0']; n=a.n; j=idx(eng,st,r,roles['p0']); t=eng.num(roles['i']); pool_all(eng,st,[j,PI(j)],('i',))
        return dict(facts=[('x',And(0<=j,j<=n,eng.signed(t,64)==j+st.g['start']))],unis=[('placed',lambda i:[('cell',Imp(And(0<=i,i<j),M(st,r.at(i))==c(PI(i))))],'i'),
           valid(st,r,n),('where',lambda i:[('up',Imp(And(0<=i,i<=n),And(M(st,M(st,c(i)))==c(i),r.base<=M(st,c(i)),M(st,c(i))<=r.at(n),(M(st,c(i))-r.base)%8==0)))],'i'),('header',lambda i:[('h',Imp(i==n,M(st,r.at(n))==c(n)))],'i'),frame(st)])
    return loop('rearrange',[('p0','ptr'),('i','int')],inv)
def delall_loop():
    def inv(eng,st,roles,phase):
        a=st.g['a']; r=st.g['r0']; j=idx(eng,st,r,roles['x']); pool_all(eng,st,[j],('i',)); D=st.heap.arr('deleted')
        return dict(facts=[('x',And(0<=j,j<=a.n))],unis=[('deleted',lambda i:[('once',Imp(And(0<=i,i<=a.n),psel(D,c(i))==If(i<j,1,0)))],'i'),cells(st,r,a.n,lambda i:c(i))])
    return loop('delete-all',[('x','ptr')],inv)
# ---- contracts of callees
def newregion(eng,s,bytes):
    """operator new: a fresh region that overlaps nothing known"""
    b=eng.fresh('base1'); cells=eng.fresh('cells1'); r=Reg(b,cells-1); a=s.g['a']
    eng.solver.add(8*cells==bytes,b>0,b+bytes<2**64,cells>=1)
    for q in s.g['regs']: eng.solver.add(Or(b+bytes<=q.base,b>=q.base+8*(q.cap+1)))
    eng.add_uni(s,lambda i:[Imp(And(0<=i,i<=a.n),r.out(c(i)))],'i','fresh')
    for x in s.g['extra']: eng.solver.add(r.out(x))
    s.g=dict(s.g); s.g['regs']=s.g['regs']+[r]; s.g['r1']=r; s.g['newbase']=b; s.g['live']=s.g.get('live',())+(b,)
    return Ptr(b,0)
def contracts(eng):
    d={}
    def new(eng,st,I,args):
        k=eng.num(args[0])
        return [(None,lambda s:newregion(eng,s,k),'ret'),(None,None,'throw')]
    def delete(eng,st,I,args):
        p=addr(eng,args[0]); live=list(st.g.get('live',())); 
        old=st.g['r0'].base if 'spcn' in st.g else None
        cand=live+([old] if old is not None and not st.g.get('oldfreed') else [])
        eng.prove_all(st,eng.fn,[('frees-a-live-array-once',Or([p==x for x in cand]) if cand else z3.BoolVal(False))])
        def eff(s):
            s.g=dict(s.g)
            for x in live:
                if p.eq(x): s.g['live']=tuple(y for y in live if not y.eq(x)); return
            s.g['oldfreed']=True
        return [(None,eff,'ret')]
    d['_Znwm']=new; d['_ZdlPv']=delete
    thr=lambda eng,st,I,args:[(None,None,'throw')]
    d['_ZSt28__throw_bad_array_new_lengthv']=thr; d['_ZSt17__throw_bad_allocv']=thr
    def user(f,bits=1):
        def h(eng,st,I,args):
            a=[addr(eng,x) for x in args]
            return [(None,lambda s:f(*a),'ret'),(None,None,'throw')]
        return h
    d['pr']=user(lambda a:PRD(a)); d['bp']=user(lambda a,b:BPR(a,b)); d['lt']=user(lambda a,b:RANK(a)<RANK(b))
    def el(eng,st,I,args):
        i=eng.signed(eng.num(args[0]),64); j=z3.simplify(i-st.g['start']); a=st.g['a']
        eng.prove_all(st,eng.fn,[('reads-inside-the-given-sequence',And(0<=j,j<a.n))])
        def eff(s):
            pool_all(eng,s,[j,PI(j)],('i',)); return Ptr(z3.simplify(c(PI(j))-s.g['voff']),0)
        return [(None,eff,'ret'),(None,None,'throw')]
    d['el']=el
    def copy(eng,st,I,dst,src,k):
        """memmove of whole cells"""
        k=eng.signed(eng.num(k.e if isinstance(k,Diff) else k),64); db=dst.addr(); sb=src.addr(); old=st.heap.arr(0)
        qs=[r for r in st.g['regs']]
        eng.prove_all(st,eng.fn,[('copy-in-bounds',And(k>=0,Or(k==0,And(Or([And(r.base<=db,db+k<=r.base+8*(r.cap+1)) for r in qs]),Or([And(r.base<=sb,sb+k<=r.base+8*(r.cap+1)) for r in qs])))))])
        st.heap=Heap('C%d'%next(eng.cnt)); new=st.heap.arr(0)
        q=st.g['r1']; r0=st.g['r0']; a=st.g['a']
        def moved(i):
            x=q.at(i); y=r0.at(i); inn=lambda t:And(db<=t,t<db+k)
            return [If(inn(x),z3.Select(new,x)==z3.Select(old,x-db+sb),z3.Select(new,x)==z3.Select(old,x)),Imp(Not(inn(y)),z3.Select(new,y)==z3.Select(old,y)),Imp(And(0<=i,i<=a.n),z3.Select(new,c(i))==z3.Select(old,c(i)))]
        eng.solver.add(Or(k==0,And(q.base<=db,db+k<=q.base+8*(q.cap+1))))
        eng.add_uni(st,moved,'i','copied'); eng.add_uni(st,lambda x:[Imp(Not(And(db<=x,x<db+k)),z3.Select(new,x)==z3.Select(old,x))],'f','copied')
        # name the sources
        off=z3.simplify(eng.divexact(z3.simplify(sb-r0.base),8)-eng.divexact(z3.simplify(db-q.base),8))
        st.g=dict(st.g); st.g['terms']=list(st.g.get('terms',[]))+[lambda t,off=off:[t+off]]
        for t in list(st.pools.get('i',[])): pool_all(eng,st,[z3.simplify(t+off)],('i',))
    d['llvm.memcpy']=copy
    for n,x in eng.mod.kept.items():
        from .build import classify
        fn=classify(x)[2]
        if fn=='stable_sort':
            def sort(eng,st,I,args):
                b=addr(eng,args[0]); e=addr(eng,args[1]); r=st.g['r1']; a=st.g['a']
                eng.prove_all(st,eng.fn,[('sorts-the-whole-scratch-array',And(b==r.base,e==r.base+8*a.n))])
                def eff(s):
                    old=s.heap.arr(0); s.heap=Heap('S%d'%next(eng.cnt)); new=s.heap.arr(0); P=s.g['pos']
                    W=lambda i:z3.Select(new,r.at(i))
                    eng.add_uni(s,lambda i:[Imp(And(0<=i,i<a.n),And(0<=P(W(i)),P(W(i))<a.n,z3.Select(old,r.at(P(W(i))))==W(i))),Imp(And(0<=i,i<=a.n),And(z3.Select(new,a.r.at(i))==z3.Select(old,a.r.at(i)),z3.Select(new,c(i))==z3.Select(old,c(i))))],'i','permuted')
                    eng.add_uni(s,lambda i,w:[Imp(And(0<=i,i<w,w<a.n),Or(rk(s,W(i))<rk(s,W(w)),And(rk(s,W(i))==rk(s,W(w)),P(W(i))<P(W(w)))))],('i','i'),'sorted')
                    eng.add_uni(s,lambda x:[Imp(And(Not(r.has(x))),z3.Select(new,x)==z3.Select(old,x))],'f','sorted')
                    s.g=dict(s.g); s.g['terms']=list(s.g.get('terms',[]))+[lambda t:[P(W(t))]]
                def bad(s):
                    old=s.heap.arr(0); s.heap=Heap('S%d'%next(eng.cnt)); new=s.heap.arr(0)
                    eng.add_uni(s,lambda i:[Imp(And(0<=i,i<=a.n),And(z3.Select(new,a.r.at(i))==z3.Select(old,a.r.at(i)),z3.Select(new,c(i))==z3.Select(old,c(i))))],'i','kept')
                    eng.add_uni(s,lambda x:[Imp(And(Not(r.has(x))),z3.Select(new,x)==z3.Select(old,x))],'f','kept')
                return [(None,eff,'ret'),(None,bad,'throw')]
            d[n]=sort
        if fn=='delete_node_':
            def dele(eng,st,I,args):
                x=addr(eng,args[1]); nd=z3.simplify(x+st.g['voff'])
                eng.prove_all(st,eng.fn,[('deletes-once',And(S(nd),psel(st.heap.arr('deleted'),nd)==0))])
                return [(None,lambda s:s.heap.store('deleted','v',nd,z3.IntVal(1)),'ret')]
            d[n]=dele
        if fn=='gcd' or 'gcd' in x: pass
    def gcd(eng,st,I,args):
        n=eng.load(st,eng.ptr(args[0]),I64); m=eng.load(st,eng.ptr(args[1]),I64)
        f=lambda v:v.e if isinstance(v,Diff) else eng.signed(eng.num(v),64)
        n=z3.simplify(f(n)); m=z3.simplify(f(m))
        eng.prove_all(st,eng.fn,[('gcd/arguments',And(Or(And(n==st.g['rn'],m==st.g['rm']),And(n==st.g['rm'],m==st.g['rn']))))])
        return [(None,lambda s:Diff(s.g['rp']),'ret')]
    import re as _re
    d[_re.compile(r'integer3gcd')]=gcd
    def out(eng,st,I,args): return [(None,None,'ret')]
    for k in('_ZNSt12out_of_rangeC1EPKc','_ZNSt11logic_errorC2ERKS_','_ZNSt12out_of_rangeD1Ev','_ZNSt12length_errorC1EPKc','_ZNSt12length_errorD1Ev'): d[k]=out
    return d
class _T: pass
I64=_T(); I64.k='int'; I64.w=64; I64.size=8
def parr(eng,F,st,arg,n=None,**k):
    """pointer-array object: its fields"""
    a=A(eng,st,n,**k); o=Obj('ptrs'); st.env[arg]=Ptr(o,0); return a,fields(eng,st,o,0,a)
def fields(eng,st,o,off,a):
    ks={}
    for p,v in(('p_size',a.n),('p_cap',a.r.cap),('p_spcn',a.r.cap+1),('p_data',Ptr(a.r.base,0))):
        kk=fieldoff(eng,p,o); k=(kk[0],kk[1]+off); st.local[k]=v; ks[p]=k
        if not isinstance(v,Ptr): eng.range_fact(v,0,2**64-1)
    st.g['fld']=ks; st.g['spcn']=True
    return ks
def fld(st,k): return st.local[st.g['fld'][k]]
def index(eng,F,st,arg,**k):
    a=A(eng,st,**k); o=Obj('index'); st.env[arg]=Ptr(o,64)
    p=eng.probe('p_ptrs',[Ptr(o,64)],st.heap)
    kk={}
    for pn,v in(('p_size',a.n),('p_cap',a.r.cap),('p_spcn',a.r.cap+1),('p_data',Ptr(a.r.base,0))):
        t=Obj('t'); x=fieldoff(eng,pn,t); st.local[(o,p.o+x[1])]=v; kk[pn]=(o,p.o+x[1])
        if not isinstance(v,Ptr): eng.range_fact(v,0,2**64-1)
    def put(pn,v):
        t=Obj('t'); x=fieldoff(eng,pn,t); st.local[(o,64+x[1])]=v
    put('p_header',Ptr(z3.simplify(c(a.n)-st.g['voff']),0)); put('p_count',a.n); eng.range_fact(a.n,0,2**64-1)
    st.g['fld']=kk; st.g['obj']=o; return a,o
def array_post(st,cf,pf,n,extra=(),un=()):
    """the array object holds n elements cf(0..n-1) and the header, and is consistent"""
    a=st.g['a']; r=st.g.get('cur') or a.r
    data=fld(st,'p_data'); data=data.addr() if isinstance(data,Ptr) else data
    f=[('size',fld(st,'p_size')==n),('data',data==r.base),('capacity',fld(st,'p_cap')==r.cap),('space',fld(st,'p_spcn')==r.cap+1),('room',n<=r.cap)]+list(extra)
    return dict(facts=f,unis=[cells(st,r,n,cf),frame(st)]+([ups(st,pf)] if pf else [])+list(un))
ident=lambda i:c(i)
def case(name):
    loops=[]; name,_,side=name.partition(':')
    def setup(eng,F):
        st=St(); st.heap=Heap('h0'); st.g['eng']=eng; eng.flat=True; eng.contracts=contracts(eng); na=F.args
        p=eng.probe('p_node',[Ptr(z3.Int('nd'),0)],st.heap) if False else None
        nd=z3.Int('ndx'); q=eng.probe('p_impl',[Ptr(nd,0)],st.heap); st.g['voff']=q.o
        vq=eng.probe('p_value',[Ptr(nd,0)],st.heap); st.g['valoff']=vq.o
        if vq.o!=0: st.g['voff']=q.o-vq.o
        k,e,p_,b,d,x,n,m=z3.Ints('k e p b d x n m')
        kind=name.split('_')[0]; bare=name[2:]
        add=eng.solver.add
        if name in('f_extract','f_relocate','f_relocate_range','f_reverse','f_gather_nulls','f_transfer','f_increment','f_decrement','f_advance','f_distance'):
            a=A(eng,st,nulls=name=='f_gather_nulls'); r=a.r
        elif kind=='a' or kind=='o':
            ai=1 if name in('o_merge','o_sort') else 0
            a,_=parr(eng,F,st,na[ai]); r=a.r
            if ai: st.env[na[0]]=Ptr(Obj('al'),0)
        elif kind=='i' and name not in('i_inc','i_dec','i_adv','i_diff','i_less'):
            a,o=index(eng,F,st,na[0]); r=a.r
        else: a=A(eng,st); r=a.r
        n=a.n; g=st.g
        P=z3.Function('pos',I_,I_); g['pos']=P
        eng.add_uni(st,lambda i:[Imp(And(0<=i,i<=n,c(i)!=0),P(c(i))==i)],'i','pos')
        def at(arg,i): st.env[arg]=Ptr(r.at(i),0); eng.pool(st,i,'i')
        def node(arg,i,off=0): st.env[arg]=Ptr(z3.simplify(c(i)-off),0); eng.pool(st,i,'i')
        if name=='f_extract': add(0<=k,k<e,e<=n+1); at(na[0],k); at(na[1],e); g.update(k=k,e=e)
        elif name=='f_relocate': add(0<=k,k<=n,0<=p_,p_<=n+1,Or(p_<=n,k<p_)); at(na[0],p_); at(na[1],k); g.update(k=k,p=p_,e=p_)
        elif name in('f_relocate_range','i_relocate_range'):
            add(0<=k,k<=e,e<=n,0<=p_,p_<=n,Or(p_<k,e<=p_))
            if name[0]=='f': at(na[0],p_); at(na[1],k); at(na[2],e)
            else: node(na[1],p_,g['voff']); node(na[2],k,g['voff']); node(na[3],e,g['voff'])
            add(p_<k if side=='back' else e<=p_)
            rn=z3.simplify(e-p_ if side=='back' else p_-k); rm=z3.simplify(k-p_ if side=='back' else e-k); rp,L=z3.Ints('rp L'); g.update(B=p_ if side=='back' else k,rn=rn,rm=rm,rp=rp,k=k,e=e,p=p_)
            nx,one,two=orbit(rn,rm,rp,L); add(rp>=0,rp<=rn,Imp(rn>0,And(rp>0,L>0)))
            eng.add_uni(st,one,'v','orbit'); eng.add_uni(st,two,('v','v'),'orbit2')
        elif name in('f_reverse','i_reverse'):
            if name=='f_reverse': add(0<=b,b<=e,e<=n); at(na[0],b); at(na[1],e)
            else: add(b==0,e==n); pool_all(eng,st,[b,e],('i',))
            g.update(b=b,e=e,terms=[lambda t:[b+e-1-t]])
        elif name=='f_transfer':
            b1,cap1=z3.Ints('base1 cap1'); q=Reg(b1,cap1); add(b1>0,cap1>=0,b1+8*(cap1+1)<2**64,Or(b1+8*(cap1+1)<=r.base,b1>=r.base+8*(r.cap+1)))
            g['regs']=[r,q]; g['r1']=q; eng.add_uni(st,lambda i:[Imp(And(0<=i,i<=n),q.out(c(i)))],'i','apart')
            add(0<=b,b<=e,e<=n+1,0<=d,d+(e-b)<=cap1+1); at(na[0],b); at(na[1],e); st.env[na[2]]=Ptr(q.at(d),0); eng.pool(st,d,'i'); g.update(b=b,e=e,d=d,terms=[lambda t:[b+t-d]])
        elif name=='f_gather_nulls':
            add(0<=b,b<=x,x<=e,e<=n); at(na[0],b); at(na[1],e); at(na[2],x); g.update(b=b,e=e,x=x)
            add(RK(b)==0,SK(e)==0); eng.add_uni(st,lambda i:[RK(i+1)==RK(i)+If(c(i)!=0,1,0),SK(i)==SK(i+1)+If(c(i)!=0,1,0)],'i','counting')
        elif name in('f_increment','f_decrement','f_advance'):
            node(na[0],k); add(0<=k,k<=n)
            if name=='f_increment': add(k<n); eng.pool(st,k+1,'i')
            if name=='f_decrement': add(k>0); eng.pool(st,k-1,'i')
            if name=='f_advance': t=z3.Int('t'); eng.range_fact(t,0,2**64-1); st.env[na[1]]=t; s=eng.signed(t,64); add(0<=k+s,k+s<=n); g['to']=z3.simplify(k+s); eng.pool(st,g['to'],'i')
            g['k']=k
        elif name=='f_distance': node(na[0],k); node(na[1],e); add(0<=k,k<=n,0<=e,e<=n); g.update(k=k,e=e)
        elif name in('i_inc','i_dec','i_adv','i_diff','i_less'):
            o=Obj('it'); st.env[na[0]]=Ptr(o,0); add(0<=k,k<=n); st.local[(o,0)]=Ptr(z3.simplify(c(k)-g['voff']),0); eng.pool(st,k,'i'); g['k']=k
            if name=='i_inc': add(k<n); eng.pool(st,k+1,'i')
            if name=='i_dec': add(k>0); eng.pool(st,k-1,'i')
            if name=='i_adv': t=z3.Int('t'); eng.range_fact(t,0,2**64-1); st.env[na[1]]=t; s=eng.signed(t,64); add(0<=k+s,k+s<=n); g['to']=z3.simplify(k+s); eng.pool(st,g['to'],'i')
            if name in('i_diff','i_less'): o2=Obj('it2'); st.env[na[1]]=Ptr(o2,0); add(0<=e,e<=n); st.local[(o2,0)]=Ptr(z3.simplify(c(e)-g['voff']),0); eng.pool(st,e,'i'); g['e']=e
        elif name=='a_push_back':
            st.env[na[1]]=Ptr(x,0); add(n<r.cap,x>0,x<2**64-64,r.out(x),Not(S(x))); g['extra']=[x]; g['x']=x; eng.add_uni(st,lambda i:[Imp(And(0<=i,i<=n),c(i)!=x)],'i','new'); pool_all(eng,st,[z3.simplify(n+1)],('i',))
        elif name=='a_erase': add(0<=k,k<n); node(na[1],k); g.update(k=k,e=z3.simplify(n+1))
        elif name=='a_reserve': t=z3.Int('want'); eng.range_fact(t,0,2**64-1); st.env[na[1]]=t; g['want']=t
        elif name=='a_swap':
            # the other array: an independent object
            o2=Obj('ptrs2'); st.env[na[1]]=Ptr(o2,0); g['fld2']={}
            for pn in('p_size','p_cap','p_spcn','p_data'):
                kk=fieldoff(eng,pn,o2); v=z3.Int('other_'+pn)
                st.local[kk]=Ptr(v,0) if pn=='p_data' else v; g['fld2'][pn]=kk
                if pn!='p_data': eng.range_fact(v,0,2**64-1)
            g['old']={pn:(st.local[g['fld'][pn]],st.local[g['fld2'][pn]]) for pn in g['fld2']}
        elif name=='a_at': add(0<=k,k<=n); eng.range_fact(k,0,2**64-1); st.env[na[1]]=k; eng.pool(st,k,'i'); g['k']=k
        elif name=='o_remove':
            add(KR(0)==0); eng.add_uni(st,lambda i:[KR(i+1)==KR(i)+If(PRD(VAL(st,c(i))),0,1)],'i','counting')
        elif name=='o_unique':
            kept=lambda i:Or(i==0,Not(BPR(VAL(st,c(LK(i-1))),VAL(st,c(i))))); g['kept']=kept
            add(KR(0)==1,LK(0)==0); eng.add_uni(st,lambda i:[Imp(i>0,And(KR(i)==KR(i-1)+If(kept(i),1,0),LK(i)==If(kept(i),i,LK(i-1))))],'i','counting')
        elif name=='o_merge':
            g['r1']=Reg(z3.IntVal(0),z3.IntVal(-1)); g['twostep']=True
            add(0<=m,m<=n); at(na[2],m); g['m']=m
            for lo,hi in((0,m),(m,n)): eng.add_uni(st,lambda i,w,lo=lo,hi=hi:[Imp(And(lo<=i,i<w,w<hi),rk(st,c(i))<=rk(st,c(w)))],('i','i'),'sorted-input')
        elif name in('i_index','i_at'):
            t=z3.Int('pos_'); eng.range_fact(t,0,2**64-1); st.env[na[1]]=t; g['k']=t; eng.pool(st,t,'i')
            if name=='i_index': add(t<n)
        elif name=='i_relocate':
            add(0<=k,k<n,0<=p_,p_<=n); node(na[1],p_,g['voff']); node(na[2],k,g['voff']); g.update(k=k,p=p_,e=p_)
        elif name=='i_rearrange':
            t=z3.Int('start'); eng.range_fact(t,0,2**64-1); st.env[na[1]]=t; g['start']=eng.signed(t,64); add(g['start']>=0,g['start']+n<2**62)
            eng.add_uni(st,lambda i:[Imp(And(0<=i,i<n),And(0<=PI(i),PI(i)<n))],'i','given'); eng.add_uni(st,lambda i,w:[Imp(And(0<=i,i<w,w<n),PI(i)!=PI(w))],('i','i'),'given')
            g['terms']=[lambda t:[PI(t)]]
        elif name=='i_delete_all':
            D=st.heap.arr('deleted'); eng.add_uni(st,lambda i:[Imp(And(0<=i,i<=n),psel(D,c(i))==0)],'i','alive')
        if name[0]=='i' and name in('i_index','i_at','i_begin','i_end','i_capacity','i_relocate','i_relocate_range','i_reverse','i_rearrange','i_delete_all'):
            o=g['obj']; st.g['idxobj']=o
            # header node pointer and size of the whole container live in the same object: discovered by load
            g['loads']=True
        g['onthrow']=onthrow
        return st
    def onthrow(st):
        a=st.g['a']; eng=st.g['eng']
        out=[]
        if name in('a_room_for_one','a_reserve','a_shrink_to_fit','o_merge','o_sort'):
            g=post_same(eng,st)
        elif name in('o_remove','o_unique','i_rearrange'):
            g=dict(facts=[('size',fld(st,'p_size')==a.n)],unis=[valid(st,a.r,a.n),frame(st),('header',lambda i:[('h',Imp(i==a.n,M(st,a.r.at(a.n))==c(a.n)))],'i')])
        elif name=='i_at':
            g=post_same(eng,st); g['facts'].append(('only-when-out-of-range',st.g['k']>=a.n))
        else: return [('unexpected-exception',z3.BoolVal(False))]
        for u in g['unis']: eng.prove_uni(st,'throw/'+u[0],u[1],u[2])
        live=st.g.get('live',())
        g['facts'].append(('no-leak',z3.BoolVal(not live)))
        return g['facts']
    def post_same(eng,st):
        a=st.g['a']; return array_post(st,ident,lambda i:a.r.at(i),a.n)
    def post(eng,st,val):
        g=st.g; a=g['a']; r=a.r; n=a.n; k=g.get('k'); e=g.get('e'); p_=g.get('p'); live=g.get('live',())
        pu=lambda cf,pf,n_=n: dict(facts=[],unis=[cells(st,r,n_,cf),ups(st,lambda i:r.at(pf(i))),frame(st)])
        nodeof=lambda v:(lambda t:z3.simplify(t+g['voff']))(addr(eng,v))
        nl=('no-leak',z3.BoolVal(not live)); same=lambda:[cells(st,r,n,ident),ups(st,lambda i:r.at(i)),frame(st)]
        if name=='f_extract': cf,pf=shift_down(k,e); return pu(cf(e-1),pf(e-1))
        if name in('f_relocate','i_relocate'):
            cf,pf=relocated(k,p_); 
            if name[0]=='i':
                q=array_post(st,lambda i:If(k==p_,c(i),cf(i)),lambda i:r.at(If(k==p_,i,pf(i))),n); return q
            return pu(cf,pf)
        if name in('f_relocate_range','i_relocate_range'):
            # [k,e) moved before p
            mv=lambda i:If(z3.BoolVal(side=='back'),If(And(p_<=i,i<p_+(e-k)),k+(i-p_),If(And(p_+(e-k)<=i,i<e),i-(e-k),i)),If(And(k<=i,i<k+(p_-e)),i+(e-k),If(And(k+(p_-e)<=i,i<p_),i-(p_-e),i)))
            iv=lambda i:If(z3.BoolVal(side=='back'),If(And(k<=i,i<e),p_+(i-k),If(And(p_<=i,i<k),i+(e-k),i)),If(And(k<=i,i<e),i+(p_-e),If(And(e<=i,i<p_),i-(e-k),i)))
            return pu(lambda i:c(mv(i)),iv)
        if name in('f_reverse','i_reverse'):
            b=g['b']; mm=lambda i:If(And(b<=i,i<e),b+e-1-i,i); return pu(lambda i:c(mm(i)),mm)
        if name=='f_transfer':
            q=g['r1']; b=g['b']; d=g['d']
            return dict(facts=[],unis=[('target',lambda i:[('cell',Imp(And(d<=i,i<d+(e-b)),M(st,q.at(i))==c(b+i-d)))],'i'),ups(st,lambda i:If(And(b<=i,i<e),q.at(d+i-b),r.at(i))),frame(st)])
        if name=='f_gather_nulls':
            b=g['b']; x=g['x']
            return dict(facts=[('result',addr(eng,val)==r.at(b+RK(x)))],unis=[('gathered',lambda i:[('low',Imp(And(b<=i,i<x,c(i)!=0),And(M(st,r.at(b+RK(i)))==c(i),M(st,c(i))==r.at(b+RK(i))))),
               ('high',Imp(And(x<=i,i<e,c(i)!=0),And(M(st,r.at(e-SK(i)))==c(i),M(st,c(i))==r.at(e-SK(i))))),('outside',Imp(And(0<=i,i<=n,Or(i<b,i>=e)),M(st,r.at(i))==c(i)))],'i'),frame(st)])
        if name in('f_increment','i_inc'): return dict(facts=[('next',(addr(eng,val) if name[0]=='f' else nodeof(val))==c(k+1)),('frame',z3.BoolVal(not st.touched))])
        if name in('f_decrement','i_dec'): return dict(facts=[('prior',(addr(eng,val) if name[0]=='f' else nodeof(val))==c(k-1)),('frame',z3.BoolVal(not st.touched))])
        if name in('f_advance','i_adv'): return dict(facts=[('at',(addr(eng,val) if name[0]=='f' else nodeof(val))==c(g['to'])),('frame',z3.BoolVal(not st.touched))])
        sg=lambda v:v.e if isinstance(v,Diff) else eng.signed(eng.num(v),64)
        if name=='f_distance': return dict(facts=[('distance',sg(val)==e-k),('frame',z3.BoolVal(not st.touched))])
        if name=='i_diff': return dict(facts=[('distance',sg(val)==k-e),('frame',z3.BoolVal(not st.touched))])
        if name=='i_less': return dict(facts=[('order',eng.boolv(val)==(k<e)),('frame',z3.BoolVal(not st.touched))])
        if name in('a_room_for_one','a_reserve','a_shrink_to_fit'):
            cur=r
            if g.get('newbase') is not None: cur=g['r1']
            g['cur']=cur; cap=fld(st,'p_cap')
            ex=[('elements-array-owned',z3.BoolVal(True) if cur is r and not g.get('oldfreed') and not live else And(z3.BoolVal(bool(g.get('oldfreed'))),z3.BoolVal(len(live)==1)))]
            if name=='a_room_for_one': ex.append(('room-for-one-more',n<cap))
            if name=='a_reserve': ex+=[('enough',cap>=g['want']),('not-less',cap>=r.cap)]
            if name=='a_shrink_to_fit': ex.append(('fits',cap==n))
            return array_post(st,ident,lambda i:cur.at(i),n,ex)
        if name=='a_push_back':
            x=g['x']; q=array_post(st,lambda i:If(i<n,c(i),If(i==n,x,c(n))),lambda i:r.at(If(i==n,n+1,i)),n+1); q['facts'].append(('new-up',M(st,x)==r.at(n))); return q
        if name=='a_erase':
            q=array_post(st,lambda i:If(i<k,c(i),c(i+1)),None,n-1); q['unis'].append(('ups',lambda i:[('up',Imp(And(0<=i,i<=n,i!=k),M(st,c(i))==r.at(If(i>k,i-1,i))))],'i')); return q
        if name=='a_clear':
            q=array_post(st,lambda i:c(n),None,z3.IntVal(0)); q['facts']+=[('header-up',M(st,c(n))==r.base)]; return q
        if name=='a_swap':
            F2=g['fld2']; A_=lambda v:v.addr() if isinstance(v,Ptr) else v
            return dict(facts=[('exchanged',And([And(A_(st.local[g['fld'][pn]])==A_(g['old'][pn][1]),A_(st.local[F2[pn]])==A_(g['old'][pn][0])) for pn in F2]))],unis=same())
        if name=='a_begin': return dict(facts=[('first-cell',addr(eng,val)==r.base)],unis=same())
        if name=='a_end': return dict(facts=[('end-cell',addr(eng,val)==r.at(n))],unis=same())
        if name=='a_at': return dict(facts=[('cell',addr(eng,val)==r.at(k))],unis=same())
        if name=='o_remove':
            K=lambda i:Not(PRD(VAL(st,c(i)))); nd=nodeof(val)
            return dict(facts=[('size',fld(st,'p_size')==n),('returns-first-to-drop',nd==M(st,r.at(KR(n))))],unis=[('kept-in-order',lambda i:[('kept',Imp(And(0<=i,i<n,K(i)),M(st,r.at(KR(i)))==c(i))),('dropped',Imp(And(KR(n)<=i,i<n),PRD(VAL(st,M(st,r.at(i))))))],'i'),valid(st,r,n),
               ('header',lambda i:[('h',Imp(i==n,M(st,r.at(n))==c(n)))],'i'),frame(st)])
        if name=='o_unique':
            nd=nodeof(val); cnt=If(n==0,0,KR(n-1)); pool_all(eng,st,[z3.simplify(n-1)],('i',))
            return dict(facts=[('size',fld(st,'p_size')==n),('returns-first-to-drop',nd==M(st,r.at(cnt)))],unis=[('kept-in-order',lambda i:[('kept',Imp(And(0<=i,i<n,g['kept'](i)),M(st,r.at(KR(i)-1))==c(i)))],'i'),valid(st,r,n),
               ('header',lambda i:[('h',Imp(i==n,M(st,r.at(n))==c(n)))],'i'),frame(st)])
        if name in('o_merge','o_sort'):
            P=g['pos']; W=lambda i:M(st,r.at(i))
            q=array_post(st,lambda i:W(i),None,n,[nl])
            q['unis']=[('permutation',lambda i:[('one-of-the-elements',Imp(And(0<=i,i<n),And(0<=P(W(i)),P(W(i))<n,c(P(W(i)))==W(i),M(st,W(i))==r.at(i)))),('header',Imp(i==n,And(W(i)==c(n),M(st,c(n))==r.at(n))))],'i'),
               ('order',lambda i,w:[('sorted-stable',Imp(And(0<=i,i<w,w<n),Or(rk(st,W(i))<rk(st,W(w)),And(rk(st,W(i))==rk(st,W(w)),P(W(i))<P(W(w))))))],('i','i')),frame(st)]
            return q
        if name=='i_index': q=post_same(eng,st); q['facts'].append(('element',addr(eng,val)==c(k)-g['voff']+g['valoff'])); return q
        if name=='i_at': q=post_same(eng,st); q['facts']+=[('element',addr(eng,val)==c(k)-g['voff']+g['valoff']),('in-range',k<n)]; return q
        if name=='i_begin': q=post_same(eng,st); q['facts'].append(('first',nodeof(val)==c(0))); return q
        if name=='i_end': q=post_same(eng,st); q['facts'].append(('end',nodeof(val)==c(n))); return q
        if name=='i_capacity': q=post_same(eng,st); q['facts']+=[('capacity',eng.num(val)==r.cap),('holds-size',eng.num(val)>=n)]; return q
        if name=='i_rearrange': return dict(facts=[('size',fld(st,'p_size')==n)],unis=[cells(st,r,n,lambda i:If(i<n,c(PI(i)),c(n))),valid(st,r,n),frame(st)])
        if name=='i_delete_all':
            D=st.heap.arr('deleted'); return dict(facts=[],unis=[('deleted',lambda i:[('every-element-once-header-not',Imp(And(0<=i,i<=n),psel(D,c(i))==If(i<n,1,0)))],'i')])
    L={'f_extract':[down_loop()],'a_erase':[down_loop()],'f_relocate':[down_loop(),up_loop()],'i_relocate':[down_loop(),up_loop()],'f_reverse':[reverse_loop()],'i_reverse':[reverse_loop()],'f_transfer':[transfer_loop()],
       'f_gather_nulls':[gather1(),gather2()],'f_relocate_range':[rot_outer(),rot_inner()],'i_relocate_range':[rot_outer(),rot_inner()],'o_remove':[remove_loop()],'o_unique':[unique_loop()],
       'o_merge':[merge_loop(),copyback_loop()],'o_sort':[copyback_loop()],'i_rearrange':[rearrange_loop()],'i_delete_all':[delall_loop()]}.get(name,[])
    if name in('a_room_for_one','a_reserve','a_shrink_to_fit'):
        t=transfer_loop(); inner=t.inv
        def inv(eng,st,roles,phase):
            if 'r1' not in st.g: raise RoleMismatch()
            st.g=dict(st.g); st.g.update(b=z3.IntVal(0),e=st.g['a'].n+1,d=z3.IntVal(0)); return inner(eng,st,roles,phase)
        t.inv=inv; L=[t]
    return setup,L,post
CASES=['f_increment','f_decrement','f_advance','f_distance','f_extract','f_relocate','f_relocate_range:back','f_relocate_range:fwd','f_transfer','f_reverse','f_gather_nulls',
  'a_room_for_one','a_reserve','a_shrink_to_fit','a_push_back','a_erase','a_clear','a_swap','a_begin','a_end','a_at',
  'o_remove','o_unique','o_merge','o_sort',
  'i_index','i_at','i_begin','i_end','i_capacity','i_inc','i_dec','i_adv','i_diff','i_less','i_relocate','i_relocate_range:back','i_relocate_range:fwd','i_reverse','i_rearrange','i_delete_all']
def run(eng,name):
    eng.perentry=True; eng.pure={'pr','bp','lt','el'}
    setup,loops,post=case(name)
    run_case(eng,name,name.split(':')[0],setup,loops,post,skhook=rothook)
