"""Symbolic executor + verification-condition generator over LLVM IR.

Deductive, path-wise: every path between cut points (function entry, loop heads, exits) is
turned into obligations discharged by an SMT solver.  Loops are cut with invariants, calls to
functions under contract are replaced by their contract, everything else has been inlined.
There is no bound on loop iterations, heap size or input values.

Memory model: a pointer is (base, constant offset); the heap is a family of total maps, one per
constant offset from a canonical base (assumption TYPED-HEAP: distinct canonical objects of the
verified kinds do not partially overlap).  Allocas that survive sroa are concrete local objects.
"""
import time, itertools, os, zlib
import z3
from .llir import Module, Arg, Const, Instr

class ToolError(Exception): pass          # the verifier does not support this code: undecided
class Budget(Exception): pass

I0=z3.IntVal(0)
def iv(x): return z3.IntVal(x) if isinstance(x,int) else x

class Ptr:
    __slots__=('b','o')
    def __init__(s,b,o=0): s.b=b; s.o=o          # b: z3 Int term, or Obj
    def addr(s):
        if isinstance(s.b,Obj): return s.b.sym+s.o if s.o else s.b.sym
        return z3.simplify(s.b+s.o) if s.o else s.b
    def __repr__(s): return 'Ptr(%s,%d)'%(s.b,s.o)
class Obj:
    """stack object or global"""
    cnt=itertools.count()
    def __init__(s,name): s.name=name; s.id=next(Obj.cnt); s.sym=z3.Int('obj!%s!%d'%(name,s.id))
    def __repr__(s): return s.name
class TW:
    """tagged word: an even pointer plus a bit"""
    __slots__=('p','t')
    def __init__(s,p,t): s.p=p; s.t=t
class Fn:
    def __init__(s,n): s.name=n
class Undef: pass
UNDEF=Undef()
class Agg:
    def __init__(s,e): s.e=list(e)

NULL=Ptr(I0,0)

class Heap:
    """family of arrays, one per (offset, aspect); lazily created from an epoch name"""
    __slots__=('ep','m')
    def __init__(s,ep,m=None): s.ep=ep; s.m=m or {}
    def copy(s): return Heap(s.ep,dict(s.m))
    def arr(s,off,asp='v'):
        k=(off,asp)
        a=s.m.get(k)
        if a is None:
            a=z3.Array('%s_o%s%s'%(s.ep,str(off).replace('-','m'),'' if asp=='v' else '_'+asp),z3.IntSort(),z3.IntSort())
            # not cached on purpose in a shared snapshot: name is deterministic
            s.m[k]=a
        return a
    def store(s,off,asp,b,v): s.m[(off,asp)]=z3.Store(s.arr(off,asp),b,v)
    def havoc(s,keys,tag):
        for k in keys: s.m[k]=z3.Array('%s_h%s_o%s_%s'%(s.ep,tag,str(k[0]).replace('-','m'),k[1]),z3.IntSort(),z3.IntSort())

def psel(a,b):
    """select with syntactic read-over-write"""
    x=a
    while z3.is_store(x):
        if x.arg(1).eq(b): return x.arg(2)
        if z3.is_int_value(x.arg(1)) and z3.is_int_value(b): x=x.arg(0); continue
        break
    else: return z3.Select(x,b)
    return z3.Select(a,b)

class Uni:
    """universally quantified hypothesis, instantiated on the ground terms of a pool"""
    def __init__(s,fn,pool='p',name=''): s.fn=fn; s.pool=pool; s.name=name; s.done=set()

class St:
    def __init__(s):
        s.env={}; s.heap=None; s.g={}; s.pools={}; s.unis=[]; s.local={}; s.touched=[]; s.entered={}; s.trace=[]; s.events=[]; s.exc=None; s.nfact=0
        s.last=None
    def fork(s):
        t=St(); t.env=dict(s.env); t.heap=s.heap.copy(); t.g=dict(s.g); t.pools={k:list(v) for k,v in s.pools.items()}
        t.unis=[]
        for u in s.unis:
            w=Uni(u.fn,u.pool,u.name); w.done=set(u.done); t.unis.append(w)
        t.local=dict(s.local); t.touched=list(s.touched); t.entered=dict(s.entered); t.trace=list(s.trace); t.events=list(s.events); t.exc=s.exc
        return t

class LoopSpec:
    """candidate loop contract. roles: list of (name, kind) bound to loop phis; inv(eng,st,roles)->Inv"""
    def __init__(s,name,roles,inv,fresh=False,havoc=None,close=None,writes=None,mk=None): s.mk=mk or {}; s.writes=writes; s.name=name; s.roles=roles; s.inv=inv; s.fresh=fresh; s.havoc=havoc; s.close=close

class Oblig:
    __slots__=('fn','name','status','t','path','model','backend')
    def __init__(s,fn,name,status,t,path,model=None,backend='z3'): s.fn=fn; s.name=name; s.status=status; s.t=t; s.path=path; s.model=model; s.backend=backend

class Engine:
    def __init__(self,mod,timeout=20000,contracts=None,verbose=False,budget=600,tagged=(),kinds=None,maxpaths=4000):
        self.mod=mod; self.solver=z3.SolverFor('QF_AUFLIRA') if False else z3.Solver()
        self.solver.set('timeout',timeout); self.timeout=timeout
        self.contracts=contracts or {}; self.verbose=verbose
        self.obl=[]; self.cnt=itertools.count(); self.tagged=set(tagged); self.kinds=kinds or {}
        self.t_end=time.time()+budget; self.ranges={}; self.assumed=set(); self.maxpaths=maxpaths
        self.reach=0; self.qtime=0.0; self.nq=0
        self.notes=set()
        self.intfields={}          # offset -> width for integer fields (range facts)
        self.defpool='p'
        self.pool_offs=None        # only pointers loaded from these offsets enter the pool (None: all)
        self.on_store=None; self.canon=None
        self.nowrap=False
    # ---------- utilities
    def fresh(self,name,sort='int'):
        n='%s!%d'%(name,next(self.cnt))
        return {'int':z3.Int,'bool':z3.Bool,'real':z3.Real}[sort](n)
    def fresharr(self,name,rng):
        return z3.Array('%s!%d'%(name,next(self.cnt)),z3.IntSort(),{'int':z3.IntSort(),'bool':z3.BoolSort(),'real':z3.RealSort()}[rng])
    def rng(self,e):
        if z3.is_int_value(e): v=e.as_long(); return (v,v)
        return self.ranges.get(e.get_id(),(None,None))
    def setrng(self,e,lo,hi):
        self.ranges[e.get_id()]=(lo,hi); self._keep=getattr(self,'_keep',[]); self._keep.append(e)
    # ---------- facts
    def assume(self,st,f,why=None):
        if f is True: return
        self.solver.add(f)
    def pool(self,st,t,pool=None):
        pool=pool or self.defpool
        l=st.pools.setdefault(pool,[])
        for x in l:
            if x.eq(t): return
        l.append(t)
        self.inst(st)
    def add_uni(self,st,fn,pool='p',name=''):
        st.unis.append(Uni(fn,pool,name)); self.inst(st)
    def inst(self,st):
        changed=True
        if getattr(self,'_insting',False): self._again=True; return
        self._insting=True
        try:
            while changed:
                changed=False; self._again=False
                for u in list(st.unis):
                    pools=u.pool if isinstance(u.pool,tuple) else (u.pool,)
                    for combo in itertools.product(*[list(st.pools.get(p,())) for p in pools]):
                        key=tuple(c.get_id() for c in combo)
                        if key in u.done: continue
                        u.done.add(key); changed=True
                        fs=u.fn(*combo)
                        for f in (fs if isinstance(fs,list) else [fs]):
                            if isinstance(f,tuple): f=f[1]
                            if f is not True: self.solver.add(f)
                if self._again: changed=True
        finally: self._insting=False
    def check(self,*extra):
        if time.time()>self.t_end: raise Budget()
        t=time.time()
        r=self.solver.check(*extra)
        self.qtime+=time.time()-t; self.nq+=1
        return r
    def feasible(self,*extra):
        return self.check(*extra)!=z3.unsat
    def mine(self,st,name):
        return self.part is None or zlib.crc32(('>'.join(st.trace)+'|'+name).encode())%self.part[1]==self.part[0]
    def prove_all(self,st,fn,goals,name=None):
        """goals: list of (name, formula). One conjunctive query first; on failure one query each."""
        goals=[(n,f) for n,f in goals if f is not True]
        if not goals: return True
        mine=self.mine(st,name if name is not None else ','.join(n for n,_ in goals))
        if not mine and not self.noskip: return True
        rec=self.obl if mine else []
        t=time.time()
        self.solver.push()
        try:
            self.solver.add(z3.Not(z3.And([f for _,f in goals])))
            r=self.check()
        finally: self.solver.pop()
        dt=(time.time()-t)/len(goals)
        pth='>'.join(st.trace[-30:])
        if r==z3.unsat:
            for n,f in goals: rec.append(Oblig(fn,n,'ok',dt,pth))
            return True
        ok=True
        for n,f in goals:
            t=time.time(); be="z3"; m=None; self.curgoal=n; self.altmodel=None
            self.solver.push()
            try:
                self.solver.add(z3.Not(f)); r=self.check()
                if r==z3.unknown: r,be=self.retry()
                if r==z3.sat:
                    try: m=self.model_text(st)
                    except Exception as e: m='(no model: %s)'%e
            finally: self.solver.pop()
            s='ok' if r==z3.unsat else 'failed' if r==z3.sat else 'unknown'
            if s!='ok':
                ok=False
                if self.verbose: print('   FAIL',fn,n,s,pth)
                if self.stop_on_fail: 
                    rec.append(Oblig(fn,n,s,time.time()-t,pth,m,be)); raise TrialFail()
            rec.append(Oblig(fn,n,s,time.time()-t,pth,m,be))
        return ok
    stop_on_fail=False; part=None; noskip=0
    ranked=False; sizeonly=False
    perentry=False   # choose the loop contract anew at every entry to a loop
    def retry(self):
        s2=z3.Solver(); s2.set('timeout',self.timeout*2); s2.set('random_seed',7)
        s2.add(self.solver.assertions()); r=s2.check()
        self.altmodel=s2.model() if r==z3.sat else None
        if r!=z3.unknown: return r,'z3(fresh)'
        try:
            import cvc5
            sm='(set-logic ALL)\n'+s2.to_smt2()
            import subprocess,tempfile
            with tempfile.NamedTemporaryFile('w',suffix='.smt2',delete=False) as f: f.write(sm)
            p=subprocess.run(['cvc5','--tlimit=%d'%(self.timeout*2),f.name],capture_output=True,text=True); os.unlink(f.name)
            o=p.stdout.strip().split('\n')[0] if p.stdout else ''
            if o=='unsat': return z3.unsat,'cvc5'
            if o=='sat': return z3.sat,'cvc5'
        except Exception: pass
        return z3.unknown,'none'
    def getmodel(self): return self.altmodel if self.altmodel is not None else self.solver.model()
    def model_text(self,st):
        m=self.getmodel(); out=[]
        for d in m.decls():
            s=str(d)
            if d.arity()==0 and len(out)<60: out.append('%s=%s'%(s,str(m[d])[:120]))
        return '; '.join(out)
    # ---------- values
    def val(self,st,v):
        if isinstance(v,(Instr,Arg)):
            if v not in st.env: raise ToolError('undefined value %r (line %s)'%(v,getattr(v,'line','?')))
            return st.env[v]
        if isinstance(v,Const):
            k=v.kind
            if k=='int':
                if v.ty.w==1: return z3.BoolVal(bool(v.v))
                return z3.IntVal(v.v)
            if k=='null': return NULL
            if k=='undef': return UNDEF
            if k=='func': return Fn(v.v)
            if k=='global': return self.glob(v.v)
            if k=='zero':
                return self.zero(v.ty)
            if k in('struct','array'): return Agg([self.val(st,o) for o in v.ops])
            if k=='fp': return z3.RealVal(repr(v.v))
            if k=='expr':
                if v.v=='gep': return self.gep(st,v.src,[self.val(st,o) for o in v.ops],v.ops)
                if v.v in('inttoptr','ptrtoint','bitcast'): return self.val(st,v.ops[0])
        raise ToolError('constant %r'%v)
    def zero(self,ty):
        if ty.k=='int': return z3.BoolVal(False) if ty.w==1 else I0
        if ty.k=='ptr': return NULL
        if ty.k=='struct': return Agg([self.zero(e) for e in ty.elts])
        if ty.k in('double','float'): return z3.RealVal(0)
        raise ToolError('zero of '+ty.k)
    globs={}
    def glob(self,n):
        g=self.__dict__.setdefault('_globs',{})
        if n not in g: g[n]=Obj('@'+n)
        return Ptr(g[n],0)
    def ptr(self,v):
        if isinstance(v,Ptr): return v
        if isinstance(v,TW): 
            raise ToolError('tagged word used as pointer')
        if isinstance(v,z3.ArithRef): return Ptr(v,0)
        if v is UNDEF: return Ptr(self.fresh('undef'),0)
        raise ToolError('not a pointer: %r'%v)
    def num(self,v,w=64):
        if isinstance(v,z3.ArithRef): return v
        if isinstance(v,z3.BoolRef): return z3.If(v,z3.IntVal(1),z3.IntVal(0))
        if isinstance(v,Ptr): return v.addr()
        if isinstance(v,TW): return v.p.addr()+v.t
        if v is UNDEF:
            x=self.fresh('undef'); self.solver.add(x>=0,x<2**w); return x
        raise ToolError('not a number %r'%v)
    def boolv(self,v):
        if isinstance(v,z3.BoolRef): return v
        if v is UNDEF: return self.fresh('undef','bool')
        if isinstance(v,z3.ArithRef): return v!=0
        raise ToolError('not a bool %r'%v)
    # ---------- memory
    def norm(self,p):
        """canonical (base,off)"""
        b=p.b; o=p.o
        if isinstance(b,Obj): return b,o
        if self.flat: return (z3.simplify(b+o) if o else b),0
        if not self.nofold and z3.is_app(b) and b.decl().kind()==z3.Z3_OP_ADD:
            c=0; rest=[]
            for a in b.children():
                if z3.is_int_value(a): c+=a.as_long()
                else: rest.append(a)
            if c and len(rest)==1: return rest[0],o+c
        return b,o
    def load(self,st,p,ty,heap=None):
        b,o=self.norm(p)
        if isinstance(b,Obj):
            if ty.k in('struct','array'):
                raise ToolError('aggregate load')
            k=(b,o)
            if k in st.local: return st.local[k]
            v=self.freshval(ty,'loc_%s_%d'%(b.name,o)); 
            st.local[k]=v
            return v
        h=heap or st.heap
        return self.hload(st,h,b,o,ty)
    def hload(self,st,h,b,o,ty):
        if ty.k=='int' and o in self.tagged and ty.w==64:
            t=psel(h.arr(o,'t'),b); p=psel(h.arr(o,'p'),b)
            self.range_fact(t,0,1)
            if not st is None and (self.pool_offs is None or o in self.pool_offs): self.pool(st,p)
            return TW(Ptr(p,0),t)
        if ty.k=='ptr':
            if o in self.tagged: raise ToolError('pointer load of tagged word')
            a=psel(h.arr(o),b)
            adj=self.kinds.get(o,0)
            if adj is None: return Ptr(a,0)
            if self.canon:
                a2=self.canon(st,a)
                if a2 is not None: return Ptr(a2,0)
            p=Ptr(a,0) if adj==0 else Ptr(z3.simplify(a-adj),adj)
            if st is not None and (self.pool_offs is None or o in self.pool_offs): self.pool(st,p.b)
            return p
        if ty.k=='int':
            x=psel(h.arr(o),b)
            if ty.w==1: return x!=0
            self.range_fact(x,0,2**ty.w-1)
            return x
        if ty.k in('double','float'):
            return FBits(psel(h.arr(o),b))
        raise ToolError('load of %s'%ty.k)
    def range_fact(self,x,lo,hi):
        if z3.is_int_value(x): return
        i=x.get_id()
        if self.ranges.get(i)!=(lo,hi):
            self.setrng(x,lo,hi)
        self.solver.add(x>=lo,x<=hi)
    def freshval(self,ty,name):
        if ty.k=='int':
            if ty.w==1: return self.fresh(name,'bool')
            x=self.fresh(name); self.range_fact(x,0,2**ty.w-1); return x
        if ty.k=='ptr': return Ptr(self.fresh(name),0)
        if ty.k=='struct': return Agg([self.freshval(e,name+str(i)) for i,e in enumerate(ty.elts)])
        if ty.k in('float','double'): return self.fresh(name,'real')
        raise ToolError('fresh '+ty.k)
    def store(self,st,p,v,ty):
        b,o=self.norm(p)
        if isinstance(b,Obj):
            st.local[(b,o)]=v; return
        if not any(x.eq(b) for x in st.touched): st.touched.append(b)
        if self.on_store: self.on_store(st,b,o,v,ty)
        if ty.k=='int' and o in self.tagged and ty.w==64:
            if isinstance(v,TW): tp,t=v.p.addr(),v.t
            elif isinstance(v,Ptr): tp,t=v.addr(),I0
            elif z3.is_int_value(v) and v.as_long() in(0,1): tp,t=I0,v
            else: raise ToolError('untagged integer stored in tagged word')
            st.heap.store(o,'p',b,tp); st.heap.store(o,'t',b,t); return
        if ty.k=='ptr':
            if isinstance(v,Fn): v=Ptr(z3.Int('fn!'+v.name),0)
            st.heap.store(o,'v',b,self.ptr(v).addr()); return
        if ty.k=='int':
            if ty.w==1: v=z3.If(self.boolv(v),z3.IntVal(1),I0)
            st.heap.store(o,'v',b,self.num(v,ty.w)); return
        if isinstance(v,FBits): st.heap.store(o,'v',b,v.e); return
        raise ToolError('store of %s'%ty.k)
    # ---------- integer arithmetic (unsigned representation of w-bit words)
    def wrap(self,e,w,lo=None,hi=None):
        M=2**w
        e=z3.simplify(e)
        if z3.is_int_value(e): return z3.IntVal(e.as_long()%M)
        if lo is not None and lo>=0 and hi<M:
            self.setrng(e,lo,hi); return e
        if lo is not None and lo>=-M and hi<2*M:
            r=e
            if lo<0: r=z3.If(e<0,e+M,r)
            if hi>=M: r=z3.If(e>=M,e-M,r)
            self.setrng(r,0,M-1); return r
        r=e%M; self.setrng(r,0,M-1); return r
    def r2(self,x,w):
        lo,hi=self.rng(x)
        if lo is None: lo,hi=0,2**w-1
        return lo,hi
    def signed(self,x,w):
        lo,hi=self.rng(x)
        if hi is not None and hi<2**(w-1): return x
        if z3.is_int_value(x):
            v=x.as_long(); return z3.IntVal(v-2**w if v>=2**(w-1) else v)
        return z3.If(x>=2**(w-1),x-2**w,x)
    def diffwrap(self,x,w): return x
    def arith(self,st,I,op,a,b,w):
        if isinstance(a,TW) or isinstance(b,TW) or isinstance(a,Ptr) or isinstance(b,Ptr):
            return self.ptrarith(st,I,op,a,b,w)
        if w==1:
            a=self.boolv(a); b=self.boolv(b)
            if op=='and': return z3.And(a,b)
            if op=='or': return z3.Or(a,b)
            if op=='xor': return z3.Xor(a,b)
            if op in('add','sub'): return z3.Xor(a,b)
            raise ToolError('i1 '+op)
        a=self.num(a,w); b=self.num(b,w); M=2**w
        la,ha=self.r2(a,w); lb,hb=self.r2(b,w)
        ca=a.as_long() if z3.is_int_value(a) else None; cb=b.as_long() if z3.is_int_value(b) else None
        if op=='add':
            if cb is not None and cb>=M//2: # adding a negative constant
                k=M-cb; return self.wrap(a-k,w,la-k,ha-k)
            return self.wrap(a+b,w,la+lb,ha+hb)
        if op=='sub':
            if cb is not None and cb>=M//2: return self.wrap(a+(M-cb),w,la+M-cb,ha+M-cb)
            return self.wrap(a-b,w,la-hb,ha-lb)
        if op=='mul':
            if ha*hb<M: return self.wrap(a*b,w,la*lb,ha*hb)
            if ca is None and cb is None: raise ToolError('nonlinear multiplication')
            return self.wrap(a*b,w,la*lb,ha*hb) if self.nowrap is False else a*b
        if op=='shl' and cb is not None:
            return self.wrap(a*(2**cb),w,la*2**cb,ha*2**cb)
        if op=='udiv':
            if cb: 
                r=a/cb; self.setrng(r,la//cb,ha//cb); return r
            q=self.fresh('q'); # definition of unsigned division, divisor must be nonzero
            return self.opaque_div(a,b,'div',w)
        if op=='urem':
            if cb: r=a%cb; self.setrng(r,0,cb-1); return r
            return self.opaque_div(a,b,'rem',w)
        if op=='lshr' and cb is not None: r=a/(2**cb); self.setrng(r,la//2**cb,ha//2**cb); return r
        if op in('sdiv','ashr') and cb is not None:
            d=cb if op=='sdiv' else 2**cb
            if d>=M//2: raise ToolError('negative divisor')
            s=self.signed(a,w)
            if op=='ashr' : q=s/d
            else: q=z3.If(s>=0,s/d,-((-s)/d))
            return z3.simplify(z3.If(q<0,q+M,q)) if not(ha<M//2) else s/d
        if op=='and':
            for x,c in((a,cb),(b,ca)):
                if c is not None:
                    if c==1: r=x%2; self.setrng(r,0,1); return r
                    if c==M-2: return x-x%2
                    if (c+1)&c==0: r=x%(c+1); self.setrng(r,0,c); return r
        if op=='or' and (ca==0 or cb==0): return b if ca==0 else a
        if op=='xor' and cb==M-1: r=(M-1)-a; self.setrng(r,0,M-1); return r
        if op in('and','or','xor','shl','lshr'):
            f=z3.Function('bv_%s%d'%(op,w),z3.IntSort(),z3.IntSort(),z3.IntSort())
            r=f(a,b); self.range_fact(r,0,M-1); return r
        raise ToolError('arith %s i%d'%(op,w))
    def opaque_div(self,a,b,what,w):
        # a/b and a%b for symbolic b: uninterpreted with 0<=rem<b (used for hash%size)
        f=z3.Function('u'+what,z3.IntSort(),z3.IntSort(),z3.IntSort()); r=f(a,b)
        self.setrng(r,0,2**w-1)
        self.solver.add(r>=0,z3.Implies(b>0,r<b) if what=='rem' else r<=a)
        return r
    def ptrarith(self,st,I,op,a,b,w):
        if op=='and':
            x,c=(a,b) if not(isinstance(a,z3.ArithRef) and z3.is_int_value(a)) else (b,a)
            if isinstance(c,z3.ArithRef) and z3.is_int_value(c):
                c=c.as_long()
                if c==1:
                    if isinstance(x,TW): self.range_fact(x.t,0,1); return x.t
                    if isinstance(x,Ptr): self.notes.add('ALIGNED: node addresses are even'); return I0
                if c==2**64-2:
                    if isinstance(x,TW): return x.p
                    if isinstance(x,Ptr): return x
        if op in('or','add'):
            x,y=(a,b) if isinstance(a,(Ptr,TW)) else (b,a)
            if isinstance(y,z3.ArithRef):
                if op=='or':
                    if isinstance(x,Ptr):
                        if z3.is_int_value(y) and y.as_long()==0: return TW(x,I0)
                        lo,hi=self.rng(y)
                        if lo is not None and lo>=0 and hi<=1: 
                            self.notes.add('ALIGNED: node addresses are even'); return TW(x,y)
                        # colour/tag argument: prove it is 0/1
                        raise ToolError('or of pointer with non-bit')
                    if isinstance(x,TW):
                        lo,hi=self.rng(y)
                        if z3.is_int_value(x.t) and x.t.as_long()==0 and lo is not None and lo>=0 and hi<=1: return TW(x.p,y)
                        if lo is not None and lo>=0 and hi<=1:
                            t=z3.If(z3.Or(x.t==1,y==1),z3.IntVal(1),I0); self.setrng(t,0,1); return TW(x.p,t)
                if op=='add' and isinstance(x,Ptr):
                    if z3.is_int_value(y):
                        k=y.as_long(); k=k-2**64 if k>=2**63 else k
                        return Ptr(x.b,x.o+k)
        if op=='sub' and isinstance(a,Ptr) and isinstance(b,Ptr):
            d=z3.simplify(a.addr()-b.addr())
            return Diff(d) if not z3.is_int_value(d) else z3.IntVal(d.as_long()%2**64)
        if op=='xor' and isinstance(a,TW) and isinstance(b,z3.ArithRef) and z3.is_int_value(b) and b.as_long()==1:
            t=1-a.t; self.setrng(t,0,1); return TW(a.p,t)
        raise ToolError('pointer arithmetic %s %r %r line %s'%(op,a,b,I.line if I is not None else '?'))
    def gep(self,st,src,vals,ops):
        p=vals[0]
        p=self.ptr(p); off=0; dyn=None
        ty=src
        for n,(v,o) in enumerate(zip(vals[1:],ops[1:])):
            if n==0: size=ty.size; idxty=None
            else:
                if ty.k=='struct':
                    i=v.as_long(); off+=ty.offs[i]; ty=ty.elts[i]; continue
                ty=ty.elts[0]; size=ty.size
            if isinstance(v,Diff): v=v.e; sg=v
            else:
                v=self.num(v)
                sg=None
            if sg is None and z3.is_int_value(v):
                k=v.as_long(); w=o.ty.w; k=k-2**w if k>=2**(w-1) else k
                off+=k*size
            else:
                if sg is None: sg=self.signed(v,o.ty.w)
                d=sg*size
                dyn=d if dyn is None else dyn+d
        if dyn is None: return Ptr(p.b,p.o+off)
        if isinstance(p.b,Obj):
            return Ptr(ObjIdx(p.b,p.o+off,dyn),0)
        self.notes.add('NO-WRAP: array addresses do not wrap around the address space')
        return Ptr(z3.simplify(p.b+dyn),p.o+off)
    def icmp(self,pred,a,b,w,isptr):
        if isinstance(a,Diff) or isinstance(b,Diff):
            x=a.e if isinstance(a,Diff) else self.signed(self.num(a),64); y=b.e if isinstance(b,Diff) else self.signed(self.num(b),64)
            if pred in('eq','ne','sgt','sge','slt','sle'): pass
            else: raise ToolError('unsigned comparison of difference')
            return {'eq':lambda:x==y,'ne':lambda:x!=y,'sgt':lambda:x>y,'sge':lambda:x>=y,'slt':lambda:x<y,'sle':lambda:x<=y}[pred]()
        if isinstance(a,z3.BoolRef) or isinstance(b,z3.BoolRef):
            a=self.boolv(a); b=self.boolv(b)
            if pred=='eq': return a==b
            if pred=='ne': return a!=b
            a=z3.If(a,z3.IntVal(1),I0); b=z3.If(b,z3.IntVal(1),I0)
        if isinstance(a,Ptr) and isinstance(b,Ptr):
            ao=isinstance(a.b,Obj); bo=isinstance(b.b,Obj)
            if (ao or bo) and pred in('eq','ne'):
                if ao and bo: r=(a.b is b.b and a.o==b.o)
                else:
                    # a stack object / global is distinct from every heap pointer and from null
                    r=False
                return z3.BoolVal(r if pred=='eq' else not r)
            if pred in('eq','ne') and a.o==b.o and a.o!=0:
                x,y=a.b,b.b
            else: x,y=a.addr(),b.addr()
        elif isinstance(a,Fn) or isinstance(b,Fn):
            if isinstance(a,Fn) and isinstance(b,Fn): r=a.name==b.name
            else: r=False
            return z3.BoolVal(r if pred=='eq' else not r)
        else: x,y=self.num(a,w),self.num(b,w)
        if pred=='eq': return z3.BoolVal(True) if x.eq(y) else x==y
        if pred=='ne': return z3.BoolVal(False) if x.eq(y) else x!=y
        if pred in('ugt','uge','ult','ule'):
            return {'ugt':lambda:x>y,'uge':lambda:x>=y,'ult':lambda:x<y,'ule':lambda:x<=y}[pred]()
        x,y=self.signed(x,w),self.signed(y,w)
        return {'sgt':lambda:x>y,'sge':lambda:x>=y,'slt':lambda:x<y,'sle':lambda:x<=y}[pred]()
    # ---------- straight-line evaluation of accessor probes on an arbitrary heap snapshot
    def probe(self,name,args,heap,st=None):
        key=(name,tuple(a.b.get_id() if isinstance(a,Ptr) and not isinstance(a.b,Obj) else None for a in args),tuple(a.o if isinstance(a,Ptr) else None for a in args),
             tuple(sorted((k[0],k[1],v.get_id()) for k,v in heap.m.items())),heap.ep)
        c=self.__dict__.setdefault('_pc',{})
        if key in c and None not in key[1]: return c[key][0]
        F=self.mod.func(name); s=St(); s.heap=heap; s.env={A:a for A,a in zip(F.args,args)}
        if len(F.blocks)!=1: raise ToolError('probe %s is not straight-line'%name)
        r=None
        for I in F.blocks[0].ins:
            if I.op=='ret': r=self.val(s,I.ops[0]) if I.ops else None; break
            self.simple(s,I,probing=True)
        c[key]=(r,args,list(heap.m.values()))
        return r
    # ---------- instruction semantics (no control flow)
    def simple(self,st,I,probing=False):
        op=I.op
        if op=='load':
            p=self.ptr(self.val(st,I.ops[0]))
            if isinstance(p.b,ObjIdx): st.env[I]=self.objidx_load(st,p,I.ty); return
            if probing and not isinstance(self.norm(p)[0],Obj):
                b,o=self.norm(p); st.env[I]=self.hload(None,st.heap,b,o,I.ty)
            else: st.env[I]=self.load(st,p,I.ty)
        elif op=='store':
            p=self.ptr(self.val(st,I.ops[1])); self.store(st,p,self.val(st,I.ops[0]),I.ops[0].ty)
        elif op=='gep': st.env[I]=self.gep(st,I.src,[self.val(st,o) for o in I.ops],I.ops)
        elif op=='icmp':
            t=I.ops[0].ty; st.env[I]=self.icmp(I.pred,self.val(st,I.ops[0]),self.val(st,I.ops[1]),t.w or 64,t.k=='ptr')
        elif op in('add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor'):
            a=self.val(st,I.ops[0]); b=self.val(st,I.ops[1])
            if isinstance(a,Diff) or isinstance(b,Diff): st.env[I]=self.diffarith(op,a,b,I.ty.w)
            else: st.env[I]=self.arith(st,I,op,a,b,I.ty.w)
        elif op in('ptrtoint','inttoptr','bitcast','freeze'):
            v=self.val(st,I.ops[0])
            if op=='inttoptr' and isinstance(v,TW):
                if z3.is_int_value(v.t) and v.t.as_long()==0: v=v.p
                else: raise ToolError('tagged word cast to pointer without masking (line %s)'%I.line)
            st.env[I]=v
        elif op=='trunc':
            v=self.val(st,I.ops[0])
            if isinstance(v,Diff): raise ToolError('trunc of difference')
            if isinstance(v,(TW,Ptr)): raise ToolError('trunc of pointer')
            if I.ty.w==1:
                if isinstance(v,z3.BoolRef): st.env[I]=v; return
                v=self.num(v); lo,hi=self.rng(v)
                st.env[I]=(v!=0) if hi is not None and hi<=1 else (v%2!=0)
            else:
                v=self.num(v); lo,hi=self.rng(v)
                if hi is not None and hi<2**I.ty.w: st.env[I]=v
                else:
                    r=v%(2**I.ty.w); self.setrng(r,0,2**I.ty.w-1); st.env[I]=r
        elif op=='zext':
            v=self.val(st,I.ops[0])
            if isinstance(v,z3.BoolRef):
                r=z3.If(v,z3.IntVal(1),I0); self.setrng(r,0,1); st.env[I]=r
            else:
                v=self.num(v,I.ops[0].ty.w); 
                if self.rng(v)[0] is None and not z3.is_int_value(v): self.setrng(v,0,2**I.ops[0].ty.w-1)
                st.env[I]=v
        elif op=='sext':
            v=self.val(st,I.ops[0]); w=I.ops[0].ty.w
            if isinstance(v,z3.BoolRef): st.env[I]=z3.If(v,z3.IntVal(2**I.ty.w-1),I0)
            else:
                v=self.num(v,w); s=self.signed(v,w)
                st.env[I]=v if s is v else z3.simplify(z3.If(s<0,s+2**I.ty.w,s))
        elif op=='select':
            c=self.boolv(self.val(st,I.ops[0])); a=self.val(st,I.ops[1]); b=self.val(st,I.ops[2])
            st.env[I]=self.select(st,c,a,b,I)
        elif op=='alloca':
            st.env[I]=Ptr(Obj('a%d'%I.id),0)
        elif op=='extractvalue':
            v=self.val(st,I.ops[0])
            for i in I.idx: v=v.e[i] if isinstance(v,Agg) else UNDEF
            st.env[I]=v
        elif op=='insertvalue':
            v=self.val(st,I.ops[0]); x=self.val(st,I.ops[1])
            if not isinstance(v,Agg):
                v=Agg([UNDEF]*len(I.ty.elts))
            if len(I.idx)!=1: raise ToolError('deep insertvalue')
            w=Agg(v.e); w.e[I.idx[0]]=x; st.env[I]=w
        elif op in('fadd','fsub','fmul','fdiv','fcmp','uitofp','fptoui','sitofp','fptosi','fpext','fptrunc','fneg'):
            self.floatop(st,I)
        elif op=='call' and I.cname and I.cname.startswith('llvm.'):
            self.intrinsic(st,I)
        elif op=='call' and probing and I.cname in self.contracts: raise ToolError('probe calls contract')
        else: raise ToolError('instruction %s (line %s %s)'%(op,I.line,I.cname if op=='call' else ''))
    def floatop(self,st,I):
        # floating point is left uninterpreted
        vs=[self.val(st,o) for o in I.ops]; self.notes.add('FLOAT: floating-point operations are uninterpreted')
        if I.op=='fcmp': st.env[I]=self.fresh('fcmp','bool'); return
        st.env[I]=self.freshval(I.ty,'fl')
    def diffarith(self,op,a,b,w):
        if op in('sdiv','ashr') and isinstance(a,Diff) and z3.is_int_value(b):
            d=b.as_long(); d=d if op=='sdiv' else 2**d
            return self.diffdiv(a,d)
        x=a.e if isinstance(a,Diff) else self.signed(self.num(a,w),w); y=b.e if isinstance(b,Diff) else self.signed(self.num(b,w),w)
        if op=='add': return Diff(x+y)
        if op=='sub': return Diff(x-y)
        if op=='mul' and z3.is_int_value(z3.simplify(y)): return Diff(x*y)
        raise ToolError('difference '+op)
    def diffdiv(self,a,d):
        # exact division of a pointer difference: introduce the quotient
        e=z3.simplify(a.e)
        q=self.divexact(e,d)
        return Diff(q)
    def divexact(self,e,d):
        """e is a linear term; divide coefficients when all are multiples of d"""
        def go(x):
            if z3.is_int_value(x):
                return z3.IntVal(x.as_long()//d) if x.as_long()%d==0 else None
            k=x.decl().kind()
            if k==z3.Z3_OP_ADD:
                r=[go(c) for c in x.children()]
                return None if any(c is None for c in r) else z3.Sum(r)
            if k==z3.Z3_OP_MUL and z3.is_int_value(x.arg(0)) and x.num_args()==2:
                c=x.arg(0).as_long()
                return z3.IntVal(c//d)*x.arg(1) if c%d==0 else None
            return None
        r=go(e)
        if r is not None: return z3.simplify(r)
        return e/d
    def select(self,st,c,a,b,I):
        c=z3.simplify(c)
        if z3.is_true(c): return a
        if z3.is_false(c): return b
        if a is UNDEF: return b
        if b is UNDEF: return a
        if isinstance(a,z3.BoolRef) or isinstance(b,z3.BoolRef): return z3.If(c,self.boolv(a),self.boolv(b))
        if isinstance(a,Ptr) and isinstance(b,Ptr):
            if isinstance(a.b,Obj) or isinstance(b.b,Obj): raise NeedFork(c)
            if a.o!=b.o or self.fork_selects: raise NeedFork(c)
            r=Ptr(z3.If(c,a.b,b.b),a.o); return r
        if isinstance(a,TW) or isinstance(b,TW) or isinstance(a,Diff) or isinstance(b,Diff) or isinstance(a,Ptr) or isinstance(b,Ptr): raise NeedFork(c)
        if isinstance(a,(Agg,Fn)) or isinstance(b,(Agg,Fn)): raise NeedFork(c)
        x,y=self.num(a),self.num(b); r=z3.If(c,x,y)
        la,ha=self.rng(x); lb,hb=self.rng(y)
        if la is not None and lb is not None: self.setrng(r,min(la,lb),max(ha,hb))
        return r
    fork_selects=True
    def intrinsic(self,st,I):
        n=I.cname
        if n.startswith(('llvm.lifetime','llvm.dbg','llvm.experimental.noalias','llvm.invariant','llvm.donothing','llvm.stacksave','llvm.stackrestore','llvm.prefetch','llvm.trap')):
            if n=='llvm.trap': raise ToolError('trap')
            return
        if n.startswith('llvm.assume'): return
        if n.startswith('llvm.expect'): st.env[I]=self.val(st,I.ops[0]); return
        if n.startswith('llvm.eh.typeid'): st.env[I]=self.freshval(I.ty,'tid'); return
        if n.startswith(('llvm.memcpy','llvm.memmove')):
            d=self.ptr(self.val(st,I.ops[0])); s=self.ptr(self.val(st,I.ops[1])); k=self.val(st,I.ops[2])
            if z3.is_int_value(k) and isinstance(d.b,Obj) and isinstance(s.b,Obj):
                ks=k.as_long()
                items=[(o,v) for (b,o),v in list(st.local.items()) if b is s.b and s.o<=o<s.o+ks]
                for (b,o) in list(st.local):
                    if b is d.b and d.o<=o<d.o+ks: del st.local[(b,o)]
                for o,v in items: st.local[(d.b,d.o+o-s.o)]=v
                return
            h=self.contracts.get('llvm.memcpy')
            if h: h(self,st,I,d,s,k); return
            raise ToolError('memcpy (line %s)'%I.line)
        if n.startswith('llvm.memset'):
            d=self.ptr(self.val(st,I.ops[0])); k=self.val(st,I.ops[2]); c=self.val(st,I.ops[1])
            if isinstance(d.b,Obj) and z3.is_int_value(k) and z3.is_int_value(c) and c.as_long()==0:
                for (b,o) in list(st.local):
                    if b is d.b and d.o<=o<d.o+k.as_long(): del st.local[(b,o)]
                for o in range(0,k.as_long(),8): st.local[(d.b,d.o+o)]=I0
                return
            raise ToolError('memset')
        if n.startswith('llvm.umax') or n.startswith('llvm.umin') :
            a=self.num(self.val(st,I.ops[0])); b=self.num(self.val(st,I.ops[1]))
            r=z3.If((a>=b) if 'umax' in n else (a<=b),a,b); self.setrng(r,0,2**I.ty.w-1); st.env[I]=r; return
        if n.startswith('llvm.usub.sat'):
            a=self.num(self.val(st,I.ops[0])); b=self.num(self.val(st,I.ops[1])); st.env[I]=z3.If(a>=b,a-b,I0); return
        if 'with.overflow' in n:
            a=self.num(self.val(st,I.ops[0])); b=self.num(self.val(st,I.ops[1])); w=I.ty.elts[0].w
            if 'umul' in n and (z3.is_int_value(a) or z3.is_int_value(b)):
                p=a*b; st.env[I]=Agg([self.wrap(p,w,0,(2**w-1)**2),p>=2**w]); return
        if n.startswith('llvm.abs') or n.startswith('llvm.fshl'): raise ToolError(n)
        raise ToolError('intrinsic '+n)
    # ---------- control flow
    def run(self,F,st,on_exit,loops=(),fnname=None):
        """explore F from its entry; on_exit(st,kind,val) is called at each path end (ret/throw/terminate)"""
        self.F=F; self.on_exit=on_exit; self.loops=list(loops); self.fn=fnname or F.name; self.choice={}; self.freshdone={}
        self.paths=0
        self.go(st,F.blocks[0],None,0)
    def phis(self,st,bb,prev):
        vals=[]
        for I in bb.ins:
            if I.op!='phi': break
            v=None
            for x,p in I.inc:
                if p is prev: v=self.val(st,x); break
            else: raise ToolError('phi without incoming')
            vals.append((I,v))
        return vals
    def go(self,st,bb,prev,idx):
        while True:
            if idx==0:
                pv=self.phis(st,bb,prev) if prev is not None else []
                if bb in self.F.headers and self.unroll:
                    # the loop is executed, not cut: only for loops whose exit is decided by concrete values (complete, not a bound)
                    k=('unroll',bb); st.entered[k]=st.entered.get(k,0)+1
                    if st.entered[k]>self.unroll: raise ToolError('unrolling did not end (line %s)'%bb.ins[0].line)
                    for I,v in pv: st.env[I]=v
                    st.entered['!skip']=True
                elif bb in self.F.headers and not st.entered.get('!skip'):
                    if (prev,bb) in self.F.back:
                        self.loop_close(st,bb,prev,pv); return
                    self.loop_open(st,bb,prev,pv); return
                st.entered.pop('!skip',None)
                if prev is not None and bb not in self.F.headers or True:
                    for I,v in pv: st.env.setdefault(I,v) if bb in self.F.headers and not self.unroll else st.env.__setitem__(I,v)
                st.trace.append(str(bb.id))
                idx=len(pv) if prev is not None else 0
                while idx<len(bb.ins) and bb.ins[idx].op=='phi': idx+=1
            nxt=None
            while idx<len(bb.ins):
                I=bb.ins[idx]; st.last=I
                op=I.op
                if op=='ret':
                    self.endpath(st,'ret',self.val(st,I.ops[0]) if I.ops else None); return
                if op=='unreachable':
                    self.endpath(st,'unreachable',None); return
                if op=='resume': self.endpath(st,'throw',None); return
                if op=='br':
                    if not I.ops: nxt=I.succ[0]; break
                    c=z3.simplify(self.boolv(self.val(st,I.ops[0])))
                    if z3.is_true(c): nxt=I.succ[0]; break
                    if z3.is_false(c): nxt=I.succ[1]; break
                    self.branch(st,[(c,lambda s,b=I.succ[0]:self.go(s,b,bb,0)),(z3.Not(c),lambda s,b=I.succ[1]:self.go(s,b,bb,0))]); return
                if op=='switch':
                    v=self.num(self.val(st,I.ops[0])); alts=[]; neg=[]
                    for cv,s in zip(I.cases,I.succ[1:]):
                        alts.append((v==cv.v,lambda q,b=s:self.go(q,b,bb,0))); neg.append(v!=cv.v)
                    alts.append((z3.And(neg) if neg else z3.BoolVal(True),lambda q,b=I.succ[0]:self.go(q,b,bb,0)))
                    self.branch(st,alts); return
                if op=='landingpad':
                    self.landing(st,I); idx+=1; continue
                if op in('call','invoke') and not(I.cname and I.cname.startswith('llvm.')):
                    self.docall(st,I,bb,idx); return
                try: self.simple(st,I)
                except NeedFork as e:
                    def alt(c,which):
                        def f(s):
                            s.env[I]=self.val(s,I.ops[which]); self.go(s,bb,prev,idx+1)
                        return (c,f)
                    self.branch(st,[alt(e.c,1),alt(z3.Not(e.c),2)]); return
                idx+=1
            if nxt is None: raise ToolError('fell off block')
            prev=bb; bb=nxt; idx=0
    def branch(self,st,alts):
        for c,f in alts:
            self.solver.push()
            try:
                self.solver.add(c)
                if self.feasible():
                    f(st.fork())
            finally: self.solver.pop()
    def endpath(self,st,kind,val):
        self.paths+=1
        if self.paths>self.maxpaths: raise Budget()
        self.reach+=1
        if kind=='unreachable' and getattr(st,'noreturn',False): return
        self.on_exit(st,kind,val)
    def landing(self,st,I):
        # exception object and selector are opaque
        st.env[I]=Agg([Ptr(z3.Int('exc!obj'),0),self.freshval(I.ty.elts[1],'sel')])
    EH={'__cxa_begin_catch','__cxa_end_catch','__cxa_rethrow','__cxa_get_exception_ptr','__cxa_allocate_exception','__cxa_free_exception','__cxa_throw','__clang_call_terminate','_ZSt9terminatev','__cxa_call_unexpected','abort','__assert_fail'}
    def docall(self,st,I,bb,idx):
        n=I.cname
        fv=None
        if n is None:
            fv=self.val(st,I.callee)
            if isinstance(fv,Fn): n=fv.name
        args=[self.val(st,o) if o is not None else None for o in I.ops]
        def cont(s,v=None):
            if v is not None: s.env[I]=v
            if I.op=='invoke': self.go(s,I.succ[0],bb,0)
            else: self.go(s,bb,None,idx+1)
        def throw(s):
            s.exc=True
            if I.op=='invoke': self.go(s,I.succ[1],bb,0)
            else: self.endpath(s,'throw',None)
        if n=='__cxa_begin_catch' or n=='__cxa_get_exception_ptr':
            s=st; s.events.append('catch'); cont(s,Ptr(z3.Int('exc!obj'),0)); return
        if n=='__cxa_end_catch': st.events.append('endcatch'); cont(st,None); return
        if n in('__cxa_rethrow','__cxa_throw'): throw(st); return
        if n=='__cxa_allocate_exception': cont(st,Ptr(Obj('exc') if self.flat else self.fresh('exc'),0)); return
        if n=='__cxa_free_exception': cont(st,None); return
        if n in('__clang_call_terminate','_ZSt9terminatev','abort'): self.endpath(st,'terminate',None); return
        h=self.contracts.get(n)
        if h is None:
            for k,c in self.contracts.items():
                if hasattr(k,'search') and n and k.search(n): h=c; break
        if h is None and '*' in self.contracts: h=self.contracts['*']
        if h is None: raise ToolError('call to %s without contract (line %s)'%(n or fv,I.line))
        outs=h(self,st,I,args)
        # outs: list of (cond, effect(st)->value, kind)
        alts=[]
        for o in outs:
            cond,eff,kind=o
            def f(s,eff=eff,kind=kind):
                v=eff(s) if eff else None
                s.trace.append('%s:%s'%((n or '?')[-14:],kind))
                if kind=='ret': cont(s,v)
                elif kind=='throw': throw(s)
                else: self.endpath(s,kind,None)
            alts.append((cond if cond is not None else z3.BoolVal(True),f))
        self.branch(st,alts)
    # ---------- loops
    def stores_in(self,blocks):
        for b in blocks:
            for I in b.ins:
                if I.op=='store': return True
                if I.op in('call','invoke') and not(I.cname and I.cname.startswith('llvm.')) and not (I.cname in self.pure): return True
        return False
    pure=set()
    def candidates(self,bb,pv):
        for ls in self.loops:
            sig=ls.roles
            if ls.writes is not None and ls.writes!=self.stores_in(self.F.headers[bb]): continue
            idx=list(range(len(pv)))
            for perm in itertools.permutations(idx,len(sig)):
                ok=True
                for (rn,kind),i in zip(sig,perm):
                    t=pv[i][0].ty
                    if kind=='ptr' and t.k!='ptr': ok=False
                    if kind=='int' and t.k!='int': ok=False
                    if kind=='bool' and not(t.k=='int' and t.w in(1,8)): ok=False
                    if kind=='int' and t.w in(1,8): ok=False
                if ok: yield ls,{rn:i for (rn,_),i in zip(sig,perm)}
    def loop_open(self,st,bb,prev,pv):
        ch=None if self.perentry else self.choice.get(bb)
        if ch is not None:
            self.loop_enter(st,bb,prev,pv,*ch); return
        best=None
        cands=list(self.candidates(bb,pv))
        if not cands: raise ToolError('no loop contract fits loop at line %s'%bb.ins[0].line)
        passing=[]
        for ls,rm in cands:
            saved=self.obl; self.obl=[]
            v,self.verbose=self.verbose,False
            sf,self.stop_on_fail=self.stop_on_fail,False; self.noskip+=1
            self.solver.push()
            try:
                s=st.fork()
                roles={k:pv[i][1] for k,i in rm.items()}
                try:
                    inv=ls.inv(self,s,roles,'entry')
                    ok=self.prove_inv(s,ls,inv,'entry')
                    mism=False
                except RoleMismatch: ok=False; mism=True
                nbad=0 if ok or mism else 1+sum(1 for o in self.obl if o.status!='ok')
            finally:
                self.solver.pop(); tried=self.obl; self.obl=saved; self.verbose=v; self.stop_on_fail=sf; self.noskip-=1
            if os.environ.get('VERIF_DBG'): print('  CAND',ls.name,{k:pv[i][1] for k,i in rm.items()},ok,[(o.name,o.status) for o in tried if o.status!='ok'],'>'.join(st.trace))
            if ok: passing.append((ls,rm,tried))
            elif nbad and (best is None or nbad<best[0]): best=(nbad,ls,rm)
        if not passing:
            # no candidate invariant is established: report against the closest candidate
            if best is None: raise ToolError('no loop contract applies')
            passing=[best[1:]+(None,)]
        if len(passing)==1:
            self.choice[bb]=passing[0][:2]; self.loop_enter(st,bb,prev,pv,*passing[0]); return
        for k,(ls,rm,pr) in enumerate(passing):
            last=k==len(passing)-1
            saved=self.obl; self.obl=[]; self.choice[bb]=(ls,rm); v,self.verbose=self.verbose,(self.verbose and last)
            sc=dict(self.choice); sp=self.paths; sf=self.stop_on_fail; self.stop_on_fail=True if not last else sf
            fd=dict(self.freshdone); self.noskip+=0 if last else 1
            self.solver.push(); failed=False
            try:
                self.loop_enter(st.fork(),bb,prev,pv,ls,rm,pr)
            except TrialFail:
                failed=True
                if last: raise
            except ToolError:
                failed=True
                if last: raise
            finally:
                self.solver.pop(); self.stop_on_fail=sf; self.verbose=v; self.noskip-=0 if last else 1
                got=self.obl; self.obl=saved
            if not failed and (all(o.status=='ok' for o in got) or last):
                self.obl.extend(got); return
            self.choice=sc; self.paths=sp; self.freshdone=fd
            self.choice.pop(bb,None)
    def prove_inv(self,st,ls,inv,phase):
        goals=[]
        nm='%s/%s'%(ls.name,phase)
        for n,f in inv.get('facts',[]): goals.append(('%s/%s'%(nm,n),f))
        ok=self.prove_all(st,self.fn,goals) if goals else True
        for u in inv.get('unis',[]):
            # u = (name, fn, pool): prove for a skolem
            ok&=self.prove_uni(st,nm+'/'+u[0],u[1],u[2])
        return ok
    def prove_uni(self,st,name,fn,pool):
        pools=pool if isinstance(pool,tuple) else (pool,)
        if not self.noskip and not self.mine(st,name): return True
        self.solver.push()
        try:
            s=st.fork()
            sk=[]
            for p in pools:
                k=self.fresh('sk')
                sk.append(k)
            for p,k in zip(pools,sk): self.pool(s,k,p)
            hook=self.skhook
            if hook: hook(self,s,sk,pools)
            fs=fn(*sk)
            if not isinstance(fs,list): fs=[(name,fs)]
            else: fs=[(name+'.'+str(x[0]),x[1]) if isinstance(x,tuple) else (name,x) for x in fs]
            return self.prove_all(s,self.fn,fs,name)
        finally: self.solver.pop()
    skhook=None; unroll=0
    nofold=False
    flat=False       # flat memory: one map over byte addresses (for arrays); default: one map per field offset
    def loop_enter(self,st,bb,prev,pv,ls,rm,proved=None):
        roles={k:pv[i][1] for k,i in rm.items()}
        inv=ls.inv(self,st,roles,'entry')
        if proved is not None: self.obl.extend(proved)
        else: self.prove_inv(st,ls,inv,'entry')
        body=self.F.headers[bb]
        live=None
        if ls.fresh:
            live=self.livein(bb)
            sig={I:self.vsig(st.env[I]) for I in live if I in st.env}
            key=(bb,ls.name)
            if key in self.freshdone and all(sig.get(k)==v for k,v in self.freshdone[key].items()): return
            self.freshdone[key]=sig
        old=self.solver
        if ls.fresh:
            self.solver=z3.Solver(); self.solver.set('timeout',self.timeout)
        self.solver.push()
        try:
            s=st.fork()
            writes=self.stores_in(body)
            if ls.fresh:
                s.unis=[]; s.pools={}
                for I in live:
                    v=s.env.get(I)
                    if isinstance(v,Ptr) and not isinstance(v.b,Obj): self.pool(s,v.b)
            s.entered[bb]=None
            tag='%d'%next(self.cnt)
            if writes:
                if ls.havoc: ls.havoc(self,s,tag)
                else: s.heap=Heap('L%s'%tag)
                self.havoc_locals(s,body)
                s.touched=[]
            nroles={}
            for i,(I,v) in enumerate(pv):
                x=self.freshval(I.ty,'phi_%s_%d'%(ls.name,i))
                # keep the canonical offset of pointers with a known constant adjustment
                if I.ty.k=='ptr' and isinstance(v,Ptr) and v.o and not isinstance(v.b,Obj): x=Ptr(x.b,v.o)
                s.env[I]=x
            for k,i in rm.items():
                if k in ls.mk: s.env[pv[i][0]]=ls.mk[k](self,s,pv[i][1])
                nroles[k]=s.env[pv[i][0]]
            for i,(I,v) in enumerate(pv):
                x=s.env[I]
                if isinstance(x,Ptr): self.pool(s,x.b)
            inv2=ls.inv(self,s,nroles,'assume')
            for n,f in inv2.get('facts',[]):
                if f is not True: self.solver.add(f)
            for u in inv2.get('unis',[]): self.add_uni(s,u[1],u[3] if len(u)>3 else u[2],u[0])
            s.entered['roles',bb]=(ls,rm,nroles)
            s.entered['!skip']=True
            s.trace.append('L%d'%bb.id)
            if self.feasible(): self.go(s,bb,prev,0)
            else: self.notes.add('loop invariant infeasible at bb%d'%bb.id)
        finally:
            self.solver.pop(); self.solver=old
    def livein(self,bb):
        """values defined before the loop and used in it or after it"""
        c=self.F.__dict__.setdefault('_livein',{})
        if bb in c: return c[bb]
        seen=set(); st=[bb]
        while st:
            x=st.pop()
            if x in seen: continue
            seen.add(x); st.extend(x.succ)
        out=set()
        for b in seen:
            for I in b.ins:
                ops=list(I.ops)
                if I.op=='phi': ops=[v for v,p in I.inc if p in seen]
                for o in ops:
                    if isinstance(o,Instr) and o.bb not in seen: out.add(o)
        c[bb]=out; return out
    def vsig(self,v):
        if isinstance(v,Ptr): return ('p',v.b.id if isinstance(v.b,Obj) else v.b.get_id(),v.o)
        if isinstance(v,z3.ExprRef): return ('z',v.get_id())
        if isinstance(v,TW): return ('t',self.vsig(v.p),v.t.get_id())
        if isinstance(v,Diff): return ('d',v.e.get_id())
        if isinstance(v,Fn): return ('f',v.name)
        if isinstance(v,Agg): return tuple(self.vsig(x) for x in v.e)
        return ('o',id(v))
    def havoc_locals(self,s,body):
        # any local cell stored to inside the loop becomes arbitrary
        for b in body:
            for I in b.ins:
                if I.op=='store':
                    p=I.ops[1]
                    base=p; 
                    try:
                        pp=self.val(s,p)
                    except ToolError:
                        # address computed inside the loop: find its alloca
                        q=p
                        while isinstance(q,Instr) and q.op in('gep','bitcast'): q=q.ops[0]
                        if isinstance(q,Instr) and q.op=='alloca' and q in s.env:
                            ob=s.env[q].b
                            for k in list(s.local):
                                if k[0] is ob: del s.local[k]
                        continue
                    if isinstance(pp,Ptr) and isinstance(pp.b,Obj): s.local.pop((pp.b,pp.o),None)
                elif I.op in('call','invoke') and not(I.cname and I.cname.startswith('llvm.')):
                    for o in I.ops:
                        if o is None or o.ty.k!='ptr': continue
                        try: pp=self.val(s,o)
                        except ToolError: continue
                        if isinstance(pp,Ptr) and isinstance(pp.b,Obj) and not (I.cname in self.pure):
                            for k in list(s.local):
                                if k[0] is pp.b: del s.local[k]
    def loop_close(self,st,bb,prev,pv):
        r=st.entered.get(('roles',bb))
        if r is None: raise ToolError('back edge to unopened loop (line %s)'%bb.ins[0].line)
        ls,rm,nr=r
        roles={k:pv[i][1] for k,i in rm.items()}
        inv=ls.inv(self,st,roles,'close')
        self.paths+=1
        self.prove_inv(st,ls,inv,'step')

class FBits:
    """a floating-point value moved around without being computed with"""
    def __init__(s,e): s.e=e
class Diff:
    """signed pointer difference (not reduced modulo 2^64)"""
    __slots__=('e',)
    def __init__(s,e): s.e=z3.simplify(e)
class ObjIdx(Obj):
    def __init__(s,b,o,dyn): s.base=b; s.off=o; s.dyn=dyn; s.name='idx'; s.id=-1; s.sym=b.sym+dyn
class NeedFork(Exception):
    def __init__(s,c): s.c=c
class RoleMismatch(Exception): pass
class TrialFail(Exception): pass
